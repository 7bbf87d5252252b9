// Problem description, construction of real library objects, fault-injecting wrappers, fresh reference copies.
#pragma once
#include "seams.h"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include "factorama/base_types.hpp"
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"
#include "factorama/coordinate_transform_factor.hpp"
#include "factorama/factor_graph.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/generic_prior_factor.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"
#include "factorama/inverse_range_variable.hpp"
#include "factorama/landmark_variable.hpp"
#include "factorama/linear_velocity_factor.hpp"
#include "factorama/numerical_jacobian.hpp"
#include "factorama/plane_factor.hpp"
#include "factorama/plane_prior_factor.hpp"
#include "factorama/plane_variable.hpp"
#include "factorama/pose_2d_between_factor.hpp"
#include "factorama/pose_2d_prior_factor.hpp"
#include "factorama/pose_2d_variable.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/pose_variable.hpp"
#include "factorama/random_utils.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include "factorama/rotation_prior_factor.hpp"
#include "factorama/rotation_variable.hpp"
#include "factorama/sparse_optimizer.hpp"
#include "factorama/stopwatch.hpp"

namespace sim
{
    using namespace factorama;
    using Eigen::MatrixXd;
    using Eigen::VectorXd;
    using VarP = std::shared_ptr<Variable>;
    using FacP = std::shared_ptr<Factor>;

    struct SimCancel { int code = 7; };              // a caller's cancellation, not a std::exception
    struct SimFault : std::runtime_error { SimFault(const char *w) : std::runtime_error(w) {} };

    // ---- callback faults: what a user's factor or variable code may do -------------------------
    enum CbKind { CB_RES = 0, CB_JAC = 1, CB_APPLY = 2, CB_SET = 3, CB_VAL = 4, CB_N = 5 };
    enum CbAct { ACT_NONE = 0, ACT_THROW, ACT_CANCEL, ACT_NAN, ACT_INF, ACT_STALL, ACT_BAD };
    struct CbFault { int kind; uint64_t at; int act; bool fired; };
    struct CbState
    {
        bool on = false;
        uint64_t count[CB_N] = {0, 0, 0, 0, 0};
        std::vector<CbFault> faults;
        uint64_t fired[8] = {0, 0, 0, 0, 0, 0, 0, 0};
        int last_act = 0;
        int hit(CbKind k)
        {
            if (k != CB_VAL) yield_point();
            if (!on) { return 0; }
            uint64_t i = count[k]++;
            for (auto& f : faults)
                if (f.kind == k && f.at == i) {
                    f.fired = true;
                    fired[f.act]++;
                    last_act = f.act;
                    return f.act;
                }
            return 0;
        }
        void reset() { for (auto& c : count) c = 0; faults.clear(); }
        bool any_fired() const { for (auto& f : faults) if (f.fired) return true; return false; }
        bool fired_act(int a) const { for (auto& f : faults) if (f.fired && f.act == a) return true; return false; }
    };
    extern thread_local CbState *t_cb; // current thread's callback fault state

    inline void cb_act(int a)
    {
        if (a == ACT_THROW) throw SimFault("sim: callback failed");
        if (a == ACT_CANCEL) throw SimCancel();
        if (a == ACT_STALL) { g_clock.mono += 5000000000ll; g_clock.wall += 5000000000ll; }
    }

    class SimFactor : public Factor
    {
    public:
        FacP inner;
        mutable uint64_t n_res = 0, n_jac = 0;
        mutable int spoiled = 0; // a returned Jacobian was made wrong or non-finite
        explicit SimFactor(FacP f) : inner(std::move(f)) { id_ = inner->id(); }
        int residual_size() const override { return inner->residual_size(); }
        VectorXd compute_residual() const override
        {
            n_res++;
            int a = t_cb ? t_cb->hit(CB_RES) : 0;
            cb_act(a);
            VectorXd r = inner->compute_residual();
            if (a == ACT_NAN && r.size()) r[0] = std::nan("");
            if (a == ACT_INF && r.size()) r[r.size() - 1] = HUGE_VAL;
            return r;
        }
        void compute_residual(Eigen::Ref<VectorXd> r) const override
        {
            n_res++;
            int a = t_cb ? t_cb->hit(CB_RES) : 0;
            cb_act(a);
            inner->compute_residual(r);
            if (a == ACT_NAN && r.size()) r[0] = std::nan("");
            if (a == ACT_INF && r.size()) r[r.size() - 1] = HUGE_VAL;
        }
        void compute_jacobians(std::vector<MatrixXd>& j) const override
        {
            n_jac++;
            int a = t_cb ? t_cb->hit(CB_JAC) : 0;
            cb_act(a);
            inner->compute_jacobians(j);
            if (a == ACT_NAN || a == ACT_INF)
                for (auto& m : j)
                    if (m.size()) { m(0, 0) = a == ACT_NAN ? std::nan("") : HUGE_VAL; spoiled = 2; break; }
            if (a == ACT_BAD) { spoiled |= 1; corrupt(j); }
        }
        // a Jacobian that is certainly wrong, in one of the ways real mistakes show
        void corrupt(std::vector<MatrixXd>& j) const
        {
            Rng r(n_jac * 31 + uint64_t(unsigned(id_)) * 7 + 5);
            std::vector<size_t> full;
            for (size_t i = 0; i < j.size(); i++) if (j[i].size()) full.push_back(i);
            int k = r.range(0, 9);
            if (full.empty() && k < 8) k = 8;
            size_t b = full.empty() ? 0 : full[r.below(full.size())];
            if (k == 6) { j[b] = MatrixXd(); return; }
            if (k == 7) { j[b] = r.p(0.5) ? MatrixXd(MatrixXd::Zero(j[b].rows(), j[b].cols() + 1)) : MatrixXd(MatrixXd::Zero(j[b].rows() + 1, j[b].cols())); return; }
            if (k == 8) { j.push_back(MatrixXd()); return; }
            if (k == 9) {
                for (auto& m : j) if (m.size() == 0) { m = MatrixXd::Zero(inner->residual_size(), 1); return; } // a block for a constant variable
                j.pop_back();
                return;
            }
            MatrixXd& m = j[b];
            double M = m.cwiseAbs().maxCoeff();
            int rr = int(r.below(uint64_t(m.rows()))), cc = int(r.below(uint64_t(m.cols())));
            double d = k < 3 ? 0.05 + 1e-2 * M : 1 + M;
            m(rr, cc) += r.p(0.5) ? d : -d;
        }
        std::vector<Variable *> variables() override { return inner->variables(); }
        std::string name() const override { return inner->name(); }
        FactorType::FactorTypeEnum type() const override { return inner->type(); }
    };

    // A caller's own factor class over one vector variable, with the behaviour real ones show far from their solution
    class SimCustom : public Factor
    {
    public:
        Variable *v;
        int mode;
        std::vector<double> p; // target values, then sigma
        SimCustom(int id, Variable *v_, int mode_, const std::vector<double>& p_) : v(v_), mode(mode_), p(p_) { id_ = id; }
        int residual_size() const override { return int(p.size()) - 1; }
        VectorXd compute_residual() const override { VectorXd r(residual_size()); compute_residual(r); return r; }
        void compute_residual(Eigen::Ref<VectorXd> r) const override;
        void compute_jacobians(std::vector<MatrixXd>& j) const override;
        std::vector<Variable *> variables() override { return {v}; }
        FactorType::FactorTypeEnum type() const override { return FactorType::custom; }
    };
    struct SimId { virtual ~SimId() = default; virtual void sim_set_id(int) = 0; };
    template <class B> class SimVar : public B, public SimId
    {
    public:
        using B::B;
        explicit SimVar(const B& b) : B(b) {}
        void sim_set_id(int i) override { this->id_ = i; }
        const VectorXd& value() const override // what a variable that computes its value on demand may do: throw
        {
            if (g_sut > 0 && t_cb && t_cb->on) {
                int a = t_cb->hit(CB_VAL);
                if (a == ACT_THROW || a == ACT_CANCEL) { Out outside; cb_act(a); }
            }
            return B::value();
        }
        void apply_increment(const VectorXd& dx) override
        {
            int a = t_cb ? t_cb->hit(CB_APPLY) : 0;
            if (a == ACT_NAN || a == ACT_INF) a = 0;
            cb_act(a);
            B::apply_increment(dx);
        }
        void set_value_from_vector(const VectorXd& x) override
        {
            int a = t_cb ? t_cb->hit(CB_SET) : 0;
            if (a == ACT_NAN || a == ACT_INF) a = 0;
            cb_act(a);
            B::set_value_from_vector(x);
        }
    };

    struct VarSpec
    {
        int h = 0;
        char kind = 'G';
        int id = 0;
        bool cst = false;
        std::vector<double> p;
        double lo = 0, hi = 0; // inverse range limits, when set
        bool lim = false;
    };
    struct FacSpec
    {
        int h = 0;
        std::string kind;
        int id = 0;
        bool wrap = false;
        std::vector<int> v;
        std::vector<double> p;
    };

    int var_dim(const VarSpec& s);
    VarP make_var(const VarSpec& s, bool wrap);
    VarP fresh_var(const VarSpec& s, const VectorXd& value, bool cst); // from ground state, never clone()
    VarP copy_var(const VarSpec& s, const VarP& v);   // by the value's copy constructor, never clone()
    double val_diff(const VarSpec& s, const VectorXd& a, const VectorXd& b); // distance on the manifold, relative
    VectorXd derived_state(const VarSpec& s, const VarP& v);
    std::string incoherent(const VarSpec& s, const VarP& v);                 // "" when on its manifold
    FacP make_factor(const FacSpec& s, const std::vector<Variable *>& v);
    bool fac_ok(const FacSpec& s, const std::vector<const VarSpec *>& v);
    std::string num(double d);

    // ---- problem generator -----------------------------------------------------------------------
    struct GenCfg
    {
        int clusters = 2;
        bool linear_only = false;
        bool ids_random = true;
        double const_prob = 0.15;
        double wrap_prob = 0.7;
        double pert = 0.1; // initial perturbation from ground truth
        double noise = 0.02;
        double wscale = 1; // common factor of all sigmas
        bool wmix = false; // sigmas of very different size
        bool far_apart = false; // poor initialisation
        double custom = 0; // probability of a cluster of user-defined factors
        int only = -1; // a single template
    };
    struct Gen
    {
        Rng r;
        GenCfg c;
        std::vector<VarSpec> vars;
        std::vector<FacSpec> facs;
        std::vector<VectorXd> truth;
        std::map<int, int> used_v, used_f;
        int next_h = 0;
        explicit Gen(uint64_t seed) : r(seed) {}
        int new_id(bool var);
        int add_var(char k, std::vector<double> truth_params, bool force_free = false, bool force_const = false);
        void add_fac(const std::string& k, std::vector<int> v, std::vector<double> p);
        void cluster(int t);
        void build();
        static std::string line(const VarSpec& s);
        static std::string line(const FacSpec& s);
        static bool parse(const std::vector<std::string>& w, VarSpec& s);
        static bool parse(const std::vector<std::string>& w, FacSpec& s);
    };
} // namespace sim
