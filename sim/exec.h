// Executes a plan (a pure list of operations and faults) on the real library and checks the properties.
#pragma once
#include "world.h"
#include <set>

namespace sim
{
    typedef std::vector<std::string> Op;
    struct Plan
    {
        std::string check;
        uint64_t seed = 0;
        std::vector<Op> ops;
        std::string text() const;
        static Plan parse(const std::string& s);
    };
    Plan gen_plan(const std::string& check, uint64_t seed);

    struct Violation { std::string prop, cls, detail; };
    struct RunStats
    {
        std::map<std::string, uint64_t> fired, armed, ops, probes;
        uint64_t compares = 0, steps = 0;
        int64_t sim_ns = 0;
        std::set<uint64_t> states; // abstract (operation, fault, outcome, state) tuples met
        void merge(const RunStats& o);
    };
    struct World
    {
        std::map<int, VarP> v;
        std::map<int, FacP> f;
        std::shared_ptr<FactorGraph> g;
        std::unique_ptr<SparseOptimizer> o;
    };
    struct Flt { std::string kind, n, m; };
    struct Outcome { bool ok = true; std::string kind = "ok"; std::string what; };

    struct OptRun
    {
        Outcome out;
        std::map<int, VectorXd> val;
        OptimizerStats cur, init;
        std::vector<MatrixXd> cov;
        uint64_t count[CB_N] = {0, 0, 0, 0}, allocs = 0;
    };

    // one graph with the optimizer working on it, and what is known about them
    struct Side
    {
        std::vector<int> av, af;
        bool fin_ok = false, pending_const = false, ever_fin = false;
        bool gverb = false; // the graph was told to be verbose
        bool edit_failed = false, toggled = false; // some edit failed; the constness of a member changed
        std::map<int, int> off;
        int rows = 0, cols = 0;
        bool acc_j = false, acc_s = false, acc_r = false; // evaluated since the last finalize
        // what a still valid cached result must show: the evaluation that filled it (unknown after faults and optimizations)
        bool know_j = false, know_s = false, know_r = false;
        MatrixXd last_j, last_s;
        VectorXd last_r;
        OptimizerSettings set;
        bool has_setup = false;
        bool cov_known = false; // cov_inv is the reference for a reported-valid covariance
        bool cov_cond_ok = false;
        bool cov_any = false;   // a covariance may be reported at all
        std::vector<Eigen::MatrixXd> cov_inv; bool cov_prepped = false;
        bool opt_done = false;  // the optimizer's last run succeeded without a fault
        bool cov_avail = false; // a free variable of the present structure must get a valid covariance
        std::map<int, int> cov_off;
        int64_t struct_rev = 0, cov_rev = -1;
        // ownership: the optimizer holds the graph for certain; whether that is known after a failed call
        bool opt_holds = false, opt_sure = true, g_dropped = false, torn = false;
        std::weak_ptr<FactorGraph> wgraph;
    };

    class Exec : private Side
    {
    public:
        std::string check;
        bool cold_group = false; // C09: the concurrent calls come first
        bool record_only = false; // thread mode: no oracles, only the event log
        bool sequential = false;  // run '@' groups one thread after the other
        std::vector<Violation> viol;
        RunStats st;
        Hash h;
        std::vector<std::string> log;
        uint64_t mem_seed = 1;
        unsigned id_shift = 0; // added to every ID

        explicit Exec(const std::string& c);
        ~Exec();
        void run(const Plan& p);
        bool step(const Op& op);
        bool stop() const;
        void let_go() { t_cb = nullptr; w.o.reset(); w.g.reset(); w.f.clear(); w.v.clear(); }

    private:
        World w;
        std::map<int, VarSpec> vs;
        std::map<int, FacSpec> fs;
        Stopwatch sw;
        double sw_acc = 0;
        bool sw_run = false;
        int64_t sw_start = 0;
        double sw_last = 0;
        CbState cb;
        CbState *saved_cb = nullptr;
        std::vector<Flt> pend;
        struct Fired { bool any = false, alloc = false, thr = false, cancel = false, nan = false, out = false, undo = false; } fired; // undo: a second fault hit the write that takes the first one back
        std::vector<std::pair<int, Op>> group;

        bool want(const char *p) const { return check == p || (check == "C22" && part_of_c22(p)); }
        static bool part_of_c22(const std::string& p) { return p == "C01" || p == "C02" || p == "C12" || p == "C13" || p == "C15"; }
        // a second graph, copied from the first: its own structure, the same variables and factors
        Side other;
        std::shared_ptr<FactorGraph> other_g;
        std::unique_ptr<SparseOptimizer> other_o;
        std::string other_sig;
        bool copied = false;
        void flip();
        void drop_other();
        void check_other(const std::string& when);
        void do_gcopy(const Op& op);
        void bad(const char *prop, const std::string& cls, const std::string& detail);
        Outcome call(const std::function<void()>& f);
        void resolve(const std::function<void(World&)>& f);
        World copy_world(bool remap = false, bool with_opt = false);
        std::map<int, VectorXd> snap() const;
        std::map<int, VectorXd> snap_derived() const;
        struct Ref { bool ok = false; VectorXd r; MatrixXd J; double cost = 0; VectorXd scale; /* per row: what rounding may amount to */ };
        bool same_r(const VectorXd& r, const Ref& q, double tol) const;
        bool same_j(const MatrixXd& J, const Ref& q, double tol) const;
        void do_detour(const Op& op);
        void do_drop(const Op& op);
        void do_grow(const Op& op);
        void do_tear(const Op& op);
        void do_selftest(const Op& op);
        double jac_ratio(int hf, double tol);
        Ref reference(bool fresh, const std::map<int, VectorXd> *at = nullptr);
        bool benign();
        bool eval_ready() const { return fin_ok && !pending_const; }
        bool close(const MatrixXd& a, const MatrixXd& b, double tol) const;
        std::string struct_state() const;
        void check_structure(const char *prop, const std::string& when);
        void check_const(const std::map<int, VectorXd>& v0, const std::map<int, VectorXd>& d0, const std::string& kind, int direct);
        void check_manifold(const std::string& kind);
        OptRun twin_run(int maxit, bool remap, bool covs);
        void check_steps(const std::vector<OptRun>& X, const std::map<int, VectorXd>& v1, const OptimizerStats& cur);
        void do_eval(const Op& op);
        void do_fin(const Op& op);
        void do_add(const Op& op);
        void do_opt(const Op& op);
        void do_prep(const Op& op);
        void do_cov(const Op& op);
        void do_dirty(const Op& op);
        void do_obs(const Op& op);
        void do_bad(const Op& op);
        void do_clone(const Op& op);
        void do_vec(const Op& op);
        void do_sw(const Op& op);
        void do_setv(const Op& op);
        void do_setx(const Op& op);
        void far_value(const VarSpec& s, Rng& r, VectorXd& y);
        void do_group();
        void private_threads(const std::map<int, std::vector<Op>>& th, std::vector<std::vector<std::string>>& logs, bool concurrent);
        std::string const_call(const Op& op);
        void event(const std::string& s);
        void event_vals(const std::string& s);
        static std::string hexv(const VectorXd& v);
    };
    struct RunResult
    {
        std::vector<Violation> viol;
        uint64_t hash = 0;
        RunStats st;
        uint64_t switches = 0, blocks = 0;
        std::string script; // executed schedule
    };
    RunResult run_plan(const Plan& p);
} // namespace sim
