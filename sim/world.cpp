#include "world.h"
#include <cmath>
#include <cstdlib>

namespace sim
{
    thread_local CbState *t_cb = nullptr;
    typedef Eigen::Vector3d V3;
    static V3 v3(const std::vector<double>& p, size_t o) { return V3(p[o], p[o + 1], p[o + 2]); }
    static VectorXd vx(const std::vector<double>& p)
    {
        VectorXd v(p.size());
        for (size_t i = 0; i < p.size(); i++) v[i] = p[i];
        return v;
    }
    std::string num(double d)
    {
        char b[64];
        snprintf(b, sizeof b, "%.17g", d);
        return b;
    }
    // reference rotation map, independent of the library's
    static Eigen::Matrix3d rot(const V3& w)
    {
        double t = w.norm();
        if (t < 1e-14) return Eigen::Matrix3d::Identity();
        return Eigen::AngleAxisd(t, w / t).toRotationMatrix();
    }
    int var_dim(const VarSpec& s)
    {
        switch (s.kind) {
        case 'P': return 6;
        case 'L': return 3;
        case 'G': return (int)s.p.size();
        case 'I': return 1;
        case 'R': return 3;
        case 'A': return 4;
        case 'D': return 3;
        }
        return 0;
    }
    template <class B, class... A> static VarP mk(bool wrap, A&&...a)
    {
        if (wrap) return std::make_shared<SimVar<B>>(std::forward<A>(a)...);
        return std::make_shared<B>(std::forward<A>(a)...);
    }
    VarP make_var(const VarSpec& s, bool wrap)
    {
        VarP v;
        switch (s.kind) {
        case 'P': {
            Eigen::Matrix<double, 6, 1> x;
            for (int i = 0; i < 6; i++) x[i] = s.p[i];
            v = mk<PoseVariable>(wrap, s.id, x);
            break;
        }
        case 'L': v = mk<LandmarkVariable>(wrap, s.id, v3(s.p, 0)); break;
        case 'G': v = mk<GenericVariable>(wrap, s.id, vx(s.p)); break;
        case 'I': {
            v = mk<InverseRangeVariable>(wrap, s.id, v3(s.p, 0), v3(s.p, 3), s.p[6]);
            if (s.lim) {
                auto q = std::static_pointer_cast<InverseRangeVariable>(v);
                q->minimum_inverse_range_ = s.lo;
                q->maximum_inverse_range_ = s.hi;
                q->clip_inverse_range();
            }
            break;
        }
        case 'R': v = mk<RotationVariable>(wrap, s.id, rot(v3(s.p, 0))); break;
        case 'A': v = mk<PlaneVariable>(wrap, s.id, v3(s.p, 0), s.p[3]); break;
        case 'D': v = mk<Pose2DVariable>(wrap, s.id, v3(s.p, 0)); break;
        default: throw std::logic_error("kind");
        }
        if (s.cst) v->set_constant(true);
        return v;
    }
    VarP fresh_var(const VarSpec& s0, const VectorXd& value, bool cst)
    {
        VarSpec s = s0;
        s.cst = cst;
        if (s.kind == 'I') {
            VarP v = make_var(s, false);
            auto q = std::static_pointer_cast<InverseRangeVariable>(v);
            q->minimum_inverse_range_ = -1e300;
            q->maximum_inverse_range_ = 1e300;
            q->set_value_from_vector(value);
            if (s.lim) { q->minimum_inverse_range_ = s.lo; q->maximum_inverse_range_ = s.hi; }
            else { InverseRangeVariable d(0, V3(0, 0, 0), V3(0, 0, 1), 1.0); q->minimum_inverse_range_ = d.minimum_inverse_range_; q->maximum_inverse_range_ = d.maximum_inverse_range_; }
            return v;
        }
        for (size_t i = 0; i < (size_t)value.size(); i++) s.p[i] = value[i];
        return make_var(s, false);
    }
    VarP copy_var(const VarSpec& s, const VarP& v)
    {
        switch (s.kind) {
        case 'P': return std::make_shared<SimVar<PoseVariable>>(static_cast<const PoseVariable&>(*v));
        case 'L': return std::make_shared<SimVar<LandmarkVariable>>(static_cast<const LandmarkVariable&>(*v));
        case 'G': return std::make_shared<SimVar<GenericVariable>>(static_cast<const GenericVariable&>(*v));
        case 'I': return std::make_shared<SimVar<InverseRangeVariable>>(static_cast<const InverseRangeVariable&>(*v));
        case 'R': return std::make_shared<SimVar<RotationVariable>>(static_cast<const RotationVariable&>(*v));
        case 'A': return std::make_shared<SimVar<PlaneVariable>>(static_cast<const PlaneVariable&>(*v));
        case 'D': return std::make_shared<SimVar<Pose2DVariable>>(static_cast<const Pose2DVariable&>(*v));
        }
        throw std::logic_error("kind");
    }
    double val_diff(const VarSpec& s, const VectorXd& a, const VectorXd& b)
    {
        if (a.size() != b.size()) return HUGE_VAL;
        if (!a.allFinite() || !b.allFinite()) {
            for (int i = 0; i < a.size(); i++)
                if (std::isfinite(a[i]) != std::isfinite(b[i])) return HUGE_VAL;
            return 0;
        }
        double d = 0;
        auto lin = [&](int o, int n) { for (int i = o; i < o + n; i++) d = std::max(d, std::fabs(a[i] - b[i]) / (1 + std::fabs(b[i]))); };
        switch (s.kind) {
        case 'P': lin(0, 3); d = std::max(d, (rot(a.segment<3>(3)) - rot(b.segment<3>(3))).cwiseAbs().maxCoeff()); break;
        case 'R': d = (rot(a.head<3>()) - rot(b.head<3>())).cwiseAbs().maxCoeff(); break;
        case 'D': lin(0, 2); d = std::max(d, std::fabs(std::remainder(a[2] - b[2], 2 * M_PI))); break;
        default: lin(0, (int)a.size());
        }
        return d;
    }
    VectorXd derived_state(const VarSpec& s, const VarP& v)
    {
        std::vector<double> o;
        auto add = [&](const auto& m) { for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) o.push_back(m(i, j)); };
        switch (s.kind) {
        case 'P': { auto& q = static_cast<PoseVariable&>(*v); add(q.dcm_CW()); add(q.pos_W()); add(q.rot_CW()); break; }
        case 'L': add(static_cast<LandmarkVariable&>(*v).pos_W()); break;
        case 'I': {
            auto& q = static_cast<InverseRangeVariable&>(*v);
            add(q.origin_pos_W()); add(q.bearing_W());
            o.push_back(q.inverse_range()); o.push_back(q.minimum_inverse_range_); o.push_back(q.maximum_inverse_range_);
            if (std::isfinite(q.inverse_range()) && std::fabs(q.inverse_range()) > 1e-8) add(q.pos_W());
            break;
        }
        case 'R': { auto& q = static_cast<RotationVariable&>(*v); add(q.rotation()); add(q.dcm_AB()); break; }
        case 'A': { auto& q = static_cast<PlaneVariable&>(*v); add(q.unit_vector()); o.push_back(q.distance_from_origin()); o.push_back(q.distance_from_point(V3(1, -2, 0.5))); break; }
        case 'D': { auto& q = static_cast<Pose2DVariable&>(*v); add(q.pos_2d()); o.push_back(q.theta()); add(q.dcm_2d()); break; }
        }
        o.push_back(v->is_constant());
        o.push_back(v->size());
        return vx(o);
    }
    std::string incoherent(const VarSpec& s, const VarP& v)
    {
        const VectorXd x = v->value();
        if (v->size() != x.size()) return "size() differs from value().size()";
        if (!x.allFinite()) return "";
        if (x.cwiseAbs().maxCoeff() > 1e6) return "";
        auto orth = [](const Eigen::Matrix3d& m) { return (m * m.transpose() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() < 1e-10 && std::fabs(m.determinant() - 1) < 1e-10; };
        // the logarithm loses half the digits close to a half turn
        // (it is also cut to the identity for the smallest angles of all)
        auto lim = [](const V3& q) { return (std::fabs(std::remainder(q.norm() - M_PI, 2 * M_PI)) < 0.05 ? 2e-8 : q.norm() < 1e-8 ? 1.1e-8 : 1e-10) * (1 + q.norm()); };
        switch (s.kind) {
        case 'P': {
            auto& q = static_cast<PoseVariable&>(*v);
            if (!orth(q.dcm_CW())) return "pose rotation matrix is not a rotation";
            if ((q.dcm_CW() - rot(x.segment<3>(3))).cwiseAbs().maxCoeff() > lim(x.segment<3>(3))) return "pose rotation matrix disagrees with value()";
            if ((q.pos_W() - x.head<3>()).norm() != 0 || (q.rot_CW() - x.tail<3>()).norm() != 0) return "pose accessors disagree with value()";
            break;
        }
        case 'L': if ((static_cast<LandmarkVariable&>(*v).pos_W() - x).norm() != 0) return "landmark accessor disagrees with value()"; break;
        case 'I': {
            auto& q = static_cast<InverseRangeVariable&>(*v);
            if (q.inverse_range() != x[0]) return "inverse_range() disagrees with value()";
            if (x[0] < q.minimum_inverse_range_ || x[0] > q.maximum_inverse_range_) return "inverse range outside its limits";
            if (std::fabs(q.bearing_W().norm() - 1) > 1e-9) return "bearing is not a unit vector";
            if ((q.pos_W() - (q.origin_pos_W() + q.bearing_W() / x[0])).norm() > 1e-6 * (1 + 1 / x[0])) return "pos_W() disagrees with value()";
            break;
        }
        case 'R': {
            auto& q = static_cast<RotationVariable&>(*v);
            if (!orth(q.rotation())) return "rotation matrix is not a rotation";
            if ((q.rotation() - rot(x.head<3>())).cwiseAbs().maxCoeff() > lim(x.head<3>())) return "rotation matrix disagrees with value()";
            if ((q.rotation() - q.dcm_AB()).cwiseAbs().maxCoeff() != 0) return "rotation() and dcm_AB() disagree";
            break;
        }
        case 'A': {
            auto& q = static_cast<PlaneVariable&>(*v);
            if (std::fabs(q.unit_vector().norm() - 1) > 1e-9) return "plane normal is not a unit vector";
            if ((q.unit_vector() - x.head<3>()).norm() != 0 || q.distance_from_origin() != x[3]) return "plane accessors disagree with value()";
            const double pd = q.distance_from_point(V3(1, -2, 0.5)), pe = x[0] - 2 * x[1] + 0.5 * x[2] + x[3];
            if (!(std::fabs(pd - pe) <= 1e-9 * (3 + std::fabs(x[3])))) return "distance_from_point() disagrees with the plane's value";
            break;
        }
        case 'D': {
            auto& q = static_cast<Pose2DVariable&>(*v);
            if (std::fabs(x[2]) > M_PI + 1e-12) return "heading outside [-pi, pi]";
            if ((q.pos_2d() - x.head<2>()).norm() != 0 || q.theta() != x[2]) return "2D pose accessors disagree with value()";
            if (std::fabs(q.dcm_2d()(0, 0) - std::cos(x[2])) > 1e-9 || std::fabs(q.dcm_2d()(1, 0) - std::sin(x[2])) > 1e-9) return "dcm_2d() disagrees with value()";
            break;
        }
        }
        return "";
    }
    void SimCustom::compute_residual(Eigen::Ref<VectorXd> r) const
    {
        const VectorXd& x = v->value();
        double w = 1 / p.back();
        int n = residual_size();
        for (int i = 0; i < n; i++) {
            double e = x[i] - p[i];
            switch (mode) {
            case 0: r[i] = w * (i % 2 == 0 && i + 1 < n ? 10 * (x[i + 1] - x[i] * x[i]) : 1 - x[i - (i % 2)]); break; // valley
            case 1: r[i] = w * (std::exp(x[i]) - std::exp(p[i])); break;                                         // one-sided growth
            case 2: r[i] = w * e; break;                                                                         // Jacobian with the wrong sign
            case 3: r[i] = w * e * e * e; break;                                                                 // flat at the solution
            case 4: r[i] = w * std::sinh(20 * e); break;                                                         // overflows a little further away
            case 5: r[i] = w * (std::sqrt(x[i] - p[i] + 0.5) - std::sqrt(0.5)); break;                           // undefined on one side
            case 7: r[i] = i % 2 ? 0.25 * w : w * e; break;                                                      // every other component unobserved
            case 8: r[i] = w * (x[0] - x[n - 1] - p[i]); break;                                                  // only a difference observed
            default: r[i] = w * std::atan(5 * e); break;                                                         // full steps overshoot
            }
        }
    }
    void SimCustom::compute_jacobians(std::vector<MatrixXd>& j) const
    {
        const VectorXd& x = v->value();
        double w = 1 / p.back();
        int n = residual_size();
        j.resize(1);
        if (v->is_constant()) { j[0] = MatrixXd(); return; }
        j[0] = MatrixXd::Zero(n, x.size());
        for (int i = 0; i < n; i++) {
            double e = x[i] - p[i];
            switch (mode) {
            case 0:
                if (i % 2 == 0 && i + 1 < n) { j[0](i, i + 1) = 10 * w; j[0](i, i) = -20 * w * x[i]; }
                else j[0](i, i - (i % 2)) = -w;
                break;
            case 1: j[0](i, i) = w * std::exp(x[i]); break;
            case 2: j[0](i, i) = -w; break;
            case 3: j[0](i, i) = 3 * w * e * e; break;
            case 4: j[0](i, i) = 20 * w * std::cosh(20 * e); break;
            case 5: j[0](i, i) = w * 0.5 / std::sqrt(x[i] - p[i] + 0.5); break;
            case 7: if (i % 2 == 0) j[0](i, i) = w; break;
            case 8: j[0](i, 0) = w; j[0](i, n - 1) -= w; break;
            default: j[0](i, i) = 5 * w / (1 + 25 * e * e); break;
            }
        }
    }
    static Variable *at(const std::vector<Variable *>& v, size_t i) { return v[i]; }
    FacP make_factor(const FacSpec& s, const std::vector<Variable *>& v)
    {
        auto P = [&](size_t i) { return static_cast<PoseVariable *>(at(v, i)); };
        auto L = [&](size_t i) { return static_cast<LandmarkVariable *>(at(v, i)); };
        auto G = [&](size_t i) { return static_cast<GenericVariable *>(at(v, i)); };
        auto R = [&](size_t i) { return static_cast<RotationVariable *>(at(v, i)); };
        auto A = [&](size_t i) { return static_cast<PlaneVariable *>(at(v, i)); };
        auto D = [&](size_t i) { return static_cast<Pose2DVariable *>(at(v, i)); };
        auto I = [&](size_t i) { return static_cast<InverseRangeVariable *>(at(v, i)); };
        const auto& p = s.p;
        const std::string& k = s.kind;
        if (k == "cu") return std::make_shared<SimCustom>(s.id, v[0], int(p[0]), std::vector<double>(p.begin() + 1, p.end()));
        if (k == "bo") return std::make_shared<BearingObservationFactor>(s.id, P(0), L(1), v3(p, 0), p[3]);
        if (k == "bp") return std::make_shared<BearingProjectionFactor2D>(s.id, P(0), L(1), v3(p, 0), p[3], p[4]);
        if (k == "ct") return std::make_shared<CoordinateTransformFactor>(s.id, R(0), G(1), G(2), L(3), L(4), p[0]);
        if (k == "gb") return std::make_shared<GenericBetweenFactor>(s.id, v[0], v[1], v[2], p[0]);
        if (k == "gp") {
            VectorXd pr(p.size() - 1);
            for (int i = 0; i < pr.size(); i++) pr[i] = p[i];
            return std::make_shared<GenericPriorFactor>(s.id, v[0], pr, p.back());
        }
        if (k == "ir") return std::make_shared<InverseRangeBearingFactor>(s.id, P(0), I(1), v3(p, 0), p[3]);
        if (k == "lv") return std::make_shared<LinearVelocityFactor>(s.id, v[0], v[1], v[2], p[0], p[1], int(p[2]));
        if (k == "pl") {
            if (p[1] == 0) return std::make_shared<PlaneFactor>(s.id, v[0], A(1), p[0]);
            return std::make_shared<PlaneFactor>(s.id, v[0], A(1), p[0], true, p[2], v3(p, 3));
        }
        if (k == "pp") return std::make_shared<PlanePriorFactor>(s.id, A(0), v3(p, 0), p[3], p[4], p[5]);
        if (k == "db") return std::make_shared<Pose2DBetweenFactor>(s.id, D(0), D(1), v[2], p[0], p[1], p[2] != 0);
        if (k == "dp") return std::make_shared<Pose2DPriorFactor>(s.id, D(0), v3(p, 0), p[3], p[4]);
        if (k == "xb") return std::make_shared<PosePositionBetweenFactor>(s.id, P(0), P(1), v[2], p[0], p[1] != 0);
        if (k == "ob") return std::make_shared<PoseOrientationBetweenFactor>(s.id, P(0), P(1), R(2), p[0]);
        if (k == "xp") return std::make_shared<PosePositionPriorFactor>(s.id, P(0), v3(p, 0), p[3]);
        if (k == "op") return std::make_shared<PoseOrientationPriorFactor>(s.id, P(0), rot(v3(p, 0)), p[3]);
        if (k == "rb") return std::make_shared<RangeBearingFactor2D>(s.id, D(0), v[1], p[0], p[1], p[2], p[3]);
        if (k == "b2") return std::make_shared<BearingObservationFactor2D>(s.id, D(0), v[1], p[0], p[1]);
        if (k == "rp") return std::make_shared<RotationPriorFactor>(s.id, R(0), rot(v3(p, 0)), p[3]);
        throw std::logic_error("factor kind " + k);
    }
    bool fac_ok(const FacSpec& s, const std::vector<const VarSpec *>& v)
    {
        static const std::map<std::string, std::string> sig = {
            {"bo", "PL"}, {"bp", "PL"}, {"ct", "RGGLL"}, {"ir", "PI"}, {"pp", "A"}, {"db", "DD?"}, {"dp", "D"}, {"xb", "PP?"},
            {"ob", "PPR"}, {"xp", "P"}, {"op", "P"}, {"rb", "D?"}, {"b2", "D?"}, {"rp", "R"}, {"gb", "???"}, {"gp", "?"}, {"lv", "???"}, {"pl", "?A"}, {"cu", "G"}};
        auto it = sig.find(s.kind);
        if (it == sig.end() || it->second.size() != v.size()) return false;
        for (size_t i = 0; i < v.size(); i++) {
            if (!v[i]) return false;
            if (it->second[i] != '?' && it->second[i] != v[i]->kind) return false;
            for (size_t j = 0; j < i; j++) if (v[i] == v[j]) return false;
        }
        auto d = [&](size_t i) { return var_dim(*v[i]); };
        if (s.kind == "cu") return d(0) == int(s.p.size()) - 2;
        if (s.kind == "gb") return d(0) == d(1) && d(1) == d(2);
        if (s.kind == "gp") return d(0) == int(s.p.size()) - 1;
        if (s.kind == "lv") return d(0) == d(1) && d(2) + int(s.p[2]) <= d(0);
        if (s.kind == "pl") return d(0) == 3;
        if (s.kind == "db" || s.kind == "xb") return d(2) == 3;
        if (s.kind == "rb" || s.kind == "b2") return d(1) == 2;
        if (s.kind == "ct") return d(1) == 3 && d(2) == 1;
        return true;
    }

} // namespace sim
