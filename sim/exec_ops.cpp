#include "exec.h"
#include "exec_util.h"
#include <climits>
#include <cmath>
#include <cstring>
#include <typeinfo>

namespace sim
{
    void Exec::do_add(const Op& op)
    {
        int hh = int(ival(op, 1));
        bool isv = op[0] == "addv";
        bool null = hh < 0;
        if (!null && (isv ? !w.v.count(hh) : !w.f.count(hh))) return;
        bool dup = false;
        if (!null) {
            if (isv) for (int a : av) if (w.v[a]->id() == w.v[hh]->id()) dup = true;
            if (!isv) for (int a : af) if (w.f[a]->id() == w.f[hh]->id()) dup = true;
        }
        auto f = [&, hh](World& W) {
            if (isv) W.g->add_variable(null ? VarP() : W.v[hh]);
            else W.g->add_factor(null ? FacP() : W.f[hh]);
        };
        resolve(f);
        if (!null && isv) { Sut q; (void)w.g->get_variable(w.v[hh]->id()); }
        long own0 = null ? 0 : isv ? w.v[hh].use_count() : w.f[hh].use_count();
        Outcome o = call([&] { f(w); });
        event(join(op) + " -> " + o.kind);
        if (!null && own0 > 0) {
            long own1 = isv ? w.v[hh].use_count() : w.f[hh].use_count();
            if (!o.ok && own1 != own0) bad("C19", "retained", join(op) + " failed and still holds the object");
            if (o.ok && own1 <= own0) bad("C19", "not-retained", join(op) + " succeeded without holding the object");
        }
        if (!null && isv && !record_only) {
            Variable *who = dup ? nullptr : o.ok ? w.v[hh].get() : nullptr, *got;
            { Sut q; got = w.g->get_variable(w.v[hh]->id()); }
            if (dup) for (int a : av) if (w.v[a]->id() == w.v[hh]->id()) who = w.v[a].get();
            if (got != who) { bad("C15", "lookup", join(op) + " (" + o.kind + "): get_variable() of its ID disagrees right afterwards"); bad("C02", "lookup", join(op) + " (" + o.kind + "): get_variable() of its ID disagrees right afterwards"); }
        }
        if (null || dup) {
            if (o.ok) bad(null ? "C14" : "C02", null ? "null-accepted" : "duplicate-accepted", join(op) + " was accepted");
            if (dup && o.ok) bad("C14", "duplicate-accepted", join(op) + " was accepted");
        } else if (!o.ok && !fired.any) {
            bad("C02", "refused", join(op) + " failed without a fault: " + o.what);
        }
        if (!o.ok) edit_failed = true;
        if (o.ok && !null) {
            (isv ? av : af).push_back(hh);
            fin_ok = false;
            struct_rev++;
        }
        check_structure("C02", join(op) + " (" + o.kind + ")");
        check_structure("C15", join(op) + " (" + o.kind + ")");
        if (!o.ok) check_structure("C14", join(op) + " (" + o.kind + ")");
    }
    void Exec::do_fin(const Op& op)
    {
        auto f = [](World& W) { W.g->finalize_structure(); };
        resolve(f);
        auto v0 = snap();
        // expectation from the model
        bool expect_ok = true;
        int r = 0, c = 0;
        std::set<int> ids;
        for (int a : av) ids.insert(w.v[a]->id());
        bool unsure = false;
        for (int a : av) if (!w.v[a]->is_constant()) c += (int)w.v[a]->value().size();
        for (int a : af) {
            r += w.f[a]->residual_size();
            for (int hv : fs[a].v) {
                bool reg = false;
                for (int b : av) if (b == hv) reg = true;
                if (!reg && !w.v[hv]->is_constant()) expect_ok = false;
                if (!reg && w.v[hv]->is_constant()) unsure = true;
            }
        }
        if (r < c) expect_ok = false;
        Outcome o = call([&] { f(w); });
        event(join(op) + " -> " + o.kind);
        struct_rev++;
        if (o.ok) {
            fin_ok = true;
            ever_fin = true;
            pending_const = false;
            acc_j = acc_s = acc_r = know_j = know_s = know_r = false;
            off.clear();
            cols = 0;
            for (int a : av)
                if (!w.v[a]->is_constant()) { off[a] = cols; cols += (int)w.v[a]->value().size(); }
            rows = r;
            st.probes["finalize-ok"]++;
            if (w.g->num_values() != cols && std::any_of(av.begin(), av.end(), [&](int a) { return w.v[a]->is_constant(); }))
                bad("C06", "column", "a graph with constants has " + std::to_string(w.g->num_values()) + " columns, its non-constant variables need " + std::to_string(cols));
            if (!expect_ok) bad("C02", "bad-finalize", "finalize_structure() accepted a graph with an unregistered variable or fewer residuals than values");
            if (w.g->num_values() != cols || w.g->num_residuals() != rows) bad("C15", "counts", "num_values/num_residuals wrong after finalize");
        } else {
            fin_ok = false;
            edit_failed = true;
            st.probes["finalize-failed"]++;
            if (expect_ok && !unsure && !fired.any) bad("C02", "refused", "finalize_structure() failed on a complete graph: " + o.what);
        }
        check_structure("C02", "fin (" + o.kind + ")");
        check_structure("C15", "fin (" + o.kind + ")");
        for (auto& x : w.v)
            if (hexv(v0[x.first]) != hexv(x.second->value())) bad("C02", "values", "finalize_structure() changed a variable value");
    }
    // a value (or an increment) that nothing rules out, though nobody would expect it
    void Exec::far_value(const VarSpec& s, Rng& r, VectorXd& y)
    {
        auto axis = [&] {
            Eigen::Vector3d ax(r.n(), r.n(), r.n());
            if (ax.norm() < 1e-3) ax = Eigen::Vector3d(0, 0, 1);
            return Eigen::Vector3d(ax.normalized());
        };
        auto angle = [&] {
            // beyond a half turn, many turns, whole turns and almost nothing
            switch (r.below(5)) {
            case 0: return r.uni(M_PI, 2 * M_PI);
            case 1: return r.uni(6, 100);
            case 2: return 2 * M_PI * r.range(1, 5) + (r.p(0.5) ? 0 : r.uni(-1, 1) * std::pow(10.0, -12 * r.u()));
            case 3: return std::pow(10.0, -14 * r.u());
            default: return 0.0;
            }
        };
        auto mag = [&](double lo, double hi) { return std::pow(10.0, r.uni(lo, hi)) * (r.p(0.5) ? -1 : 1); };
        switch (s.kind) {
        case 'P': for (int i = 0; i < 3; i++) y[i] = mag(-9, 5.5); y.tail(3) = axis() * angle(); break;
        case 'R': y = axis() * angle(); break;
        case 'A': y.head(3) = axis() * std::fabs(mag(-100, 100)); y[3] = mag(-9, 5.5); break;
        case 'D': for (int i = 0; i < 2; i++) y[i] = mag(-9, 5.5); y[2] = r.p(0.5) ? mag(-9, 5) : angle() * (r.p(0.5) ? -1 : 1); break;
        case 'I': y[0] = r.p(0.1) ? 0 : mag(-9, 6); break;
        default: for (int i = 0; i < y.size(); i++) y[i] = mag(-9, 5.5);
        }
    }
    // the setters that only one type has
    void Exec::do_setx(const Op& op)
    {
        int hh = int(ival(op, 1));
        if (!w.v.count(hh)) return;
        Rng r{uint64_t(ival(op, 2))};
        double sc = dval(op, 3);
        const VarSpec& s = vs[hh];
        VectorXd x = w.v[hh]->value(), y = x;
        if (!x.allFinite() || !std::strchr("PLD", s.kind)) return;
        if (sval(op, 4) == "far") far_value(s, r, y);
        else for (int i = 0; i < y.size(); i++) y[i] = std::min(std::max(y[i] + sc * r.n(), -50.0), 50.0);
        if (s.kind == 'P' && sval(op, 4) != "far" && y.tail(3).norm() > 1.8) y.tail(3) *= 1.8 / y.tail(3).norm();
        int which = r.below(3);
        Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
        if (s.kind == 'P') {
            Eigen::Vector3d q = y.tail(3);
            if (q.norm() > 0) R = Eigen::AngleAxisd(q.norm(), q.normalized()).toRotationMatrix();
            if (which == 0) y.tail(3) = x.tail(3);
            if (which == 1) y.head(3) = x.head(3);
        } else if (s.kind == 'D') {
            if (which == 0) y[2] = x[2];
            else y.head(2) = x.head(2);
        }
        auto f = [&](World& W) {
            Variable& v = *W.v[hh];
            if (s.kind == 'P') {
                auto& q = static_cast<PoseVariable&>(v);
                if (which == 0) q.set_pos_W(y.head(3));
                else if (which == 1) q.set_dcm_CW(R);
                else q.set_pose_vector(y);
            } else if (s.kind == 'L') static_cast<LandmarkVariable&>(v).set_pos_W(y);
            else if (which == 0) static_cast<Pose2DVariable&>(v).set_pos_2d(y.head(2));
            else static_cast<Pose2DVariable&>(v).set_theta(y[2]);
        };
        resolve(f);
        Outcome o = call([&] { f(w); });
        event_vals(join(op) + " -> " + o.kind);
        if (!o.ok && !fired.any) bad("C16", "setter", "a setter of h" + std::to_string(hh) + " failed: " + o.what);
        if (!o.ok || fired.any) return;
        double d = val_diff(s, w.v[hh]->value(), y);
        if (s.kind == 'P' && which == 1) d = std::max((static_cast<PoseVariable&>(*w.v[hh]).dcm_CW() - R).cwiseAbs().maxCoeff() - 3e-8, (w.v[hh]->value() - y).head(3).cwiseAbs().maxCoeff());
        if (d > 1e-9) bad("C16", "setter", "a setter of h" + std::to_string(hh) + " (" + s.kind + std::to_string(which) + ") did not store what it was given");
    }
    void Exec::do_setv(const Op& op)
    {
        int hh = int(ival(op, 1));
        if (!w.v.count(hh)) return;
        Rng r{uint64_t(ival(op, 2))};
        double sc = dval(op, 3);
        const VarSpec& s = vs[hh];
        VectorXd x = w.v[hh]->value();
        VectorXd y = x;
        if (!x.allFinite()) for (int i = 0; i < y.size(); i++) y[i] = s.kind == 'I' ? 0.2 : 0.5;
        for (int i = 0; i < y.size(); i++) {
            y[i] += sc * r.n();
            if (y[i] > 50) y[i] = 50;
            if (y[i] < -50) y[i] = -50;
        }
        auto half_turn = [&](auto&& q) {
            Eigen::Vector3d ax(r.n(), r.n(), r.n());
            if (ax.norm() < 1e-3) ax = Eigen::Vector3d(0, 0, 1);
            const double e = std::pow(10.0, -9 * r.u());
            q = ax.normalized() * (r.p(0.3) ? 0.1 * e : M_PI - e);   // (or close to no turn)
        };
        const bool pi = sval(op, 4) == "pi" && (s.kind == 'P' || s.kind == 'R');
        if (s.kind == 'I') y[0] = std::min(std::max(std::fabs(y[0]), s.lim ? s.lo * 1.5 : 0.02), s.lim ? s.hi * 0.9 : 10.0);
        if (s.kind == 'P' && y.tail(3).norm() > 1.8) y.tail(3) *= 1.8 / y.tail(3).norm();
        if (s.kind == 'R' && y.norm() > 1.8) y *= 1.8 / y.norm();
        if (s.kind == 'A' && y.head(3).norm() < 0.2) y[2] += 1.0;
        if (pi) half_turn(s.kind == 'P' ? y.tail(3) : y.head(3));
        if (sval(op, 4) == "far") far_value(s, r, y);
        auto f = [&](World& W) { W.v[hh]->set_value_from_vector(y); };
        resolve(f);
        Outcome o = call([&] { f(w); });
        event_vals(join(op) + " -> " + o.kind);
        if (s.kind == 'I') {
            auto& q = static_cast<InverseRangeVariable&>(*w.v[hh]);
            y[0] = std::min(std::max(y[0], q.minimum_inverse_range_), q.maximum_inverse_range_);
        }
        if (s.kind == 'A') { y.head(3) /= y.head(3).cwiseAbs().maxCoeff(); y.head(3) /= y.head(3).norm(); }
        if (o.ok && !fired.any && val_diff(s, w.v[hh]->value(), y) > 1e-9)
            bad("C16", "setvalue", "set_value_from_vector() did not store the value of h" + std::to_string(hh));
    }
    void Exec::do_vec(const Op& op)
    {
        // ginc seed scale | gset seed scale | gvec | inc h seed scale
        Rng r{uint64_t(op[0] == "inc" ? ival(op, 2) : ival(op, 1))};
        double sc = op[0] == "inc" ? dval(op, 3) : dval(op, 2);
        if (op[0] == "inc") {
            int hh = int(ival(op, 1));
            if (!w.v.count(hh)) return;
            VectorXd dx(w.v[hh]->value().size());
            for (int i = 0; i < dx.size(); i++) dx[i] = sc * r.uni(-1, 1);
            const char vk = vs[hh].kind;
            if (sval(op, 4) == "pi" && (vk == 'P' || vk == 'R') && w.v[hh]->value().allFinite()) {
                // an increment that ends close to a half turn, or close to no turn
                Eigen::Matrix3d now = vk == 'P' ? Eigen::Matrix3d(static_cast<PoseVariable&>(*w.v[hh]).dcm_CW()) : Eigen::Matrix3d(static_cast<RotationVariable&>(*w.v[hh]).rotation());
                Eigen::Vector3d ax(r.n(), r.n(), r.n());
                if (ax.norm() < 1e-3) ax = Eigen::Vector3d(0, 0, 1);
                const double e = std::pow(10.0, -9 * r.u());
                Eigen::AngleAxisd aa(Eigen::AngleAxisd(r.p(0.3) ? 0.1 * e : M_PI - e, ax.normalized()).toRotationMatrix() * now.transpose());
                Eigen::Vector3d q = aa.axis() * aa.angle();
                if (q.allFinite()) { if (vk == 'P') dx.tail(3) = q; else dx = q; }
            }
            if (sval(op, 4) == "far") {
                far_value(vs[hh], r, dx);
                if (vk == 'A' && dx.head(3).norm() < 100) dx.head(3) *= 0.01 / dx.head(3).norm(); // (anything but the opposite normal)
            }
            VarP cp = copy_var(vs[hh], w.v[hh]);
            auto keep = t_cb;
            t_cb = nullptr;
            cp->apply_increment(dx);
            t_cb = keep;
            VectorXd before = w.v[hh]->value();
            auto f = [&](World& W) { W.v[hh]->apply_increment(dx); };
            resolve(f);
            Outcome o = call([&] { f(w); });
            event_vals(join(op) + " -> " + o.kind);
            if (!o.ok && fired.thr && val_diff(vs[hh], w.v[hh]->value(), before) > 1e-12) bad("C14", "increment", "failed apply_increment() changed the variable");
            return;
        }
        if (pending_const && fin_ok) return;
        if (!fin_ok) {
            if (op[0] != "ginc") return;
            auto v0 = snap();
            VectorXd dx = VectorXd::Constant(w.g->num_values(), 0.1);
            Outcome o = call([&] { w.g->apply_increment(dx); });
            event(join(op) + " unfinalized -> " + o.kind);
            if (o.ok) bad("C02", "increment-unfinalized", "apply_increment() ran although the last structure edit has no successful finalize_structure()");
            for (auto& x : w.v) if (hexv(v0[x.first]) != hexv(x.second->value())) bad("C02", "increment-unfinalized", "a refused apply_increment() changed values");
            return;
        }
        VectorXd x(cols);
        if (op[0] == "gvec") {
            VectorXd got;
            resolve([](World& W) { (void)W.g->get_variable_vector(); });
            Outcome o = call([&] { got = w.g->get_variable_vector(); });
            event(join(op) + " -> " + o.kind);
            if (!o.ok && !fired.any) bad("C15", "vector", "get_variable_vector() failed: " + o.what);
            if (!o.ok) return;
            for (auto& q : off) x.segment(q.second, w.v[q.first]->value().size()) = w.v[q.first]->value();
            st.compares++;
            if (got.size() != x.size() || hexv(got) != hexv(x)) bad("C15", "vector", "get_variable_vector() is not the concatenation of the non-constant values");
            for (int a : av) {
                bool ok = false;
                auto p = w.g->variable_placement(w.v[a]->id(), ok);
                bool cst = w.v[a]->is_constant();
                if (!ok || p.variable != w.v[a].get() || (!cst && (p.index != off[a] || p.dim != w.v[a]->value().size())) || (cst && p.dim != 0))
                    bad("C15", "placement", "variable_placement of h" + std::to_string(a) + " does not give its slice");
                if (cst && ok && p.dim != 0) bad("C06", "slice", "constant h" + std::to_string(a) + " has a slice of the variable vector");
                if (!cst && toggled && (!ok || p.dim != w.v[a]->value().size() || p.index != off[a])) bad("C06", "slice", "h" + std::to_string(a) + " is not constant and does not have its slice of the variable vector");
            }
            int row = 0;
            for (int a : af) {
                bool ok = false;
                auto p = w.g->factor_placement(w.f[a]->id(), ok);
                std::vector<int> ci, cd;
                for (auto *x : w.f[a]->variables())
                    for (int b : av)
                        if (w.v[b].get() == x && off.count(b)) { ci.push_back(off[b]); cd.push_back(int(x->value().size())); }
                int n = w.f[a]->residual_size();
                if (!ok || p.factor != w.f[a].get() || p.residual_index != row || p.residual_dim != n || p.variable_column_indices != ci || p.variable_dims != cd)
                    bad("C15", "factor-placement", "factor_placement of h" + std::to_string(a) + " does not give its rows and columns");
                row += n;
            }
            {
                // every ID that nothing has is unknown, near the known ones as well
                std::set<int> vi, fi;
                for (int a : av) vi.insert(w.v[a]->id());
                for (int a : af) fi.insert(w.f[a]->id());
                std::set<int> ask = {0, -1, 1, INT_MAX, INT_MIN};
                for (int i : vi) { ask.insert(int(unsigned(i) + 1)); ask.insert(int(unsigned(i) - 1)); }
                for (int i : fi) ask.insert(i);
                Sut q;
                for (int i : ask) {
                    bool a = true, b = true;
                    (void)w.g->variable_placement(i, a);
                    (void)w.g->factor_placement(i, b);
                    if (a != bool(vi.count(i)) || (w.g->get_variable(i) != nullptr) != a || b != bool(fi.count(i)))
                        bad("C15", "unknown-id", "the lookups disagree about ID " + std::to_string(i));
                }
                if (w.g->variable_placement_map().size() != vi.size() || w.g->factor_placement_map().size() != fi.size())
                    bad("C15", "placement-map", "the placement maps do not have one entry for each variable and factor");
            }
            size_t n[8] = {0};
            auto cnt = [&](auto *t, char k) {
                typedef typename std::remove_pointer<decltype(t)>::type T;
                auto l = w.g->get_variables_of_type<T>();
                size_t i = 0;
                for (int a : av)
                    if (vs[a].kind == k) { if (i >= l.size() || std::static_pointer_cast<Variable>(l[i]) != w.v[a]) return false; i++; }
                return i == l.size();
            };
            (void)n;
            Sut s;
            if (!cnt((PoseVariable *)0, 'P') || !cnt((LandmarkVariable *)0, 'L') || !cnt((GenericVariable *)0, 'G') || !cnt((InverseRangeVariable *)0, 'I') ||
                !cnt((RotationVariable *)0, 'R') || !cnt((PlaneVariable *)0, 'A') || !cnt((Pose2DVariable *)0, 'D'))
                bad("C15", "of-type", "get_variables_of_type() is not the added variables of that type in order");
            return;
        }
        bool inc = op[0] == "ginc";
        std::map<int, VarP> exp;
        auto v0 = snap();
        auto keep = t_cb;
        t_cb = nullptr;
        for (auto& q : w.v) exp[q.first] = copy_var(vs[q.first], q.second);
        for (auto& q : off) {
            int n = (int)w.v[q.first]->value().size();
            VectorXd y(n);
            if (inc) for (int i = 0; i < n; i++) y[i] = sc * r.uni(-1, 1);
            else {
                y = w.v[q.first]->value();
                if (!(sval(op, 3) == "some" && r.p(0.5))) for (int i = 0; i < n; i++) y[i] += sc * r.uni(-1, 1);
                if (vs[q.first].kind == 'I') y[0] = std::fabs(y[0]) + 0.02;
                if (vs[q.first].kind == 'P' && y.tail(3).norm() > 1.8) y.tail(3) *= 1.8 / y.tail(3).norm();
                if (vs[q.first].kind == 'R' && y.norm() > 1.8) y *= 1.8 / y.norm();
                if (vs[q.first].kind == 'A' && y.head(3).norm() < 0.2) y[2] += 1.0;
            }
            x.segment(q.second, n) = y;
            if (inc) exp[q.first]->apply_increment(y);
            else exp[q.first]->set_value_from_vector(y);
        }
        t_cb = keep;
        auto f = [&](World& W) { if (inc) W.g->apply_increment(x); else W.g->set_variable_values_from_vector(x); };
        resolve(f);
        Outcome o = call([&] { f(w); });
        event_vals(join(op) + " -> " + o.kind);
        if (!o.ok && !fired.any) bad("C15", "refused", join(op) + " failed: " + o.what);
        if (o.ok) {
            for (auto& q : w.v) {
                st.compares++;
                if (hexv(q.second->value()) != hexv(exp[q.first]->value()) || hexv(derived_state(vs[q.first], q.second)) != hexv(derived_state(vs[q.first], exp[q.first])))
                    bad("C15", inc ? "increment" : "set", join(op) + " did not move h" + std::to_string(q.first) + " (" + vs[q.first].kind + ") as its own " + (inc ? "apply_increment" : "set_value_from_vector"));
            }
        } else {
            // a failed bulk write may stop between variables, never inside one
            for (auto& q : w.v) {
                std::string now = hexv(q.second->value());
                if (now != hexv(v0[q.first]) && now != hexv(exp[q.first]->value())) bad("C15", "torn", join(op) + " failed and left h" + std::to_string(q.first) + " half written");
            }
        }
    }
    void Exec::do_eval(const Op& op)
    {
        const std::string& k = sval(op, 1);
        if (pending_const && fin_ok) return;
        VectorXd r;
        MatrixXd J;
        bool got_r = false, got_j = false, got_s = false;
        Rng rg{uint64_t(ival(op, 2))};
        auto f = [&](World& W) {
            if (k == "r") { r = W.g->compute_full_residual_vector(); got_r = true; }
            else if (k == "r2") {
                VectorXd b;
                { Out o; int m = int(ival(op, 3)); b = m == 0 ? VectorXd() : m == 1 ? VectorXd(VectorXd::Constant(W.g->num_residuals(), std::nan(""))) : VectorXd(VectorXd::Constant(m < 6 ? m : W.g->num_residuals() + m - 5, 7.5)); }
                W.g->compute_full_residual_vector(b);
                r = b;
                got_r = true;
            }
            else if (k == "j") { J = W.g->compute_full_jacobian_matrix(); got_j = true; }
            else if (k == "b") {
                W.g->compute_full_jacobian_and_residual();
                r = W.g->residual();
                J = W.g->jacobian();
                got_r = got_j = true;
            }
            else if (k == "acc") {
                if (W.g->jacobian_valid()) { J = W.g->jacobian(); got_j = true; }
                if (W.g->residual_valid()) { r = W.g->residual(); got_r = true; }
            }
            else if (k == "accs") { J = MatrixXd(W.g->sparse_jacobian()); got_s = true; }
            else {
                Eigen::SparseMatrix<double>& m = W.g->compute_sparse_jacobian_matrix();
                m.makeCompressed(); // what a caller may do with the result; it is already
                J = MatrixXd(m);
                got_s = true;
            }
        };
        auto v0 = snap();
        std::string s0 = want("C07") ? struct_state() : "";
        if (!fin_ok) {
            if (k == "acc" || k == "accs") return;
            Outcome o = call([&] { f(w); });
            event(join(op) + " unfinalized -> " + o.kind);
            if (o.ok) bad("C02", "evaluated-unfinalized", "evaluation (" + k + ") ran although the last structure edit has no successful finalize_structure()");
            if (o.ok) bad("C14", "evaluated-unfinalized", "evaluation (" + k + ") ran before finalize_structure()");
            return;
        }
        if (k == "acc" || k == "accs") {
            Outcome o = call([&] { f(w); });
            event(join(op) + " -> " + o.kind);
            st.compares++;
            if (got_j && !acc_j) bad("C01", "stale-flag", "jacobian_valid() true although no dense Jacobian was computed since finalize_structure()");
            if (got_r && !acc_r) bad("C01", "stale-flag", "residual_valid() true although no residual was computed since finalize_structure()");
            if (got_s && !acc_s) bad("C01", "stale-flag", "sparse_jacobian() returned although none was computed since finalize_structure()");
            // cached results show the evaluation that filled them
            const char *P = want("C07") ? "C07" : "C01";
            if (got_j && know_j && (J.rows() != last_j.rows() || J.cols() != last_j.cols() || hexv(Eigen::Map<VectorXd>(J.data(), J.size())) != hexv(Eigen::Map<VectorXd>(last_j.data(), last_j.size()))))
                bad(P, "cached-jacobian", "jacobian() is valid but is not the Jacobian computed last");
            if (got_r && know_r && hexv(r) != hexv(last_r)) bad(P, "cached-residual", "residual() is valid but is not the residual computed last");
            if (got_s && know_s && (J.rows() != last_s.rows() || J.cols() != last_s.cols() || hexv(Eigen::Map<VectorXd>(J.data(), J.size())) != hexv(Eigen::Map<VectorXd>(last_s.data(), last_s.size()))))
                bad(P, "cached-sparse", "sparse_jacobian() is not the sparse Jacobian computed last");
            return;
        }
        resolve([&](World& W) { f(W); });
        got_r = got_j = got_s = false;
        Outcome o = call([&] { f(w); });
        event_vals(join(op) + " -> " + o.kind);
        if (o.ok && (got_r)) event(hexv(r));
        if (o.ok && (got_j || got_s)) event(hexv(Eigen::Map<VectorXd>(J.data(), J.size())));
        for (auto& x : w.v)
            if (hexv(v0[x.first]) != hexv(x.second->value())) bad("C07", "values", "evaluation (" + k + ") changed a variable");
        if (want("C07") && s0 != struct_state()) bad("C07", "structure", "evaluation changed the graph structure");
        if (!o.ok && !fired.any) {
            Ref q = reference(false);
            if (q.ok) bad("C01", "refused", "evaluation (" + k + ") of a finalized graph failed: " + o.what);
            return;
        }
        if (o.ok && k != "r2") { if (got_r) acc_r = true; if (got_j) acc_j = true; if (got_s) acc_s = true; }
        // compute_full_jacobian_and_residual may have cached one half before the other failed; the optimizer also evaluates
        if (k == "b" || k == "j") know_j = o.ok;
        if (k == "b" || k == "r") know_r = o.ok;
        if (k == "s") know_s = o.ok;
        if (o.ok && got_j) last_j = J;
        if (o.ok && got_s) last_s = J;
        if (o.ok && got_r && k != "r2") last_r = r;
        if (!o.ok && fired.any) { if (k == "b" || k == "j") acc_j = true; if (k == "b" || k == "r") acc_r = true; if (k == "s") acc_s = true; }
        if (!o.ok || fired.nan) return;
        if (!want("C01") && !want("C02") && !want("C06")) return;
        const char *P = want("C02") ? "C02" : want("C06") ? "C06" : "C01";
        for (int fresh = 0; fresh < 2; fresh++) {
            if (fresh && !benign()) continue;
            Ref q = reference(fresh);
            if (!q.ok) { st.probes["reference-unavailable"]++; return; }
            double tol = fresh ? 1e-5 : 1e-9;
            st.compares++;
            if (got_r && !same_r(r, q, tol)) { bad(P, "residual", "residual (" + k + ") differs from the factors' own residuals" + (fresh ? " at the variables' values" : "")); return; }
            if (got_j && !same_j(J, q, tol)) { bad(P, "jacobian", "dense Jacobian differs from the factors' own blocks" + std::string(fresh ? " at the variables' values" : "")); return; }
            if (got_s && !same_j(J, q, tol)) { bad(P, "sparse", "sparse Jacobian differs from the factors' own blocks" + std::string(fresh ? " at the variables' values" : "")); return; }
        }
    }
    void Exec::do_dirty(const Op& op)
    {
        int hh = int(ival(op, 1));
        if (!w.f.count(hh)) return;
        Rng r{uint64_t(ival(op, 2))};
        FacP f = w.f[hh];
        if (auto q = dynamic_cast<SimFactor *>(f.get())) f = q->inner;
        size_t nv = f->variables().size();
        int n = f->residual_size();
        int mode = int(r.below(5));
        std::vector<MatrixXd> J;
        if (mode == 1) J.assign(nv, MatrixXd::Constant(n, 3, std::nan("")));
        if (mode == 2) J.assign(nv, MatrixXd::Constant(n + 2, 7, 11.5));
        if (mode == 3) J.assign(nv + 3, MatrixXd::Constant(1, 1, -3));
        if (mode == 4) J.assign(nv > 1 ? r.range(1, int(nv) - 1) : 1, MatrixXd());
        VectorXd res = VectorXd::Constant(n, r.p(0.5) ? std::nan("") : 1e9), r1;
        auto v0 = snap();
        Outcome o = call([&] { f->compute_jacobians(J); f->compute_residual(res); r1 = f->compute_residual(); });
        event(join(op) + " -> " + o.kind);
        for (auto& x : w.v) if (hexv(v0[x.first]) != hexv(x.second->value())) { bad("C09", "values", "a const factor call changed a variable"); bad("C07", "values", "a const factor call changed a variable"); }
        if (!o.ok) return;
        std::vector<Variable *> p;
        std::vector<VarP> own;
        for (int hv : fs[hh].v) { own.push_back(copy_var(vs[hv], w.v[hv])); p.push_back(own.back().get()); }
        std::vector<MatrixXd> K;
        VectorXd r2;
        try { FacP g = make_factor(fs[hh], p); g->compute_jacobians(K); r2 = g->compute_residual(); } catch (...) { return; }
        st.compares++;
        const char *P = want("C01") ? "C01" : "C09";
        if (!close(res, r2, 1e-9) || !close(r1, r2, 1e-9)) bad(P, "residual-buffer", fs[hh].kind + ": residual depends on the output buffer or on earlier calls");
        if (J.size() != nv || K.size() != nv) { bad(P, "jacobian-count", fs[hh].kind + ": compute_jacobians returned " + std::to_string(J.size()) + "/" + std::to_string(K.size()) + " blocks for " + std::to_string(nv) + " variables"); return; }
        for (size_t i = 0; i < nv; i++) {
            if (p[i]->is_constant() && K[i].size() == 0 && J[i].size() == 0) continue;
            if (!close(J[i], K[i], 1e-9)) { bad(P, "jacobian-buffer", fs[hh].kind + ": Jacobian block " + std::to_string(i) + " depends on the caller's buffers"); return; }
        }
    }
    void Exec::do_obs(const Op& op)
    {
        const std::string& k = sval(op, 1);
        if (pending_const && fin_ok) return;
        if (!fin_ok && k != "pvars" && k != "look") return;
        int hh = int(ival(op, 2));
        if ((k == "numjac" || k == "fname") && !w.f.count(hh)) return;
        if (k == "numjac") {
            // a factor reading an infinite or degenerate state is not a useful observation
            for (int hv : fs[hh].v) if (!w.v[hv]->value().allFinite()) return;
        }
        // Eigen's JacobiSVD destroys its parts twice when an allocation inside its constructor fails: a defect of Eigen
        if (k == "pjac" || k == "pjacd")
            pend.erase(std::remove_if(pend.begin(), pend.end(), [](const auto& p) { return p.kind == "alloc" || p.kind == "allocs"; }), pend.end());
        auto v0 = snap();
        auto d0 = snap_derived();
        std::string s0 = struct_state();
        auto f = [&](World& W) {
            if (k == "pstruct") W.g->print_structure();
            else if (k == "pvars") W.g->print_variables();
            else if (k == "pjac") W.g->print_jacobian_and_residual(false);
            else if (k == "pjacd") W.g->print_jacobian_and_residual(true);
            else if (k == "dft") (void)W.g->detailed_factor_test(1e-5, ival(op, 2) != 0);
            else if (k == "numjac") {
                std::vector<MatrixXd> J;
                ComputeNumericalJacobians(*W.f[hh], J);
            } else if (k == "fname") { (void)W.f[hh]->name(); (void)W.f[hh]->type(); (void)W.f[hh]->variables(); }
            else if (k == "look") {
                for (auto& x : W.v) { (void)W.g->get_variable(x.second->id()); (void)x.second->name(); bool b; (void)W.g->variable_placement(x.second->id(), b); auto c = x.second->clone(); }
                (void)W.g->get_variables_of_type<PoseVariable>();
            }
        };
        resolve(f);
        Outcome o = call([&] { f(w); });
        event_vals(join(op) + " -> " + o.kind);
        { Hash q; q.str("obs " + k); q.str(o.kind); for (auto& x : cb.faults) if (x.fired) { q.u64(x.kind); q.u64(x.act); } st.states.insert(q.h); }
        st.compares++;
        if (fired.any) st.probes["observation-faulted"]++;
        auto v1 = snap();
        for (auto& x : v1) {
            double d = val_diff(vs[x.first], x.second, v0[x.first]);
            if (d > 1e-11) { bad("C07", "values", k + " (" + o.kind + ") moved h" + std::to_string(x.first) + " by " + num(d)); break; }
        }
        for (auto& x : snap_derived())
            if (x.second[x.second.size() - 2] != d0[x.first][x.second.size() - 2]) bad("C07", "constness", k + " changed a constness flag");
        if (s0 != struct_state()) bad("C07", "structure", k + " changed the graph structure");
        check_structure("C07", k);
        if (!o.ok && !fired.any) {
            bad("C11", "exception", k + " failed: " + o.kind + " " + o.what);
            if (reference(false).ok) bad("C07", "exception", k + " failed without a fault: " + o.what);
        }
        if (k == "pjac" || k == "pjacd") acc_j = acc_r = true;
        if (k == "pjac" || k == "pjacd" || k == "dft") know_j = know_r = know_s = false;
        if ((k == "pjac" || k == "pjacd") && o.ok && !fired.any && want("C07")) {
            // what printing leaves cached must still be the truth
            Ref q = reference(false);
            if (q.ok && w.g->jacobian_valid() && !same_j(w.g->jacobian(), q, 1e-12)) bad("C07", "cached-jacobian", k + " left another Jacobian in the cache");
            if (q.ok && w.g->residual_valid() && !same_r(w.g->residual(), q, 1e-11)) bad("C07", "cached-residual", k + " left another residual in the cache");
        }
    }
    void Exec::do_bad(const Op& op)
    {
        const std::string& k = sval(op, 1);
        if (pending_const && fin_ok) return;
        int hh = int(ival(op, 2));
        Rng r{uint64_t(ival(op, 3))};
        auto v0 = snap();
        auto d0 = snap_derived();
        std::string s0 = struct_state();
        OptimizerStats c0 = w.o->current_stats_, i0 = w.o->initial_stats_;
        bool must_throw = true, cov = false, skip = false;
        bool valid = true;
        auto wrong = [&](int n) { int m; do m = int(r.below(uint64_t(n + 4))); while (m == n); return m; };
        int n = w.v.count(hh) ? (int)w.v[hh]->value().size() : 0;
        int gn = w.g->num_values();
        VectorXd x;
        if (k == "inc" || k == "set") { if (!n) skip = true; else x = VectorXd::Constant(wrong(n), 0.25); }
        if (k == "ginc" || k == "gset") {
            x = VectorXd::Constant(wrong(gn), 0.25);
            if (k == "gset" && !fin_ok) skip = true;
        }
        if (k == "eval" && fin_ok) skip = true;
        if (k == "accessor" && (acc_j || acc_r || acc_s)) skip = true;
        if (k == "pstruct" && fin_ok) skip = true;
        if (skip) return;
        Outcome o = call([&] {
            if (k == "nullv") w.g->add_variable(VarP());
            else if (k == "nullf") w.g->add_factor(FacP());
            else if (k == "dupv") { if (av.empty()) throw std::runtime_error("n/a"); w.g->add_variable(w.v[av[size_t(hh) % av.size()]]); }
            else if (k == "dupf") { if (af.empty()) throw std::runtime_error("n/a"); w.g->add_factor(w.f[af[size_t(hh) % af.size()]]); }
            else if (k == "inc") w.v[hh]->apply_increment(x);
            else if (k == "set") w.v[hh]->set_value_from_vector(x);
            else if (k == "ginc") w.g->apply_increment(x);
            else if (k == "gset") w.g->set_variable_values_from_vector(x);
            else if (k == "eval") {
                switch (r.below(5)) {
                case 0: (void)w.g->compute_full_residual_vector(); break;
                case 1: (void)w.g->compute_full_jacobian_matrix(); break;
                case 2: (void)w.g->compute_sparse_jacobian_matrix(); break;
                case 3: w.g->compute_full_jacobian_and_residual(); break;
                default: (void)w.g->detailed_factor_test(1e-4); break;
                }
            } else if (k == "accessor") {
                switch (r.below(3)) {
                case 0: (void)w.g->jacobian(); break;
                case 1: (void)w.g->residual(); break;
                default: (void)w.g->sparse_jacobian(); break;
                }
            } else if (k == "pstruct") w.g->print_structure();
            else if (k == "noopt") {
                SparseOptimizer q;
                if (r.p(0.5)) q.setup(nullptr, OptimizerSettings());
                q.optimize();
            } else if (k == "covnull") { cov = true; (void)w.o->estimate_covariance(nullptr, valid); }
            else if (k == "covnew") { cov = true; SparseOptimizer q; if (has_setup && r.p(0.5)) q.setup(w.g, set); if (r.p(0.5)) q.prepare_to_estimate_covariances(); if (w.v.empty()) valid = false; else (void)q.estimate_covariance(w.v.begin()->second.get(), valid); }
            else if (k == "covconst") {
                cov = true;
                valid = false;
                for (auto& q : w.v) if (q.second->is_constant()) (void)w.o->estimate_covariance(q.second.get(), valid);
            } else if (k == "covforeign") {
                cov = true;
                valid = false;
                for (auto& q : w.v) {
                    bool in = false;
                    for (int a : av) if (w.v[a]->id() == q.second->id()) in = true;
                    if (!in) (void)w.o->estimate_covariance(q.second.get(), valid);
                }
            } else if (k == "gempty") GenericVariable q(0, VectorXd());
            else must_throw = false;
        });
        event_vals(join(op) + " -> " + o.kind + (cov ? (valid ? " valid" : " invalid") : ""));
        { Hash q; q.str("bad " + k); q.str(o.kind); q.u64(fin_ok); q.u64(has_setup); st.states.insert(q.h); }
        st.compares++;
        if (cov) {
            if (o.ok && valid) bad("C14", k, "malformed covariance request (" + k + ") reported valid");
        } else if (must_throw && o.ok) bad("C14", k, "malformed call (" + join(op) + ") was not rejected");
        for (auto& q : w.v)
            if (hexv(v0[q.first]) != hexv(q.second->value()) || hexv(d0[q.first]) != hexv(derived_state(vs[q.first], q.second))) {
                bad("C14", "values", "malformed call (" + join(op) + ") changed h" + std::to_string(q.first));
                break;
            }
        if (s0 != struct_state()) bad("C14", "structure", "malformed call (" + join(op) + ") changed the graph structure");
        check_structure("C14", join(op));
        if (!stats_diff(c0, w.o->current_stats_).empty() || !stats_diff(i0, w.o->initial_stats_).empty()) bad("C14", "optimizer", "malformed call (" + join(op) + ") changed the optimizer statistics");
    }
    void Exec::do_clone(const Op& op)
    {
        int hh = int(ival(op, 1));
        if (!w.v.count(hh)) return;
        const VarSpec& s = vs[hh];
        VarP a = w.v[hh], c;
        VectorXd v0 = a->value(), d0 = derived_state(s, a);
        Outcome o = call([&] { c = a->clone(); });
        event(join(op) + " -> " + o.kind);
        if (hexv(v0) != hexv(a->value()) || hexv(d0) != hexv(derived_state(s, a))) { bad("C16", "clone", "clone() changed its original"); bad("C07", "values", "clone() changed its original"); }
        if (!o.ok || !c) { if (!fired.any) bad("C16", "clone", "clone() failed"); return; }
        st.compares++;
        if (c.get() == a.get()) { bad("C16", "clone", "clone() returned the original"); return; }
        if (c->type() != a->type() || c->id() != a->id() || c->is_constant() != a->is_constant() || c->size() != a->size()) { bad("C16", "clone", "clone of " + a->name() + " differs in type, id, constness or size"); return; }
        bool tyok = true;
        switch (s.kind) {
        case 'P': tyok = dynamic_cast<PoseVariable *>(c.get()); break;
        case 'L': tyok = dynamic_cast<LandmarkVariable *>(c.get()); break;
        case 'G': tyok = dynamic_cast<GenericVariable *>(c.get()); break;
        case 'I': tyok = dynamic_cast<InverseRangeVariable *>(c.get()); break;
        case 'R': tyok = dynamic_cast<RotationVariable *>(c.get()); break;
        case 'A': tyok = dynamic_cast<PlaneVariable *>(c.get()); break;
        case 'D': tyok = dynamic_cast<Pose2DVariable *>(c.get()); break;
        }
        if (!tyok) { bad("C16", "clone", "clone of " + a->name() + " has another class"); return; }
        if (hexv(c->value()) != hexv(v0) || hexv(derived_state(s, c)) != hexv(d0)) { bad("C16", "clone", "clone of " + a->name() + " differs in value or derived state"); return; }
        if (s.kind == 'P' && v0.allFinite()) { // rebuilt from its own position and rotation matrix
            VarP q;
            auto& pv = static_cast<PoseVariable&>(*a);
            Outcome o2 = call([&] { q = std::make_shared<PoseVariable>(s.id, pv.pos_W(), pv.dcm_CW()); });
            if (!o2.ok) { if (!fired.any) bad("C16", "rebuilt", "a pose could not be built from the position and rotation matrix of another: " + o2.what); return; }
            std::string e = incoherent(s, q);
            if (!e.empty()) bad("C16", "rebuilt", "a pose built from a position and rotation matrix: " + e);
            if ((q->value().head(3) - v0.head(3)).cwiseAbs().maxCoeff() > 0 || (static_cast<PoseVariable&>(*q).dcm_CW() - pv.dcm_CW()).cwiseAbs().maxCoeff() > 3e-8 || q->id() != s.id || q->is_constant())
                bad("C16", "rebuilt", "a pose built from the position and rotation matrix of another is not the same pose");
        }
        auto keep = t_cb;
        t_cb = nullptr;
        Rng r{uint64_t(ival(op, 2))};
        VectorXd dx(v0.size());
        for (int i = 0; i < dx.size(); i++) dx[i] = 0.2 * r.uni(-1, 1);
        VarP b = copy_var(s, a);
        { Sut q; c->apply_increment(dx); b->apply_increment(dx); }
        if (hexv(c->value()) != hexv(b->value()) || hexv(derived_state(s, c)) != hexv(derived_state(s, b))) bad("C16", "clone", "clone of " + a->name() + " behaves differently from its original");
        if (hexv(a->value()) != hexv(v0) || hexv(derived_state(s, a)) != hexv(d0)) bad("C16", "clone", "writing a clone changed its original");
        VectorXd cv = c->value(), cd = derived_state(s, c);
        { Sut q; VarP a2 = c->clone(); a2->set_constant(!a2->is_constant()); a2->set_value_from_vector(v0); }
        if (hexv(c->value()) != hexv(cv) || hexv(derived_state(s, c)) != hexv(cd)) bad("C16", "clone", "clones share state");
        std::string e = incoherent(s, c);
        if (!e.empty()) bad("C16", "clone", "clone: " + e);
        t_cb = keep;
    }
    void Exec::do_sw(const Op& op)
    {
        const std::string& k = sval(op, 1);
        int64_t d = strtoll(sval(op, 2).c_str(), nullptr, 10);
        int mode0 = g_clock.mode;
        g_clock.mode = 1; // only explicit movement
        double got = 0;
        bool read = false;
        if (k == "adv") { g_clock.mono += d; g_clock.wall += d; st.sim_ns += d; }
        else if (k == "jump") { g_clock.wall += d; st.fired["clock-jump"]++; }
        else {
            Outcome o = call([&] {
                if (k == "start") sw.start();
                else if (k == "stop") sw.stop();
                else if (k == "reset") sw.reset();
                else { got = sw.elapsed(); read = true; }
            });
            if (!o.ok) bad("C10", "exception", "Stopwatch call failed");
        }
        int64_t now = g_clock.mono;
        if (k == "start" && !sw_run) { sw_run = true; sw_start = now; }
        if (k == "stop" && sw_run) { sw_run = false; sw_acc += double(now - sw_start) * 1e-9; }
        if (k == "reset") { sw_run = false; sw_acc = 0; sw_last = 0; }
        if (read) {
            double want_t = sw_acc + (sw_run ? double(now - sw_start) * 1e-9 : 0);
            st.compares++;
            if (std::fabs(got - want_t) > 1e-9 + 1e-9 * want_t) bad("C10", "elapsed", "elapsed() is " + num(got) + "s, monotonic time measured is " + num(want_t) + "s");
            if (got < 0) bad("C10", "negative", "elapsed() is negative: " + num(got));
            if (got < sw_last - 1e-12) bad("C10", "decreasing", "elapsed() fell from " + num(sw_last) + " to " + num(got));
            sw_last = got;
        }
        g_clock.mode = mode0;
        event(join(op) + " " + num(got));
    }
} // namespace sim
