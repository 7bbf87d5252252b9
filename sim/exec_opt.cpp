#include "exec.h"
#include "exec_util.h"
#include <cmath>
#include <cstring>
#include <typeinfo>

namespace sim
{
    OptRun Exec::twin_run(int maxit, bool remap, bool covs)
    {
        OptRun R;
        World t = copy_world(remap);
        OptimizerSettings s = set;
        s.verbose = false;
        if (maxit >= 0) s.max_num_iterations = size_t(maxit);
        CbState c;
        c.on = true;
        auto keep = t_cb;
        t_cb = &c;
        uint64_t f0 = g_fill_mode, fs0 = g_fill_seed;
        Clock ck = g_clock;
        if (remap) {
            g_fill_mode = f0 == 2 ? 1 : 2;
            g_fill_seed = fs0 + 17;
            g_clock.seed += 99;
            g_clock.mode = (g_clock.mode + 1) % 4;
            // unrelated earlier work in the same process
            World u = copy_world(false);
            try {
                Sut q;
                SparseOptimizer other;
                OptimizerSettings os;
                os.method = OptimizerMethod::LevenbergMarquardt;
                os.max_num_iterations = 2;
                u.g->compute_full_jacobian_and_residual();
                other.setup(u.g, os);
                other.optimize();
            } catch (...) {}
        }
        int sut = g_sut;
        try {
            Sut q;
            t.o->setup(t.g, s);
            t.o->optimize();
        } catch (...) {
            R.out.ok = false;
            R.out.kind = "throw";
        }
        g_sut = sut;
        for (auto& x : t.v) R.val[x.first] = x.second->value();
        R.cur = t.o->current_stats_;
        R.init = t.o->initial_stats_;
        if (covs && R.out.ok) {
            try {
                Sut q;
                t.o->prepare_to_estimate_covariances();
                for (int a : av) {
                    bool ok = false;
                    MatrixXd P = t.o->estimate_covariance(t.v[a].get(), ok);
                    R.cov.push_back(ok ? P : MatrixXd());
                }
            } catch (...) {}
            g_sut = sut;
        }
        for (int i = 0; i < CB_N; i++) R.count[i] = c.count[i];
        t_cb = keep;
        g_fill_mode = f0;
        g_fill_seed = fs0;
        g_clock = ck;
        return R;
    }
    static double parse_after(const std::string& s, const std::string& key, bool& ok)
    {
        ok = false;
        size_t p = s.rfind(key);
        if (p == std::string::npos) return 0;
        const char *c = s.c_str() + p + key.size();
        char *e;
        double d = strtod(c, &e);
        ok = e != c;
        return d;
    }
    // C21: every step against a dense executable model of the method, each taken from the values before it
    void Exec::check_steps(const std::vector<OptRun>& X, const std::map<int, VectorXd>& v1, const OptimizerStats& cur)
    {
        const bool lm = set.method == OptimizerMethod::LevenbergMarquardt;
        const int n = cur.current_iteration;
        if (n < 0 || n >= int(X.size())) return;
        double lam = lm ? set.initial_lambda : 0;
        auto moved = [&](const std::map<int, VectorXd>& from, const VectorXd& dx) {
            std::map<int, VectorXd> to = from;
            for (auto& q : off) {
                VarP v = fresh_var(vs[q.first], from.at(q.first), false);
                v->apply_increment(dx.segment(q.second, from.at(q.first).size()));
                to[q.first] = v->value();
            }
            return to;
        };
        auto dist = [&](const std::map<int, VectorXd>& a, const std::map<int, VectorXd>& b, int *who) {
            double d = 0;
            for (auto& x : a) { double e = val_diff(vs[x.first], x.second, b.at(x.first)); if (!(e <= d)) { d = e; *who = x.first; } }
            return d;
        };
        for (int k = 1; k <= n + 1; k++) {
            if (!X[k - 1].out.ok || X[k - 1].cur.current_iteration != k - 1) return;
            const std::map<int, VectorXd>& prev = k - 1 == n ? v1 : X[k - 1].val;
            for (auto& x : prev) if (!x.second.allFinite()) return;
            Ref G = reference(false, &prev);
            if (!G.ok || !std::isfinite(G.cost) || !G.J.allFinite() || G.J.cols() == 0) return;
            const MatrixXd H = G.J.transpose() * G.J;
            const VectorXd g = G.J.transpose() * G.r;
            Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
            const VectorXd ev = es.eigenvalues(), gq = es.eigenvectors().transpose() * g;
            auto sound = [&](double l) { double lo = ev.minCoeff() + l, hi = ev.maxCoeff() + l; return lo > 1e-8 && hi / lo < 1e7; };
            auto step = [&](double l) { return VectorXd(-set.learning_rate * (es.eigenvectors() * (gq.array() / (ev.array() + l)).matrix())); };
            if (k == n + 1) { // the run ended here
                const bool failed = cur.status == OptimizerStatus::SINGULAR_HESSIAN || cur.status == OptimizerStatus::ILL_CONDITIONED || cur.status == OptimizerStatus::FAILED;
                if (!failed || n >= int(set.max_num_iterations) || !sound(lam)) return;
                std::map<int, VectorXd> next = moved(prev, step(lam));
                for (auto& x : next) if (!x.second.allFinite()) return;
                Ref N = reference(false, &next);
                if (!N.ok || !std::isfinite(N.cost) || N.cost > 1e100) return;
                st.probes["model-refused"]++;
                bad("C21", "refused", "status " + std::to_string(int(cur.status)) + " after " + std::to_string(n) + " steps although the problem is well conditioned there (eigenvalues " + num(ev.minCoeff()) + " to " + num(ev.maxCoeff()) + ") and the next step is possible");
                return;
            }
            const std::map<int, VectorXd>& got = k == n ? v1 : X[k].val;
            if (X.size() <= size_t(k) || !X[k].out.ok || X[k].cur.current_iteration != k) return;
            std::map<int, VectorXd> want_v;
            double dn = 0;
            if (!lm) {
                if (!sound(0)) return;
                VectorXd dx = step(0);
                dn = dx.norm();
                want_v = moved(prev, dx);
            } else {
                bool acc = false;
                for (int a = 0; a < 5 && !acc; a++) {
                    if (!sound(lam)) return;
                    VectorXd dx = step(lam);
                    if (!dx.allFinite()) return;
                    dn = dx.norm();
                    want_v = moved(prev, dx);
                    Ref N = reference(false, &want_v);
                    if (!N.ok || !std::isfinite(N.cost) || std::fabs(N.cost - G.cost) <= 1e-6 * G.cost + 1e-16) return;
                    if (N.cost < G.cost) { acc = true; lam = std::max(lam * set.lambda_down_factor, 1e-12); }
                    else {
                        lam = std::min(lam * set.lambda_up_factor, set.max_lambda);
                        if (lam >= set.max_lambda) break;
                    }
                }
                if (!acc) { want_v = prev; dn = 0; }
                st.probes[acc ? "model-lm-accepted" : "model-lm-rejected"]++;
            }
            if (!lm) st.probes["model-gn"]++;
            st.compares++;
            int who = -1;
            double d = dist(got, want_v, &who);
            if (!(d <= 1e-6 * (1 + dn))) {
                bad("C21", "step", "step " + std::to_string(k) + " (" + (lm ? "LM" : "GN") + ") left h" + std::to_string(who) + " " + num(d) + " away from where the method's definition puts it (step " + num(dn) + ")");
                return;
            }
            const OptimizerStats& sk = k == n ? cur : X[k].cur;
            if (std::fabs(sk.delta_norm - dn) > 1e-5 * (1e-4 + dn)) { bad("C21", "delta-norm", "delta_norm after step " + std::to_string(k) + " is " + num(sk.delta_norm) + ", the step is " + num(dn)); return; }
            if (lm && std::fabs(sk.damping_parameter - lam) > 1e-9 * lam) { bad("C21", "damping", "damping_parameter after step " + std::to_string(k) + " is " + num(sk.damping_parameter) + ", by the settings " + num(lam)); return; }
            if (dn == 0) return;
        }
    }
    // did the library itself write to stdout? (a factor's own warning about its residual is not logging)
    static bool chatter(size_t from)
    {
        const std::string warn = "Warning: ";
        for (size_t i = from; i < g_streams.out.size();) {
            size_t e = std::min(g_streams.out.find('\n', i), g_streams.out.size());
            std::string line = g_streams.out.substr(i, e - i);
            if (!line.empty() && line.compare(0, warn.size(), warn, 0, line.size() < warn.size() ? line.size() : warn.size())) return true;
            i = e + 1;
        }
        return false;
    }
    void Exec::do_opt(const Op& op)
    {
        if (pending_const && fin_ok) return;
        auto v0 = snap();
        opt_done = cov_avail = false;
        if (!fin_ok || !has_setup) {
            Outcome o = call([&] { w.o->optimize(); });
            event_vals("opt not-ready -> " + o.kind);
            if (o.ok) bad(has_setup ? "C02" : "C14", "optimize-unready", std::string("optimize() ran ") + (has_setup ? "on a graph without a successful finalize_structure()" : "without setup()"));
            if (o.ok && has_setup) bad("C14", "optimize-unready", "optimize() ran on a graph without a successful finalize_structure()");
            for (auto& x : w.v)
                if (hexv(v0[x.first]) != hexv(x.second->value())) { bad("C14", "values", "a refused optimize() changed values"); bad("C02", "values", "a refused optimize() changed values"); }
            if (o.ok) cov_known = false;
            return;
        }
        const bool lm = set.method == OptimizerMethod::LevenbergMarquardt;
        const int maxit = int(set.max_num_iterations);
        const bool plain = sval(op, 1) == "plain"; // without the iterate-by-iterate reference
        Ref E = reference(false);
        bool finite0 = E.ok && std::isfinite(E.cost);
        for (auto& x : v0) if (!x.second.allFinite()) finite0 = false;
        bool series = (want("C03") || want("C04") || want("C05") || want("C21")) && maxit <= 16 && !plain;
        bool exact = want("C12") || want("C18") || want("C11") || want("C10") || want("C07") || want("C05") || (want("C06") && toggled) || (want("C02") && edit_failed);
        std::vector<OptRun> X;
        if (series)
            for (int k = 0; k <= maxit; k++) {
                X.push_back(twin_run(k, false, false));
                if (!X.back().out.ok) break;
                if (X.back().cur.current_iteration < k) break;
            }
        OptRun T;
        if (exact) T = twin_run(-1, want("C18"), want("C18"));
        resolve([](World& W) { W.o->optimize(); });
        std::map<int, std::pair<uint64_t, uint64_t>> n0;
        for (int a : af)
            if (auto q = dynamic_cast<SimFactor *>(w.f[a].get())) n0[a] = {q->n_res, q->n_jac};
        int64_t mono0 = g_clock.mono;
        size_t outpos = g_streams.out.size();
        Outcome o = call([&] { w.o->optimize(); });
        int64_t dur = g_clock.mono - mono0;
        const OptimizerStats cur = w.o->current_stats_, ini = w.o->initial_stats_;
        event_vals("opt -> " + o.kind + " st" + std::to_string(int(cur.status)) + (cur.valid ? "v" : "i") + " it" + std::to_string(cur.current_iteration));
        event(hexv((VectorXd(4) << cur.chi2, cur.residual_norm, ini.chi2, cur.delta_norm).finished()));
        { Hash q; q.str("opt"); q.u64(lm); q.u64(uint64_t(cur.status)); q.u64(uint64_t(cur.current_iteration)); q.str(o.kind); for (auto& x : cb.faults) if (x.fired) { q.u64(x.kind); q.u64(x.act); } q.u64(fired.alloc); st.states.insert(q.h); }
        st.probes["optimize"]++;
        st.probes[std::string("status-") + std::to_string(int(cur.status)) + (lm ? "-lm" : "-gn")]++;
        acc_r = acc_s = true;
        know_j = know_s = know_r = false;
        cov_known = false;
        cov_any = true;
        if (record_only) return;
        auto v1 = snap();
        // a run that fails by itself takes its last step back; a fault in that very write is the second one
        for (auto& q : cb.faults)
            if (q.fired && q.kind == CB_SET && !fired.undo && (want("C03") || want("C04") || want("C05"))) {
                World t = copy_world();
                for (auto& y : t.v) if (!y.second->is_constant()) { auto kc = t_cb; t_cb = nullptr; y.second->set_value_from_vector(v0[y.first]); t_cb = kc; }
                auto kc = t_cb;
                t_cb = nullptr;
                SparseOptimizer so;
                OptimizerSettings ss = set;
                ss.verbose = false;
                try { Sut z; so.setup(t.g, ss); so.optimize(); } catch (...) {}
                g_sut = 0;
                t_cb = kc;
                if (so.current_stats_.status == OptimizerStatus::FAILED) fired.undo = true;
                break;
            }
        Ref F = reference(false);
        auto far = [&](const std::map<int, VectorXd>& a, const std::map<int, VectorXd>& b) {
            double d = 0;
            for (auto& x : a) d = std::max(d, val_diff(vs[x.first], x.second, b.at(x.first)));
            return d;
        };
        auto bits = [&](const std::map<int, VectorXd>& a, const std::map<int, VectorXd>& b) {
            for (auto& x : a) if (hexv(x.second) != hexv(b.at(x.first))) return false;
            return true;
        };
        if (fired.any) st.probes[o.ok ? "optimize-fault-returned" : "optimize-fault-propagated"]++;
        // --- reference covariance for a following estimate
        {
            cov_known = false;
            cov_cond_ok = false;
            cov_prepped = false;
            opt_done = o.ok && !fired.any && cur.status == OptimizerStatus::SUCCESS;
            if (want("C13") && F.ok && F.J.allFinite() && cols > 0) {
                Eigen::MatrixXd H = F.J.transpose() * F.J;
                Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
                double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff();
                if (lo > 0 && hi / lo < 1e8) { cov_cond_ok = true; cov_inv = {H.inverse()}; cov_off = off; }
                cov_known = true;
                cov_rev = struct_rev;
            }
        }
        // --- C03
        if (want("C03")) {
            st.compares++;
            for (auto& x : v1)
                for (int i = 0; i < x.second.size(); i++)
                    if (!std::isfinite(x.second[i]) && std::isfinite(v0[x.first][i])) { bad("C03", "nonfinite", "optimize() left a non-finite value in h" + std::to_string(x.first)); return; }
            if (fired.any && o.ok) {
                bool okst = cur.status == OptimizerStatus::SUCCESS || cur.status == OptimizerStatus::RUNNING || cur.valid;
                if (fired.thr && okst) bad("C03", "status", "a callback threw, optimize() returned and reports status " + std::to_string(int(cur.status)) + " valid=" + std::to_string(cur.valid));
                if (fired.alloc && !fired.thr && okst && !fired.nan && !(!X.empty() && far(v1, X.back().val) <= 1e-9))
                    bad("C03", "status", "an allocation failed, optimize() returned status " + std::to_string(int(cur.status)) + " valid=" + std::to_string(cur.valid) + " with values of an incomplete run");
                if (fired.nan && cur.status == OptimizerStatus::SUCCESS) {
                    if (!std::isfinite(cur.chi2) || !F.ok || !std::isfinite(F.cost)) bad("C03", "nonfinite-success", "SUCCESS with a non-finite cost");
                }
            }
            if (finite0 && !fired.undo && !fired.nan && series && !X.empty() && X.back().out.ok) {
                double best = HUGE_VAL;
                for (auto& x : X) best = std::min(best, far(v1, x.val));
                if (best > 1e-8)
                    bad("C03", "partial", std::string(fired.any ? "after the fault" : "without a fault") + " the values are not those of any complete iterate (distance " + num(best) + ", outcome " + o.kind + ")");
            }
            if (finite0 && !fired.undo && fired.nan && !fired.thr && !fired.alloc && !lm && series && !X.empty() && X.back().out.ok && std::isfinite(ini.chi2)) {
                double best = HUGE_VAL;
                for (auto& x : X) best = std::min(best, far(v1, x.val));
                if (best > 1e-8) bad("C03", "partial", "after a non-finite evaluation the values are not those of any complete iterate (distance " + num(best) + ")");
            }
        }
        // --- C04
        if (want("C04") && lm && finite0 && !fired.undo) {
            st.compares++;
            double ce = E.cost, cf = F.ok ? F.cost : std::nan("");
            if (!(cf <= ce * (1 + 1e-9) + 1e-18)) bad("C04", "worse", "cost rose from " + num(ce) + " to " + num(cf) + " (" + o.kind + ", status " + std::to_string(int(cur.status)) + ")");
            else if (!(cf < ce)) {
                double d = far(v1, v0);
                // (a later iteration may have accepted a gain of one rounding, and lost it again in a round trip)
                if (d > (cur.chi2 == ini.chi2 && o.ok && cur.current_iteration <= 1 ? 1e-11 : 1e-6)) bad("C04", "rollback", "no step lowered the cost, yet the values moved by " + num(d));
            }
            if (series) {
                auto keep = snap();
                double last = ce;
                for (size_t k = 0; k < X.size(); k++) {
                    World t = copy_world();
                    auto kc = t_cb;
                    t_cb = nullptr;
                    for (auto& x : t.v)
                        if (!x.second->is_constant()) x.second->set_value_from_vector(X[k].val[x.first]);
                    double c = 0;
                    try { c = t.g->compute_full_residual_vector().squaredNorm(); } catch (...) { c = last; }
                    t_cb = kc;
                    if (k > 0 && X[k].out.ok && X[k].cur.chi2 == X[k - 1].cur.chi2 && X[k].cur.delta_norm == 0 && !(c < last)) {
                        double d = far(X[k].val, X[k - 1].val);
                        if (d > 1e-11) { bad("C04", "rollback", "iteration " + std::to_string(k) + " accepted no step, yet the values moved by " + num(d)); break; }
                    }
                    if (!(c <= last * (1 + 1e-7) + 1e-16)) { bad("C04", "not-monotone", "cost rises from " + num(last) + " to " + num(c) + " at iteration " + std::to_string(k)); break; }
                    last = c;
                }
            }
        }
        // --- C05
        if (want("C05") && o.ok && F.ok && E.ok && !fired.undo) {
            st.compares++;
            auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-7 * (1e-9 + std::fabs(b)) || (!std::isfinite(a) && !std::isfinite(b)); };
            int S = int(cur.status);
            if (cur.status == OptimizerStatus::RUNNING) bad("C05", "running", "status RUNNING after optimize() returned");
            if (cur.status == OptimizerStatus::SUCCESS && (!cur.valid || !std::isfinite(cur.chi2) || !std::isfinite(cur.residual_norm)))
                bad("C05", "success-invalid", "SUCCESS with valid=" + std::to_string(cur.valid) + " chi2=" + num(cur.chi2));
            if ((cur.status == OptimizerStatus::FAILED || cur.status == OptimizerStatus::SINGULAR_HESSIAN || cur.status == OptimizerStatus::ILL_CONDITIONED) && cur.valid)
                bad("C05", "failed-valid", "status " + std::to_string(S) + " with valid=true");
            if (cur.status == OptimizerStatus::DIVERGED && finite0 && F.cost < E.cost * (1 - 1e-7) && !fired.nan) bad("C05", "diverged", "DIVERGED although the cost fell from " + num(E.cost) + " to " + num(F.cost));
            if (!(fired.nan && cur.status != OptimizerStatus::SUCCESS)) {
                if (!near(cur.chi2, F.cost) && std::fabs(cur.chi2 - F.cost) > 1e-13) bad("C05", "chi2", "current_stats_.chi2 is " + num(cur.chi2) + ", the residual at the final values gives " + num(F.cost));
                if (!near(cur.residual_norm, std::sqrt(F.cost)) && std::fabs(cur.residual_norm - std::sqrt(F.cost)) > 1e-7) bad("C05", "residual-norm", "residual_norm is " + num(cur.residual_norm) + ", expected " + num(std::sqrt(F.cost)));
            }
            if (!fired.nan && (!near(ini.chi2, E.cost) && std::fabs(ini.chi2 - E.cost) > 1e-13)) bad("C05", "initial", "initial_stats_.chi2 is " + num(ini.chi2) + ", entry gives " + num(E.cost));
            if (!fired.nan && (!near(ini.residual_norm, std::sqrt(E.cost)) && std::fabs(ini.residual_norm - std::sqrt(E.cost)) > 1e-7)) bad("C05", "initial", "initial_stats_.residual_norm is " + num(ini.residual_norm) + ", entry gives " + num(std::sqrt(E.cost)));
            if (cur.current_iteration < 0 || cur.current_iteration > maxit) bad("C05", "iterations", "current_iteration " + std::to_string(cur.current_iteration) + " of at most " + std::to_string(maxit));
            uint64_t sweeps = 0;
            for (auto& x : n0) sweeps = std::max(sweeps, dynamic_cast<SimFactor *>(w.f[x.first].get())->n_jac - x.second.second);
            if (!n0.empty() && cur.current_iteration > int(sweeps)) bad("C05", "iterations", "current_iteration " + std::to_string(cur.current_iteration) + " exceeds the steps performed (" + std::to_string(sweeps) + ")");
            if (!fired.nan && series && !X.empty() && X.back().out.ok && finite0 && cur.current_iteration < int(X.size())) {
                double d = far(v1, X[cur.current_iteration].val);
                if (d > 1e-8) bad("C05", "iterations", "the values are not those after current_iteration=" + std::to_string(cur.current_iteration) + " steps (distance " + num(d) + ")");
            }
            if (cur.status == OptimizerStatus::SUCCESS && !fired.nan && cur.residual_norm > ini.residual_norm * (1 + 1e-9) + 1e-12 && cur.delta_norm >= set.step_tolerance)
                bad("C05", "success-worse", "SUCCESS although the residual norm rose from " + num(ini.residual_norm) + " to " + num(cur.residual_norm) + " and the last step (" + num(cur.delta_norm) + ") was not below the tolerance");
            // the run ends where its settings say: at the first step that meets a criterion, or at the cap
            const int n = cur.current_iteration;
            if (!fired.any && series && finite0 && n >= 0 && n < int(X.size()) && (cur.status == OptimizerStatus::SUCCESS || cur.status == OptimizerStatus::DIVERGED)) {
                bool fin = true;
                std::vector<double> rn;
                for (int k = 0; k <= n; k++) {
                    fin = fin && X[k].out.ok && std::isfinite(X[k].cur.chi2) && X[k].cur.current_iteration == k;
                    Ref G = reference(false, k == n ? &v1 : &X[k].val);
                    const double c = G.cost;
                    fin = fin && G.ok && std::isfinite(c);
                    rn.push_back(std::sqrt(c));
                }
                if (fin) {
                    double fuzz = 1e-7 * (1e-6 + rn[0]);
                    for (int k = 1; k <= n; k++) fuzz = std::max(fuzz, 1e-7 * rn[k]);
                    st.probes["stop-checked"]++;
                    bool additive = n > 0;
                    for (auto& q : off) additive = additive && (vs[q.first].kind == 'L' || vs[q.first].kind == 'G');
                    if (additive) {
                        double d = 0, m = 0;
                        for (auto& q : off) { d += (v1[q.first] - X[n - 1].val[q.first]).squaredNorm(); m = std::max({m, v1[q.first].cwiseAbs().maxCoeff(), X[n - 1].val[q.first].cwiseAbs().maxCoeff()}); }
                        if (std::fabs(std::sqrt(d) - cur.delta_norm) > 1e-7 * (1e-6 + m + std::sqrt(d))) bad("C05", "delta-norm", "delta_norm is " + num(cur.delta_norm) + ", the last step moved the values by " + num(std::sqrt(d)));
                    }
                    for (int k = 1; k < n; k++)
                        if (X[k].cur.delta_norm < set.step_tolerance || rn[k - 1] - rn[k] < set.residual_tolerance - fuzz) { bad("C05", "stop", "step " + std::to_string(k) + " met a stopping criterion (step " + num(X[k].cur.delta_norm) + ", improvement " + num(rn[k - 1] - rn[k]) + ") but the run went on to step " + std::to_string(n)); break; }
                    if (n < maxit && n >= 1 && cur.delta_norm >= set.step_tolerance && rn[n - 1] - rn[n] >= set.residual_tolerance + fuzz)
                        bad("C05", "stop", "the run stopped after step " + std::to_string(n) + " of " + std::to_string(maxit) + " although neither criterion was met (step " + num(cur.delta_norm) + ", improvement " + num(rn[n - 1] - rn[n]) + ")");
                    if (n == 0 && maxit > 0 && cols > 0) bad("C05", "stop", "the run reports success without a step");
                }
            }
            if (!fired.any && !n0.empty() && cur.status == OptimizerStatus::SUCCESS && sweeps > 0 && cur.current_iteration + 1 < int(sweeps))
                bad("C05", "iterations", "current_iteration " + std::to_string(cur.current_iteration) + " but " + std::to_string(sweeps) + " steps were performed");
        }
        // --- C21
        if (want("C21") && o.ok && !fired.any && series && finite0) check_steps(X, v1, cur);
        // --- C12
        if (want("C12")) {
            st.compares++;
            for (auto& x : n0) {
                auto q = dynamic_cast<SimFactor *>(w.f[x.first].get());
                uint64_t nr = q->n_res - x.second.first, nj = q->n_jac - x.second.second;
                if (nj > uint64_t(maxit)) { bad("C12", "work", std::to_string(nj) + " Jacobian evaluations with max_num_iterations " + std::to_string(maxit)); break; }
                if (nr > uint64_t(8 * maxit + 2)) { bad("C12", "work", std::to_string(nr) + " residual evaluations with max_num_iterations " + std::to_string(maxit)); break; }
            }
        }
        if (exact && !fired.any) {
            const char *P = check.c_str();
            st.compares++;
            std::string d = stats_diff(cur, T.cur), d2 = stats_diff(ini, T.init);
            if (o.ok != T.out.ok) bad(P, "outcome", "optimize() " + o.kind + ", the equal fresh run " + T.out.kind);
            else if (o.ok && !bits(v1, T.val) && !want("C05")) bad(P, "values", "final values differ from an equal fresh run by " + num(far(v1, T.val)));
            else if (o.ok && !d.empty()) bad(P, "stats", "final statistics differ from an equal fresh run: " + d);
            else if (o.ok && !d2.empty()) bad(P, "stats", "initial statistics differ from an equal fresh run: " + d2);
        }
        if (want("C12") && !fired.any && sval(op, 1) == "lin" && finite0 && o.ok && cols > 0) {
            // well-posed linear problem: dense least squares optimum
            Eigen::ColPivHouseholderQR<MatrixXd> qr(E.J);
            if (E.J.cols() > 0 && qr.rank() == E.J.cols()) {
                VectorXd dx = qr.solve(-E.r);
                for (auto& q : off) {
                    int n = (int)v0[q.first].size();
                    VectorXd y = v0[q.first] + dx.segment(q.second, n);
                    double e = (v1[q.first] - y).cwiseAbs().maxCoeff() / (1 + y.cwiseAbs().maxCoeff());
                    if (e > 1e-4) { bad("C12", "solution", "after faults stopped the linear problem is not solved (error " + num(e) + ")"); break; }
                }
            }
        }
        if (want("C18") && !fired.any && o.ok && T.out.ok) {
            size_t i = 0;
            try {
                Sut q;
                w.o->prepare_to_estimate_covariances();
                for (int a : av) {
                    bool ok = false;
                    MatrixXd P = w.o->estimate_covariance(w.v[a].get(), ok);
                    Out oo;
                    if (i < T.cov.size()) {
                        if (ok != (T.cov[i].size() > 0)) bad("C18", "covariance", "covariance validity differs between equal runs");
                        else if (ok && hexv(Eigen::Map<VectorXd>(P.data(), P.size())) != hexv(Eigen::Map<VectorXd>(T.cov[i].data(), T.cov[i].size()))) bad("C18", "covariance", "covariance of h" + std::to_string(a) + " differs between equal runs");
                    }
                    i++;
                }
            } catch (...) {}
        }
        // --- C10 / C11
        if (want("C10") && set.verbose && o.ok) {
            std::string txt = g_streams.out.substr(outpos);
            bool ok;
            for (const char *k : {"residual: ", "jacobian: ", "hessian: ", "solve: ", "update_vars: "}) {
                size_t p = txt.rfind("Detailed times:");
                if (p == std::string::npos) break;
                double us = parse_after(txt.substr(p), k, ok);
                if (!ok) continue;
                st.compares++;
                if (us < 0 || us * 1e3 > double(dur) * (1 + 1e-4) + 1000) bad("C10", "phase-time", std::string("reported time of phase ") + k + num(us) + "us, the call took " + num(double(dur) / 1e3) + "us");
            }
            size_t p = txt.rfind("=== SparseOptimizer Summary");
            if (p != std::string::npos) {
                double s = parse_after(txt.substr(p), "Total time: ", ok);
                if (ok && (s < 0 || s * 1e9 > double(dur) * (1 + 1e-4) + 1000)) bad("C10", "total-time", "reported total time " + num(s) + "s, the call took " + num(double(dur) / 1e9) + "s");
            }
        }
        if (want("C11")) {
            st.compares++;
            if (!set.verbose && !gverb && chatter(outpos)) bad("C11", "stdout", "optimize() wrote to stdout with verbose off");
            if (!o.ok && !fired.any) bad("C11", "exception", "optimize() failed with " + o.kind + " " + o.what + " while only the streams failed");
        }
    }
    // the same optimizer object works on an unrelated problem of its own and comes back
    void Exec::do_detour(const Op& op)
    {
        if (!has_setup || !fin_ok || pending_const || g_dropped) return;
        Rng r{uint64_t(ival(op, 1))};
        auto keep = t_cb;
        t_cb = nullptr;
        int left = r.p(0.6) && cols > 0 ? cols : r.range(1, 12); // often of the same size, with another pattern
        auto g2 = std::make_shared<FactorGraph>();
        std::vector<VarP> vv;
        std::vector<FacP> ff;
        int id = 0;
        std::shared_ptr<GenericVariable> last;
        int lastd = 0;
        while (left > 0) {
            int d = std::min(left, r.range(1, 4));
            VectorXd x = VectorXd::Constant(d, 0.1 * id);
            auto v = std::make_shared<GenericVariable>(id, x);
            g2->add_variable(v);
            ff.push_back(std::make_shared<GenericPriorFactor>(id, v.get(), x * 1.5, 1.0));
            g2->add_factor(ff.back());
            if (last && lastd == d && r.p(0.5)) {
                auto m = std::make_shared<GenericVariable>(100000 + id, VectorXd::Zero(d));
                m->set_constant(true);
                g2->add_variable(m);
                ff.push_back(std::make_shared<GenericBetweenFactor>(100000 + id, last.get(), v.get(), m.get(), 0.5));
                g2->add_factor(ff.back());
            }
            last = v;
            lastd = d;
            left -= d;
            id++;
        }
        OptimizerSettings s;
        if (r.p(0.5)) s.method = OptimizerMethod::LevenbergMarquardt;
        s.max_num_iterations = size_t(r.range(0, 3));
        s.verbose = false;
        auto v0 = snap();
        bool cov = r.p(0.5);
        Outcome o = call([&] {
            g2->finalize_structure();
            w.o->setup(g2, s);
            w.o->optimize();
            if (cov) { bool ok; w.o->prepare_to_estimate_covariances(); (void)w.o->estimate_covariance(last.get(), ok); }
            w.o->setup(w.g, set);
        });
        t_cb = keep;
        event(join(op) + " -> " + o.kind);
        cov_known = cov_prepped = opt_done = cov_avail = false;
        if (!o.ok && !fired.any) bad(check.c_str(), "detour", "an unrelated optimization of the same optimizer failed: " + o.what);
        if (!o.ok) has_setup = false;
        opt_holds = opt_sure = o.ok;
        if (o.ok) {
            std::weak_ptr<FactorGraph> wg2 = g2;
            std::weak_ptr<Variable> wl = last;
            g2.reset(); vv.clear(); ff.clear(); last.reset();
            if (!wg2.expired() || !wl.expired()) bad("C19", "kept-alive", "the optimizer's former graph or a variable of it is still held after setup() with another one");
        }
        for (auto& x : w.v) if (hexv(v0[x.first]) != hexv(x.second->value())) bad(check.c_str(), "detour", "optimizing an unrelated graph changed a variable");
        // nothing was prepared for the present graph since its setup()
        if (o.ok)
            for (int a : av) {
                bool ok = false;
                MatrixXd P = w.o->estimate_covariance(w.v[a].get(), ok);
                if (ok) { bad("C13", "stale", "a covariance is reported valid right after setup()"); break; }
            }
    }
    void Exec::do_prep(const Op& op)
    {
        if ((pending_const && fin_ok) || !has_setup) return;
        if (!fin_ok && op[0] == "pcov") return;
        bool pc = op[0] == "pcov";
        auto v0 = snap();
        std::string s0 = struct_state();
        size_t outpos = g_streams.out.size();
        Outcome o = call([&] { if (pc) w.o->print_all_covariances(); else w.o->prepare_to_estimate_covariances(); });
        event(join(op) + " -> " + o.kind);
        for (auto& x : w.v) if (hexv(v0[x.first]) != hexv(x.second->value())) bad("C07", "values", "covariance preparation changed a variable");
        if (s0 != struct_state()) bad("C07", "structure", "covariance preparation changed the structure");
        if (!set.verbose && !gverb && !pc && chatter(outpos)) bad("C11", "stdout", "covariance preparation wrote to stdout with verbose off");
        if (!o.ok && !fired.any && fin_ok && !fired.out) bad("C07", "exception", "covariance preparation failed: " + o.what);
        if (!o.ok && !fired.any) bad("C11", "exception", "covariance preparation failed: " + o.what);
        if (fin_ok) { acc_s = true; know_s = know_j = know_r = false; }
        // print_all_covariances only prepares when nothing is prepared yet: the earlier preparation may stand
        std::vector<MatrixXd> earlier;
        bool lost = false;
        if (pc && cov_prepped && cov_rev == struct_rev) {
            if (cov_known && cov_cond_ok) earlier = cov_inv; else lost = true;
        }
        cov_prepped = true;
        cov_known = false;
        if (!pc || !o.ok || fired.any || cov_rev != struct_rev) cov_avail = false;
        if (want("C13") && fin_ok) {
            Ref F = reference(false);
            cov_cond_ok = false;
            if (F.ok && F.J.allFinite() && cols > 0) {
                MatrixXd H = F.J.transpose() * F.J;
                Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
                double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff();
                if (lo > 0 && hi / lo < 1e8) { cov_cond_ok = true; cov_inv = {H.inverse()}; cov_off = off; }
                cov_known = true;
                cov_rev = struct_rev;
                if (!pc && o.ok && !fired.any && opt_done && cov_cond_ok && lo > 1e-8 && hi < 1e10) cov_avail = true;
            }
            if (lost) cov_cond_ok = false;
            for (auto& m : earlier) cov_inv.push_back(m);
        }
    }
    void Exec::do_cov(const Op& op)
    {
        int hh = int(ival(op, 1));
        if (!w.v.count(hh)) return;
        auto v0 = snap();
        bool ok = false;
        MatrixXd P;
        size_t outpos = g_streams.out.size();
        Outcome o = call([&] { P = w.o->estimate_covariance(w.v[hh].get(), ok); });
        event(join(op) + " -> " + o.kind + (ok ? " valid " : " invalid ") + hexv(Eigen::Map<VectorXd>(P.data(), P.size())));
        for (auto& x : w.v) if (hexv(v0[x.first]) != hexv(x.second->value())) bad("C07", "values", "covariance estimation changed a variable");
        if (!set.verbose && !gverb && chatter(outpos)) bad("C11", "stdout", "estimate_covariance() wrote to stdout with verbose off");
        if (!o.ok && !fired.any) bad("C11", "exception", "estimate_covariance() failed: " + o.what);
        if (!o.ok && !fired.any) bad("C13", "exception", "estimate_covariance() failed: " + o.what);
        bool in = false;
        for (int a : av) if (a == hh) in = true;
        if (o.ok && ok && (w.v[hh]->is_constant())) bad("C14", "cov-constant", "covariance of a constant variable reported valid");
        if (o.ok && ok && !has_setup) bad("C14", "cov-unready", "covariance reported valid without setup()");
        if (want("C13") && cov_avail && fin_ok && !pending_const && cov_rev == struct_rev && in && !w.v[hh]->is_constant() && o.ok && !fired.any) {
            st.probes["covariance-due"]++;
            if (!ok) bad("C13", "unavailable", "no covariance of h" + std::to_string(hh) + " although the optimization succeeded, the covariances were prepared and the problem is well conditioned");
        }
        if (!o.ok || !ok || !want("C13")) return;
        st.probes["covariance-valid"]++;
        st.compares++;
        if (!in && !w.v[hh]->is_constant()) { /* same id as a member: the placement is the member's */ bool alias = false; for (int a : av) if (w.v[a]->id() == w.v[hh]->id()) alias = true; if (alias) return; bad("C13", "foreign", "covariance of a variable outside the graph reported valid"); return; }
        if (!P.allFinite() || P.rows() != P.cols() || (P - P.transpose()).cwiseAbs().maxCoeff() > 0) { bad("C13", "asymmetric", "a valid covariance is not symmetric and finite"); return; }
        if (pending_const && fin_ok) return;
        if (!fin_ok) { bad("C13", "stale", "a covariance is reported valid although the structure was edited and not finalized"); return; }
        if (!cov_known || cov_rev != struct_rev) {
            // the structure changed since: only right answers for the present structure are allowed
            Ref F = reference(false);
            if (!F.ok || !F.J.allFinite() || cols == 0) return;
            MatrixXd H = F.J.transpose() * F.J;
            Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
            double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff();
            if (!(lo > 0 && hi / lo < 1e8)) return;
            MatrixXd Q = H.inverse();
            int n = (int)w.v[hh]->value().size();
            MatrixXd q = Q.block(off[hh], off[hh], n, n);
            if (P.rows() != n || (P - q).cwiseAbs().maxCoeff() > 1e-5 * (1e-12 + q.cwiseAbs().maxCoeff())) bad("C13", "stale", "a covariance reported valid after the problem changed is not that of the present problem");
            return;
        }
        if (!cov_cond_ok || !cov_off.count(hh)) return;
        int n = (int)w.v[hh]->value().size();
        MatrixXd q;
        for (auto& m : cov_inv) {
            q = m.block(cov_off[hh], cov_off[hh], n, n);
            if (P.rows() == n && (P - q).cwiseAbs().maxCoeff() <= 1e-5 * (1e-12 + q.cwiseAbs().maxCoeff())) return;
        }
        if (P.rows() != n || (P - q).cwiseAbs().maxCoeff() > 1e-5 * (1e-12 + q.cwiseAbs().maxCoeff()))
            bad("C13", "wrong", "covariance of h" + std::to_string(hh) + " is not the inverse information block (max error " + (P.rows() == n ? num((P - q).cwiseAbs().maxCoeff()) : std::string("shape")) + ", size " + num(q.cwiseAbs().maxCoeff()) + ")");
    }
} // namespace sim
