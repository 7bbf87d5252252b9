// Ownership and memory (C19), and what the Jacobian self-test reports (C20).
#include "exec.h"
#include "exec_util.h"
#include <algorithm>
#include <cmath>

namespace sim
{
    // the caller lets go of an object the graph (or the optimizer) still holds: from here on only the raw address is kept
    void Exec::do_drop(const Op& op)
    {
        if (record_only || torn || other_g) return;
        const std::string& k = sval(op, 1);
        int hh = int(ival(op, 2));
        if (k == "v") {
            if (!w.v.count(hh) || std::find(av.begin(), av.end(), hh) == av.end() || w.v[hh].use_count() == 0) return;
            std::weak_ptr<Variable> q = w.v[hh];
            Variable *raw = w.v[hh].get();
            { Sut s; w.v[hh].reset(); }
            w.v[hh] = VarP(VarP(), raw);
            if (q.expired()) bad("C19", "destroyed-early", "a variable of the graph was destroyed when the caller let go of it");
        } else if (k == "f") {
            if (!w.f.count(hh) || std::find(af.begin(), af.end(), hh) == af.end() || w.f[hh].use_count() == 0) return;
            std::weak_ptr<Factor> q = w.f[hh];
            Factor *raw = w.f[hh].get();
            { Sut s; w.f[hh].reset(); }
            w.f[hh] = FacP(FacP(), raw);
            if (q.expired()) bad("C19", "destroyed-early", "a factor of the graph was destroyed when the caller let go of it");
        } else {
            if (!opt_holds || !opt_sure || g_dropped) return;
            FactorGraph *raw = w.g.get();
            { Sut s; w.g.reset(); }
            w.g = std::shared_ptr<FactorGraph>(std::shared_ptr<FactorGraph>(), raw);
            if (wgraph.expired()) bad("C19", "destroyed-early", "the optimizer's graph was destroyed when the caller let go of it");
            else g_dropped = true;
        }
        st.compares++;
        st.fired["drop-" + k]++;
        event(join(op));
    }

    // the other graph (and its optimizer) becomes the one the operations work on
    void Exec::flip()
    {
        std::swap(static_cast<Side&>(*this), other);
        std::swap(w.g, other_g);
        std::swap(w.o, other_o);
    }
    void Exec::drop_other()
    {
        if (!other_g) return;
        Sut s;
        other_o.reset();
        other_g.reset();
        if (!other.wgraph.expired()) bad("C22", "kept-alive", "a graph is still held after its last owner let go of it");
        other = Side();
    }
    void Exec::check_other(const std::string& when)
    {
        if (torn || !viol.empty()) return;
        flip();
        check_structure("C22", when + " (on the other graph)");
        std::string sig = struct_state();
        if (!other_sig.empty() && sig != other_sig) bad("C22", "structure", when + " on one graph changed the structure of the other");
        flip();
        other_sig = sig;
    }
    // gcopy new | flip | assign | self | moved | drop
    void Exec::do_gcopy(const Op& op)
    {
        if (record_only || torn || g_dropped) return;
        for (auto& x : w.v) if (x.second.use_count() == 0) return;
        for (auto& x : w.f) if (x.second.use_count() == 0) return;
        const std::string& k = sval(op, 1);
        const std::string s0 = struct_state();
        auto v0 = snap();
        Outcome o;
        o.ok = true;
        if (k == "flip") {
            if (!other_g) return;
            other_sig = s0;
            flip();
        } else if (k == "drop") drop_other();
        else if (k == "new") {
            drop_other();
            resolve([](World& W) { FactorGraph q(*W.g); });
            std::shared_ptr<FactorGraph> n;
            o = call([&] { n = std::make_shared<FactorGraph>(*w.g); });
            if (o.ok) {
                copied = true;
                { Sut q; other_o.reset(new SparseOptimizer); }
                other_g = n;
                other = static_cast<Side&>(*this);
                other.wgraph = n;
                other.has_setup = other.cov_known = other.cov_prepped = other.cov_any = other.opt_done = other.cov_avail = other.opt_holds = false;
                other.opt_sure = true;
                other_sig = s0;
            }
        } else if (k == "assign" || k == "self") {
            if (k == "assign" && !other_g) return;
            FactorGraph *src = k == "self" ? w.g.get() : other_g.get();
            resolve([&](World& W) { FactorGraph q(*src); (void)W; });
            o = call([&] { *w.g = *src; });
            if (o.ok) {
                copied = true;
                if (k == "assign") {
                    av = other.av; af = other.af; fin_ok = other.fin_ok; pending_const = other.pending_const; ever_fin = other.ever_fin; gverb = other.gverb;
                    edit_failed = other.edit_failed; toggled = other.toggled; off = other.off; rows = other.rows; cols = other.cols;
                    acc_j = other.acc_j; acc_s = other.acc_s; acc_r = other.acc_r; know_j = other.know_j; know_s = other.know_s; know_r = other.know_r;
                    last_j = other.last_j; last_s = other.last_s; last_r = other.last_r;
                }
                struct_rev++;
                opt_done = cov_avail = false;
            }
        } else if (k == "moved") {
            std::shared_ptr<FactorGraph> n;
            o = call([&] { n = std::make_shared<FactorGraph>(std::move(*w.g)); });
            if (!o.ok) return; // (armed faults are not used here)
            copied = true;
            {
                Sut q;
                w.o = std::unique_ptr<SparseOptimizer>(new SparseOptimizer);
                w.g = n;
            }
            if (!wgraph.expired()) bad("C22", "kept-alive", "a graph that was moved from is still held after its last owner let go of it");
            wgraph = n;
            has_setup = cov_known = cov_prepped = cov_any = opt_done = cov_avail = opt_holds = false;
            opt_sure = true;
        } else return;
        st.compares++;
        st.probes["gcopy-" + k + (o.ok ? "" : "-failed")]++;
        event(join(op) + " -> " + o.kind);
        if (!o.ok && !fired.any) bad("C22", "refused", join(op) + " failed without a fault: " + o.what);
        check_structure("C22", join(op) + " (" + o.kind + ")");
        if (k != "flip" && k != "assign" && struct_state() != s0) bad("C22", "structure", join(op) + " (" + o.kind + ") changed the structure");
        if (k == "assign" && !o.ok && struct_state() != s0) bad("C22", "structure", "a failed assignment changed the structure");
        for (auto& x : w.v) if (hexv(v0[x.first]) != hexv(x.second->value())) bad("C22", "values", join(op) + " changed a variable");
    }

    // the same work again and again must not need more and more memory
    void Exec::do_grow(const Op& op)
    {
        if (record_only || torn || (pending_const && fin_ok)) return;
        const bool refin = sval(op, 1) == "fin";
        auto v0 = snap();
        uint64_t n3 = 0, b3 = 0;
        const int N = 24;
        auto keep = t_cb;
        t_cb = nullptr;
        OptimizerSettings few = set;
        few.max_num_iterations = std::min<size_t>(set.max_num_iterations, 3);
        few.verbose = false;
        for (int i = 0; i < N; i++) {
            for (auto& x : w.v)
                if (!x.second->is_constant() && hexv(x.second->value()) != hexv(v0[x.first])) x.second->set_value_from_vector(v0[x.first]);
            try {
                Sut s;
                if (!av.empty()) { try { w.g->add_variable(w.v[av[0]]); } catch (...) {} }
                if (!af.empty()) { try { w.g->add_factor(w.f[af[0]]); } catch (...) {} }
                try { w.g->add_variable(nullptr); } catch (...) {}
                if (refin && fin_ok) { try { w.g->finalize_structure(); } catch (...) {} }
                try {
                    (void)w.g->compute_full_residual_vector();
                    w.g->compute_full_jacobian_and_residual();
                    (void)w.g->compute_sparse_jacobian_matrix();
                    (void)w.g->get_variable_vector();
                    (void)w.g->get_variables_of_type<PoseVariable>();
                    for (int a : av) { bool b; (void)w.g->variable_placement(w.v[a]->id(), b); (void)w.g->get_variable(w.v[a]->id()); auto c = w.v[a]->clone(); }
                    if (fin_ok) (void)w.g->detailed_factor_test(1e-5);
                    if (has_setup) {
                        if (!g_dropped && i % 2 == 0) w.o->setup(w.g, few);
                        if (fin_ok) {
                            w.o->optimize();
                            w.o->prepare_to_estimate_covariances();
                            bool b;
                            for (int a : av) (void)w.o->estimate_covariance(w.v[a].get(), b);
                        }
                    }
                } catch (...) {}
            } catch (...) {}
            g_sut = 0;
            g_streams.reset();
            if (i == 3) { n3 = g_live_n; b3 = g_live_bytes; }
        }
        st.compares++;
        event(join(op));
        if (g_live_n > n3 || g_live_bytes > b3 + 64)
            bad("C19", "grows", "repeating the same work needs ever more memory: " + std::to_string(n3) + " blocks of " + std::to_string(b3) + " bytes after 4 rounds, " + std::to_string(g_live_n) + " of " +
                                     std::to_string(g_live_bytes) + " after " + std::to_string(N));
        for (auto& x : w.v)
            if (!x.second->is_constant() && hexv(x.second->value()) != hexv(v0[x.first])) x.second->set_value_from_vector(v0[x.first]);
        t_cb = keep;
        if (has_setup && !g_dropped) { Sut s; w.o->setup(w.g, set); }
        know_j = know_s = know_r = false;
        acc_j = acc_s = acc_r = true;
        cov_known = cov_prepped = opt_done = cov_avail = false;
        if (has_setup && !g_dropped) opt_holds = opt_sure = true;
    }

    // everything is let go in some order, with use of what is still reachable in between
    void Exec::do_tear(const Op& op)
    {
        if (record_only || torn) return;
        drop_other();
        torn = true;
        Rng r{uint64_t(ival(op, 1))};
        std::map<int, std::weak_ptr<Variable>> wv;
        std::map<int, std::weak_ptr<Factor>> wf;
        std::map<int, bool> hv, hf; // handle still held
        std::set<int> inv(av.begin(), av.end()), inf(af.begin(), af.end());
        FactorGraph *graw = w.g.get();
        std::map<int, Variable *> vraw;
        for (auto& x : w.v) { hv[x.first] = x.second.use_count() > 0; vraw[x.first] = x.second.get(); if (hv[x.first]) wv[x.first] = x.second; else x.second.reset(); }
        for (auto& x : w.f) { hf[x.first] = x.second.use_count() > 0; if (hf[x.first]) wf[x.first] = x.second; else x.second.reset(); }
        // the ones dropped before are found through the graph
        { auto V = graw->get_all_variables(); for (size_t i = 0; i < V.size() && i < av.size(); i++) if (!hv[av[i]]) wv[av[i]] = V[i]; }
        { auto F = graw->get_all_factors(); for (size_t i = 0; i < F.size() && i < af.size(); i++) if (!hf[af[i]]) wf[af[i]] = F[i]; }
        bool hg = !g_dropped, ho = true;
        bool galive = true;
        const bool sure = opt_sure;
        auto holds = [&] { return hg || (ho && opt_holds); };
        auto use = [&] {
            if (!galive || !holds()) return;
            try {
                Sut s;
                switch (r.below(4)) {
                case 0: if (eval_ready()) (void)graw->compute_full_residual_vector(); break;
                case 1: for (auto& p : graw->get_all_variables()) (void)p->value(); break;
                case 2: if (eval_ready()) (void)graw->compute_sparse_jacobian_matrix(); break;
                default: if (ho && opt_holds && has_setup && eval_ready()) { w.o->optimize(); bool b; w.o->prepare_to_estimate_covariances(); for (auto& p : graw->get_all_variables()) (void)w.o->estimate_covariance(p.get(), b); } break;
                }
            } catch (...) {}
            g_sut = 0;
        };
        auto verify = [&](const std::string& when) {
            st.compares++;
            bool g = holds();
            if (!sure && !hg && ho) return true; // a failed call may or may not have left the graph with the optimizer
            if (wgraph.expired() == g) { bad("C19", g ? "destroyed-early" : "kept-alive", "after " + when + " the graph is " + (g ? "gone although somebody holds it" : "still there although nobody holds it")); return false; }
            galive = g;
            for (auto& x : wv) {
                bool a = hv[x.first] || (inv.count(x.first) && g);
                if (x.second.expired() == a) { bad("C19", a ? "destroyed-early" : "kept-alive", "after " + when + " variable h" + std::to_string(x.first) + (a ? " is gone although somebody holds it" : " still exists although nobody holds it")); return false; }
                if (!g && x.second.use_count() != (hv[x.first] ? 1 : 0)) { bad("C19", "kept-alive", "after " + when + " something besides the caller holds variable h" + std::to_string(x.first)); return false; }
            }
            for (auto& x : wf) {
                bool a = hf[x.first] || (inf.count(x.first) && g);
                if (x.second.expired() == a) { bad("C19", a ? "destroyed-early" : "kept-alive", "after " + when + " factor h" + std::to_string(x.first) + (a ? " is gone although somebody holds it" : " still exists although nobody holds it")); return false; }
                if (!g && x.second.use_count() != (hf[x.first] ? 1 : 0)) { bad("C19", "kept-alive", "after " + when + " something besides the caller holds factor h" + std::to_string(x.first)); return false; }
            }
            return true;
        };
        if (!verify("the history")) return;
        // factors refer to their variables by address: a variable outside the graph outlives them
        std::vector<std::pair<char, int>> todo;
        for (auto& x : hv) if (x.second && inv.count(x.first)) todo.emplace_back('v', x.first);
        for (auto& x : hf) if (x.second) todo.emplace_back('f', x.first);
        if (hg) todo.emplace_back('g', 0);
        todo.emplace_back('o', 0);
        for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[r.below(i)]);
        auto keep = t_cb;
        t_cb = nullptr;
        std::vector<int> held_late;
        for (auto& t : todo) {
            std::string when = "dropping ";
            if (t.first == 'v') {
                // unless a factor that stays behind still points to it
                if (!holds()) { bool ref = false; for (auto& x : hf) if (x.second) for (int q : fs[x.first].v) if (q == t.second) ref = true; if (ref) { held_late.push_back(t.second); continue; } }
                when += "a variable";
                hv[t.second] = false;
                Sut s;
                w.v[t.second].reset();
            } else if (t.first == 'f') { when += "a factor"; hf[t.second] = false; Sut s; w.f[t.second].reset(); }
            else if (t.first == 'g') { when += "the graph"; hg = false; Sut s; w.g.reset(); }
            else { when += "the optimizer"; ho = false; Sut s; w.o.reset(); }
            g_sut = 0;
            if (!verify(when)) break;
            if (r.p(0.4)) use();
        }
        st.fired["teardown"]++;
        for (auto& x : w.f) x.second.reset();
        for (auto& x : w.v) x.second.reset();
        event(join(op));
        t_cb = keep;
    }

    // ---- C20 ----------------------------------------------------------------------------------------------
    // Largest ratio of error to tolerance over a factor's blocks, from copies of the variables. < 0: unknown.
    double Exec::jac_ratio(int hf, double tol)
    {
        auto keep = t_cb;
        t_cb = nullptr;
        double worst = 0;
        try {
            std::vector<VarP> own;
            std::vector<Variable *> p;
            std::map<int, VarP> by;
            for (int hv : fs[hf].v) {
                if (!by.count(hv)) by[hv] = copy_var(vs[hv], w.v[hv]);
                own.push_back(by[hv]);
                p.push_back(own.back().get());
            }
            FacP f = make_factor(fs[hf], p);
            std::vector<MatrixXd> J;
            f->compute_jacobians(J);
            if (J.size() != p.size()) worst = HUGE_VAL;
            for (size_t i = 0; i < p.size() && i < J.size(); i++) {
                if (p[i]->is_constant()) { if (J[i].size()) worst = HUGE_VAL; continue; }
                int n = p[i]->size(), m = f->residual_size();
                if (J[i].rows() != m || J[i].cols() != n) { worst = HUGE_VAL; continue; }
                MatrixXd K(m, n);
                VectorXd x0 = p[i]->value();
                for (int k = 0; k < n; k++) {
                    VectorXd dx = VectorXd::Zero(n);
                    dx[k] = 1e-6;
                    VarP a = copy_var(vs[fs[hf].v[i]], own[i]), b = copy_var(vs[fs[hf].v[i]], own[i]);
                    a->apply_increment(dx);
                    b->apply_increment(-dx);
                    auto at = [&](const VarP& q) {
                        std::vector<Variable *> pp = p;
                        for (size_t j = 0; j < pp.size(); j++) if (pp[j] == p[i]) pp[j] = q.get();
                        return make_factor(fs[hf], pp)->compute_residual();
                    };
                    K.col(k) = (at(a) - at(b)) / 2e-6;
                }
                if (!K.allFinite() || !J[i].allFinite()) { worst = HUGE_VAL; continue; }
                double t = std::max(1e-2, tol * K.cwiseAbs().maxCoeff());
                worst = std::max(worst, (K - J[i]).cwiseAbs().maxCoeff() / t);
                // rounding in the residuals limits what central differences can tell
                double noise = ((1 + f->compute_residual().cwiseAbs().maxCoeff()) * 1e-14 + K.cwiseAbs().maxCoeff() * 1e-15) / 1e-6;
                for (auto& q : own) noise = std::max(noise, K.cwiseAbs().maxCoeff() * q->value().cwiseAbs().maxCoeff() * 1e-15 / 1e-6);
                if (!(noise < 0.2 * t)) { t_cb = keep; return -1; }
            }
        } catch (...) {
            t_cb = keep;
            return -1;
        }
        t_cb = keep;
        return worst;
    }
    void Exec::do_selftest(const Op& op)
    {
        if (record_only || !fin_ok || pending_const) return;
        double tol = dval(op, 2, 1e-5);
        bool verb = ival(op, 3) != 0;
        // verdict of the library's own definition, from copies
        int expect = 1; // 1 pass, 0 fail, -1 unknown
        for (int a : af) {
            double q = jac_ratio(a, tol);
            if (q < 0 || (q > 0.5 && q < 2)) { if (expect == 1) expect = -1; }
            else if (q >= 2) { expect = 0; }
        }
        if (expect < 0) st.probes["selftest-unknown"]++;
        auto v0 = snap();
        bool verdict = false;
        auto wrapped = [&](int a) { return dynamic_cast<SimFactor *>(w.f[a].get()); };
        auto f = [&](World& W) { verdict = W.g->detailed_factor_test(tol, verb); };
        resolve(f);
        for (int a : af) if (auto q = wrapped(a)) q->spoiled = 0;
        Outcome o = call([&] { f(w); });
        event_vals(join(op) + " -> " + o.kind + (verdict ? " pass" : " fail"));
        know_j = know_r = know_s = false;
        int spoiled = 0;
        for (int a : af) if (auto q = wrapped(a)) spoiled |= q->spoiled;
        { Hash q; q.str("selftest"); q.u64(uint64_t(expect + 1)); q.u64(verdict); q.str(o.kind); for (auto& x : cb.faults) if (x.fired) { q.u64(x.kind); q.u64(x.act); } st.states.insert(q.h); }
        st.compares++;
        st.probes[std::string("selftest-") + (o.ok ? (verdict ? "pass" : "fail") : "throw")]++;
        if (!o.ok) {
            if (!fired.any && expect >= 0) bad("C20", "exception", "detailed_factor_test() failed without a fault: " + o.what);
            return;
        }
        if (verdict && fired.thr) bad("C20", "passed", "detailed_factor_test() passed although a factor's evaluation threw");
        else if (verdict && ((spoiled & 2) || (spoiled && expect == 1))) bad("C20", "passed", "detailed_factor_test() passed although a factor returned a wrong or non-finite Jacobian");
        else if (verdict && expect == 0 && !fired.any) bad("C20", "passed", "detailed_factor_test() passed although a Jacobian disagrees with its residual's central differences");
        else if (!verdict && expect == 1 && !fired.any) bad("C20", "refused", "detailed_factor_test() failed although every Jacobian agrees with central differences");
        for (auto& x : w.v)
            if (val_diff(vs[x.first], x.second->value(), v0[x.first]) > 1e-11) { bad("C20", "values", "detailed_factor_test() moved h" + std::to_string(x.first)); break; }
    }
} // namespace sim
