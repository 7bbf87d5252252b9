#include "exec.h"
#include "exec_util.h"
#include <cmath>
#include <cstring>
#include <typeinfo>

namespace sim
{
    std::string Plan::text() const
    {
        std::string s = "plan " + check + " " + std::to_string(seed) + "\n";
        for (auto& o : ops) s += join(o) + "\n";
        return s;
    }
    Plan Plan::parse(const std::string& s)
    {
        Plan p;
        std::istringstream is(s);
        std::string l;
        while (std::getline(is, l)) {
            auto w = words(l);
            if (w.empty() || w[0][0] == '#') continue;
            if (w[0] == "plan") { p.check = sval(w, 1); p.seed = strtoull(sval(w, 2).c_str(), nullptr, 10); continue; }
            p.ops.push_back(w);
        }
        return p;
    }
    void RunStats::merge(const RunStats& o)
    {
        for (auto& x : o.fired) fired[x.first] += x.second;
        for (auto& x : o.armed) armed[x.first] += x.second;
        for (auto& x : o.ops) ops[x.first] += x.second;
        for (auto& x : o.probes) probes[x.first] += x.second;
        compares += o.compares;
        steps += o.steps;
        sim_ns += o.sim_ns;
        for (auto s : o.states) states.insert(s);
    }

    Exec::Exec(const std::string& c) : check(c)
    {
        Sut s;
        w.g = std::make_shared<FactorGraph>();
        w.o = std::unique_ptr<SparseOptimizer>(new SparseOptimizer);
        wgraph = w.g;
    }
    Exec::~Exec() { if (t_cb == &cb) t_cb = nullptr; }
    bool Exec::stop() const { return !viol.empty(); }
    void Exec::bad(const char *prop, const std::string& cls, const std::string& detail)
    {
        if (record_only) return;
        if (check == "C22" && copied && part_of_c22(prop)) { viol.push_back({check, std::string(prop) + "-" + cls, detail}); return; }
        if (check != prop) { st.probes[std::string("other-") + prop + "-" + cls]++; return; }
        viol.push_back({prop, cls, detail});
    }
    std::string Exec::hexv(const VectorXd& v)
    {
        std::string s;
        char b[24];
        for (int i = 0; i < v.size(); i++) {
            uint64_t u;
            double d = v[i];
            if (d != d) u = 0x7ff8000000000000ull; else memcpy(&u, &d, 8);
            snprintf(b, sizeof b, "%016llx.", (unsigned long long)u);
            s += b;
        }
        return s;
    }
    void Exec::event(const std::string& s)
    {
        h.str(s);
        if (record_only) log.push_back(s);
    }
    void Exec::event_vals(const std::string& s)
    {
        std::string t = s;
        for (auto& x : w.v) t += " " + std::to_string(x.first) + ":" + hexv(x.second->value());
        event(t);
    }

    // ---- calling the library under the armed faults ------------------------------------------------
    static int cb_kind_of(char c) { return c == 'r' ? CB_RES : c == 'j' ? CB_JAC : c == 'a' ? CB_APPLY : c == 's' ? CB_SET : c == 'v' ? CB_VAL : -1; }
    static int act_of(const std::string& s)
    {
        if (s == "throw") return ACT_THROW;
        if (s == "cancel") return ACT_CANCEL;
        if (s == "nan") return ACT_NAN;
        if (s == "inf") return ACT_INF;
        if (s == "stall") return ACT_STALL;
        if (s == "bad") return ACT_BAD;
        return 0;
    }
    static const char *act_name(int a)
    {
        static const char *n[] = {"none", "throw", "cancel", "nan", "inf", "stall", "bad"};
        return n[a];
    }
    Outcome Exec::call(const std::function<void()>& f)
    {
        Outcome o;
        fired = Fired();
        cb.reset();
        cb.on = true;
        t_cb = &cb;
        HeapFault hf;
        int clk_mode0 = g_clock.mode;
        StreamPlan sp;
        std::vector<std::pair<uint64_t, int64_t>> jumps;
        for (auto& p : pend) {
            uint64_t n = strtoull(p.n.c_str(), nullptr, 10);
            st.armed[p.kind]++;
            if (p.kind == "alloc" || p.kind == "allocs") {
                hf.armed = true;
                hf.at = n;
                hf.persistent = p.kind == "allocs";
            } else if (p.kind == "out" || p.kind == "outs" || p.kind == "outx" || p.kind == "outst") {
                sp.fail_after = int64_t(g_streams.out_bytes + g_streams.err_bytes + n);
                sp.mode = p.kind == "out" ? 0 : p.kind == "outs" ? 1 : p.kind == "outx" ? 2 : 3;
            } else if (p.kind == "clk") jumps.emplace_back(g_clock.reads + n, strtoll(p.m.c_str(), nullptr, 10));
            else if (p.kind == "clkmode") g_clock.mode = int(n);
            else {
                int k = cb_kind_of(p.kind[0]), a = act_of(p.kind.substr(1));
                if (k >= 0 && a) cb.faults.push_back({k, n, a, false});
            }
        }
        if (!record_only) {
            g_streams.plan = sp;
            g_clock.jumps = jumps;
        }
        uint64_t sf0 = g_streams.faults, cj0 = g_clock.jumps_fired;
        int64_t m0 = g_clock.mono;
        g_heap = hf;
        try {
            Sut s;
            f();
        } catch (const SimFault&) {
            o.ok = false; o.kind = "sim";
        } catch (const SimCancel&) {
            o.ok = false; o.kind = "cancel";
        } catch (const std::bad_alloc&) {
            o.ok = false; o.kind = "bad_alloc";
        } catch (const std::exception& e) {
            o.ok = false; o.kind = "std"; o.what = e.what();
        } catch (...) {
            o.ok = false; o.kind = "other";
        }
        if (g_heap.fired) { fired.alloc = fired.any = true; st.fired[hf.persistent ? "alloc-persistent" : "alloc"] += g_heap.fired; }
        g_heap = HeapFault();
        for (auto& x : cb.faults)
            if (x.fired) {
                static const char *kn[] = {"residual", "jacobian", "increment", "setvalue", "value"};
                st.fired[std::string(kn[x.kind]) + "-" + act_name(x.act)]++;
                if (x.act == ACT_STALL) continue;
                fired.any = true;
                if (x.act == ACT_THROW) fired.thr = true;
                if (x.act == ACT_CANCEL) fired.thr = fired.cancel = true;
                if (x.act == ACT_NAN || x.act == ACT_INF) fired.nan = true;
            }
        {
            int nset = 0, nall = fired.alloc;
            for (auto& x : cb.faults) if (x.fired && x.act != ACT_STALL) { nall++; nset += x.kind == CB_SET; }
            fired.undo = nset > 0 && nall > 1;
        }
        if (!record_only) {
            if (g_streams.faults > sf0) {
                static const char *mn[] = {"stream-fail", "stream-short", "stream-throw", "stream-stall"};
                fired.out = true;
                st.fired[mn[sp.mode]] += g_streams.faults - sf0;
            }
            if (g_clock.jumps_fired > cj0) st.fired["clock-jump"] += g_clock.jumps_fired - cj0;
            st.sim_ns += g_clock.mono - m0;
            g_clock.jumps.clear();
            g_clock.mode = clk_mode0;
            g_streams.plan = StreamPlan();
            std::cout.clear();
            std::cerr.clear();
        }
        cb.on = false;
        pend.clear();
        return o;
    }
    void Exec::resolve(const std::function<void(World&)>& f)
    {
        bool need = false;
        for (auto& p : pend) if (p.n[0] == '%') need = true;
        if (!need) return;
        CbState c;
        c.on = true;
        auto keep = t_cb;
        HeapFault hf;
        hf.armed = true;
        hf.at = ~0ull;
        uint64_t ob = g_streams.out_bytes + g_streams.err_bytes;
        {
            World t = copy_world(false, true);
            t_cb = &c;
            g_heap = hf;
            try { Sut s; f(t); } catch (...) {}
        }
        uint64_t bytes = g_streams.out_bytes + g_streams.err_bytes - ob;
        uint64_t seen = g_heap.seen;
        g_heap = HeapFault();
        t_cb = keep;
        for (auto& p : pend)
            if (p.n[0] == '%') {
                uint64_t pm = strtoull(p.n.c_str() + 1, nullptr, 10), total;
                if (p.kind == "alloc" || p.kind == "allocs") total = seen;
                else if (p.kind.compare(0, 3, "out") == 0) total = bytes;
                else if (p.kind == "clk") total = 20;
                else total = c.count[cb_kind_of(p.kind[0])];
                p.n = std::to_string(total * pm / 1000);
            }
    }

    // ---- twins and references --------------------------------------------------------------------------
    World Exec::copy_world(bool remap, bool with_opt)
    {
        int keep = g_sut;
        g_sut = 0;
        World t;
        Rng r(7919 + (remap ? 1 : 0));
        std::map<int, int> seen;
        // the copy's objects are created in another order at other addresses
        std::vector<int> vo, fo;
        for (auto& x : w.v) vo.push_back(x.first);
        for (auto& x : w.f) fo.push_back(x.first);
        std::vector<std::unique_ptr<char[]>> pad;
        if (remap) {
            for (size_t i = vo.size(); i > 1; i--) std::swap(vo[i - 1], vo[r.below(i)]);
            for (size_t i = fo.size(); i > 1; i--) std::swap(fo[i - 1], fo[r.below(i)]);
        }
        for (int hx : vo) {
            if (remap) pad.emplace_back(new char[r.below(900)]);
            auto c = copy_var(vs[hx], w.v[hx]);
            if (remap) {
                int id;
                do id = int(uint32_t(r.next()) >> (r.below(3) * 8)); while (seen.count(id));
                seen[id] = 1;
                dynamic_cast<SimId *>(c.get())->sim_set_id(id);
            }
            t.v[hx] = c;
        }
        seen.clear();
        for (int hx : fo) {
            FacSpec s = fs[hx];
            if (remap) {
                do s.id = int(uint32_t(r.next()) >> (r.below(3) * 8)); while (seen.count(s.id));
                seen[s.id] = 1;
            }
            std::vector<Variable *> p;
            for (int hv : s.v) p.push_back(t.v[hv].get());
            FacP f = make_factor(s, p);
            if (s.wrap) f = std::make_shared<SimFactor>(f);
            t.f[hx] = f;
        }
        t.g = std::make_shared<FactorGraph>();
        for (int x : av) t.g->add_variable(t.v[x]);
        for (int x : af) t.g->add_factor(t.f[x]);
        t.o = std::unique_ptr<SparseOptimizer>(new SparseOptimizer);
        if (eval_ready()) {
            try { t.g->finalize_structure(); } catch (...) {}
            if (with_opt && has_setup) t.o->setup(t.g, set);
        }
        g_sut = keep;
        return t;
    }
    std::map<int, VectorXd> Exec::snap() const
    {
        std::map<int, VectorXd> m;
        for (auto& x : w.v) m[x.first] = x.second->value();
        return m;
    }
    std::map<int, VectorXd> Exec::snap_derived() const
    {
        std::map<int, VectorXd> m;
        for (auto& x : w.v) m[x.first] = derived_state(vs.at(x.first), x.second);
        return m;
    }
    bool Exec::benign()
    {
        for (int hv : av) {
            const VarSpec& s = vs[hv];
            VectorXd x = w.v[hv]->value();
            if (!x.allFinite() || x.cwiseAbs().maxCoeff() > 1e3) return false;
            if (s.kind == 'P' && x.tail(3).norm() > 2.2) return false;
            if (s.kind == 'R' && x.norm() > 2.2) return false;
            if (s.kind == 'I' && x[0] < 1e-3) return false;
        }
        return true;
    }
    Exec::Ref Exec::reference(bool fresh, const std::map<int, VectorXd> *at)
    {
        Ref R;
        auto keep = t_cb;
        t_cb = nullptr;
        try {
            std::map<int, VarP> v;
            for (auto& x : w.v)
                v[x.first] = at ? fresh_var(vs[x.first], at->at(x.first), x.second->is_constant()) : fresh ? fresh_var(vs[x.first], x.second->value(), x.second->is_constant()) : copy_var(vs[x.first], x.second);
            std::map<int, int> o;
            int c = 0, r = 0;
            for (int x : av)
                if (!v[x]->is_constant()) { o[x] = c; c += (int)v[x]->value().size(); }
            for (int x : af) r += w.f[x]->residual_size();
            R.r = VectorXd::Zero(r);
            R.J = MatrixXd::Zero(r, c);
            R.scale = VectorXd::Zero(r);
            int row = 0;
            for (int x : af) {
                std::vector<Variable *> p;
                for (int hv : fs[x].v) p.push_back(v[hv].get());
                FacP f = make_factor(fs[x], p);
                VectorXd res = f->compute_residual();
                R.r.segment(row, res.size()) = res;
                std::vector<MatrixXd> J;
                f->compute_jacobians(J);
                for (size_t i = 0; i < J.size(); i++)
                    if (J[i].rows() == res.size() && J[i].cols() > 0)
                        for (int k = 0; k < res.size(); k++) R.scale[row + k] = std::max(R.scale[row + k], J[i].row(k).cwiseAbs().maxCoeff());
                {
                    double m = 0; // rows of one factor share their weight; rows without any block keep the plain tolerance
                    for (int k = 0; k < res.size(); k++) m = std::max(m, R.scale[row + k]);
                    for (int k = 0; k < res.size(); k++) R.scale[row + k] = m > 0 && std::isfinite(m) ? m : 1;
                }
                for (size_t i = 0; i < p.size(); i++)
                    if (!p[i]->is_constant() && o.count(fs[x].v[i]) && i < J.size()) {
                        int cc = o[fs[x].v[i]];
                        if (J[i].rows() == res.size() && cc + J[i].cols() <= c) R.J.block(row, cc, J[i].rows(), J[i].cols()) = J[i];
                        else { t_cb = keep; return R; }
                    }
                row += (int)res.size();
            }
            R.cost = R.r.squaredNorm();
            R.ok = true;
        } catch (...) {
        }
        t_cb = keep;
        return R;
    }
    static bool near_rel(double x, double y, double tol, double scale)
    {
        if (!std::isfinite(x) || !std::isfinite(y)) return std::isfinite(x) == std::isfinite(y);
        return std::fabs(x - y) <= tol * (std::min(1.0, scale) + std::fabs(y)) + 1e-300;
    }
    bool Exec::same_r(const VectorXd& r, const Ref& q, double tol) const
    {
        if (r.size() != q.r.size()) return false;
        for (int i = 0; i < r.size(); i++) if (!near_rel(r[i], q.r[i], tol, q.scale[i] * 100)) return false;
        return true;
    }
    bool Exec::same_j(const MatrixXd& J, const Ref& q, double tol) const
    {
        if (J.rows() != q.J.rows() || J.cols() != q.J.cols()) return false;
        for (int i = 0; i < J.rows(); i++)
            for (int j = 0; j < J.cols(); j++) if (!near_rel(J(i, j), q.J(i, j), tol, q.scale[i])) return false;
        return true;
    }
    bool Exec::close(const MatrixXd& a, const MatrixXd& b, double tol) const
    {
        if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
        for (int j = 0; j < a.cols(); j++)
            for (int i = 0; i < a.rows(); i++) {
                double x = a(i, j), y = b(i, j);
                if (!std::isfinite(x) || !std::isfinite(y)) { if (std::isfinite(x) != std::isfinite(y)) return false; continue; }
                if (std::fabs(x - y) > tol * (1 + std::fabs(y))) return false;
            }
        return true;
    }
    std::string Exec::struct_state() const
    {
        std::string s;
        for (auto& p : w.g->get_all_variables()) s += std::to_string(p->id()) + (p->is_constant() ? "c," : ",");
        s += "|";
        for (auto& p : w.g->get_all_factors()) s += std::to_string(p->id()) + ",";
        s += "|" + std::to_string(w.g->num_values()) + "," + std::to_string(w.g->num_residuals()) + "|";
        for (int x : av) {
            bool ok = false;
            Sut q;
            auto p = w.g->variable_placement(w.v.at(x)->id(), ok);
            s += ok ? std::to_string(p.index) + ":" + std::to_string(p.dim) + "," : "-,";
        }
        return s;
    }
    void Exec::check_structure(const char *prop, const std::string& when)
    {
        if (record_only) return;
        st.compares++;
        auto& V = w.g->get_all_variables();
        auto& F = w.g->get_all_factors();
        bool good = V.size() == av.size() && F.size() == af.size() && w.g->num_variables() == int(av.size());
        for (size_t i = 0; good && i < av.size(); i++) good = V[i] == w.v[av[i]];
        for (size_t i = 0; good && i < af.size(); i++) good = F[i] == w.f[af[i]];
        if (!good) {
            bad(prop, "contents", when + ": the graph reports " + std::to_string(V.size()) + " variables and " + std::to_string(F.size()) +
                                      " factors that are not the " + std::to_string(av.size()) + " and " + std::to_string(af.size()) + " successfully added");
            return;
        }
        for (auto& x : w.v) {
            bool in = false;
            Variable *who = nullptr;
            for (int a : av) if (w.v[a]->id() == x.second->id()) { in = true; who = w.v[a].get(); }
            Variable *got;
            { Sut q; got = w.g->get_variable(x.second->id()); }
            if (in ? got != who : got != nullptr) {
                bad(prop, "lookup", when + ": get_variable(" + std::to_string(x.second->id()) + ") does not match the variables added");
                return;
            }
        }
    }
    void Exec::check_const(const std::map<int, VectorXd>& v0, const std::map<int, VectorXd>& d0, const std::string& kind, int direct)
    {
        if (!want("C06")) return;
        for (auto& x : w.v) {
            if (x.first == direct || !v0.count(x.first)) continue;
            auto& d = d0.at(x.first);
            if (!x.second->is_constant() || d[d.size() - 2] != 1.0) continue;
            st.compares++;
            if (hexv(x.second->value()) != hexv(v0.at(x.first)) || hexv(derived_state(vs[x.first], x.second)) != hexv(d))
                bad("C06", "moved", "constant variable h" + std::to_string(x.first) + " (" + vs[x.first].kind + ") changed during " + kind);
        }
        for (auto& x : w.v)
            if (v0.count(x.first) && x.first != direct && x.second->is_constant() != (d0.at(x.first)[d0.at(x.first).size() - 2] == 1.0))
                bad("C06", "constness", "constness of h" + std::to_string(x.first) + " changed during " + kind);
    }
    void Exec::check_manifold(const std::string& kind)
    {
        if (!want("C16")) return;
        for (auto& x : w.v) {
            st.compares++;
            std::string e = incoherent(vs[x.first], x.second);
            if (!e.empty()) { bad("C16", "manifold", "after " + kind + ": h" + std::to_string(x.first) + " (" + vs[x.first].kind + "): " + e); return; }
        }
    }

    // ---- operations --------------------------------------------------------------------------------------
    std::string Exec::const_call(const Op& op)
    {
        // executed by a simulated thread; only const operations on shared objects
        const std::string& k = sval(op, 0);
        int hh = int(ival(op, 1));
        std::string out;
        try {
            if (k == "cres" || k == "cres2" || k == "cjac" || k == "cfvars") {
                auto it = w.f.find(hh);
                if (it == w.f.end()) return "";
                Factor& f = *it->second;
                if (k == "cres") { VectorXd r; { Sut s; r = f.compute_residual(); } out = hexv(r); }
                else if (k == "cres2") { VectorXd r = VectorXd::Constant(f.residual_size(), 3.25); { Sut s; f.compute_residual(r); } out = hexv(r); }
                else if (k == "cfvars") { std::vector<Variable *> v; std::string nm; { Sut s; v = f.variables(); nm = f.name(); } out = std::to_string(v.size()) + nm; }
                else {
                    std::vector<MatrixXd> J;
                    { Sut s; f.compute_jacobians(J); }
                    for (auto& m : J) out += hexv(Eigen::Map<VectorXd>(m.data(), m.size())) + "/";
                }
            } else if (k == "cval" || k == "cclone" || k == "cname") {
                auto it = w.v.find(hh);
                if (it == w.v.end()) return "";
                if (k == "cval") { VectorXd x; { Sut s; x = it->second->value(); } VectorXd d; { Sut s; d = derived_state(vs.at(hh), it->second); } out = hexv(x) + hexv(d); }
                else if (k == "cname") { std::string n; { Sut s; n = it->second->name(); } out = n; }
                else { VarP c; { Sut s; c = it->second->clone(); } out = hexv(c->value()) + hexv(derived_state(vs.at(hh), c)); }
            } else if (k == "cvec") {
                if (!eval_ready()) return "";
                VectorXd x;
                { Sut s; x = w.g->get_variable_vector(); }
                out = hexv(x);
            } else if (k == "cplace") {
                Sut s;
                for (auto& p : w.g->get_all_variables()) {
                    bool ok = false;
                    auto q = w.g->variable_placement(p->id(), ok);
                    Variable *g = w.g->get_variable(p->id());
                    Out o;
                    out += std::to_string(q.index) + (ok ? "y" : "n") + (g == p.get() ? "s" : "d");
                }
                for (auto& p : w.g->get_all_factors()) {
                    bool ok = false;
                    auto q = w.g->factor_placement(p->id(), ok);
                    Out o;
                    out += "," + std::to_string(q.residual_index) + (ok ? "y" : "n") + std::to_string(q.residual_dim) + (q.factor == p.get() ? "s" : "d");
                    for (int i : q.variable_column_indices) out += ":" + std::to_string(i);
                }
                auto ps = w.g->get_variables_of_type<PoseVariable>();
                int a = w.g->num_variables(), b = w.g->num_values(), c = w.g->num_residuals();
                Out o;
                out += std::to_string(ps.size()) + "," + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c);
            }
            else if (k == "cacc") {
                // what the last evaluations left cached
                const FactorGraph& g = *w.g;
                Sut s;
                bool a = g.jacobian_valid(), b = g.residual_valid();
                { Out o; out += std::to_string(a) + std::to_string(b); }
                try { const MatrixXd& m = g.jacobian(); Out o; out += hexv(Eigen::Map<const VectorXd>(m.data(), m.size())); } catch (const std::exception& e) { Out o; out += std::string("/") + e.what(); }
                try { const VectorXd& m = g.residual(); Out o; out += hexv(m); } catch (const std::exception& e) { Out o; out += std::string("/") + e.what(); }
                try { const Eigen::SparseMatrix<double>& m = g.sparse_jacobian(); Out o; out += hexv(Eigen::Map<const VectorXd>(m.valuePtr(), m.nonZeros())); } catch (const std::exception& e) { Out o; out += std::string("/") + e.what(); }
            } else if (k == "cprint") {
                if (!eval_ready()) return "";
                Sut s;
                if (hh % 3 == 0) w.g->print_structure();
                else if (hh % 3 == 1) w.g->print_variables();
                else for (auto& p : w.g->get_all_variables()) p->print();
            }
        } catch (const std::exception& e) {
            g_sut = 0;
            out = std::string("throw ") + e.what();
        }
        return k + " " + out;
    }
    void Exec::private_threads(const std::map<int, std::vector<Op>>& th, std::vector<std::vector<std::string>>& logs, bool concurrent)
    {
        std::vector<std::unique_ptr<Exec>> ex;
        std::vector<std::function<void()>> body;
        for (auto& t : th) {
            ex.emplace_back(new Exec(check));
            Exec *e = ex.back().get();
            e->record_only = true;
            const std::vector<Op> *ops = &t.second;
            body.push_back([e, ops] { for (auto& o : *ops) e->step(o); });
        }
        if (concurrent) run_threads(body);
        else for (auto& b : body) {
            // alone: no scheduler, a fresh thread each
            b();
        }
        for (auto& e : ex) {
            logs.push_back(e->log);
            for (auto& x : e->st.fired) st.fired[x.first] += x.second;
            for (auto& x : e->st.armed) st.armed[x.first] += x.second;
            for (auto& x : e->st.probes) st.probes[x.first] += x.second;
            st.steps += e->st.steps;
        }
    }
    void Exec::do_group()
    {
        std::map<int, std::vector<Op>> th;
        for (auto& g : group) th[g.first].push_back(g.second);
        group.clear();
        if (th.empty()) return;
        auto keep = t_cb;
        t_cb = nullptr;
        if (check == "C08") {
            std::vector<std::vector<std::string>> solo, conc;
            private_threads(th, solo, false);
            private_threads(th, conc, true);
            size_t i = 0;
            for (auto& t : th) {
                auto &a = solo[i], &b = conc[i];
                st.compares += a.size();
                for (auto& l : b) h.str(l);
                if (a != b) {
                    size_t j = 0;
                    while (j < a.size() && j < b.size() && a[j] == b[j]) j++;
                    std::string what = j < a.size() ? a[j].substr(0, a[j].find(' ', 12)) : "end";
                    bad("C08", "interference", "thread " + std::to_string(t.first) + " event " + std::to_string(j) + " (" + what + ") differs from the same program run alone");
                    break;
                }
                i++;
            }
        } else {
            std::map<int, std::vector<std::string>> a, b;
            std::vector<std::function<void()>> body;
            // the answers to compare with come before or after; before, nothing is left for the first reader to compute
            auto alone = [&] { for (auto& t : th) for (auto& o : t.second) a[t.first].push_back(const_call(o)); };
            if (!cold_group) alone();
            auto v0 = snap();
            for (auto& t : th) {
                b[t.first];
                auto *dst = &b[t.first];
                auto *ops = &t.second;
                body.push_back([this, dst, ops] { for (auto& o : *ops) { std::string r = const_call(o); dst->push_back(r); } });
            }
            run_threads(body);
            if (cold_group) alone();
            for (auto& t : th) {
                st.compares += a[t.first].size();
                for (auto& l : b[t.first]) h.str(l);
                for (size_t j = 0; j < a[t.first].size(); j++)
                    if (a[t.first][j] != b[t.first][j]) { bad("C09", "concurrent", "thread " + std::to_string(t.first) + " call " + join(t.second[j]) + " returned another result than single-threaded"); break; }
            }
            for (auto& x : w.v) if (hexv(v0[x.first]) != hexv(x.second->value())) bad("C09", "values", "const calls changed a variable");
        }
        t_cb = keep;
    }
    bool Exec::step(const Op& op)
    {
        if (op.empty() || torn) return true;
        const std::string& k = op[0];
        if (k[0] == '@') {
            group.emplace_back(atoi(k.c_str() + 1), Op(op.begin() + 1, op.end()));
            return true;
        }
        if (!group.empty()) { do_group(); if (stop()) return false; }
        if (k == "end") return true;
        st.steps++;
        st.ops[k]++;
        t_cb = &cb;
        if (k == "flt") { if (op.size() >= 3) pend.push_back({op[1], op[2], sval(op, 3)}); return true; }
        if (k == "cfg") {
            if (sval(op, 1) == "fill") { g_fill_mode = uint64_t(ival(op, 2)); g_fill_seed = uint64_t(ival(op, 3)); }
            if (sval(op, 1) == "clock") { g_clock.mode = int(ival(op, 2)); g_clock.seed = uint64_t(ival(op, 3)); }
            if (sval(op, 1) == "cold") cold_group = ival(op, 2) != 0;
            if (sval(op, 1) == "sched") { g_sched.p = dval(op, 2); g_sched.rng = Rng(uint64_t(ival(op, 3))); }
            if (sval(op, 1) == "script") {
                g_sched.explicit_mode = true;
                for (size_t i = 2; i < op.size(); i++) {
                    size_t c = op[i].find(':');
                    if (c != std::string::npos) g_sched.script.emplace_back(strtoull(op[i].c_str(), nullptr, 10), atoi(op[i].c_str() + c + 1));
                }
            }
            return true;
        }
        std::map<int, VectorXd> v0, d0;
        if (want("C06") && !record_only) { v0 = snap(); d0 = snap_derived(); }
        int direct = -1;
        if (k == "var") {
            VarSpec s;
            if (!Gen::parse(op, s) || w.v.count(s.h) || (s.kind == 'G' && s.p.empty())) return true;
            static const std::map<char, size_t> need = {{'P', 6}, {'L', 3}, {'I', 7}, {'R', 3}, {'A', 4}, {'D', 3}};
            auto it = need.find(s.kind);
            if (s.kind != 'G' && (it == need.end() || s.p.size() != it->second)) return true;
            s.id = int(unsigned(s.id) + id_shift);
            vs[s.h] = s;
            { Sut q; w.v[s.h] = make_var(s, true); }
            if (w.v[s.h]->id() != s.id) for (const char *pr : {"C02", "C14", "C15"}) bad(pr, "identity", join(op) + ": the variable's id() is " + std::to_string(w.v[s.h]->id()));
            event(join(op));
            direct = s.h;
        } else if (k == "fac") {
            FacSpec s;
            if (!Gen::parse(op, s) || w.f.count(s.h)) return true;
            std::vector<const VarSpec *> sp;
            std::vector<Variable *> p;
            for (int hv : s.v) {
                if (!w.v.count(hv)) return true;
                sp.push_back(&vs[hv]);
                p.push_back(w.v[hv].get());
            }
            if (!fac_ok(s, sp)) return true;
            s.id = int(unsigned(s.id) + id_shift);
            fs[s.h] = s;
            FacP f;
            { Sut q; f = make_factor(s, p); }
            if (s.wrap) { Sut q; f = std::make_shared<SimFactor>(f); }
            w.f[s.h] = f;
            if (f->id() != s.id) for (const char *pr : {"C02", "C14", "C15"}) bad(pr, "identity", join(op) + ": the factor's id() is " + std::to_string(f->id()));
            event(join(op));
        } else if (k == "addv" || k == "addf") do_add(op);
        else if (k == "fin") do_fin(op);
        else if (k == "setc") {
            int hh = int(ival(op, 1));
            if (w.v.count(hh)) {
                bool b = ival(op, 2) != 0;
                if (w.v[hh]->is_constant() != b)
                    for (int a : av) if (a == hh) { pending_const = true; struct_rev++; if (ever_fin) toggled = true; }
                    for (int a : other.av) if (a == hh && other_g) { other.pending_const = true; other.struct_rev++; other_sig.clear(); }
                { Sut q; w.v[hh]->set_constant(b); }
                if (w.v[hh]->is_constant() != b) bad("C06", "constness", "set_constant() had no effect");
                event(join(op));
                direct = hh;
            }
        } else if (k == "setv") { direct = int(ival(op, 1)); do_setv(op); }
        else if (k == "gverb") { if (!g_dropped) { gverb = ival(op, 1) != 0; Sut q; w.g->set_verbose(gverb); } }
        else if (k == "setx") { direct = int(ival(op, 1)); do_setx(op); }
        else if (k == "inc") { direct = int(ival(op, 1)); do_vec(op); }
        else if (k == "ginc" || k == "gset" || k == "gvec") do_vec(op);
        else if (k == "ev") do_eval(op);
        else if (k == "dirty") do_dirty(op);
        else if (k == "setup") {
            if (g_dropped) return true;
            set = OptimizerSettings();
            set.method = sval(op, 1) == "lm" ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton;
            set.max_num_iterations = size_t(std::max(0l, std::min(50l, ival(op, 2))));
            set.verbose = ival(op, 3) != 0;
            set.step_tolerance = dval(op, 4, 1e-6);
            set.residual_tolerance = dval(op, 5, 1e-6);
            set.initial_lambda = dval(op, 6, 1e-3);
            set.max_lambda = dval(op, 7, 1e5);
            set.lambda_up_factor = dval(op, 8, 10);
            set.lambda_down_factor = dval(op, 9, 0.1);
            set.learning_rate = dval(op, 10, 1);
            Outcome o = call([&] { w.o->setup(w.g, set); });
            event(join(op) + " -> " + o.kind);
            if (o.ok) { has_setup = true; cov_known = false; }
            opt_done = cov_avail = false;
            opt_holds = opt_sure = o.ok;
        } else if (k == "newopt") {
            if (g_dropped) return true;
            { Sut q; w.o = std::unique_ptr<SparseOptimizer>(new SparseOptimizer); }
            opt_holds = false;
            opt_sure = true;
            if (w.g.use_count() != 1) bad("C19", "kept-alive", "the graph is still held by something after its optimizer was destroyed");
            has_setup = false;
            cov_known = opt_done = cov_avail = false;
            event(k);
        } else if (k == "detour") do_detour(op);
        else if (k == "opt") do_opt(op);
        else if (k == "prep" || k == "pcov") do_prep(op);
        else if (k == "cov") do_cov(op);
        else if (k == "obs") do_obs(op);
        else if (k == "bad") do_bad(op);
        else if (k == "clone") do_clone(op);
        else if (k == "sw") do_sw(op);
        else if (k == "drop") do_drop(op);
        else if (k == "grow") do_grow(op);
        else if (k == "gcopy") do_gcopy(op);
        else if (k == "tear") do_tear(op);
        else if (k == "selftest") do_selftest(op);
        pend.clear();
        if (!record_only) {
            if (other_g) check_other(join(op));
            if (want("C06")) check_const(v0, d0, k, direct);
            check_manifold(join(op));
            Hash q;
            q.str(k + (op.size() > 1 && (k == "ev" || k == "obs" || k == "bad") ? op[1] : ""));
            q.u64(fin_ok); q.u64(has_setup); q.u64(fired.any); q.u64(fired.alloc); q.u64(fired.thr); q.u64(fired.nan); q.u64(av.size() > 4); q.u64(ever_fin);
            st.states.insert(q.h);
        }
        return !stop();
    }
    void Exec::run(const Plan& p)
    {
        for (auto& o : p.ops)
            if (!step(o)) return;
        if (!group.empty()) do_group();
        if (torn) event("end"); else event_vals("end");
    }
    RunResult run_plan(const Plan& p)
    {
        RunResult R;
        // C19 runs the same history three times in one process: what every round leaves behind is a leak
        const int rounds = p.check == "C19" ? 3 : 1;
        uint64_t ln[3] = {0, 0, 0}, lb[3] = {0, 0, 0};
        if (rounds > 1) track_start();
        for (int round = 0; round < rounds && R.viol.empty(); round++) {
            g_clock = Clock();
            g_clock.on = true;
            g_sched = Sched();
            g_fill_mode = 1;
            g_fill_seed = 1;
            g_blocks = 0;
            g_heap = HeapFault();
            g_sut = 0;
            t_cb = nullptr;
            g_streams.install();
            g_streams.reset();
            bool leaky;
            {
                Exec e(p.check);
                e.id_shift = unsigned(round) * 1000003u;
                e.run(p);
                R.viol = e.viol;
                leaky = e.st.fired.count("alloc") || e.st.fired.count("alloc-persistent");
                if (round == 0) { R.hash = e.h.h; R.st = e.st; }
                Sut s;
                e.let_go();
            }
            g_sut = 0;
            R.switches += g_sched.switches;
            R.blocks += g_blocks;
            for (auto& x : g_sched.trace) R.script += " " + std::to_string(x.first) + ":" + std::to_string(x.second);
            g_streams.uninstall();
            t_cb = nullptr;
            ln[round] = g_live_n;
            lb[round] = g_live_bytes;
            if (leaky) R.st.probes["alloc-fault-round"]++;
        }
        if (rounds > 1 && R.viol.empty()) {
            R.st.compares++;
            if ((ln[2] > ln[1] && ln[1] > ln[0]) || (lb[2] > lb[1] && lb[1] > lb[0]))
                R.viol.push_back({"C19", "leak", "every repetition of the history leaves memory behind: " + std::to_string(ln[0]) + ", " + std::to_string(ln[1]) + ", " + std::to_string(ln[2]) + " blocks (" +
                                                     std::to_string(lb[0]) + ", " + std::to_string(lb[1]) + ", " + std::to_string(lb[2]) + " bytes)"});
        }
        return R;
    }
} // namespace sim
