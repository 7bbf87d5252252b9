// Generates the history, faults and schedule parameters of one run from its seed. Pure: no library calls.
#include "exec.h"
#include "exec_util.h"
#include <algorithm>
#include <cmath>

namespace sim
{
    namespace
    {
        struct PB
        {
            Rng r;
            Plan p;
            std::string check;
            Gen g;
            struct Cl { size_t v0, v1, f0, f1; };
            std::vector<Cl> cl;
            size_t next_cl = 0;
            std::vector<int> av, af;      // handles added (by intention)
            bool fin = false;
            bool has_setup = false;
            std::string pre;              // "@i " inside a thread program
            bool threads = false;
            bool linear = false;

            PB(const std::string& c, uint64_t seed) : r(seed * 2654435761ull + 977), check(c), g(seed * 40503ull + 31)
            {
                p.check = c;
                p.seed = seed;
            }
            void op(const std::string& s) { p.ops.push_back(words(pre + s)); }
            static std::string S(int64_t v) { return std::to_string(v); }
            std::string seed() { return std::to_string(r.below(1000000)); }
            std::string F(double d) { char b[40]; snprintf(b, sizeof b, "%.6g", d); return b; }

            // ---- faults -----------------------------------------------------------------------------
            std::string pos() { return "%" + S(int64_t(r.below(1000))); }
            std::string at(int lim) { return threads ? S(int64_t(r.below(uint64_t(lim)))) : r.p(0.15) ? S(int64_t(r.below(4))) : pos(); }
            void flt(const std::string& kind, int lim = 60) { op("flt " + kind + " " + at(lim)); }
            bool no_alloc = false;
            void flt_alloc() { if (!no_alloc) flt(r.p(0.2) ? "allocs" : "alloc", 300); }
            void flt_cb(const std::string& kinds, const std::vector<std::string>& acts)
            {
                char k = kinds[r.below(kinds.size())];
                std::string a = r.pick(acts);
                if (k != 's' && k != 'a' && (a == "throw" || a == "cancel") && r.p(0.1)) k = 'v';
                if ((k == 'a' || k == 's') && (a == "nan" || a == "inf")) a = "throw";
                flt(std::string(1, k) + a);
            }
            void flt_stream()
            {
                static const std::vector<std::string> k = {"out", "outs", "outx", "outst"};
                op("flt " + r.pick(k) + " " + (r.p(0.3) ? S(int64_t(r.below(40))) : pos()));
            }
            void flt_clock()
            {
                if (r.p(0.5)) op("flt clkmode " + S(r.range(0, 3)));
                int n = r.range(0, 2);
                for (int i = 0; i < n; i++) {
                    static const double mag[] = {1e3, 1e9, 3.6e12, 3e16, 9e17};
                    int64_t d = int64_t(mag[r.below(5)] * r.uni(0.1, 1));
                    op("flt clk " + S(int64_t(r.below(60))) + " " + S(r.p(0.6) ? -d : d));
                }
            }

            // ---- structure ----------------------------------------------------------------------------
            void cfg()
            {
                op("cfg fill " + S(r.range(1, 3)) + " " + seed());
                op("cfg clock " + S(r.below(3) == 0 ? r.range(0, 3) : 0) + " " + seed());
            }
            void add_cluster(int t)
            {
                Cl c;
                c.v0 = g.vars.size();
                c.f0 = g.facs.size();
                g.cluster(t);
                c.v1 = g.vars.size();
                c.f1 = g.facs.size();
                for (size_t i = c.v0; i < c.v1; i++) op(Gen::line(g.vars[i]));
                for (size_t i = c.f0; i < c.f1; i++) op(Gen::line(g.facs[i]));
                cl.push_back(c);
            }
            int tmpl() { return linear ? 0 : g.c.custom > 0 && r.p(g.c.custom) ? 6 : int(r.below(6)); }
            bool big = false; // a problem of many objects at once (and a short history)
            void make(int n)
            {
                if (!threads && r.p(0.025)) {
                    big = true;
                    int m = r.p(0.12) ? r.range(24, 32) : r.range(6, 14);
                    for (int i = 0; i < m; i++) add_cluster(tmpl());
                    cl = {Cl{0, cl.back().v1, 0, cl.back().f1}};
                    n--;
                }
                for (int i = 0; i < n; i++) add_cluster(tmpl());
            }
            // add the objects of the next cluster; dependencies first or mixed
            void add_next(double pf_alloc = 0, double p_noise = 0)
            {
                if (next_cl >= cl.size()) return;
                Cl c = cl[next_cl++];
                std::vector<std::pair<bool, int>> l;
                for (size_t i = c.v0; i < c.v1; i++) l.emplace_back(true, g.vars[i].h);
                for (size_t i = c.f0; i < c.f1; i++) l.emplace_back(false, g.facs[i].h);
                if (r.p(0.4)) for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.below(i)]);
                for (auto& x : l) {
                    std::string s = (x.first ? "addv " : "addf ") + S(x.second);
                    if (r.p(pf_alloc) && !no_alloc) { op("flt " + std::string(r.p(0.2) ? "allocs" : "alloc") + " " + (threads ? S(r.range(0, 3)) : r.p(0.5) ? S(r.range(0, 4)) : pos())); op(s); }
                    if (r.p(p_noise)) noise_edit();
                    op(s);
                    (x.first ? av : af).push_back(x.second);
                }
                fin = false;
            }
            // whatever refuses to run on a structure that is not complete
            void unready()
            {
                switch (r.below(5)) {
                case 0: op("ginc " + seed() + " 0.1"); break;
                case 1: if (has_setup) { op("opt"); break; } // fall through
                default: op("ev " + ek() + " 0 0"); break;
                }
            }
            void noise_edit()
            {
                switch (r.below(6)) {
                case 0: op("addv -1"); break;
                case 1: op("addf -1"); break;
                case 2: if (!av.empty()) op("addv " + S(r.pick(av))); break;
                case 3: if (!af.empty()) op("addf " + S(r.pick(af))); break;
                case 4: op("fin"); if (r.p(0.6)) unready(); break;
                default: op("ev " + ek() + " 0 0"); break;
                }
            }
            void finalize(double p_fault = 0)
            {
                if (r.p(p_fault)) { flt_alloc(); op("fin"); if (r.p(0.4)) op("ev " + ek() + " 0 0"); }
                op("fin");
                fin = true;
            }
            std::string ek() { static const std::vector<std::string> k = {"r", "j", "s", "b", "j", "s", "r2"}; return r.pick(k); }
            int anyv() { return g.vars.empty() ? 0 : g.vars[r.below(g.vars.size())].h; }
            int anyf() { return g.facs.empty() ? 0 : g.facs[r.below(g.facs.size())].h; }

            // ---- activities ---------------------------------------------------------------------------
            void ev(double pf = 0)
            {
                if (r.p(0.15)) { op(std::string("ev ") + (r.p(0.5) ? "acc" : "accs") + " 0 0"); return; }
                std::string k = ek();
                if (r.p(pf)) {
                    if (r.p(0.5)) flt_alloc();
                    else flt_cb("rj", {"throw", "cancel", "nan", "inf"});
                }
                op("ev " + k + " " + seed() + " " + S(r.range(0, 9)));
            }
            void mutate(double sc, double pf = 0)
            {
                if (r.p(check == "C11" ? 0.1 : 0.01)) op("gverb " + S(r.below(2)));
                bool f = r.p(pf);
                if (r.p(0.15)) { static const double tiny[] = {0, 1e-3, 1e-5, 1e-7, 1e-8, 1e-10, 1e-12}; sc *= tiny[r.below(7)]; }
                if (r.p(check == "C16" ? 0.2 : 0.1)) {
                    op("setx " + S(anyv()) + " " + seed() + " " + F(sc) + (check == "C16" && r.p(0.5) ? " far" : ""));
                    return;
                }
                if (check == "C16" && r.p(0.15)) {
                    op(std::string(r.p(0.5) ? "setv " : "inc ") + S(anyv()) + " " + seed() + " " + F(sc) + " far");
                    return;
                }
                if (check == "C16" && r.p(0.2)) {
                    op(std::string(r.p(0.5) ? "setv " : "inc ") + S(anyv()) + " " + seed() + " " + F(sc) + " pi");
                    return;
                }
                switch (r.below(5)) {
                case 0: if (f) flt_cb("s", {"throw", "cancel"}); op("setv " + S(anyv()) + " " + seed() + " " + F(sc)); break;
                case 1: if (f) flt_cb("a", {"throw", "cancel"}); op("inc " + S(anyv()) + " " + seed() + " " + F(sc)); break;
                case 2: if (f) { if (r.p(0.5)) flt_alloc(); else flt_cb("a", {"throw", "cancel"}); } op("ginc " + seed() + " " + F(sc)); break;
                case 3: if (f) { if (r.p(0.5)) flt_alloc(); else flt_cb("s", {"throw", "cancel"}); } op("gset " + seed() + " " + F(sc) + (r.p(0.3) ? " some" : "")); break;
                default: if (f) flt_alloc(); op("gvec"); break;
                }
            }
            void constness()
            {
                int n = r.range(1, 2);
                for (int i = 0; i < n; i++) op("setc " + S(anyv()) + " " + S(r.range(0, 1)));
                if (r.p(0.9)) finalize();
                else op("ev j 0 0");
            }
            void setup(int kind = -1, int verbose = 0)
            {
                // kind 0 gn, 1 lm, -1 either
                bool lm = kind < 0 ? r.p(0.55) : kind == 1;
                static const std::vector<std::string> tol = {"1e-6", "1e-6", "1e-9", "1e-12", "0", "1e-2"};
                static const std::vector<std::string> l0 = {"1e-3", "1e-3", "0", "1", "1000", "1e-9", "0.1"};
                static const std::vector<std::string> lm_ = {"1e5", "1e5", "1e2", "1e10", "10"};
                static const std::vector<std::string> up = {"10", "10", "2", "3"};
                static const std::vector<std::string> dn = {"0.1", "0.1", "0.5"};
                static const std::vector<std::string> lr = {"1", "1", "1", "0.5", "0.1", "1.5"};
                static const std::vector<std::string> it = {"0", "1", "2", "3", "4", "5", "6", "8", "10", "12"};
                op(std::string("setup ") + (lm ? "lm " : "gn ") + r.pick(it) + " " + S(verbose) + " " + r.pick(tol) + " " + r.pick(tol) + " " + r.pick(l0) + " " + r.pick(lm_) + " " +
                   r.pick(up) + " " + r.pick(dn) + " " + r.pick(lr));
                has_setup = true;
            }
            void setup_good(int verbose = 0)
            {
                if (r.p(0.5)) op("setup gn " + S(r.range(3, 8)) + " " + S(verbose) + " 1e-12 1e-12 0.001 1e5 10 0.1 1");
                else op("setup lm " + S(r.range(12, 16)) + " " + S(verbose) + " 1e-12 1e-12 0.0001 1e8 10 0.1 1");
                has_setup = true;
            }
            void opt(double pf, bool alloc = true, bool nan = true)
            {
                if (!has_setup) setup();
                if (r.p(pf)) {
                    int n = r.p(0.2) ? 2 : 1;
                    bool sused = false;
                    for (int i = 0; i < n; i++) {
                        double q = r.u();
                        if (alloc && q < 0.35 && i == 0) flt_alloc();
                        else if (nan && q < 0.55) flt_cb("rj", {"nan", "inf"});
                        else {
                            std::string ks = sused ? "rja" : "rjas";
                            size_t before = p.ops.size();
                            flt_cb(ks, {"throw", "throw", "cancel", "stall"});
                            if (p.ops[before].size() > 1 && p.ops[before].back() != "" && join(p.ops[before]).find("flt s") != std::string::npos) sused = true;
                        }
                    }
                }
                if (check == "C04" && r.p(0.5)) op("opt plain");
                else op("opt");
            }
            void obs(double pf, double ps)
            {
                static const std::vector<std::string> k = {"pstruct", "pvars", "pjac", "pjacd", "dft", "numjac", "numjac", "fname", "look"};
                std::string q = r.pick(k);
                if (r.p(pf)) {
                    if (r.p(0.35)) flt_alloc();
                    else flt_cb(q == "numjac" || q == "dft" ? "rjas" : "rj", {"throw", "throw", "cancel", "nan", "inf"});
                }
                if (r.p(ps)) flt_stream();
                int a = q == "numjac" || q == "fname" ? anyf() : int(r.below(2));
                op("obs " + q + " " + S(a));
            }
            void bad()
            {
                static const std::vector<std::string> k = {"nullv", "nullf", "dupv", "dupf", "inc", "inc", "set", "set", "ginc", "gset", "eval", "accessor", "pstruct",
                                                           "noopt", "covnull", "covnew", "covconst", "covforeign", "gempty"};
                op("bad " + r.pick(k) + " " + S(anyv()) + " " + seed());
            }
            void prep(double pf)
            {
                if (!has_setup) setup();
                if (r.p(pf)) { if (r.p(0.6)) flt_alloc(); else flt_cb("j", {"throw", "cancel", "nan"}); }
                op(r.p(0.1) ? "pcov" : "prep");
            }
            void cov(int n = 2, double pf = 0)
            {
                for (int i = 0; i < n; i++) {
                    if (r.p(pf)) flt_alloc();
                    op("cov " + S(anyv()));
                }
            }
            void clone() { op("clone " + S(anyv()) + " " + seed()); }
            // a graph that cannot be finalized: lone free variables or factors on unregistered variables
            void trouble()
            {
                VarSpec s;
                s.h = g.next_h++;
                s.kind = 'G';
                s.id = g.new_id(true);
                s.p = std::vector<double>(size_t(r.range(1, 4)) * (r.p(0.4) ? 1 : 6), 0.5);
                op(Gen::line(s));
                g.vars.push_back(s);
                if (r.p(0.5)) { op("addv " + S(s.h)); av.push_back(s.h); op("fin"); if (r.p(0.7)) unready(); fin = false; }
                FacSpec f;
                f.h = g.next_h++;
                f.kind = "gp";
                f.id = g.new_id(false);
                f.wrap = r.p(0.6);
                f.v = {s.h};
                f.p = s.p;
                f.p.push_back(1.0);
                op(Gen::line(f));
                g.facs.push_back(f);
                op("addf " + S(f.h));
                af.push_back(f.h);
                op("fin");
                if (r.p(0.5)) op("ev " + ek() + " 0 0");
                if (r.p(0.3)) op("ginc " + seed() + " 0.1");
                bool in = std::find(av.begin(), av.end(), s.h) != av.end();
                if (!in) { op("addv " + S(s.h)); av.push_back(s.h); }
                fin = false;
            }

            // a factor on a variable that is not in the graph but shares the ID of one that is
            void alias()
            {
                std::vector<VarSpec> l;
                for (auto& q : g.vars) if (q.kind == 'G' && !q.cst && std::find(av.begin(), av.end(), q.h) != av.end()) l.push_back(q);
                if (l.empty()) return;
                VarSpec s = r.pick(l);
                s.h = g.next_h++;
                if (r.p(0.2)) s.p.push_back(0.5);
                op(Gen::line(s));
                g.vars.push_back(s);
                FacSpec f;
                f.h = g.next_h++;
                f.kind = "gp";
                f.id = g.new_id(false);
                f.wrap = r.p(0.6);
                f.v = {s.h};
                f.p = s.p;
                f.p.push_back(1.0);
                op(Gen::line(f));
                g.facs.push_back(f);
                if (r.p(0.3)) op("addv " + S(s.h));
                op("addf " + S(f.h));
                op("fin");
                unready();
                if (r.p(0.3)) op("cov " + S(s.h));
            }

            void drop()
            {
                int n = r.range(1, 3);
                for (int i = 0; i < n; i++) {
                    double q = r.u();
                    if (q < 0.5) op("drop v " + S(anyv()));
                    else if (q < 0.85) op("drop f " + S(anyf()));
                    else op("drop g");
                }
            }
            void selftest(double pf, double ps)
            {
                static const std::vector<std::string> tol = {"1e-5", "1e-5", "1e-4", "1e-3", "1e-6"};
                if (r.p(pf)) {
                    double q = r.u();
                    if (q < 0.6) flt("jbad");
                    else if (q < 0.75) flt_cb("j", {"nan", "inf"});
                    else if (q < 0.85) flt_alloc();
                    else flt_cb("rjas", {"throw", "cancel", "nan", "inf", "stall"});
                }
                if (r.p(ps)) flt_stream();
                op("selftest v " + r.pick(tol) + " " + S(int64_t(r.below(2))));
            }

            bool two = false; // there is a second graph
            void gcopy(double pf)
            {
                double q = r.u();
                const char *k = !two ? (q < 0.75 ? "new" : q < 0.88 ? "self" : "moved") : q < 0.5 ? "flip" : q < 0.7 ? "assign" : q < 0.8 ? "new" : q < 0.85 ? "drop" : q < 0.93 ? "self" : "moved";
                std::string n = k;
                if (n != "flip" && n != "drop" && n != "moved" && r.p(pf)) flt_alloc();
                op("gcopy " + n);
                if (n == "new") two = true;
                if (n == "drop") two = false;
                if (n == "flip" || n == "moved") has_setup = false;
            }

            // original and copy go through equally many edits, of a different kind; then one takes over the other's contents
            void fork()
            {
                std::vector<VarSpec> l;
                for (auto& q : g.vars) if ((q.kind == 'G' || q.kind == 'L') && !q.cst && std::find(av.begin(), av.end(), q.h) != av.end()) l.push_back(q);
                if (l.empty()) { gcopy(0); return; }
                op("fin");
                op("gcopy new");
                two = true;
                for (int i = 0; i < 2; i++) {
                    VarSpec q = r.pick(l);
                    FacSpec f;
                    f.h = g.next_h++;
                    f.kind = "gp";
                    f.id = g.new_id(false);
                    f.wrap = r.p(0.3);
                    f.v = {q.h};
                    f.p = q.p;
                    for (auto& x : f.p) x += 0.1 * r.n();
                    f.p.push_back(r.p(0.5) ? 0.1 : r.uni(0.2, 3));
                    op(Gen::line(f));
                    g.facs.push_back(f);
                    op("addf " + S(f.h));
                    op("fin");
                    if (i == 0 || r.p(0.3)) { setup_good(); op("opt"); op("prep"); }
                    if (i == 1 && r.p(0.3)) op("ev " + ek() + " 0 0");
                    op("gcopy flip");
                }
                if (r.p(0.8)) op("gcopy assign"); else op("gcopy self");
                cov(r.range(1, 3));
                if (r.p(0.5)) { op("ev " + ek() + " 0 0"); op("opt"); op("prep"); cov(1); }
                has_setup = true;
            }

            // ---- workload ----------------------------------------------------------------------------------
            struct W { double dr = 0, gr = 0, sf = 0, de = 0, ev = 0, mu = 0, co = 0, op = 0, di = 0, ob = 0, ba = 0, pr = 0, cl = 0, ad = 1, re = 0.3, tr = 0, gc = 0; };
            struct Pf { double add = 0, noise = 0, fin = 0, ev = 0, mu = 0, op = 0, ob = 0, st = 0, pr = 0, cv = 0; bool alloc = true, nan = true; };
            void history(const W& w, const Pf& f, int n, double sc, int okind = -1, int verbose_p = 0)
            {
                if (big) n = std::min(n, 6);
                add_next(f.add * (big ? 0.1 : 1), f.noise * (big ? 0.1 : 1));
                if (w.tr > 0 && r.p(0.15)) trouble();
                finalize(f.fin);
                double tot = w.ev + w.mu + w.co + w.op + w.di + w.ob + w.ba + w.pr + w.cl + w.ad + w.re + w.tr + w.dr + w.gr + w.sf + w.gc;
                for (int i = 0; i < n; i++) {
                    double q = r.u() * tot;
                    auto take = [&](double x) { if (q < x) return true; q -= x; return false; };
                    if (take(w.gc)) { if (r.p(0.1)) fork(); else gcopy(f.fin); }
                    else if (take(w.dr)) drop();
                    else if (take(w.gr)) op(r.p(0.5) ? "grow fin" : "grow");
                    else if (take(w.sf)) selftest(f.ob, f.st);
                    else if (take(w.ev)) ev(f.ev);
                    else if (take(w.mu)) mutate(sc, f.mu);
                    else if (take(w.co)) constness();
                    else if (take(w.op)) {
                        if (has_setup && w.de > 0 && r.p(w.de)) op("detour " + seed());
                        if (!has_setup || r.p(0.4)) { if (r.p(0.1)) { op("newopt"); has_setup = false; } setup(okind, r.below(100) < uint64_t(verbose_p)); }
                        opt(f.op, f.alloc, f.nan);
                    }
                    else if (take(w.di)) op("dirty " + S(anyf()) + " " + seed());
                    else if (take(w.ob)) obs(f.ob, f.st);
                    else if (take(w.ba)) bad();
                    else if (take(w.pr)) { if (r.p(0.55)) prep(f.pr); cov(r.range(1, 3), f.cv); }
                    else if (take(w.cl)) clone();
                    else if (take(w.ad)) {
                        if (next_cl < cl.size()) { add_next(f.add, f.noise); if (r.p(0.25)) ev(); if (r.p(0.15)) op("cov " + S(anyv())); finalize(f.fin); }
                        else ev();
                    }
                    else if (take(w.re)) { if (r.p(0.5)) finalize(f.fin); else constness(); }
                    else { trouble(); finalize(f.fin); }
                }
            }
        };
    } // namespace

    static void thread_program(PB& b, int t, int len)
    {
        b.pre = "@" + std::to_string(t) + " ";
        b.threads = true;
        b.g.vars.clear();
        b.g.facs.clear();
        b.g.truth.clear();
        b.g.next_h = 0;
        b.g.used_v.clear();
        b.g.used_f.clear();
        b.cl.clear();
        b.next_cl = 0;
        b.av.clear();
        b.af.clear();
        b.has_setup = false;
        b.g.c.ids_random = b.r.p(0.3); // overlapping IDs across threads
        b.make(b.r.range(1, 2));
        PB::W w;
        w.ev = 2; w.mu = 1; w.op = 2.5; w.di = 0.3; w.pr = 1; w.cl = 0.5; w.ad = 1; w.co = 0.4; w.ba = 0.3; w.ob = 0.2;
        PB::Pf f;
        f.op = 0.15; f.ev = 0.05;
        b.history(w, f, len, 0.2);
        b.pre = "";
        b.threads = false;
    }

    Plan gen_plan(const std::string& check, uint64_t seed)
    {
        PB b(check, seed);
        Rng& r = b.r;
        b.g.c.pert = r.p(0.3) ? 0.3 : r.p(0.3) ? 0.02 : 0.1;
        b.g.c.const_prob = r.p(0.2) ? 0.5 : 0.15;
        b.g.c.wrap_prob = 0.7;
        b.g.c.noise = r.p(0.2) ? 0 : 0.02;
        b.cfg();
        if (check != "C12" && check != "C13" && r.p(0.15)) {
            static const double ws[] = {1e8, 1e8, 1e10, 1e5, 1e-3};
            b.g.c.wscale = ws[r.below(5)];
        }
        if (check != "C12" && r.p(0.15)) b.g.c.wmix = true;
        b.g.c.custom = check == "C04" ? 0.5 : check == "C03" || check == "C05" || check == "C18" ? 0.25 : check == "C12" || check == "C11" || check == "C01" || check == "C06" || check == "C07" || check == "C19" ? 0.1 : check == "C20" || check == "C21" ? 0.25 : 0;
        PB::W w;
        PB::Pf f;
        const std::string& c = check;
        w.de = c == "C13" || c == "C18" || c == "C21" ? 0.2 : c == "C03" || c == "C04" || c == "C05" ? 0.08 : c == "C01" || c == "C06" ? 0.05 : 0;
        int ncl = r.range(1, 3);
        if (c == "C01") {
            b.make(ncl);
            w.ev = 4; w.mu = 2; w.co = 1; w.op = 0.7; w.di = 1; w.ob = 0.5; w.ad = 1.2; w.re = 0.6; w.tr = 0.3; w.pr = 0.3;
            if (r.p(0.5)) { f.ev = 0.2; f.mu = 0.1; f.op = 0.3; f.fin = 0.15; f.add = 0.03; f.noise = 0.05; f.ob = 0.2; }
            b.history(w, f, r.range(4, 22), r.p(0.2) ? 0.6 : 0.15);
            b.op("ev j 0 0"); b.op("ev s 0 0"); b.op("ev b 0 0");
        } else if (c == "C02") {
            b.make(r.range(1, 4));
            w.ev = 2; w.mu = 0.5; w.op = 0.3; w.ad = 2; w.re = 0.7; w.tr = 1.2; w.co = 0.5; w.ba = 0.2;
            f.add = r.p(0.8) ? 0.15 : 0; f.noise = 0.1; f.fin = r.p(0.8) ? 0.6 : 0; f.ev = 0.1;
            b.history(w, f, r.range(3, 14), 0.15);
            b.op("fin"); b.op("ev b 0 0"); b.op("ev s 0 0");
            if (r.p(0.15)) b.alias();
        } else if (c == "C03" || c == "C04" || c == "C05") {
            b.g.c.far_apart = r.p(c == "C04" ? 0.35 : 0.15);
            if (r.p(0.3)) b.g.c.pert = 0.6;
            b.make(r.range(1, 2));
            w.op = 5; w.mu = 0.8; w.ad = 0.7; w.re = 0.3; w.co = 0.4; w.ev = 0.3; w.pr = c == "C03" ? 0.4 : 0.1;
            f.op = c == "C03" ? 0.85 : r.p(0.5) ? 0 : 0.5;
            if (r.p(0.3)) f.nan = false;
            if (c == "C04") { w.op = 8; b.history(w, f, r.range(2, 9), 0.2, r.p(0.95) ? 1 : -1, 5); }
            else b.history(w, f, r.range(2, 7), 0.2, -1, 10);
        } else if (c == "C06") {
            b.g.c.const_prob = r.p(0.3) ? 0.9 : 0.4;
            b.make(ncl);
            w.op = 3; w.mu = 2; w.co = 1.5; w.ob = 0.8; w.pr = 0.6; w.ev = 1; w.ad = 0.8; w.cl = 0.3;
            if (r.p(0.6)) { f.op = 0.5; f.ob = 0.4; f.mu = 0.2; f.pr = 0.2; f.ev = 0.1; }
            b.history(w, f, r.range(4, 18), 0.2);
        } else if (c == "C07") {
            b.make(ncl);
            w.ob = 4; w.ev = 1.5; w.pr = 1; w.op = 1; w.ad = 0.6; w.co = 0.3; w.mu = 0.5; w.cl = 0.4; w.di = 0.3;
            f.ob = r.p(0.75) ? 0.7 : 0; f.st = 0.15; f.ev = 0.3; f.pr = 0.3;
            b.history(w, f, r.range(4, 18), 0.15, -1, 10);
            b.opt(0);
        } else if (c == "C08") {
            double pr[] = {0.0005, 0.005, 0.03, 0.15};
            b.op("cfg sched " + b.F(pr[r.below(4)]) + " " + b.seed());
            int nt = r.range(2, 4);
            for (int t = 0; t < nt; t++) thread_program(b, t, r.range(2, 7));
            b.op("end");
        } else if (c == "C09") {
            double pr[] = {0.001, 0.01, 0.05, 0.3};
            b.op("cfg sched " + b.F(pr[r.below(4)]) + " " + b.seed());
            b.make(r.range(1, 2));
            w.ev = 1; w.mu = 0.5; w.op = 0.3; w.di = 2; w.ad = 1;
            b.history(w, f, r.range(1, 5), 0.15);
            int reps = r.range(2, 5);
            for (int rep = 0; rep < reps; rep++) {
                int nt = r.range(2, 4), hot = b.anyf(), hotv = b.anyv();
                if (r.p(0.5)) b.op("cfg cold " + b.S(r.below(2)));
                { // a rare kind is as likely to be the contended one as a frequent one
                    std::vector<std::string> kinds;
                    for (auto& q : b.g.facs) if (std::find(kinds.begin(), kinds.end(), q.kind) == kinds.end()) kinds.push_back(q.kind);
                    if (!kinds.empty()) {
                        std::string kk = r.pick(kinds);
                        std::vector<int> l;
                        for (auto& q : b.g.facs) if (q.kind == kk) l.push_back(q.h);
                        hot = r.pick(l);
                    }
                }
                for (int t = 0; t < nt; t++) {
                    int n = r.range(1, 6);
                    for (int i = 0; i < n; i++) {
                        static const std::vector<std::string> fk = {"cres", "cres2", "cjac", "cjac", "cfvars"};
                        static const std::vector<std::string> vk = {"cval", "cclone", "cname"};
                        std::string s = "@" + std::to_string(t) + " ";
                        double q = r.u();
                        if (q < 0.65) s += r.pick(fk) + " " + std::to_string(r.p(0.7) ? hot : b.anyf());
                        else if (q < 0.9) s += r.pick(vk) + " " + std::to_string(r.p(0.5) ? hotv : b.anyv());
                        else { static const char *gk[] = {"cvec", "cplace", "cplace", "cacc", "cprint"}; s += gk[r.below(5)]; if (s.size() > 6 && s.substr(s.size() - 6) == "cprint") s += " " + std::to_string(r.below(3)); }
                        b.op(s);
                    }
                }
                b.op("end");
                if (rep + 1 < reps) {
                    // one changed object (likely the contended one), or all
                    if (r.p(0.4)) b.op("setv " + b.S(r.p(0.7) ? hotv : b.anyv()) + " " + b.seed() + " 0.3");
                    else if (r.p(0.3)) b.op("gset " + b.seed() + " 0.3");
                    else b.mutate(0.1);
                    if (r.p(0.5)) b.op("ev j 0 0");
                }
            }
        } else if (c == "C10") {
            if (r.p(0.5)) {
                int n = r.range(3, 30);
                for (int i = 0; i < n; i++) {
                    static const double mag[] = {1, 1e3, 1e6, 1e9, 3.6e12, 8.64e13};
                    switch (r.below(7)) {
                    case 0: case 1: b.op("sw adv " + b.S(int64_t(mag[r.below(6)] * r.uni(0.5, 9)))); break;
                    case 2: b.op("sw start"); break;
                    case 3: b.op("sw stop"); break;
                    case 4: b.op("sw jump " + b.S(int64_t(mag[r.below(6)] * r.uni(0.5, 9)) * (r.p(0.6) ? -1 : 1))); break;
                    case 5: if (r.p(0.3)) { b.op("sw reset"); break; } // fall through
                    default: b.op("sw read"); break;
                    }
                }
                b.op("sw read");
            } else {
                b.make(r.range(1, 2));
                b.add_next();
                b.finalize();
                int n = r.range(1, 4);
                for (int i = 0; i < n; i++) {
                    b.setup(-1, 1);
                    int m = r.range(1, 2);
                    for (int j = 0; j < m; j++) { if (r.p(0.8)) b.flt_clock(); b.op("opt"); if (r.p(0.5)) b.mutate(0.2); }
                }
            }
        } else if (c == "C11") {
            b.make(r.range(1, 2));
            b.add_next();
            b.finalize();
            int n = r.range(2, 8);
            for (int i = 0; i < n; i++) {
                double q = r.u();
                if (r.p(0.2)) b.op("gverb " + std::to_string(r.below(2)));
                if (q < 0.5) {
                    b.setup(-1, r.p(0.75));
                    if (r.p(0.8)) b.flt_stream();
                    b.op("opt");
                    if (r.p(0.4)) { if (r.p(0.5)) b.flt_stream(); b.op(r.p(0.3) ? "pcov" : "prep"); if (r.p(0.5)) b.flt_stream(); b.cov(1); }
                } else if (q < 0.8) b.obs(0, 0.8);
                else if (q < 0.9) b.ev();
                else b.mutate(0.15);
            }
        } else if (c == "C12") {
            b.linear = r.p(0.4);
            if (b.linear) b.g.c.const_prob = 0.1;
            b.make(r.range(1, 2));
            b.add_next();
            b.finalize();
            int n = r.range(1, 3);
            for (int i = 0; i < n; i++) {
                if (b.linear) b.setup_good(); else b.setup();
                int m = r.range(1, 2);
                for (int j = 0; j < m; j++) b.opt(0.8);
                if (r.p(0.15)) b.op("detour " + b.seed());
                if (r.p(0.3)) b.mutate(0.15);
                if (r.p(0.2)) { b.add_next(); b.finalize(); }
                if (b.linear && r.p(0.5)) b.setup_good();
                b.op(b.linear ? "opt lin" : "opt");
                if (r.p(0.3)) b.op("opt");
            }
        } else if (c == "C13") {
            b.g.c.const_prob = r.p(0.2) ? 0.4 : 0.1;
            b.make(ncl);
            w.op = 1.6; w.pr = 4; w.mu = 1; w.co = 0.6; w.ad = 1; w.re = 0.6; w.ev = 0.3; w.tr = 0.3;
            if (r.p(0.5)) { f.op = 0.4; f.pr = 0.4; f.fin = 0.3; f.cv = 0.1; f.add = 0.05; }
            b.history(w, f, r.range(4, 16), 0.15);
        } else if (c == "C14") {
            b.make(ncl);
            w.ba = 6; w.ev = 0.8; w.op = 0.8; w.mu = 0.4; w.ad = 0.8; w.pr = 0.5; w.re = 0.3; w.tr = 0.3; w.co = 0.3;
            f.op = 0.2; f.ev = 0.1; f.noise = 0.1; f.fin = 0.2;
            if (r.p(0.5)) { int n = r.range(1, 4); for (int i = 0; i < n; i++) b.bad(); }
            b.history(w, f, r.range(4, 20), 0.15);
            if (r.p(0.1)) b.alias();
        } else if (c == "C15") {
            b.make(ncl);
            w.mu = 5; w.co = 1; w.ad = 1; w.re = 0.5; w.op = 0.5; w.ev = 0.4; w.tr = 0.2;
            if (r.p(0.4)) { f.mu = 0.2; f.fin = 0.2; f.add = 0.05; f.noise = 0.05; f.op = 0.3; }
            b.history(w, f, r.range(4, 20), r.p(0.2) ? 0.8 : 0.2);
            b.op("gvec");
        } else if (c == "C16") {
            b.make(ncl);
            w.mu = 4; w.cl = 1.5; w.op = 1; w.co = 0.4; w.ob = 0.3; w.ad = 0.5;
            if (r.p(0.4)) { f.mu = 0.15; f.op = 0.4; f.ob = 0.3; }
            double sc[] = {0.05, 0.5, 1.5, 3.0};
            b.history(w, f, r.range(4, 25), sc[r.below(4)]);
        } else if (c == "C19") {
            b.make(r.range(1, 3));
            w.ev = 1; w.mu = 0.6; w.op = 2; w.ad = 1; w.co = 0.5; w.re = 0.4; w.tr = 0.4; w.ba = 1; w.ob = 1; w.pr = 0.8; w.cl = 0.5; w.di = 0.2; w.de = 0.25; w.dr = 1.5; w.gr = 0.35;
            if (r.p(0.7)) {
                f.op = 0.4; f.ob = 0.4; f.mu = 0.2; f.pr = 0.3; f.ev = 0.2; f.add = 0.1; f.noise = 0.1; f.fin = 0.2; f.st = 0.1;
                b.no_alloc = r.p(0.6); // Eigen itself leaks when an allocation inside one of its constructors fails
            }
            b.history(w, f, r.range(2, 10), 0.15, -1, 10);
            if (r.p(0.15)) b.alias();
            if (r.p(0.85)) b.op("tear " + b.seed());
        } else if (c == "C20") {
            b.g.c.const_prob = r.p(0.3) ? 0.5 : 0.15;
            b.make(ncl);
            w.sf = 4; w.ev = 0.7; w.mu = 1.5; w.op = 0.7; w.ad = 1; w.co = 0.8; w.di = 0.4; w.pr = 0.3; w.ob = 0.3; w.re = 0.3;
            if (r.p(0.7)) { f.ob = 0.6; f.op = 0.3; f.mu = 0.1; f.st = 0.1; f.ev = 0.1; }
            b.history(w, f, r.range(3, 14), r.p(0.3) ? 0.6 : 0.15, -1, 10);
            b.op("selftest v 1e-5 0");
        } else if (c == "C22") {
            b.make(r.range(2, 4));
            w.ev = 2; w.mu = 0.7; w.co = 0.5; w.op = 0.8; w.pr = 0.8; w.ad = 1.2; w.re = 0.6; w.tr = 0.3; w.ob = 0.2; w.di = 0.3; w.gc = 3;
            if (r.p(0.5)) { f.fin = 0.3; f.ev = 0.1; f.op = 0.1; f.add = 0.05; }
            b.history(w, f, r.range(5, 22), 0.15);
            for (int i = 0; i < 2; i++) { b.op("fin"); b.op("ev b 0 0"); b.op("ev s 0 0"); if (r.p(0.3)) { b.setup(); b.op("opt"); b.op("prep"); b.cov(1); } b.op("gcopy flip"); }
            b.op("ev j 0 0");
        } else if (c == "C21") {
            if (r.p(0.3)) b.g.c.pert = 0.6;
            b.make(r.range(1, 3));
            w.op = 5; w.mu = 1; w.ad = 0.8; w.co = 0.7; w.ev = 0.4; w.re = 0.3; w.pr = 0.5; w.ob = 0.3; w.di = 0.3;
            if (r.p(0.4)) { f.op = 0.4; f.pr = 0.2; f.ev = 0.1; f.ob = 0.2; f.mu = 0.05; f.fin = 0.1; }
            b.history(w, f, r.range(2, 8), 0.2, -1, 10);
            b.op("opt");
        } else if (c == "C18") {
            b.make(r.range(1, 3));
            w.op = 4; w.mu = 0.7; w.ad = 0.6; w.co = 0.4; w.ev = 0.4;
            if (r.p(0.2)) f.op = 0.3;
            b.history(w, f, r.range(1, 5), 0.2);
            b.opt(0);
        }
        return b.p;
    }
} // namespace sim
