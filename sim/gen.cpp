#include "world.h"
#include <cmath>
#include <cstdlib>

namespace sim
{
    typedef Eigen::Vector3d V3;
    static VectorXd vx(const std::vector<double>& p)
    {
        VectorXd v(p.size());
        for (size_t i = 0; i < p.size(); i++) v[i] = p[i];
        return v;
    }
    static Eigen::Matrix3d rot(const V3& w)
    {
        double t = w.norm();
        if (t < 1e-14) return Eigen::Matrix3d::Identity();
        return Eigen::AngleAxisd(t, w / t).toRotationMatrix();
    }
    // ---- generator ---------------------------------------------------------------------------------
    int Gen::new_id(bool var)
    {
        auto& u = var ? used_v : used_f;
        for (;;) {
            int id;
            if (!c.ids_random) id = int(u.size());
            else {
                switch (r.below(5)) {
                case 0: id = int(r.below(10)); break;
                case 1: id = -int(r.below(50)); break;
                case 2: id = int(r.next() & 0x7fffffff); break;
                case 3: id = int(uint32_t(r.next())); break;
                default: id = int(r.below(1000)); break;
                }
            }
            if (!u.count(id)) { u[id] = 1; return id; }
            if (!c.ids_random) { id = int(u.size()) + 1000; if (!u.count(id)) { u[id] = 1; return id; } }
        }
    }
    int Gen::add_var(char k, std::vector<double> t, bool force_free, bool force_const)
    {
        VarSpec s;
        s.h = next_h++;
        s.kind = k;
        s.id = new_id(true);
        s.cst = force_const || (!force_free && r.p(c.const_prob));
        truth.push_back(vx(t));
        double q = c.pert * (c.far_apart ? 10 : 1);
        s.p = t;
        if (!(s.cst && r.p(0.7))) {
            if (k == 'I') s.p[6] = std::fabs(t[6] * (1 + 0.5 * q * r.uni(-1, 1))) + 0.05;
            else for (size_t i = 0; i < t.size(); i++) s.p[i] += q * r.n() * ((k == 'P' && i >= 3) || k == 'R' || (k == 'D' && i == 2) || k == 'A' ? 0.5 : 1.0);
        }
        if (k == 'I' && r.p(0.3)) { s.lim = true; s.lo = 0.01; s.hi = 5.0; }
        vars.push_back(s);
        return s.h;
    }
    void Gen::add_fac(const std::string& k, std::vector<int> v, std::vector<double> p)
    {
        FacSpec s;
        s.h = next_h++;
        s.kind = k;
        s.id = new_id(false);
        s.wrap = r.p(c.wrap_prob);
        s.v = v;
        s.p = p;
        facs.push_back(s);
    }
    void Gen::cluster(int t)
    {
        auto rv = [&](double sc) { return V3(sc * r.uni(-1, 1), sc * r.uni(-1, 1), sc * r.uni(-1, 1)); };
        auto l3 = [](const V3& a) { return std::vector<double>{a[0], a[1], a[2]}; };
        auto cat = [](std::vector<double> a, const std::vector<double>& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
        auto K = [&](double x) { return x * c.wscale * (c.wmix && r.p(0.25) ? (r.p(0.5) ? 1e4 : 1e-2) : 1.0); };
        auto sg = [&] { static const double q[] = {1, 0.5, 0.1, 2, 1, 0.25}; return K(q[r.below(6)]); };
        auto nz = [&] { return c.noise * r.n(); };
        switch (t) {
        case 0: { // linear chain with between and velocity factors
            int n = r.range(1, 4), d = r.p(0.05) ? r.range(5, 14) : r.range(1, 4);
            std::vector<int> h;
            std::vector<std::vector<double>> tv;
            for (int i = 0; i < n; i++) {
                std::vector<double> x;
                for (int j = 0; j < d; j++) x.push_back(r.uni(-3, 3));
                tv.push_back(x);
                h.push_back(add_var(d == 3 && r.p(0.5) ? 'L' : 'G', x));
                std::vector<double> pr = x;
                for (auto& e : pr) e += nz();
                pr.push_back(sg());
                add_fac("gp", {h.back()}, pr);
            }
            for (int i = 1; i < n; i++) {
                if (r.p(0.6)) {
                    std::vector<double> m;
                    for (int j = 0; j < d; j++) m.push_back(tv[i][j] - tv[i - 1][j] + nz());
                    bool fc = r.p(0.7);
                    int mh = add_var('G', m, !fc, fc);
                    if (!vars.back().cst) { auto q = m; q.push_back(sg()); add_fac("gp", {mh}, q); }
                    add_fac("gb", {h[i - 1], h[i], mh}, {sg()});
                }
                if (r.p(0.5)) {
                    int vd = r.range(1, d), off = r.range(0, d - vd);
                    double dt = r.uni(0.1, 2);
                    std::vector<double> m;
                    for (int j = 0; j < vd; j++) m.push_back((tv[i][off + j] - tv[i - 1][off + j]) / dt);
                    int mh = add_var('G', m);
                    if (!vars.back().cst) { auto q = m; q.push_back(sg()); add_fac("gp", {mh}, q); }
                    add_fac("lv", {h[i - 1], h[i], mh}, {dt, sg(), double(off)});
                }
            }
            break;
        }
        case 1:   // poses observing landmarks
        case 2: { // poses and inverse range landmarks
            int np = r.range(1, 2), nl = r.range(1, 3);
            std::vector<int> ph, lh;
            std::vector<V3> pt, pr, lt;
            for (int i = 0; i < np; i++) {
                V3 t0 = rv(1), w = rv(0.5);
                pt.push_back(t0); pr.push_back(w);
                ph.push_back(add_var('P', cat(l3(t0), l3(w))));
                add_fac("xp", {ph.back()}, cat(l3(t0 + V3(nz(), nz(), nz())), {sg()}));
                add_fac("op", {ph.back()}, cat(l3(w + V3(nz(), nz(), nz())), {sg()}));
            }
            if (np == 2 && r.p(0.6)) {
                bool loc = r.p(0.4);
                V3 dfw = pt[1] - pt[0];
                if (loc) dfw = rot(pr[0]) * dfw;
                bool fc = r.p(0.7);
                int mh = add_var('G', l3(dfw), !fc, fc);
                if (!vars.back().cst) add_fac("gp", {mh}, cat(l3(dfw), {sg()}));
                add_fac("xb", {ph[0], ph[1], mh}, {sg(), loc ? 1.0 : 0.0});
            }
            if (np == 2 && r.p(0.5)) {
                Eigen::AngleAxisd aa(rot(pr[0]) * rot(pr[1]).transpose());
                V3 w = aa.axis() * aa.angle();
                bool fc = r.p(0.5);
                int mh = add_var('R', l3(w), !fc, fc);
                if (!vars.back().cst) add_fac("rp", {mh}, cat(l3(w + V3(nz(), nz(), nz())), {sg()}));
                add_fac("ob", {ph[0], ph[1], mh}, {sg()});
            }
            for (int i = 0; i < nl; i++) {
                V3 x = V3(r.uni(-2, 2), r.uni(-2, 2), r.uni(4, 9));
                if (t == 1) {
                    lh.push_back(add_var('L', l3(x)));
                    add_fac("gp", {lh.back()}, cat(l3(x + V3(nz(), nz(), nz())), {K(r.p(0.5) ? 3.0 : 1.0)}));
                    for (int j = 0; j < np; j++)
                        if (r.p(0.85)) {
                            V3 b = rot(pr[j]) * (x - pt[j]);
                            b = (b.normalized() + V3(nz(), nz(), nz())).normalized();
                            if (r.p(0.5)) add_fac("bo", {ph[j], lh.back()}, cat(l3(b), {sg()}));
                            else add_fac("bp", {ph[j], lh.back()}, cat(l3(b), {sg(), 1e-6}));
                        }
                } else {
                    V3 o = rv(0.3), bw = (x - o).normalized();
                    int h = add_var('I', cat(cat(l3(o), l3(bw)), {(x - o).norm()}));
                    add_fac("gp", {h}, {1.0 / (x - o).norm() + 0.1 * nz(), K(1.0)});
                    for (int j = 0; j < np; j++) {
                        V3 b = rot(pr[j]) * (x - pt[j]);
                        b = (b.normalized() + V3(nz(), nz(), nz())).normalized();
                        add_fac("ir", {ph[j], h}, cat(l3(b), {sg()}));
                    }
                }
            }
            break;
        }
        case 3: { // 2D SLAM
            int np = r.range(1, 3), nl = r.range(0, 2);
            std::vector<int> ph;
            std::vector<V3> pt;
            for (int i = 0; i < np; i++) {
                V3 x(r.uni(-2, 2), r.uni(-2, 2), r.uni(-3, 3));
                pt.push_back(x);
                ph.push_back(add_var('D', l3(x)));
                add_fac("dp", {ph.back()}, cat(l3(x + V3(nz(), nz(), nz())), {sg(), sg()}));
            }
            for (int i = 1; i < np; i++)
                if (r.p(0.7)) {
                    bool loc = r.p(0.4);
                    Eigen::Vector2d dp = (pt[i] - pt[i - 1]).head<2>();
                    if (loc) { double q = pt[i - 1][2]; Eigen::Matrix2d m; m << std::cos(q), -std::sin(q), std::sin(q), std::cos(q); dp = m * dp; }
                    V3 m(dp[0] + nz(), dp[1] + nz(), std::remainder(pt[i][2] - pt[i - 1][2], 2 * M_PI));
                    bool fc = r.p(0.7);
                    int mh = add_var('G', l3(m), !fc, fc);
                    if (!vars.back().cst) add_fac("gp", {mh}, cat(l3(m), {sg()}));
                    add_fac("db", {ph[i - 1], ph[i], mh}, {sg(), sg(), loc ? 1.0 : 0.0});
                }
            for (int i = 0; i < nl; i++) {
                double x = r.uni(4, 8) * (r.p(0.5) ? 1 : -1), y = r.uni(4, 8) * (r.p(0.5) ? 1 : -1);
                int h = add_var('G', {x, y});
                add_fac("gp", {h}, {x + nz(), y + nz(), K(2.0)});
                for (int j = 0; j < np; j++) {
                    double dx = x - pt[j][0], dy = y - pt[j][1];
                    double be = std::remainder(std::atan2(dy, dx) - pt[j][2] + nz(), 2 * M_PI);
                    if (r.p(0.5)) add_fac("rb", {ph[j], h}, {std::hypot(dx, dy) + nz() * 0.1, be, sg(), sg()});
                    else add_fac("b2", {ph[j], h}, {be, sg()});
                }
            }
            break;
        }
        case 4: { // planes and points
            V3 nrm = rv(1);
            nrm[2] += 1.5;
            nrm.normalize();
            double d = r.uni(-2, 2);
            int ah = add_var('A', cat(l3(nrm), {d}));
            add_fac("pp", {ah}, cat(l3(nrm + V3(nz(), nz(), nz())), {d + nz(), sg(), sg()}));
            int n = r.range(1, 3);
            bool ds = r.p(0.4);
            for (int i = 0; i < n; i++) {
                V3 x = rv(3);
                x -= nrm * (nrm.dot(x) + (ds ? -d : d));
                int h = add_var(r.p(0.7) ? 'L' : 'G', l3(x));
                add_fac("gp", {h}, cat(l3(x + V3(nz(), nz(), nz())), {sg()}));
                if (ds) add_fac("pl", {h, ah}, {sg(), 1, r.uni(0.5, 4), nz(), nz(), 1.0});
                else add_fac("pl", {h, ah}, {sg(), 0, 1, 0, 0, 0});
            }
            // the four-parameter plane is rank deficient along its normal: give it a weak linear prior
            add_fac("gp", {ah}, cat(l3(nrm), {d, K(5.0)}));
            break;
        }
        case 6: { // a caller's own factors
            int n = r.range(1, 2), prev = -1, pd = 0;
            for (int i = 0; i < n; i++) {
                int mode = r.range(0, 8), d = r.range(1, 3);
                if (mode == 0) d = 2 * r.range(1, 2);
                if (mode >= 7) d = r.range(2, 3);
                std::vector<double> x, q;
                for (int j = 0; j < d; j++) x.push_back(mode == 0 ? 1.0 : r.uni(-1, 1));
                int h = add_var('G', x);
                if (!vars.back().cst) for (auto& e : vars.back().p) e += (mode == 4 ? 0.3 : 1.5) * r.uni(-1, 1);
                if (mode == 5 && !vars.back().cst && r.p(0.8)) for (size_t j = 0; j < x.size(); j++) vars.back().p[j] = x[j] + r.uni(-0.45, 2);
                q.push_back(mode);
                q.insert(q.end(), x.begin(), x.end());
                q.push_back(sg());
                add_fac("cu", {h}, q);
                if (r.p(mode >= 7 ? 0.2 : 0.5)) { q.assign(x.begin(), x.end()); for (auto& e : q) e += r.uni(-1, 1); q.push_back(K(r.p(0.5) ? 10.0 : 1.0)); add_fac("gp", {h}, q); }
                if (prev >= 0 && pd == d) {
                    int mh = add_var('G', std::vector<double>(size_t(d), r.uni(-1, 1)), false, true);
                    add_fac("gb", {prev, h, mh}, {sg()});
                }
                prev = h;
                pd = d;
            }
            break;
        }
        default: { // coordinate transform between two frames
            V3 w = rv(0.6), o = rv(1);
            double s = r.uni(0.5, 2);
            int rh = add_var('R', l3(w)), oh = add_var('G', l3(o)), sh = add_var('G', {s});
            add_fac("rp", {rh}, cat(l3(w + V3(nz(), nz(), nz())), {sg()}));
            add_fac("gp", {oh}, cat(l3(o + V3(nz(), nz(), nz())), {sg()}));
            add_fac("gp", {sh}, {s + nz(), sg()});
            int n = r.range(1, 2);
            for (int i = 0; i < n; i++) {
                V3 b = rv(2), a = s * (rot(w) * b) - o;
                int lb = add_var('L', l3(b)), la = add_var('L', l3(a));
                add_fac("gp", {lb}, cat(l3(b + V3(nz(), nz(), nz())), {sg()}));
                add_fac("gp", {la}, cat(l3(a + V3(nz(), nz(), nz())), {sg()}));
                add_fac("ct", {rh, oh, sh, la, lb}, {sg()});
            }
            break;
        }
        }
    }
    void Gen::build()
    {
        for (int i = 0; i < c.clusters; i++) {
            int t = c.linear_only ? 0 : int(r.below(6));
            if (c.only >= 0) t = c.only;
            cluster(t);
        }
    }
    std::string Gen::line(const VarSpec& s)
    {
        std::string o = "var " + std::to_string(s.h) + " " + s.kind + " " + std::to_string(s.id) + " " + (s.cst ? "1" : "0") + " " + (s.lim ? "1 " + num(s.lo) + " " + num(s.hi) : std::string("0 0 0"));
        for (double d : s.p) o += " " + num(d);
        return o;
    }
    std::string Gen::line(const FacSpec& s)
    {
        std::string o = "fac " + std::to_string(s.h) + " " + s.kind + " " + std::to_string(s.id) + " " + (s.wrap ? "1" : "0") + " " + std::to_string(s.v.size());
        for (int v : s.v) o += " " + std::to_string(v);
        for (double d : s.p) o += " " + num(d);
        return o;
    }
    bool Gen::parse(const std::vector<std::string>& w, VarSpec& s)
    {
        if (w.size() < 9) return false;
        s.h = atoi(w[1].c_str());
        s.kind = w[2][0];
        s.id = atoi(w[3].c_str());
        s.cst = w[4] == "1";
        s.lim = w[5] == "1";
        s.lo = atof(w[6].c_str());
        s.hi = atof(w[7].c_str());
        s.p.clear();
        for (size_t i = 8; i < w.size(); i++) s.p.push_back(strtod(w[i].c_str(), nullptr));
        return true;
    }
    bool Gen::parse(const std::vector<std::string>& w, FacSpec& s)
    {
        if (w.size() < 7) return false;
        s.h = atoi(w[1].c_str());
        s.kind = w[2];
        s.id = atoi(w[3].c_str());
        s.wrap = w[4] == "1";
        size_t n = size_t(atoi(w[5].c_str()));
        if (w.size() < 6 + n) return false;
        s.v.clear();
        for (size_t i = 0; i < n; i++) s.v.push_back(atoi(w[6 + i].c_str()));
        s.p.clear();
        for (size_t i = 6 + n; i < w.size(); i++) s.p.push_back(strtod(w[i].c_str(), nullptr));
        return true;
    }
} // namespace sim
