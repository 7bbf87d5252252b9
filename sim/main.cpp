// Driver: generates, executes, replays and minimises runs.  Every run executes in a process forked from a pristine
// zygote, so that a run is a function of its plan alone, in a batch as in a later replay.
#include "exec.h"
#include "exec_util.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char *__asan_default_options()
{
    return "exitcode=76:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:symbolize=0:print_legend=0:print_full_thread_history=0:detect_stack_use_after_return=0:quarantine_size_mb=16";
}
using namespace sim;
namespace
{
    const size_t kBuf = 8u << 20;
    struct Shared
    {
        uint64_t plan_len, res_len;
        char plan[kBuf];
        char res[kBuf];
    };
    Shared *g_sh;
    int g_errfd = -1;
    struct Cmd { char op; uint64_t seed; char check[8]; };
    struct Rep { int status; int64_t usec; };

    void put_res(const std::string& s)
    {
        size_t n = std::min(s.size(), kBuf);
        memcpy(g_sh->res, s.data(), n);
        g_sh->res_len = n;
    }
    std::string oneline(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
    [[noreturn]] void child_run()
    {
        g_block_limit = 1000000000ull;
        Plan p = Plan::parse(std::string(g_sh->plan, g_sh->plan_len));
        RunResult R = run_plan(p);
        std::string o;
        for (auto& v : R.viol) o += "V " + v.prop + " " + v.cls + " " + oneline(v.detail) + "\n";
        o += "H " + std::to_string(R.hash) + "\n";
        o += "B " + std::to_string(R.blocks) + " " + std::to_string(R.switches) + " " + std::to_string(R.st.compares) + " " + std::to_string(R.st.steps) + " " + std::to_string(R.st.sim_ns) + "\n";
        if (!R.script.empty()) o += "X" + R.script + "\n";
        auto m = [&](char k, const std::map<std::string, uint64_t>& x) { for (auto& q : x) o += std::string(1, k) + " " + q.first + " " + std::to_string(q.second) + "\n"; };
        m('f', R.st.fired);
        m('a', R.st.armed);
        m('o', R.st.ops);
        m('p', R.st.probes);
        for (auto s : R.st.states) o += "s " + std::to_string(s) + "\n";
        put_res(o);
        _exit(0);
    }
    // ---- zygote -----------------------------------------------------------------------------------
    int z_in, z_out;
    pid_t z_pid;
    int64_t now_us()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec * 1000000ll + t.tv_nsec / 1000;
    }
    int wait_child(pid_t p)
    {
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        return st;
    }
    [[noreturn]] void zygote(int in, int out)
    {
        for (;;) {
            Cmd c;
            ssize_t n = read(in, &c, sizeof c);
            if (n != (ssize_t)sizeof c) _exit(0);
            Rep r{0, 0};
            int64_t t0 = now_us();
            if (c.op == 'g') {
                pid_t p = fork();
                if (p == 0) {
                    std::string t = gen_plan(c.check, c.seed).text();
                    size_t m = std::min(t.size(), kBuf);
                    memcpy(g_sh->plan, t.data(), m);
                    g_sh->plan_len = m;
                    _exit(0);
                }
                int st = wait_child(p);
                if (!WIFEXITED(st) || WEXITSTATUS(st)) { r.status = -1; n = write(out, &r, sizeof r); continue; }
            }
            g_sh->res_len = 0;
            if (ftruncate(g_errfd, 0)) {}
            lseek(g_errfd, 0, SEEK_SET);
            pid_t p = fork();
            if (p == 0) {
                dup2(g_errfd, 2);
                dup2(g_errfd, 1);
                alarm(60);
                rlimit rl{0, 0};
                setrlimit(RLIMIT_CORE, &rl);
                child_run();
            }
            r.status = wait_child(p);
            r.usec = now_us() - t0;
            n = write(out, &r, sizeof r);
        }
    }
    void start_zygote()
    {
        g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        g_errfd = memfd_create("err", 0);
        int a[2], b[2];
        if (pipe(a) || pipe(b)) _exit(3);
        z_pid = fork();
        if (z_pid == 0) {
            close(a[1]);
            close(b[0]);
            zygote(a[0], b[1]);
        }
        close(a[0]);
        close(b[1]);
        z_in = a[1];
        z_out = b[0];
    }
    struct Res
    {
        bool err = false;            // the run gave no answer
        std::vector<Violation> viol; // including crashes
        uint64_t hash = 0, blocks = 0, switches = 0;
        std::string script, errtext;
        RunStats st;
        int64_t usec = 0;
    };
    std::string err_text()
    {
        std::string s(16384, 0);
        ssize_t n = pread(g_errfd, &s[0], s.size(), 0);
        s.resize(n > 0 ? size_t(n) : 0);
        return s;
    }
    Res command(char op, const std::string& check, uint64_t seed)
    {
        Cmd c;
        memset(&c, 0, sizeof c);
        c.op = op;
        c.seed = seed;
        strncpy(c.check, check.c_str(), 7);
        Res R;
        Rep r;
        if (write(z_in, &c, sizeof c) != (ssize_t)sizeof c || read(z_out, &r, sizeof r) != (ssize_t)sizeof r || r.status == -1) { R.err = true; R.errtext = "zygote"; return R; }
        R.usec = r.usec;
        std::istringstream is(std::string(g_sh->res, g_sh->res_len));
        std::string l;
        while (std::getline(is, l)) {
            if (l.empty()) continue;
            auto w = words(l);
            switch (l[0]) {
            case 'V': { Violation v; v.prop = sval(w, 1); v.cls = sval(w, 2); size_t q = l.find(v.cls); v.detail = l.substr(q + v.cls.size() + 1); R.viol.push_back(v); break; }
            case 'H': R.hash = strtoull(w[1].c_str(), nullptr, 10); break;
            case 'B':
                R.blocks = strtoull(w[1].c_str(), nullptr, 10);
                R.switches = strtoull(w[2].c_str(), nullptr, 10);
                R.st.compares = strtoull(w[3].c_str(), nullptr, 10);
                R.st.steps = strtoull(w[4].c_str(), nullptr, 10);
                R.st.sim_ns = strtoll(w[5].c_str(), nullptr, 10);
                break;
            case 'X': R.script = l.substr(1); break;
            case 'f': R.st.fired[w[1]] += strtoull(w[2].c_str(), nullptr, 10); break;
            case 'a': R.st.armed[w[1]] += strtoull(w[2].c_str(), nullptr, 10); break;
            case 'o': R.st.ops[w[1]] += strtoull(w[2].c_str(), nullptr, 10); break;
            case 'p': R.st.probes[w[1]] += strtoull(w[2].c_str(), nullptr, 10); break;
            case 's': R.st.states.insert(strtoull(w[1].c_str(), nullptr, 10)); break;
            }
        }
        if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0) return R;
        R.errtext = err_text();
        R.viol.clear();
        std::string cls, det;
        if (WIFSIGNALED(r.status)) {
            int s = WTERMSIG(r.status);
            if (s == SIGKILL) { R.err = true; return R; }
            cls = "crash-signal";
            det = "killed by signal " + std::to_string(s);
        } else {
            int e = WEXITSTATUS(r.status);
            auto line_with = [&](const char *k) { std::istringstream q(R.errtext); std::string x; while (std::getline(q, x)) if (x.find(k) != std::string::npos) return x; return std::string(); };
            if (e == 76) { cls = "crash-asan"; std::string x = line_with("ERROR: AddressSanitizer"); size_t q = x.find("AddressSanitizer"); det = q == std::string::npos ? "" : x.substr(q); size_t z = det.find(" on "); if (z != std::string::npos) det = det.substr(0, z); }
            else if (e == 77) { cls = "crash-assert"; det = line_with("EIGEN-ASSERT"); }
            else if (e == 70) { cls = "inconsistent-shape"; det = line_with("EIGEN-ASSERT"); }
            else if (e == 78) { cls = "hang"; det = line_with("SIM-DIE"); }
            else { R.err = true; return R; }
        }
        R.viol.push_back({check, cls, oneline(det)});
        R.hash = Hash().h;
        return R;
    }
    void set_plan(const std::string& t)
    {
        size_t n = std::min(t.size(), kBuf);
        memcpy(g_sh->plan, t.data(), n);
        g_sh->plan_len = n;
    }
    std::string js(const std::string& s)
    {
        std::string o = "\"";
        char b[8];
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += char(c);
        }
        return o + "\"";
    }
    std::string js(const std::map<std::string, uint64_t>& m)
    {
        std::string o = "{";
        for (auto& x : m) { if (o.size() > 1) o += ","; o += js(x.first) + ":" + std::to_string(x.second); }
        return o + "}";
    }
    std::string slurp(const char *f)
    {
        FILE *q = fopen(f, "r");
        std::string s;
        if (!q) return s;
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, q)) > 0) s.append(b, n);
        fclose(q);
        return s;
    }
    void spit(const std::string& f, const std::string& s)
    {
        FILE *q = fopen(f.c_str(), "w");
        if (!q) return;
        fwrite(s.data(), 1, s.size(), q);
        fclose(q);
    }
    std::string viol_js(const Violation& v) { return "{\"prop\":" + js(v.prop) + ",\"cls\":" + js(v.cls) + ",\"detail\":" + js(v.detail) + "}"; }
    std::string viols_js(const Res& R)
    {
        std::string o = "[";
        for (auto& v : R.viol) { if (o.size() > 1) o += ","; o += viol_js(v); }
        return o + "]";
    }

    int do_replay(const char *file)
    {
        std::string t = slurp(file);
        Plan p = Plan::parse(t);
        set_plan(t);
        Res R = command('r', p.check, 0);
        printf("{\"err\":%s,\"hash\":\"%016llx\",\"blocks\":%llu,\"usec\":%lld,\"violations\":%s,\"fired\":%s,\"probes\":%s,\"script\":%s,\"stderr\":%s}\n", R.err ? "true" : "false", (unsigned long long)R.hash,
               (unsigned long long)R.blocks, (long long)R.usec, viols_js(R).c_str(), js(R.st.fired).c_str(), js(R.st.probes).c_str(), js(R.script).c_str(), js(R.errtext.substr(0, 6000)).c_str());
        return R.err ? 3 : R.viol.empty() ? 0 : 1;
    }
    int do_batch(const std::string& check, uint64_t start, uint64_t stride, uint64_t count, double secs, const std::string& out)
    {
        int64_t t0 = now_us();
        RunStats st;
        uint64_t runs = 0, errs = 0, maxb = 0, sw = 0, nontriv = 0;
        std::set<uint64_t> hashes, scheds;
        std::string samples, viol = "null", errinfo, det;
        for (uint64_t i = 0; i < count; i++) {
            if (double(now_us() - t0) * 1e-6 > secs) break;
            uint64_t seed = start + i * stride;
            Res R = command('g', check, seed);
            runs++;
            if (R.err) { errs++; errinfo += "seed " + std::to_string(seed) + ": " + R.errtext.substr(0, 300) + "; "; if (errs > 3) break; continue; }
            st.merge(R.st);
            sw += R.switches;
            maxb = std::max(maxb, R.blocks);
            if (R.st.compares) nontriv++;
            if (hashes.size() < 4000000) hashes.insert(R.hash);
            if (!R.script.empty()) { Hash q; q.str(R.script); scheds.insert(q.h); }
            std::string plan(g_sh->plan, g_sh->plan_len);
            if (samples.size() < 6000 && plan.size() < 2600 && R.st.compares) { if (!samples.empty()) samples += ","; samples += js(plan); }
            if (i < 3 || i % 97 == 0) { det += (det.empty() ? "" : ","); det += "[" + std::to_string(seed) + ",\"" + std::to_string(R.hash) + "\"]"; }
            if (!R.viol.empty()) {
                std::string f = out + ".viol";
                if (!R.script.empty()) plan += "# schedule" + R.script + "\n";
                spit(f, plan);
                viol = "{\"seed\":" + std::to_string(seed) + ",\"file\":" + js(f) + ",\"hash\":\"" + std::to_string(R.hash) + "\",\"violations\":" + viols_js(R) + ",\"script\":" + js(R.script) + "}";
                break;
            }
        }
        std::string o = "{\"runs\":" + std::to_string(runs) + ",\"errors\":" + std::to_string(errs) + ",\"errinfo\":" + js(errinfo) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"compares\":" + std::to_string(st.compares) +
                        ",\"steps\":" + std::to_string(st.steps) + ",\"sim_ns\":" + std::to_string(st.sim_ns) + ",\"switches\":" + std::to_string(sw) + ",\"max_blocks\":" + std::to_string(maxb) +
                        ",\"distinct_runs\":" + std::to_string(hashes.size()) + ",\"distinct_schedules\":" + std::to_string(scheds.size()) + ",\"coverage\":" + std::to_string(coverage_count()) +
                        ",\"pairs\":" + std::to_string(pairs_count()) + ",\"seconds\":" + num(double(now_us() - t0) * 1e-6) + ",\"fired\":" + js(st.fired) + ",\"armed\":" + js(st.armed) + ",\"ops\":" + js(st.ops) +
                        ",\"probes\":" + js(st.probes) + ",\"det\":[" + det + "],\"samples\":[" + samples + "],\"violation\":" + viol + ",\"states\":[";
        bool first = true;
        for (auto s : st.states) { if (!first) o += ","; first = false; o += "\"" + std::to_string(s) + "\""; }
        o += "]}";
        spit(out, o);
        return 0;
    }
    // ddmin over the plan's lines, then over the words of its schedule
    struct Minimizer
    {
        std::string check, prop, cls;
        int64_t deadline;
        uint64_t tries = 0;
        bool fails(const Plan& p)
        {
            if (now_us() > deadline) return false;
            tries++;
            set_plan(p.text());
            Res R = command('r', p.check, 0);
            for (auto& v : R.viol) if (v.prop == prop && v.cls == cls) return true;
            return false;
        }
        void ops(Plan& p)
        {
            size_t n = 2;
            while (p.ops.size() >= 2 && now_us() < deadline) {
                size_t len = p.ops.size(), ch = std::max<size_t>(1, (len + n - 1) / n);
                bool red = false;
                for (size_t s = 0; s < len; s += ch) {
                    // prefer dropping late lines first
                    size_t e = len - s, b = e > ch ? e - ch : 0;
                    Plan q = p;
                    q.ops.erase(q.ops.begin() + b, q.ops.begin() + e);
                    if (fails(q)) { p = q; n = std::max<size_t>(2, n - 1); red = true; break; }
                }
                if (!red) {
                    if (ch == 1) break;
                    n = std::min(len, n * 2);
                }
            }
        }
        void script(Plan& p)
        {
            for (size_t k = 0; k < p.ops.size(); k++)
                if (p.ops[k].size() > 2 && p.ops[k][0] == "cfg" && p.ops[k][1] == "script") {
                    size_t ch = std::max<size_t>(1, (p.ops[k].size() - 2) / 2);
                    for (; ch >= 1 && now_us() < deadline; ch /= 2) {
                        for (size_t b = 2; b < p.ops[k].size() && now_us() < deadline;) {
                            Plan q = p;
                            size_t e = std::min(q.ops[k].size(), b + ch);
                            q.ops[k].erase(q.ops[k].begin() + b, q.ops[k].begin() + e);
                            if (fails(q)) p = q; else b += ch;
                        }
                        if (ch == 1) break;
                    }
                }
        }
    };
    int do_min(const char *in, const char *out, const std::string& prop, const std::string& cls, double secs)
    {
        Plan p = Plan::parse(slurp(in));
        Minimizer m;
        m.check = p.check;
        m.prop = prop;
        m.cls = cls;
        m.deadline = now_us() + int64_t(secs * 1e6);
        if (!m.fails(p)) return 4;
        // shrink the programs under the seeded scheduler, then freeze the schedule of the failing run and shrink it
        m.ops(p);
        set_plan(p.text());
        Res R = command('r', p.check, 0);
        if (!R.script.empty()) {
            Plan q = p;
            for (size_t i = 0; i < q.ops.size();)
                if (q.ops[i].size() > 1 && q.ops[i][0] == "cfg" && q.ops[i][1] == "sched") q.ops.erase(q.ops.begin() + i); else i++;
            Op o = words("cfg script" + R.script);
            q.ops.insert(q.ops.begin(), o);
            if (m.fails(q)) { p = q; m.script(p); m.ops(p); }
        }
        spit(out, p.text());
        printf("%llu\n", (unsigned long long)m.tries);
        return 0;
    }
} // namespace

int main(int argc, char **argv)
{
    signal(SIGPIPE, SIG_IGN);
    start_zygote();
    std::string c = argc > 1 ? argv[1] : "";
    if (c == "gen" && argc > 3) { fputs(gen_plan(argv[2], strtoull(argv[3], nullptr, 10)).text().c_str(), stdout); return 0; }
    if (c == "replay" && argc > 2) return do_replay(argv[2]);
    if (c == "batch" && argc > 7) return do_batch(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), strtoull(argv[5], nullptr, 10), atof(argv[6]), argv[7]);
    if (c == "min" && argc > 6) return do_min(argv[2], argv[3], argv[4], argv[5], atof(argv[6]));
    fprintf(stderr, "usage: sim gen CHECK SEED | replay FILE | batch CHECK START STRIDE COUNT SECONDS OUT | min IN OUT PROP CLASS SECONDS\n");
    return 2;
}
