// Compiled without coverage instrumentation.
#include "seams.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <malloc.h>
#include <sanitizer/common_interface_defs.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <thread>
#include <time.h>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
time_t __real_time(time_t *);
}

namespace sim
{
    thread_local int g_sut = 0;
    thread_local HeapFault g_heap;
    static thread_local bool t_last_was_free = false;
    static thread_local int t_noyield = 0;
    static thread_local int t_id = -1;
    uint64_t g_fill_mode = 0, g_fill_seed = 1, g_heap_allocs = 0;
    Clock g_clock;
    StreamSeam g_streams;
    Sched g_sched;
    uint64_t g_blocks = 0, g_block_limit = 0;
    // shared with every run of a batch
    static const size_t kMap = 1 << 20;
    static unsigned char *g_cov = (unsigned char *)mmap(nullptr, kMap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static unsigned char *g_pairs = (unsigned char *)mmap(nullptr, kMap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static uint64_t count_map(const unsigned char *m) { uint64_t n = 0; for (size_t i = 0; i < kMap; i++) n += m[i]; return n; }
    uint64_t coverage_count() { return count_map(g_cov); }
    uint64_t pairs_count() { return count_map(g_pairs); }

    [[noreturn]] void die(int code, const std::string& msg)
    {
        std::string m = "SIM-DIE " + msg + "\n";
        ssize_t n = ::write(2, m.data(), m.size());
        (void)n;
        ::_exit(code);
    }

    // ---- heap ----------------------------------------------------------------------------------
    static bool heap_should_fail(bool eigen)
    {
        if (g_sut <= 0) return false;
        g_heap_allocs++;
        if (!g_heap.armed) return false;
        uint64_t i = g_heap.seen++;
        bool hit = g_heap.persistent ? i >= g_heap.at : i == g_heap.at;
        if (!hit) return false;
        // Eigen's resize frees the old block first and is not exception safe itself (the dead pointer stays in
        // the object); that is a property of Eigen, not of this library, so such an allocation is let through
        // and a one-shot fault moves on to the next allocation.
        if (eigen && t_last_was_free) {
            if (!g_heap.persistent) g_heap.at++;
            return false;
        }
        g_heap.fired++;
        return true;
    }
    static void heap_fill(void *p, size_t off, size_t n)
    {
        if (g_sut <= 0 || !g_fill_mode || n <= off) return;
        unsigned char *b = (unsigned char *)p;
        if (g_fill_mode == 1) memset(b + off, 0xFF, n - off);
        else if (g_fill_mode == 3) memset(b + off, 0, n - off);
        else {
            uint64_t x = g_fill_seed * 0x9E3779B97F4A7C15ull + 12345;
            for (size_t i = off; i < n; i++) {
                if (((i - off) & 7) == 0) {
                    x = x * 6364136223846793005ull + 1442695040888963407ull;
                    // a plausible finite double in [-1024, 1024]
                    double d = (double((x >> 33) & 0xFFFFF) / 512.0) - 1024.0;
                    memcpy(&x, &d, 8);
                }
                b[i] = (unsigned char)(x >> (8 * ((i - off) & 7)));
            }
        }
    }
    // ---- live allocations ------------------------------------------------------------------------
    bool g_track = false;
    uint64_t g_live_n = 0, g_live_bytes = 0;
    struct LiveSlot { uintptr_t p; size_t n; };
    static const size_t kLive = 1 << 20;
    static LiveSlot *g_live = nullptr;
    static inline size_t live_hash(uintptr_t p) { return size_t(((p >> 4) * 0x9E3779B97F4A7C15ull) >> 44); }
    void track_start()
    {
        if (!g_live) g_live = (LiveSlot *)mmap(nullptr, kLive * sizeof(LiveSlot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        g_track = true;
    }
    static void live_add(void *q, size_t n)
    {
        if (!g_track || g_sut <= 0 || !q || g_live_n > kLive / 2) return;
        uintptr_t p = (uintptr_t)q;
        size_t i = live_hash(p);
        while (g_live[i].p && g_live[i].p != p) i = (i + 1) & (kLive - 1);
        if (g_live[i].p == p) g_live_bytes -= g_live[i].n; else g_live_n++;
        g_live[i].p = p;
        g_live[i].n = n;
        g_live_bytes += n;
    }
    static void live_del(void *q)
    {
        if (!g_track || !q) return;
        uintptr_t p = (uintptr_t)q;
        size_t i = live_hash(p);
        while (g_live[i].p && g_live[i].p != p) i = (i + 1) & (kLive - 1);
        if (!g_live[i].p) return;
        g_live_n--;
        g_live_bytes -= g_live[i].n;
        size_t j = i;
        for (;;) {
            g_live[i].p = 0;
            for (;;) {
                j = (j + 1) & (kLive - 1);
                if (!g_live[j].p) return;
                size_t k = live_hash(g_live[j].p);
                if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
                break;
            }
            g_live[i] = g_live[j];
            i = j;
        }
    }
    static inline void heap_event(bool is_free)
    {
        if (g_sut > 0) {
            t_last_was_free = is_free;
            yield_point();
        }
    }

    // ---- clocks ----------------------------------------------------------------------------------
    void Clock::tick()
    {
        uint64_t i = reads++;
        uint64_t z = (seed + i * 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z ^= z >> 27;
        int64_t d = 0;
        switch (mode) {
        case 0: d = int64_t(z % 5000); break;
        case 1: d = 0; break;
        case 2: d = (z % 16 == 0) ? 1000000 : 0; break;
        default: d = int64_t(z % 3600000000000ull); break;
        }
        mono += d;
        wall += d;
        for (auto& j : jumps)
            if (j.first == i) { wall += j.second; jumps_fired++; }
    }

    // ---- streams ---------------------------------------------------------------------------------
    struct SimBuf : std::streambuf
    {
        std::string *dst;
        uint64_t *count;
        SimBuf(std::string *d, uint64_t *c) : dst(d), count(c) {}
        bool failing() const
        {
            return g_streams.plan.fail_after >= 0 &&
                   int64_t(g_streams.out_bytes + g_streams.err_bytes) >= g_streams.plan.fail_after;
        }
        void put(char c)
        {
            int s = g_sut; g_sut = 0;
            dst->push_back(c);
            ++*count;
            g_sut = s;
        }
        int overflow(int c) override
        {
            if (c == EOF) return 0;
            if (failing()) {
                g_streams.faults++;
                if (g_streams.plan.mode == 2) throw std::runtime_error("sim: stream buffer failure");
                if (g_streams.plan.mode == 3) { g_clock.mono += 1000000000ll; g_clock.wall += 1000000000ll; put((char)c); return c; }
                return EOF;
            }
            put((char)c);
            return c;
        }
        std::streamsize xsputn(const char *s, std::streamsize n) override
        {
            yield_point();
            for (std::streamsize i = 0; i < n; i++) {
                if (failing()) {
                    if (g_streams.plan.mode == 1) { g_streams.faults++; return i; }
                    if (overflow((unsigned char)s[i]) == EOF) return i;
                } else put(s[i]);
            }
            return n;
        }
        int sync() override
        {
            if (failing() && g_streams.plan.mode == 0) { g_streams.faults++; return -1; }
            return 0;
        }
    };
    static SimBuf *g_ob = nullptr, *g_eb = nullptr;
    static std::streambuf *g_oo = nullptr, *g_oe = nullptr;
    void StreamSeam::install()
    {
        if (g_ob) return;
        g_ob = new SimBuf(&out, &out_bytes);
        g_eb = new SimBuf(&err, &err_bytes);
        g_oo = std::cout.rdbuf(g_ob);
        g_oe = std::cerr.rdbuf(g_eb);
    }
    void StreamSeam::uninstall()
    {
        if (!g_ob) return;
        std::cout.exceptions(std::ios::goodbit);
        std::cerr.exceptions(std::ios::goodbit);
        std::cout.rdbuf(g_oo);
        std::cerr.rdbuf(g_oe);
        delete g_ob; delete g_eb;
        g_ob = g_eb = nullptr;
    }
    void StreamSeam::reset()
    {
        std::cout.exceptions(std::ios::goodbit);
        std::cerr.exceptions(std::ios::goodbit);
        plan = StreamPlan();
        std::cout.clear();
        std::cerr.clear();
        out.clear(); err.clear();
        out_bytes = err_bytes = 0;
    }

    // ---- thread schedule ---------------------------------------------------------------------------
    struct Baton
    {
        std::mutex m;
        std::condition_variable cv[8];
        int holder = -1;
        std::vector<char> done;
        int n = 0;
        uint64_t spin = 0;
    };
    static Baton *g_baton = nullptr;

    static void hand_to(int t)
    {
        // caller holds the baton
        int me = t_id;
        std::unique_lock<std::mutex> lk(g_baton->m);
        g_baton->holder = t;
        g_baton->cv[t].notify_one();
        if (me >= 0 && !g_baton->done[me]) g_baton->cv[me].wait(lk, [&] { return g_baton->holder == me; });
    }
    static int pick_other(uint64_t r)
    {
        int c = 0, n = g_baton->n;
        for (int i = 0; i < n; i++) if (i != t_id && !g_baton->done[i]) c++;
        if (!c) return -1;
        int k = int(r % uint64_t(c));
        for (int i = 0; i < n; i++) if (i != t_id && !g_baton->done[i]) { if (k-- == 0) return i; }
        return -1;
    }
    void yield_point(bool force)
    {
        if (!g_sched.active || t_id < 0 || t_noyield) return;
        if (!force && g_sut <= 0) return;
        int s = g_sut; g_sut = 0;
        uint64_t st = g_sched.step++;
        int to = -1;
        if (g_sched.explicit_mode) {
            auto& sc = g_sched.script;
            while (g_sched.script_pos < sc.size() && sc[g_sched.script_pos].first < st) g_sched.script_pos++;
            if (g_sched.script_pos < sc.size() && sc[g_sched.script_pos].first == st) {
                int t = sc[g_sched.script_pos].second;
                if (t >= 0 && t < g_baton->n && t != t_id && !g_baton->done[t]) to = t;
                g_sched.script_pos++;
            }
            if (force && to < 0) to = pick_other(0);
        } else if (force || g_sched.rng.u() < g_sched.p) {
            to = pick_other(g_sched.rng.next());
        }
        if (force) {
            g_sched.forced++;
            if (++g_baton->spin > 2000000) die(78, "DEADLOCK no thread can make progress");
        }
        if (to >= 0) {
            g_sched.switches++;
            g_sched.trace.emplace_back(st, to);
            hand_to(to);
        }
        g_sut = s;
    }
    void run_threads(std::vector<std::function<void()>> bodies)
    {
        int n = (int)bodies.size();
        Baton b;
        b.n = n;
        b.done.assign(n, 0);
        g_baton = &b;
        g_sched.step = g_sched.switches = g_sched.forced = 0;
        g_sched.trace.clear();
        g_sched.script_pos = 0;
        std::vector<std::thread> ts;
        int first = g_sched.explicit_mode ? 0 : int(g_sched.rng.below(n));
        if (!g_sched.explicit_mode) g_sched.trace.emplace_back(~0ull, first);
        else if (!g_sched.script.empty() && g_sched.script[0].first == ~0ull) { first = g_sched.script[0].second % n; g_sched.script.erase(g_sched.script.begin()); }
        for (int i = 0; i < n; i++)
            ts.emplace_back([&, i] {
                t_id = i;
                {
                    std::unique_lock<std::mutex> lk(b.m);
                    b.cv[i].wait(lk, [&] { return b.holder == i; });
                }
                bodies[i]();
                std::unique_lock<std::mutex> lk(b.m);
                b.done[i] = 1;
                int nx = -1;
                if (!g_sched.explicit_mode) {
                    nx = pick_other(g_sched.rng.next());
                    g_sched.trace.emplace_back(g_sched.step, nx);
                } else {
                    nx = pick_other(0);
                    auto& sc = g_sched.script;
                    while (g_sched.script_pos < sc.size() && sc[g_sched.script_pos].first < g_sched.step) g_sched.script_pos++;
                    if (g_sched.script_pos < sc.size() && sc[g_sched.script_pos].first == g_sched.step) {
                        int t = sc[g_sched.script_pos++].second;
                        if (t >= 0 && t < n && !b.done[t]) nx = t;
                    }
                }
                g_sched.step++;
                b.holder = nx;
                if (nx >= 0) b.cv[nx].notify_one();
            });
        g_sched.active = true;
        {
            std::unique_lock<std::mutex> lk(b.m);
            b.holder = first;
            b.cv[first].notify_one();
        }
        for (auto& t : ts) t.join();
        g_sched.active = false;
        g_baton = nullptr;
    }
} // namespace sim

using namespace sim;

extern "C" void sim_eigen_fail(const char *expr, const char *file, int line)
{
    const char *f = strrchr(file, '/');
    if (const char *o = getenv("ASAN_OPTIONS")) if (strstr(o, "symbolize=1")) __sanitizer_print_stack_trace();
    die(g_sut > 0 ? 77 : 70, std::string("EIGEN-ASSERT ") + expr + " at " + (f ? f + 1 : file) + ":" + std::to_string(line));
}

extern "C" void __sanitizer_cov_trace_pc()
{
    if (g_sut <= 0) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    size_t h = (pc * 0x9E3779B97F4A7C15ull) >> 44;
    g_cov[h] = 1;
    if (++g_blocks > g_block_limit && g_block_limit) {
        g_block_limit = 0; // what follows may come back here through instrumented inline functions
        die(78, "HANG work budget exceeded");
    }
    if (g_sched.active) {
        uint64_t before = g_sched.switches;
        yield_point();
        if (g_sched.switches != before) {
            size_t q = ((pc ^ (uintptr_t)(t_id * 7919)) * 0xC2B2AE3D27D4EB4Full) >> 44;
            g_pairs[q] = 1;
        }
    }
}

extern "C" {
void *__wrap_malloc(size_t n)
{
    if (heap_should_fail(true)) return nullptr;
    void *p = __real_malloc(n);
    if (p) heap_fill(p, 0, n);
    live_add(p, n);
    heap_event(false);
    return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    if (heap_should_fail(true)) return nullptr;
    void *p = __real_calloc(a, b);
    live_add(p, a * b);
    heap_event(false);
    return p;
}
void *__wrap_realloc(void *q, size_t n)
{
    if (heap_should_fail(false)) return nullptr;
    size_t old = q ? malloc_usable_size(q) : 0;
    void *p = __real_realloc(q, n);
    if (p && n > old) heap_fill(p, old, n);
    if (p) { live_del(q); live_add(p, n); }
    heap_event(false);
    return p;
}
void __wrap_free(void *p)
{
    live_del(p);
    __real_free(p);
    if (p) heap_event(true);
}
int __wrap_posix_memalign(void **out, size_t al, size_t n)
{
    if (heap_should_fail(true)) return 12;
    int r = __real_posix_memalign(out, al, n);
    if (!r) { heap_fill(*out, 0, n); live_add(*out, n); }
    heap_event(false);
    return r;
}
void *__wrap_aligned_alloc(size_t al, size_t n)
{
    if (heap_should_fail(true)) return nullptr;
    void *p = __real_aligned_alloc(al, n);
    if (p) heap_fill(p, 0, n);
    live_add(p, n);
    heap_event(false);
    return p;
}

// benign synchronisation in the library must not deadlock the one-thread-at-a-time scheduler
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!g_sched.active || g_sut <= 0) return __real_pthread_mutex_lock(m);
    yield_point();
    for (;;) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        yield_point(true);
    }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (!g_sched.active || g_sut <= 0) return __real_pthread_rwlock_rdlock(m);
    yield_point();
    for (;;) {
        int r = pthread_rwlock_tryrdlock(m);
        if (r != EBUSY) return r;
        yield_point(true);
    }
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (!g_sched.active || g_sut <= 0) return __real_pthread_rwlock_wrlock(m);
    yield_point();
    for (;;) {
        int r = pthread_rwlock_trywrlock(m);
        if (r != EBUSY) return r;
        yield_point(true);
    }
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
    t_noyield++;
    int r = __real_pthread_once(o, f);
    t_noyield--;
    return r;
}
int __wrap___cxa_guard_acquire(uint64_t *g)
{
    t_noyield++;
    int r = __real___cxa_guard_acquire(g);
    if (!r) t_noyield--;
    return r;
}
void __wrap___cxa_guard_release(uint64_t *g)
{
    __real___cxa_guard_release(g);
    t_noyield--;
}
void __wrap___cxa_guard_abort(uint64_t *g)
{
    __real___cxa_guard_abort(g);
    t_noyield--;
}

int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!g_clock.on || g_sut <= 0) return __real_clock_gettime(id, ts);
    g_clock.tick();
    yield_point();
    int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? g_clock.wall : g_clock.mono;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) g_clock.sys_reads++;
    ts->tv_sec = v / 1000000000ll;
    ts->tv_nsec = v % 1000000000ll;
    return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
    if (!g_clock.on || g_sut <= 0) return __real_gettimeofday(tv, z);
    g_clock.tick();
    g_clock.sys_reads++;
    tv->tv_sec = g_clock.wall / 1000000000ll;
    tv->tv_usec = (g_clock.wall % 1000000000ll) / 1000;
    return 0;
}
time_t __wrap_time(time_t *t)
{
    if (!g_clock.on || g_sut <= 0) return __real_time(t);
    g_clock.tick();
    g_clock.sys_reads++;
    time_t v = g_clock.wall / 1000000000ll;
    if (t) *t = v;
    return v;
}
}

namespace std
{
    namespace chrono
    {
        inline namespace _V2
        {
            system_clock::time_point system_clock::now() noexcept
            {
                if (g_clock.on && g_sut > 0) {
                    g_clock.tick();
                    g_clock.sys_reads++;
                    yield_point();
                    return time_point(duration(g_clock.wall));
                }
                timespec ts;
                __real_clock_gettime(CLOCK_REALTIME, &ts);
                return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
            }
            steady_clock::time_point steady_clock::now() noexcept
            {
                if (g_clock.on && g_sut > 0) {
                    g_clock.tick();
                    yield_point();
                    return time_point(duration(g_clock.mono));
                }
                timespec ts;
                __real_clock_gettime(CLOCK_MONOTONIC, &ts);
                return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
            }
        }
    }
}

static void *sim_new(size_t n)
{
    if (n == 0) n = 1;
    if (heap_should_fail(false)) throw std::bad_alloc();
    void *p = __real_malloc(n);
    if (!p) throw std::bad_alloc();
    heap_fill(p, 0, n);
    live_add(p, n);
    heap_event(false);
    return p;
}
static void *sim_new_al(size_t n, size_t al)
{
    if (n == 0) n = 1;
    if (heap_should_fail(false)) throw std::bad_alloc();
    void *p = nullptr;
    if (__real_posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n)) throw std::bad_alloc();
    heap_fill(p, 0, n);
    live_add(p, n);
    heap_event(false);
    return p;
}
static void sim_del(void *p) noexcept
{
    live_del(p);
    __real_free(p);
    if (p) heap_event(true);
}
void *operator new(size_t n) { return sim_new(n); }
void *operator new[](size_t n) { return sim_new(n); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
void *operator new(size_t n, std::align_val_t a) { return sim_new_al(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return sim_new_al(n, size_t(a)); }
void operator delete(void *p) noexcept { sim_del(p); }
void operator delete[](void *p) noexcept { sim_del(p); }
void operator delete(void *p, size_t) noexcept { sim_del(p); }
void operator delete[](void *p, size_t) noexcept { sim_del(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim_del(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_del(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim_del(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_del(p); }
