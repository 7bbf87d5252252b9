// Seams owned by the simulator: heap, clocks, standard streams, callbacks, thread schedule.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <streambuf>
#include <string>
#include <vector>

namespace sim
{
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); }
        double u() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
        double uni(double a, double b) { return a + (b - a) * u(); }
        double n() { double t = 0; for (int i = 0; i < 12; i++) t += u(); return t - 6.0; }
        bool p(double q) { return u() < q; }
        template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    };

    struct Hash
    {
        uint64_t h = 1469598103934665603ull;
        void byte(unsigned char c) { h = (h ^ c) * 1099511628211ull; }
        void u64(uint64_t v) { for (int i = 0; i < 8; i++) byte((unsigned char)(v >> (8 * i))); }
        void f(double d) { uint64_t v; if (d != d) v = 0x7ff8000000000000ull; else __builtin_memcpy(&v, &d, 8); u64(v); }
        void str(const std::string& s) { for (unsigned char c : s) byte(c); byte(0); }
    };

    // ---- marking code under test -------------------------------------------------------------
    extern thread_local int g_sut; // >0 while library code runs on this thread
    struct Sut { Sut() { ++g_sut; } ~Sut() { --g_sut; } };
    struct Out { int s; Out() : s(g_sut) { g_sut = 0; } ~Out() { g_sut = s; } }; // back in the harness

    // ---- heap --------------------------------------------------------------------------------
    struct HeapFault
    {
        bool armed = false;
        uint64_t at = 0;        // fail the at-th allocation (0 based) since arming
        bool persistent = false; // and all later ones
        uint64_t seen = 0;
        uint64_t fired = 0;
    };
    extern thread_local HeapFault g_heap;
    extern uint64_t g_fill_mode; // 0 none, 1 NaN bytes, 2 seeded doubles, 3 zero
    extern uint64_t g_fill_seed;
    extern uint64_t g_heap_allocs;
    // allocations made by library code and not returned yet
    extern bool g_track;
    extern uint64_t g_live_n, g_live_bytes;
    void track_start();

    // ---- clocks ------------------------------------------------------------------------------
    struct Clock
    {
        bool on = false;
        int64_t mono = 1000000000ll, wall = 1700000000000000000ll;
        uint64_t seed = 1, reads = 0, sys_reads = 0;
        int mode = 0; // 0 small random steps, 1 frozen, 2 coarse (1ms ticks), 3 huge steps
        std::vector<std::pair<uint64_t, int64_t>> jumps; // (read index, wall delta)
        uint64_t jumps_fired = 0;
        void tick();
    };
    extern Clock g_clock;

    // ---- streams -----------------------------------------------------------------------------
    struct StreamPlan
    {
        int64_t fail_after = -1; // bytes accepted before failing, -1 never
        int mode = 0;            // 0 fail (EOF), 1 short writes, 2 streambuf throws, 3 stalls the clock
    };
    struct StreamSeam
    {
        std::string out, err;
        uint64_t out_bytes = 0, err_bytes = 0, faults = 0;
        StreamPlan plan;
        void install();
        void uninstall();
        void reset();           // clear captured text and stream state
    };
    extern StreamSeam g_streams;

    // ---- thread schedule ----------------------------------------------------------------------
    struct Sched
    {
        bool active = false;
        bool explicit_mode = false;
        double p = 0.01;
        Rng rng;
        uint64_t step = 0, switches = 0, forced = 0;
        std::vector<std::pair<uint64_t, int>> trace;   // executed preemptions (step, thread)
        std::vector<std::pair<uint64_t, int>> script;  // explicit schedule
        size_t script_pos = 0;
    };
    extern Sched g_sched;
    void run_threads(std::vector<std::function<void()>> bodies);
    void yield_point(bool force = false);

    // ---- coverage and work budget ---------------------------------------------------------------
    extern uint64_t g_blocks;        // basic blocks of library code executed in this run
    extern uint64_t g_block_limit;
    uint64_t coverage_count();       // distinct blocks since process start
    uint64_t pairs_count();          // distinct (block, preempted-to thread) interleaving points
    [[noreturn]] void die(int code, const std::string& msg);
} // namespace sim
