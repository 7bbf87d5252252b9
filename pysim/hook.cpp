// Allocation seam of the extension module: the n-th allocation made by module code after arming fails.
// Eigen's resize frees first and leaves the dead pointer in the object when the following allocation fails (a defect of
// Eigen, not of this library), so an allocation directly after a free is let through and the fault moves on.
#include <cstddef>
#include <cstdlib>
#include <new>
extern "C" {
static long g_left = -1, g_fired = 0;
static bool g_after_free = false;
void pysim_arm(long n) { g_left = n; g_fired = 0; }
long pysim_disarm() { g_left = -1; return g_fired; }
static bool hit(bool eigen)
{
    bool af = g_after_free;
    g_after_free = false;
    if (g_left < 0) return false;
    if (g_left > 0) { g_left--; return false; }
    if (eigen && af) return false;
    g_left = -1;
    g_fired++;
    return true;
}
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__real__Znwm(size_t);
void *__real__Znam(size_t);
void *__wrap_malloc(size_t n) { return hit(true) ? nullptr : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { return hit(false) ? nullptr : __real_realloc(p, n); }
void __wrap_free(void *p) { __real_free(p); if (p) g_after_free = true; }
void *__wrap__Znwm(size_t n) { if (hit(false)) throw std::bad_alloc(); return __real__Znwm(n); }
void *__wrap__Znam(size_t n) { if (hit(false)) throw std::bad_alloc(); return __real__Znam(n); }
}
