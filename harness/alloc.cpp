// Replaces m4ri's block cache: every block is a fresh malloc filled with a pattern that
// changes from case to case, and is released with free.  (Dynamic symbols: libm4ri.so
// binds to these.)  This makes reads of uninitialised memory visible to every check.
#include "bridge.hpp"
namespace br {
int g_fill = 0xA5;
// allocation faults (A01): while watching, the requests made by the library under test (not those of libm4ri, whose
// references are renamed to pbt_m4ri_*) are numbered; the one with number g_fault_at fails
bool g_watch = false; long g_alloc_no = 0, g_fault_at = 0; int g_watch_pid = 0; volatile bool *g_fault_hit = nullptr; std::vector<void *> *g_sites = nullptr;
// space (L02): the largest amount of allocated memory seen while measuring
bool g_space = false; size_t g_space_peak = 0;
static inline void note(size_t size) {
  if (!g_space) return;
  struct mallinfo2 m = mallinfo2(); size_t u = m.uordblks + m.hblkhd + size; if (u > g_space_peak) g_space_peak = u;
}
static bool fault(size_t size, void *caller) {
  note(size);
  if (!g_watch || size == 0 || getpid() != g_watch_pid) return false;
  g_alloc_no++; if (g_sites) g_sites->push_back(caller);
  if (g_alloc_no != g_fault_at) return false;
  if (g_fault_hit) *g_fault_hit = true; return true;
}
}
using br::fault; using br::note;
extern "C" {
void *__real_calloc(size_t n, size_t s); void *__real_malloc(size_t s); int __real_posix_memalign(void **p, size_t a, size_t s); void *__real_aligned_alloc(size_t a, size_t s);
__attribute__((visibility("default"))) void *__wrap_malloc(size_t s) { return fault(s, __builtin_return_address(0)) ? nullptr : __real_malloc(s); }
__attribute__((visibility("default"))) int __wrap_posix_memalign(void **p, size_t a, size_t s) { if (fault(s, __builtin_return_address(0))) return ENOMEM; return __real_posix_memalign(p, a, s); }
__attribute__((visibility("default"))) void *__wrap_aligned_alloc(size_t a, size_t s) { return fault(s, __builtin_return_address(0)) ? nullptr : __real_aligned_alloc(a, s); }
void *pbt_m4ri_malloc(size_t s) { note(s); return __real_malloc(s); }
void *pbt_m4ri_calloc(size_t n, size_t s) { note(n * s); return __real_calloc(n, s); }
int pbt_m4ri_posix_memalign(void **p, size_t a, size_t s) { note(s); return __real_posix_memalign(p, a, s); }
void *pbt_m4ri_aligned_alloc(size_t a, size_t s) { note(s); return __real_aligned_alloc(a, s); }
__attribute__((visibility("default"))) void *m4ri_mmc_malloc(size_t size) {
  note(size); void *p = nullptr; if (__real_posix_memalign(&p, 64, size ? size : 64)) abort();
  memset(p, br::g_fill, size); return p;
}
__attribute__((visibility("default"))) void m4ri_mmc_free(void *p, size_t) { free(p); }
}
// calloc does not reuse recently released blocks in this C library; through malloc it does, so that a field
// created after another one was released usually gets its address (stale caches keyed by address show up)
extern "C" {
__attribute__((visibility("default"))) void *__wrap_calloc(size_t n, size_t s) {
  size_t z; if (fault(n * s, __builtin_return_address(0))) return nullptr;
  if (__builtin_mul_overflow(n, s, &z) || z > 1024) return __real_calloc(n, s);
  void *p = __real_malloc(z ? z : 1); if (p) for (volatile char *q = (volatile char *)p, *e = q + z; q < e; q++) *q = 0;
  return p;
}
}
namespace {
struct Init {
  Init() {
    pbt::before_case() = [](pbt::Ctx &c) {
      br::g_fill = 0xA5; (void)c;
#ifndef PBT_SAN
      mallopt(M_PERTURB, br::g_fill ? br::g_fill : 0x5a);
#endif
    };
  }
} init_;
}
