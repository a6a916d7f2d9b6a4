#include "bridge.hpp"
using namespace pbt;
using namespace model;

// basic blocks of the library executed so far (gcc -fsanitize-coverage=trace-pc calls this at each of them)
static uint64_t g_work = 0;
#ifdef PBT_COUNT
#define HOOK extern "C" __attribute__((no_sanitize_coverage, visibility("default")))
HOOK void __sanitizer_cov_trace_pc() { g_work++; }
// work done for the library by libm4ri and the C library, in words (linked with --wrap); nested calls are not counted again
static int g_depth = 0;
static inline __attribute__((no_sanitize_coverage, always_inline)) void took(uint64_t w) { if (!g_depth) g_work += w; }
static inline __attribute__((no_sanitize_coverage, always_inline)) uint64_t words(const mzd_t *A) { return A ? (uint64_t)A->nrows * A->width : 0; }
#define W1(RET, NAME, PAR, ARG, COST) HOOK RET __real_##NAME PAR; HOOK RET __wrap_##NAME PAR { took(COST); g_depth++; RET r = __real_##NAME ARG; g_depth--; return r; }
#define W0(NAME, PAR, ARG, COST) HOOK void __real_##NAME PAR; HOOK void __wrap_##NAME PAR { took(COST); g_depth++; __real_##NAME ARG; g_depth--; }
W1(mzd_t *, mzd_init, (rci_t m, rci_t n), (m, n), (uint64_t)m * ((n + 63) / 64))
W1(mzd_t *, mzd_add, (mzd_t * C, const mzd_t *A, const mzd_t *B), (C, A, B), words(A))
W1(mzd_t *, _mzd_add, (mzd_t * C, const mzd_t *A, const mzd_t *B), (C, A, B), words(A))
W1(mzd_t *, mzd_copy, (mzd_t * C, const mzd_t *A), (C, A), words(A))
W1(mzd_t *, mzd_transpose, (mzd_t * C, const mzd_t *A), (C, A), words(A))
W1(mzd_t *, mzd_concat, (mzd_t * C, const mzd_t *A, const mzd_t *B), (C, A, B), words(A) + words(B))
W1(mzd_t *, mzd_stack, (mzd_t * C, const mzd_t *A, const mzd_t *B), (C, A, B), words(A) + words(B))
W1(mzd_t *, mzd_submatrix, (mzd_t * C, const mzd_t *A, rci_t r0, rci_t c, rci_t r1, rci_t c1), (C, A, r0, c, r1, c1), (uint64_t)(r1 - r0) * ((c1 - c + 63) / 64))
W1(mzd_t *, mzd_mul, (mzd_t * C, const mzd_t *A, const mzd_t *B, int k), (C, A, B, k), (uint64_t)A->nrows * A->ncols * B->width / 8)
W1(mzd_t *, mzd_addmul, (mzd_t * C, const mzd_t *A, const mzd_t *B, int k), (C, A, B, k), (uint64_t)A->nrows * A->ncols * B->width / 8)
W0(mzd_set_ui, (mzd_t * A, unsigned v), (A, v), words(A))
W0(mzd_apply_p_left, (mzd_t * A, const mzp_t *P), (A, P), words(A))
W0(mzd_apply_p_right, (mzd_t * A, const mzp_t *P), (A, P), words(A))
// these end at the first difference
static __attribute__((no_sanitize_coverage)) uint64_t zero_rows(const mzd_t *A) { rci_t i = 0; for (; i < A->nrows; i++) { bool z = true; for (wi_t j = 0; j < A->width && z; j++) z = !A->rows[i][j]; if (!z) break; } return (uint64_t)(i + 1) * A->width; }
static __attribute__((no_sanitize_coverage)) uint64_t equal_rows(const mzd_t *A, const mzd_t *B) { rci_t i = 0; if (A->nrows == B->nrows && A->ncols == B->ncols) for (; i < A->nrows && !__builtin_memcmp(A->rows[i], B->rows[i], A->width * 8); i++); return (uint64_t)(i + 1) * A->width; }
W1(int, mzd_is_zero, (const mzd_t *A), (A), zero_rows(A))
W1(int, mzd_cmp, (const mzd_t *A, const mzd_t *B), (A, B), equal_rows(A, B))
W1(int, mzd_equal, (const mzd_t *A, const mzd_t *B), (A, B), equal_rows(A, B))
W1(void *, memset, (void *p, int v, size_t n), (p, v, n), n / 8)
W1(void *, memcpy, (void *p, const void *q, size_t n), (p, q, n), n / 8)
W1(void *, memmove, (void *p, const void *q, size_t n), (p, q, n), n / 8)
#endif

namespace {
template <class T> uint64_t count(T fn) { uint64_t a = g_work; fn(); return g_work - a; }
}
#include "cost_ops.hpp"

PROPERTY(L01, 6000, 100000,
  "The library is compiled with a counter at every basic block. Each case draws a field, one of about 85 operations, shapes and the dimension to grow (rows, columns or, for products, the inner dimension), and counts the blocks executed for sizes s, 2s, 4s and 8s on dense or very sparse operands (work inside libm4ri and the C library is added in words); fixed costs cancel in the differences. "
  "Proportional work doubles each difference; a violation is growth by more than three times in both steps. Sizes are chosen so that the documented switch of mzed_mul_scalar is not crossed. Non-trivial: the work at 8s exceeds that at s by at least half a block per added row or column.") {
#ifndef PBT_COUNT
  c.cls("not instrumented"); return;
#endif
  auto weight = [](const Op &o) { return strstr(o.name, "recursive") ? 0 : o.weight; }; // these switch the algorithm more than once as they grow
  int tot = 0; for (auto &o : ops()) tot += weight(o);
  int x = c.n(tot); const Op *o = &ops()[0]; for (auto &q : ops()) { if (x < weight(q)) { o = &q; break; } x -= weight(q); }
  c.d << o->name << " "; FF f = gen_field(c, 2, o->maxe); c.cls(o->name);
  std::vector<int> dirs; for (int d = 1; d <= 4; d *= 2) if (o->lin & d) dirs.push_back(d);
  int dir = dirs[c.n(dirs.size())]; Job j{&f, 0, 0, 0, c.seed64(), (uint16_t)(2 + c.n(f.F->order - 2))};
  bool heavy = o->lin != 3;
  j.m = dir == 1 ? c.range(24, 200) : c.range(20, 40); j.n = dir == 2 ? c.range(64, 200) : c.range(1, heavy ? 70 : 200); j.k = dir == 4 ? c.range(8, 40) : c.range(1, heavy ? 24 : 40);
  if (!strcmp(o->name, "mzed_mul_scalar")) { // stay on one side of the switch to tables
    if (c.flip()) j.m = std::min(j.m, (1 << 17) / 8 / j.n); else if (dir == 1) j.n = c.range(700, 900), j.m = std::max(j.m, 190); else j.m = c.range(700, 900), j.n = std::max(j.n, 190);
  }
  j.style = c.pick({8, 1, 2, 1, 1, 1}); if (j.style) c.cls("sparse operands"); c.d << (j.style ? "sparse operands, " : "");
  c.d << (dir == 1 ? "rows" : dir == 2 ? "columns" : "inner dimension") << " growing from " << (dir == 1 ? j.m : dir == 2 ? j.n : j.k) << ", m=" << j.m << " n=" << j.n << " k=" << j.k; c.cls(dir == 1 ? "rows" : dir == 2 ? "columns" : "inner dimension");
  uint64_t w[4]; int s0 = dir == 1 ? j.m : dir == 2 ? j.n : j.k;
  for (int i = 0; i < 4; i++) { int s = s0 << i; (dir == 1 ? j.m : dir == 2 ? j.n : j.k) = s; w[i] = o->run(j); }
  c.nontrivial(w[3] > w[0] + 7 * s0 / 2);
  double d1 = (double)w[1] - w[0], d2 = (double)w[2] - w[1], d3 = (double)w[3] - w[2], slack = 0.02 * w[0] + 500;
  CHECK(!(d2 > 3 * std::max(d1, 0.) + slack && d3 > 3 * std::max(d2, 0.) + slack), "%s over GF(2^%d): the work grows faster than the number of %s: %llu, %llu, %llu, %llu blocks for %d, %d, %d, %d", o->name, f.e,
        dir == 1 ? "rows" : dir == 2 ? "columns" : "inner columns", (unsigned long long)w[0], (unsigned long long)w[1], (unsigned long long)w[2], (unsigned long long)w[3], s0, 2 * s0, 4 * s0, 8 * s0);
}
