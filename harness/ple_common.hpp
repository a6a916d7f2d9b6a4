// shared by the elimination properties: running one of the rank-revealing routines
#pragma once
#include "bridge.hpp"
using namespace model;

struct Perm { // m4ri permutation with old content
  mzp_t *p; explicit Perm(rci_t n) : p(mzp_init(n)) {}
  Perm(const Perm &) = delete; Perm &operator=(const Perm &) = delete;
  ~Perm() { mzp_free(p); }
  std::vector<int> get() const { return std::vector<int>(p->values, p->values + p->length); }
};
static inline void gen_old_perm(Ctx &c, Perm &P) { // as left by an earlier decomposition
  if (c.chance(1, 4)) { pbt::Rng g(c.seed64()); for (rci_t i = 0; i < P.p->length; i++) P.p->values[i] = i + g.below(P.p->length - i); c.cls("P, Q reused"); }
}
enum { PLE_NAIVE, PLE_NJ, PLE_DEF, PLE_CUT, SL_PLE, SL_PLE_CUT, SL_PLUQ, SL_PLUQ_CUT, NPLE };
static const char *ple_name[] = {"mzed_ple_naive", "mzed_ple_newton_john", "mzed_ple", "_mzed_ple", "mzd_slice_ple", "_mzd_slice_ple", "mzd_slice_pluq", "_mzd_slice_pluq"};
static inline bool ple_sliced(int op) { return op >= SL_PLE; }
static inline bool ple_cut(int op) { return op == PLE_CUT || op == SL_PLE_CUT || op == SL_PLUQ_CUT; }

struct ElimShape { int m, n; bool big; };
static inline ElimShape gen_elim_shape(Ctx &c, const FF &f, bool recursive, bool allow_big, bool naive = false) {
  ElimShape s; s.big = false; int u = 64 / f.w;
  if (allow_big && c.chance(1, c.thorough ? 150 : 400)) { // beyond the default cutoff 2^21 bits
    s.big = true; c.cls("beyond the default cutoff");
    int q = (1 << 21) / f.w; s.n = c.flip() ? 65 + c.range(0, 200) : 300 + c.range(0, 300); s.m = q / s.n + 1 + c.range(0, 20);
    return s;
  }
  if (allow_big && f.w <= 4 && c.chance(1, 400)) { // short and so wide that lookup tables exceed the cache
    c.cls("very wide"); s.m = c.flip() ? c.range(120, 150) : c.range(1, 30); s.n = s.m >= 100 ? c.range(5400, 6000) : c.range(2000, 9000); return s;
  }
  if (c.chance(1, naive ? 15 : 200)) { // one dimension beyond 2^16
    int big = c.flip() ? c.range(32000, 90000) : 65536 + c.range(0, 4) - 2, small = c.range(1, 4); bool tall = c.flip(); c.cls(tall ? "more than 2^15 rows" : "more than 2^15 columns");
    if (tall || naive || (f.e <= 4 && !recursive)) { s.m = tall ? big : small; s.n = tall ? small : big; return s; }
  }
  switch (c.pick({6, 4, recursive ? 8 : 2})) {
  case 0: s.m = c.range(1, 14); s.n = c.range(1, 14); break;
  case 1: s.m = gen_dim(c, 1, 70, u); s.n = gen_dim(c, 1, std::min(140, 3 * u + 3), u); break;
  default: s.n = 65 + (c.flip() ? c.range(0, 130) : 64 * c.range(0, 3) + c.range(0, 2)); s.m = c.flip() ? c.range(1, 20) : c.range(1, 140); c.cls("more than 64 columns");
    if (c.chance(1, recursive ? 60 : 30)) { s.n = c.range(200, 520); s.m = c.range(60, 300); c.cls("many blocks"); } break;
  }
  if (s.n < 200) tie(c, s.n, s.m);
  return s;
}
static inline int gen_ple_cutoff(Ctx &c) { switch (c.pick({4, 3, 2, 1})) { case 0: return 1; case 1: return 1 + c.n(40000); case 2: return 1 + c.n(3000); default: return 0; } }

enum { ECH_DEF, ECH_NAIVE, ECH_NJ, ECH_PLE, SL_ECH, NECH };
static const char *ech_name[] = {"mzed_echelonize", "mzed_echelonize_naive", "mzed_echelonize_newton_john", "mzed_echelonize_ple", "mzd_slice_echelonize_ple"};
static inline rci_t run_ech_p(int op, mzed_t *A, int full) {
  switch (op) {
  case ECH_DEF: return mzed_echelonize(A, full);
  case ECH_NAIVE: return mzed_echelonize_naive(A, full);
  case ECH_NJ: return mzed_echelonize_newton_john(A, full);
  default: return mzed_echelonize_ple(A, full);
  }
}
static inline void gen_ech_case(Ctx &c, const FF &f, int op, int full, Mat &A) {
  c.d << ech_name[op] << (full ? " full" : ""); c.cls(ech_name[op]);
  ElimShape s = gen_elim_shape(c, f, false, op != ECH_NAIVE, op == ECH_NAIVE);
  if (s.big && op == ECH_DEF) s.m *= 2;
  A = gen_ranked(c, *f.F, s.m, s.n); c.d << " " << s.m << "x" << s.n;
}
// runs, checks confinement; R = matrix afterwards, r = reported rank
static inline void run_ech(Ctx &c, const FF &f, int op, int full, const Mat &A, Mat &R, rci_t &r) {
  const char *w = ech_name[op];
  if (op == SL_ECH) { SM X = in_s(c, f, A); r = mzd_slice_echelonize_ple(X.v, full); check_shape(X.v, f, A.m, A.n, w); R = X.get(); X.outside_unchanged(w); }
  else { PM X = in_p(c, f, A); r = run_ech_p(op, X.v, full); check_shape(X.v, f, A.m, A.n, w); R = X.get(); X.outside_unchanged(w); }
}
// checks row echelon form with leading ones; returns the pivot columns
static inline std::vector<int> check_ref(const Mat &R, int r, const char *w) {
  std::vector<int> piv;
  for (int i = 0; i < R.m; i++) {
    int j = 0; while (j < R.n && !R.at(i, j)) j++;
    if (i < r) {
      CHECK(j < R.n, "%s: rank %d reported but row %d is zero", w, r, i);
      CHECK(piv.empty() || j > piv.back(), "%s: not in row echelon form: row %d leads in column %d, the row before in column %d", w, i, j, piv.back());
      CHECK(R.at(i, j) == 1, "%s: leading entry of row %d is 0x%x", w, i, R.at(i, j)); piv.push_back(j);
    } else CHECK(j == R.n, "%s: rank %d reported but row %d is not zero (column %d)", w, r, i, j);
  }
  return piv;
}
