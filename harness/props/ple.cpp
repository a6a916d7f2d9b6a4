#include "ple_common.hpp"

namespace {
void gen_case(Ctx &c, const FF &f, int op, Mat &A, int &cut) {
  cut = ple_cut(op) ? gen_ple_cutoff(c) : 0; c.d << ple_name[op]; if (cut) c.d << " cutoff " << cut; c.cls(ple_name[op]);
  ElimShape s = gen_elim_shape(c, f, ple_cut(op), op == PLE_DEF || op == SL_PLE || op == SL_PLUQ, op == PLE_NAIVE);
  A = gen_ranked(c, *f.F, s.m, s.n); c.d << " " << s.m << "x" << s.n;
  if (cut && s.n > 64 && f.w * s.n * s.m > cut) c.cls("recursion");
}
rci_t run_p(int op, mzed_t *A, mzp_t *P, mzp_t *Q, int cut) {
  switch (op) {
  case PLE_NAIVE: return mzed_ple_naive(A, P, Q);
  case PLE_NJ: return mzed_ple_newton_john(A, P, Q);
  case PLE_DEF: return mzed_ple(A, P, Q);
  default: return _mzed_ple(A, P, Q, cut);
  }
}
rci_t run_s(int op, mzd_slice_t *A, mzp_t *P, mzp_t *Q, int cut) {
  switch (op) {
  case SL_PLE: return mzd_slice_ple(A, P, Q);
  case SL_PLE_CUT: return _mzd_slice_ple(A, P, Q, cut);
  case SL_PLUQ: return mzd_slice_pluq(A, P, Q);
  default: return _mzd_slice_pluq(A, P, Q, cut);
  }
}
void run(Ctx &c, const FF &f, int op, const Mat &A, int cut, Perm &P, Perm &Q, Mat &R, rci_t &r) {
  const char *w = ple_name[op];
  if (ple_sliced(op)) { SM X = in_s(c, f, A); r = run_s(op, X.v, P.p, Q.p, cut); check_shape(X.v, f, A.m, A.n, w); R = X.get(); X.outside_unchanged(w); }
  else { PM X = in_p(c, f, A); r = run_p(op, X.v, P.p, Q.p, cut); check_shape(X.v, f, A.m, A.n, w); R = X.get(); X.outside_unchanged(w); }
}
}

PROPERTY(P01, 24000, 80000,
  "Random field; matrix of chosen shape, rank and column rank profile; layout; P and Q fresh or left over; one of 8 decomposition entry points, recursive ones with random cutoff (recursion needs more than 64 columns), rarely beyond the default cutoff. "
  "L, E or U, P, Q are read from the result and multiplied out in the model: L*E = P*A or L*U*Q = P*A, pivot positions strictly increasing, non-zero diagonal of L. Non-trivial: rank at least 1 and more than one row and column.") {
  FF f = gen_field(c); const Field &F = *f.F; int op = c.pick({2, 3, 2, 4, 2, 5, 2, 5}), cut; Mat A; gen_case(c, f, op, A, cut);
  Perm P(A.m), Q(A.n); gen_old_perm(c, P); gen_old_perm(c, Q); Mat R; rci_t r;
  run(c, f, op, A, cut, P, Q, R, r); const char *w = ple_name[op]; c.d << " rank " << r;
  CHECK(r >= 0 && r <= std::min(A.m, A.n), "%s: returned rank %d", w, r); c.nontrivial(r > 0 && A.m > 1 && A.n > 1);
  std::vector<int> p = P.get(), q = Q.get(); bool pluq = op == SL_PLUQ || op == SL_PLUQ_CUT;
  CHECK((int)p.size() == A.m && (int)q.size() == A.n, "%s: P or Q changed length", w);
  Mat PA = A;
  for (int i = 0; i < A.m; i++) { CHECK(p[i] >= i && p[i] < A.m, "%s: P[%d] = %d", w, i, p[i]); swap_rows(PA, i, p[i]); }
  for (int i = 0; i < A.n; i++) CHECK(q[i] >= (i < r ? i : 0) && q[i] < A.n, "%s: Q[%d] = %d", w, i, q[i]);
  for (int i = 1; i < r; i++) CHECK(q[i] > q[i - 1], "%s: pivot columns not increasing: Q[%d] = %d, Q[%d] = %d", w, i - 1, q[i - 1], i, q[i]);
  Mat L(A.m, r), E(r, A.n);
  for (int j = 0; j < r; j++) for (int i = j; i < A.m; i++) L.at(i, j) = R.at(i, j);
  for (int i = 0; i < r; i++) CHECK(L.at(i, i), "%s: L[%d][%d] is zero", w, i, i);
  if (pluq) {
    for (int i = 0; i < r; i++) { E.at(i, i) = 1; for (int j = i + 1; j < A.n; j++) E.at(i, j) = R.at(i, j); }
    for (int i = A.n - 1; i >= 0; i--) swap_cols(E, i, q[i], 0, r);
  } else for (int i = 0; i < r; i++) { E.at(i, q[i]) = 1; for (int j = q[i] + 1; j < A.n; j++) E.at(i, j) = R.at(i, j); }
  expect_eq(mul(F, L, E), PA, pluq ? "L*U*Q" : "L*E");
}

PROPERTY(P02, 24000, 160000,
  "As P01 for the 8 decomposition entry points, and the 5 echelonisation entry points in full and plain mode, on matrices with chosen rank and column rank profile; reported rank and pivot positions (Q, or the leading positions of the result) "
  "compared with an independent elimination. Non-trivial: rank below full, or a pivot missing among the first columns.") {
  FF f = gen_field(c); const Field &F = *f.F; Mat A, R; rci_t r; std::vector<int> piv; const char *w;
  if (c.chance(3, 5)) {
    int op = c.pick({2, 3, 2, 4, 2, 5, 2, 5}), cut; gen_case(c, f, op, A, cut); w = ple_name[op];
    Perm P(A.m), Q(A.n); gen_old_perm(c, P); gen_old_perm(c, Q); run(c, f, op, A, cut, P, Q, R, r);
    CHECK(r >= 0 && r <= std::min(A.m, A.n), "%s: returned rank %d", w, r);
    piv = Q.get(); piv.resize(r);
  } else {
    int op = c.pick({3, 2, 4, 3, 4}), full = c.flip(); gen_ech_case(c, f, op, full, A); w = ech_name[op]; run_ech(c, f, op, full, A, R, r);
    CHECK(r >= 0 && r <= std::min(A.m, A.n), "%s: returned rank %d", w, r);
    for (int i = 0; i < r; i++) { int j = 0; while (j < R.n && !R.at(i, j)) j++; piv.push_back(j); }
  }
  Mat E = A; std::vector<int> want = rref(F, E, false); c.d << " rank " << want.size();
  CHECK(r == (int)want.size(), "%s: rank %d, expected %d", w, r, (int)want.size());
  for (int i = 0; i < r; i++) CHECK(piv[i] == want[i], "%s: pivot %d in column %d, expected %d", w, i, piv[i], want[i]);
  c.nontrivial(r < std::min(A.m, A.n) || (r && want[r - 1] != r - 1));
}
