#include "bridge.hpp"
using namespace model;

PROPERTY(M04, 80000, 600000,
  "Random field, scalar (zero, one, largest and random favoured), shape (small, several words, and - about one case in 40 - above the 2^17 entry threshold of the table-driven path), content, layout; "
  "packed scale, sliced scale, sliced accumulate, packed accumulate by rows, the 16-bit table multiplication, sums of several slices; compared entrywise. Non-trivial: scalar and matrix non-zero.") {
  int op = c.pick({5, 4, 4, 2, 2});
  static const char *nm[] = {"mul_scalar", "slice mul_scalar", "slice addmul_scalar", "mul_scalar then add", "mzd_sum"};
  bool big = op == 0 && c.chance(1, 14);
  FF f = gen_field(c, 2, big ? 9 : 16); const Field &F = *f.F; c.d << nm[op]; c.cls(nm[op]);
  bool sl = op == 1 || op == 2; int u = sl ? 64 : 64 / f.w;
  int m = gen_rows(c, 12, 8), n = gen_cols(c, sl ? 200 : 6 * u + 3, u, m);
  if (big) { int base = 1 << c.range(4, 10); n = base + c.range(0, u + 2) - 1; m = ((1 << 17) + n - 1) / n + c.range(0, 2) - 1; c.cls("table path sizes"); }
  uint16_t a = gen_elem(c, F); c.d << " a=" << a;
  Mat A = gen_mat(c, F, m, n); c.nontrivial(a && !A.zero());
  switch (op) {
  case 0: { PM X = in_p(c, f, A); out_p(c, f, scale(F, a, A), [&](mzed_t *C) { return mzed_mul_scalar(C, a, X.v); }, nm[op]); X.unchanged(nm[op]); break; }
  case 1: { SM X = in_s(c, f, A); out_s(c, f, scale(F, a, A), [&](mzd_slice_t *C) { return mzd_slice_mul_scalar(C, a, X.v); }, nm[op]); X.unchanged(nm[op]); break; }
  case 2: { Mat C0 = gen_mate(c, F, A); SM X = in_s(c, f, A), Z = in_s(c, f, C0); mzd_slice_t *r = mzd_slice_addmul_scalar(Z.v, a, X.v); CHECK(r == Z.v, "supplied result not returned");
    expect_eq(Z.get(), add(C0, scale(F, a, A)), nm[op]); Z.outside_unchanged(nm[op]); X.unchanged(nm[op]); break; }
  case 3: { uint16_t b = gen_elem(c, F); c.d << " b=" << b; PM X = in_p(c, f, A); PM P = PM::own(mzed_mul_scalar(NULL, a, X.v), &F), Q = PM::own(mzed_mul_scalar(NULL, b, X.v), &F);
    PM R = PM::own(mzed_add(NULL, P.v, Q.v), &F), S = PM::own(mzed_mul_scalar(NULL, a ^ b, X.v), &F); expect_eq(S.get(), scale(F, a ^ b, A), nm[op]); expect_eq(R.get(), S.get(), "(a+b)X against aX+bX");
    PM T = PM::own(mzed_mul_scalar(NULL, b, P.v), &F), V = PM::own(mzed_mul_scalar(NULL, F.mul(a, b), X.v), &F); expect_eq(T.get(), V.get(), "b(aX) against (ab)X"); break; }
  case 4: { int k = c.range(2, 6); Mat W(m, n); std::vector<mzd_t *> s(6); SM X = in_s(c, f, A); // sums of slices of one matrix
    uint16_t mask = 0; for (int i = 0; i < 6; i++) { int t = c.n(f.e); s[i] = X.v->x[t]; if (i < k) mask ^= 1 << t; c.d << " " << t; }
    mzd_t *D = mzd_init(m, n), *r; if (c.flip()) mzd_randomize(D);
    switch (k) { case 2: r = mzd_sum(D, 2, s[0], s[1]); break; case 3: r = mzd_sum(D, 3, s[0], s[1], s[2]); break; case 4: r = mzd_sum(D, 4, s[0], s[1], s[2], s[3]); break;
      case 5: r = mzd_sum(D, 5, s[0], s[1], s[2], s[3], s[4]); break; default: r = mzd_sum(D, 6, s[0], s[1], s[2], s[3], s[4], s[5]); }
    CHECK(r == D, "mzd_sum does not return its result");
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { int want = __builtin_parity(A.at(i, j) & mask); if ((int)raw_elem(D, i, j, 1) != want) { fail("mzd_sum: bit (%d,%d) wrong", i, j); } }
    mzd_free(D); X.unchanged("mzd_sum"); break; }
  }
}
