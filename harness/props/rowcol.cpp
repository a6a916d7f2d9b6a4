#include "bridge.hpp"
using namespace model;

PROPERTY(R01, 100000, 600000,
  "One of 18 row/column operations (11 packed, 7 sliced) on a matrix of random field, shape, content and layout, row/column arguments biased to ends, equal arguments and word boundaries; whole matrix compared with the array "
  "operation, storage outside the matrix compared with a snapshot. Non-trivial: at least two columns and a non-zero matrix.") {
  FF f = gen_field(c); const Field &F = *f.F; int op = c.n(18); bool sl = op >= 11; int u = sl ? 64 : 64 / f.w;
  int m = gen_rows(c, 16, 8), n = gen_cols(c, sl ? 200 : 5 * u + 3, u, m); tie(c, n, m);
  static const char *nm[] = {"add_multiple_of_row", "add_row", "rescale_row", "row_swap", "copy_row", "col_swap", "col_swap_in_rows", "row_add", "first_zero_row", "add_multiple_of_row other", "row op sequence",
    "slice row_swap", "slice copy_row", "slice col_swap", "slice col_swap_in_rows", "slice row_add", "slice rescale_row", "slice row op sequence"};
  c.d << nm[op]; c.cls(nm[op]);
  Mat A = gen_mat(c, F, m, n); if (op == 8) { // plant zero rows
    int k = c.range(0, 3); for (int t = 0; t < k; t++) { int r = c.n(m); for (int j = 0; j < n; j++) A.at(r, j) = 0; } if (c.flip()) { for (int i = 0; i < m; i++) if (c.flip()) { bool z = true; for (int j = 0; j < n; j++) z &= !A.at(i, j); if (z) A.at(i, c.n(n)) = 1; } } }
  c.nontrivial(n >= 2 && !A.zero());
  auto col = [&]() { int j; switch (c.pick({4, 2, 1, 1})) { case 0: j = c.n(n); break; case 1: j = u * c.n(n / u + 1) + c.range(0, 2) - 1; break; case 2: j = 0; break; default: j = n - 1; } return std::min(std::max(j, 0), n - 1); };
  auto row_of = [&](const Mat &M) { return c.chance(1, 6) ? M.m - 1 : (int)c.n(M.m); };
  Mat W = A;
  if (!sl) {
    PM X = in_p(c, f, A); const char *what = nm[op];
    auto step = [&](int o) {
      switch (o) {
      case 0: { int a = row_of(W), b = row_of(W), s = col(); uint16_t x = gen_elem(c, F); c.d << " a=" << a << " b=" << b << " x=" << x << " from " << s; Mat O = W; mzed_add_multiple_of_row(X.v, a, X.v, b, x, s); row_addmul(F, W, a, O, b, x, s); break; }
      case 1: { int a = row_of(W), b = row_of(W), s = col(); c.d << " a=" << a << " b=" << b << " from " << s; Mat O = W; mzed_add_row(X.v, a, X.v, b, s); row_addmul(F, W, a, O, b, 1, s); break; }
      case 2: { int a = row_of(W), s = col(); uint16_t x = gen_elem(c, F); c.d << " r=" << a << " x=" << x << " from " << s; mzed_rescale_row(X.v, a, s, x); for (int j = s; j < n; j++) W.at(a, j) = F.mul(x, W.at(a, j)); break; }
      case 3: { int a = row_of(W), b = row_of(W); c.d << " " << a << "<->" << b; mzed_row_swap(X.v, a, b); swap_rows(W, a, b); break; }
      case 5: { int a = col(), b = col(); c.d << " " << a << "<->" << b; mzed_col_swap(X.v, a, b); swap_cols(W, a, b, 0, m); break; }
      case 6: { int a = col(), b = col(), r0 = c.n(m), r1 = r0 + c.n(m - r0 + 1); c.d << " " << a << "<->" << b << " rows " << r0 << ".." << r1; mzed_col_swap_in_rows(X.v, a, b, r0, r1); swap_cols(W, a, b, r0, r1); break; }
      case 7: { int a = row_of(W), b = row_of(W); if (a == b && X.L.kind) { b = (a + 1) % m; if (a == b) break; } /* m4ri clears junk bits when a row is added to itself */ c.d << " " << a << " onto " << b; Mat O = W; mzed_row_add(X.v, a, b); row_addmul(F, W, b, O, a, 1); break; }
      }
    };
    switch (op) {
    case 4: { bool sq = c.chance(1, 5); int n2 = sq ? n : n - std::min(n - 1, (int)c.n(4) * (int)c.n(1 + u)); int m2 = sq ? m : gen_dim(c, 1, 8, 8); Mat B = sq ? gen_mate(c, F, A) : gen_mat(c, F, m2, n2); PM Y = in_p(c, f, B); int i = row_of(A), j = c.chance(1, 4) ? std::min(i, m2 - 1) : row_of(B); c.d << " row " << j << " to " << i;
      mzed_copy_row(X.v, i, Y.v, j); for (int k = 0; k < n2; k++) W.at(i, k) = B.at(j, k); Y.unchanged(what); break; }
    case 8: { int w = 0; for (; w < m; w++) { bool z = true; for (int j = 0; j < n; j++) z &= !A.at(w, j); if (z) break; } int g = mzed_first_zero_row(X.v); CHECK(g == w, "mzed_first_zero_row gives %d, first zero row is %d of %d", g, w, m); X.unchanged(what); break; }
    case 9: { bool sq = c.chance(1, 5); int m2 = sq ? m : gen_dim(c, 1, 8, 8); Mat B = sq ? gen_mate(c, F, A) : gen_mat(c, F, m2, n); PM Y = in_p(c, f, B); int a = row_of(A), b = c.chance(1, 4) ? std::min(a, m2 - 1) : row_of(B), s = col(); uint16_t x = gen_elem(c, F); c.d << " a=" << a << " b=" << b << " x=" << x << " from " << s;
      if (c.chance(1, 4)) { mzed_add_row(X.v, a, Y.v, b, s); row_addmul(F, W, a, B, b, 1, s); } else { mzed_add_multiple_of_row(X.v, a, Y.v, b, x, s); row_addmul(F, W, a, B, b, x, s); } Y.unchanged(what); break; }
    case 10: { int k = c.range(2, 8); static const int os[] = {0, 1, 2, 3, 5, 6, 7}; for (int t = 0; t < k; t++) { step(os[c.n(7)]); c.d << ";"; } break; }
    default: step(op);
    }
    expect_eq(X.get(), W, what); X.outside_unchanged(what);
  } else {
    SM X = in_s(c, f, A); const char *what = nm[op];
    auto step = [&](int o) {
      switch (o) {
      case 11: { int a = row_of(W), b = row_of(W); c.d << " " << a << "<->" << b; mzd_slice_row_swap(X.v, a, b); swap_rows(W, a, b); break; }
      case 13: { int a = col(), b = col(); c.d << " " << a << "<->" << b; mzd_slice_col_swap(X.v, a, b); swap_cols(W, a, b, 0, m); break; }
      case 14: { int a = col(), b = col(), r0 = c.n(m), r1 = r0 + c.n(m - r0 + 1); c.d << " " << a << "<->" << b << " rows " << r0 << ".." << r1; mzd_slice_col_swap_in_rows(X.v, a, b, r0, r1); swap_cols(W, a, b, r0, r1); break; }
      case 15: { int a = row_of(W), b = row_of(W); if (a == b && X.L.kind) { b = (a + 1) % m; if (a == b) break; } /* m4ri clears junk bits when a row is added to itself */ c.d << " " << a << " onto " << b; Mat O = W; mzd_slice_row_add(X.v, a, b); row_addmul(F, W, b, O, a, 1); break; }
      case 16: { int a = row_of(W), s = col(); uint16_t x = gen_elem(c, F); c.d << " r=" << a << " x=" << x << " from " << s; mzd_slice_rescale_row(X.v, a, s, x); for (int j = s; j < n; j++) W.at(a, j) = F.mul(x, W.at(a, j)); break; }
      }
    };
    if (op == 12) { bool sq = c.chance(1, 5); int n2 = sq ? n : n - std::min(n - 1, (int)c.n(4) * (int)c.n(65)); int m2 = sq ? m : gen_dim(c, 1, 8, 8); Mat B = sq ? gen_mate(c, F, A) : gen_mat(c, F, m2, n2); SM Y = in_s(c, f, B); int i = row_of(A), j = c.chance(1, 4) ? std::min(i, m2 - 1) : row_of(B); c.d << " row " << j << " to " << i;
      mzd_slice_copy_row(X.v, i, Y.v, j); for (int k = 0; k < n2; k++) W.at(i, k) = B.at(j, k); Y.unchanged(what); }
    else if (op == 17) { int k = c.range(2, 8); static const int os[] = {11, 13, 14, 15, 16}; for (int t = 0; t < k; t++) { step(os[c.n(5)]); c.d << ";"; } }
    else step(op);
    expect_eq(X.get(), W, what); X.outside_unchanged(what);
  }
}
