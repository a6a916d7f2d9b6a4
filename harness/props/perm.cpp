#include "ple_common.hpp"

PROPERTY(X01, 80000, 400000,
  "Random field, matrix, layout and transposition sequence (as decompositions produce: entry i at least i; identity; cycles; reversal; sometimes arbitrary; sometimes shorter than the matrix); one of the 8 row/column applications in the "
  "documented order of swaps, an application followed by its transpose (must restore), the triangular variant (swap i in the rows above i), or the block compression of a decomposition step; compared with swaps on the plain array. "
  "Non-trivial: at least one real swap and a non-zero matrix.") {
  FF f = gen_field(c); const Field &F = *f.F; bool sl = c.flip(); int u = sl ? 64 : 64 / f.w;
  int m = gen_rows(c, 70, 16), n = gen_cols(c, sl ? 200 : std::min(140, 5 * u + 3), u, m); tie(c, n, m);
  int op = c.pick({2, 2, 3, 3, 2, 2, sl ? 4 : 0, sl ? 3 : 0}); Mat A = gen_mat(c, F, m, n), W;
  static const char *nm[] = {"apply_p_left", "apply_p_left_trans", "apply_p_right", "apply_p_right_trans", "left and back", "right and back", "apply_p_right_trans_tri", "compress_l"};
  c.d << (sl ? "slice " : "packed ") << nm[op]; c.cls(std::string(sl ? "sliced " : "packed ") + nm[op]);
  if (op == 7) {
    if (n <= 64) n = 65 + c.range(0, 70);
    int n1 = 64 * c.range(1, (n - 1) / 64), r1 = c.range(0, std::min(m, n1 - 1)), r2 = c.range(0, std::min(m - r1, n - n1));
    if (c.chance(1, 3)) r1 = std::min(m, std::max(0, n1 - 1 - (int)c.n(4))), r2 = std::min(r2, m - r1);
    A = gen_mat(c, F, m, n); c.d << " r1 " << r1 << " n1 " << n1 << " r2 " << r2;
    for (int i = r1; i < m; i++) for (int j = r1; j < n; j++) if (j < n1 || (i >= r1 + r2 && j >= n1 + r2)) A.at(i, j) = 0;
    W = A; for (int j = 0; j < r2; j++) swap_cols(W, r1 + j, n1 + j, r1 + j, m);
    c.nontrivial(r2 > 0 && !A.zero()); SM X = in_s(c, f, A);
    _mzd_slice_compress_l(X.v, r1, n1, r2); expect_eq(X.get(), W, nm[op]); X.outside_unchanged(nm[op]); return;
  }
  bool left = op == 0 || op == 1 || op == 4; int full = left ? m : n, len = full;
  if (op != 6 && c.chance(1, 6)) len = c.range(1, full);
  Perm P(len); std::vector<int> v(len); pbt::Rng g(c.seed64()); int style = c.pick({5, 1, 2, 2, 2});
  for (int i = 0; i < len; i++) switch (style) {
    case 0: v[i] = i + g.below(len - i); break; case 1: v[i] = i; break; case 2: v[i] = std::min(i + 1, len - 1); break;
    case 3: v[i] = i < len / 2 ? len - 1 - i : i; break; default: v[i] = g.below(5) ? i : i + (int)g.below(len - i); }
  if (style == 0 && op != 6 && c.chance(1, 5)) { for (auto &x : v) x = g.below(len); c.cls("arbitrary swaps"); }
  if (len <= 12) { c.d << " P="; for (int x : v) c.d << x << ","; }
  bool any = false; for (int i = 0; i < len; i++) { P.p->values[i] = v[i]; any |= v[i] != i; }
  c.nontrivial(any && !A.zero()); W = A;
  switch (op) {
  case 0: for (int i = 0; i < len; i++) swap_rows(W, i, v[i]); break;
  case 1: for (int i = len - 1; i >= 0; i--) swap_rows(W, i, v[i]); break;
  case 2: for (int i = len - 1; i >= 0; i--) swap_cols(W, i, v[i], 0, m); break;
  case 3: for (int i = 0; i < len; i++) swap_cols(W, i, v[i], 0, m); break;
  case 6: for (int i = 0; i < len; i++) swap_cols(W, i, v[i], 0, std::min(i, m)); break;
  }
  bool first = c.flip();
  auto go = [&](auto *x) {
    const bool S = std::is_same<decltype(x), mzd_slice_t *>::value;
    auto L = [&](bool t) { if (S) (t ? mzd_slice_apply_p_left_trans : mzd_slice_apply_p_left)((mzd_slice_t *)x, P.p); else (t ? mzed_apply_p_left_trans : mzed_apply_p_left)((mzed_t *)x, P.p); };
    auto R = [&](bool t) { if (S) (t ? mzd_slice_apply_p_right_trans : mzd_slice_apply_p_right)((mzd_slice_t *)x, P.p); else (t ? mzed_apply_p_right_trans : mzed_apply_p_right)((mzed_t *)x, P.p); };
    switch (op) { case 0: L(false); break; case 1: L(true); break; case 2: R(false); break; case 3: R(true); break; case 4: L(first); L(!first); break; case 5: R(first); R(!first); break; default: mzd_slice_apply_p_right_trans_tri((mzd_slice_t *)x, P.p); }
  };
  if (sl) { SM X = in_s(c, f, A); go(X.v); expect_eq(X.get(), W, nm[op]); X.outside_unchanged(nm[op]); }
  else { PM X = in_p(c, f, A); go(X.v); expect_eq(X.get(), W, nm[op]); X.outside_unchanged(nm[op]); }
  CHECK(P.get() == v, "%s changed the permutation", nm[op]);
}
