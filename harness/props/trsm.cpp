#include "bridge.hpp"
using namespace model;

PROPERTY(T01, 12000, 120000,
  "Random field, triangular matrix with non-zero diagonal and junk in the other triangle, right-hand side, layouts; schoolbook, table-based, recursive (random cutoff >= 64) or default solver, upper or lower, packed or sliced; sizes tiny, around words, "
  "beyond the cutoff (recursion), rarely > 512; the triangle times the result is compared with the original right-hand side, everything else must be unchanged. Non-trivial: right-hand side non-zero and more than one row.") {
  FF f = gen_field(c); const Field &F = *f.F; bool sl = c.flip(), up = c.flip(); int algo = c.pick({2, 4, 4, 2}), cut = 64;
  static const char *nm[] = {"naive", "newton_john", "recursive", "default"};
  c.d << (sl ? "slice " : "packed ") << (up ? "upper " : "lower ") << nm[algo]; c.cls(std::string(sl ? "sliced " : "packed ") + (up ? "upper " : "lower ") + nm[algo]);
  int u = sl ? 64 : 64 / f.w, m, n;
  if (algo == 2) { cut = c.flip() ? 64 : c.range(64, 130); c.d << " cutoff " << cut; }
  bool big = algo == 3 && c.chance(1, c.thorough ? 200 : 400);
  if (big) { m = 513 + c.range(0, 90); n = 513 + c.range(0, 20); c.cls("default recursion"); }
  else if (algo == 2 && c.chance(1, 3)) { m = cut + 1 + c.range(0, 130); n = cut + 1 + c.range(0, 20); c.cls("recursion"); }
  else if (c.flip()) { m = c.range(1, 20); n = c.range(1, 20); }
  else { m = gen_dim(c, 1, 140, u); n = gen_dim(c, 1, std::min(140, 3 * u + 3), u); }
  if (!big && c.chance(1, 800)) { m = c.range(1, 6); n = c.flip() ? c.range(32000, 90000) : 65536 + c.range(0, 4) - 2; c.cls("more than 2^15 columns"); }
  else if (!big) tie(c, m, n);
  if ((1 << f.e) < m) c.cls("tables used");
  Mat T = gen_mat(c, F, m, m);
  if (c.chance(3, 4)) { pbt::Rng g(c.seed64()); for (int i = 0; i < m; i++) T.at(i, i) = 1 + g.below(F.order - 1); }
  else for (int i = 0; i < m; i++) if (!T.at(i, i)) T.at(i, i) = 1;
  Mat R = T; for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if (up ? j < i : j > i) R.at(i, j) = 0;
  Mat B = gen_mat(c, F, m, n); if (m < 300 && c.chance(1, 4)) B = mul(F, R, B), c.cls("structured solution");
  c.nontrivial(m > 1 && !B.zero());
  auto verify = [&](const Mat &X) { expect_eq(mul(F, R, X), B, "triangle times solution"); };
  if (sl) {
    SM t = in_s(c, f, T), b = in_s(c, f, B);
    switch (algo) {
    case 0: (up ? mzd_slice_trsm_upper_left_naive : mzd_slice_trsm_lower_left_naive)(t.v, b.v); break;
    case 1: (up ? mzd_slice_trsm_upper_left_newton_john : mzd_slice_trsm_lower_left_newton_john)(t.v, b.v); break;
    case 2: (up ? _mzd_slice_trsm_upper_left : _mzd_slice_trsm_lower_left)(t.v, b.v, cut); break;
    default: (up ? mzd_slice_trsm_upper_left : mzd_slice_trsm_lower_left)(t.v, b.v);
    }
    check_shape(b.v, f, m, n, "trsm"); verify(b.get()); t.unchanged("trsm"); b.outside_unchanged("trsm");
  } else {
    PM t = in_p(c, f, T), b = in_p(c, f, B);
    switch (algo) {
    case 0: (up ? mzed_trsm_upper_left_naive : mzed_trsm_lower_left_naive)(t.v, b.v); break;
    case 1: (up ? mzed_trsm_upper_left_newton_john : mzed_trsm_lower_left_newton_john)(t.v, b.v); break;
    case 2: (up ? _mzed_trsm_upper_left : _mzed_trsm_lower_left)(t.v, b.v, cut); break;
    default: (up ? mzed_trsm_upper_left : mzed_trsm_lower_left)(t.v, b.v);
    }
    check_shape(b.v, f, m, n, "trsm"); verify(b.get()); t.unchanged("trsm"); b.outside_unchanged("trsm");
  }
}
