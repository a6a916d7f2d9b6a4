#include "bridge.hpp"
using namespace model;

namespace {
struct Shape { int m, k, n; int kind; };
// kind 0 tiny, 1 medium, 2 several blocks, 3 beyond the 512 threshold, 4 very tall (giant-step path)
Shape gen_shape(Ctx &c, const FF &f, bool packed, bool allow_big, bool allow_tall) {
  int u = packed ? 64 / f.w : 64; Shape s;
  if (c.chance(1, 400)) { // one dimension beyond 2^16
    s.kind = 6; s.m = c.range(1, 3); s.k = c.range(1, 3); s.n = c.range(1, 3); int d = c.n(3); (d == 0 ? s.m : d == 1 ? s.k : s.n) = c.flip() ? c.range(32000, 80000) : 65536 + c.range(0, 4) - 2;
    c.cls(d == 0 ? "more than 2^15 rows" : d == 1 ? "inner dimension beyond 2^15" : "more than 2^15 columns"); return s;
  }
  s.kind = c.pick({520, 380, 90, allow_big ? 6 : 0, allow_tall ? (f.w <= 4 ? 80 : f.w == 8 || c.thorough ? 16 : 1) : 0});
  int cap = packed ? std::min(300, 4 * u + 20) : 140;
  switch (s.kind) {
  case 0: s.m = c.range(1, 20); s.k = c.range(1, 20); s.n = c.range(1, 20); break;
  case 1: { int q = packed ? 2 * u + 3 : 70; s.m = gen_dim(c, 1, q, u); s.k = gen_dim(c, 1, q, u); s.n = gen_dim(c, 1, q, u); break; }
  case 2: s.m = gen_dim(c, 1, cap, u); s.k = gen_dim(c, 1, cap, u); s.n = gen_dim(c, 1, cap, u); break;
  case 3: s.m = 512 + c.range(0, 20); s.k = 512 + c.range(0, 20); s.n = 512 + c.range(0, 20); break;
  default: s.m = f.w * 2048 + c.range(0, 2 * 2048 / f.w); s.k = c.range(1, 20); s.n = c.range(1, 40); if (f.w == 16) s.n = c.range(1, 9); break;
  }
  if (s.kind < 3) { tie(c, s.k, s.n, 5); tie(c, s.k, s.m, 5); }
  c.cls(std::string("shape ") + (s.kind == 0 ? "tiny" : s.kind == 1 ? "medium" : s.kind == 2 ? "blocks" : s.kind == 3 ? ">=512" : "tall"));
  return s;
}
// 0 (heuristic) or at least 3/2 words, so that a recursion step never has empty blocks; 64 and up are the documented values
int gen_cutoff(Ctx &c, const FF &f) { int u = 64 / f.w, lo = (3 * u + 1) / 2; switch (c.pick({5, 3, 1, 1})) { case 0: return c.range(lo, lo + u); case 1: return c.range(64, 100); case 2: return 1 << c.range(6, 12); default: return 0; } }
// shape for which Strassen recurses at least once at this cutoff
void strassen_shape(Ctx &c, const FF &f, Shape &s, int cut) {
  if (!cut || cut > 128 || c.chance(1, 4)) return;
  int lo = (4 * cut + 2) / 3, hi = std::min(300, std::max(lo + 70, 5 * lo / 2)), u = 64 / f.w;
  auto d = [&]() { int v = c.flip() ? c.range(lo, hi) : std::min(hi, std::max(lo, u * c.range(1, hi / u) + c.range(0, 2) - 1)); return v; };
  s.m = d(); s.k = d(); s.n = d(); c.cls("Strassen recursion");
}

// products too large for the schoolbook model: (A*B + C0) V = R V for random thin V, plus every entry of two random rows
void expect_product(const Field &F, const Mat &A, const Mat &B, const Mat *C0, const Mat &R, uint64_t seed, const char *what) {
  pbt::Rng g(seed); Mat V(B.n, F.e < 4 ? 12 : F.e < 8 ? 6 : 3); for (auto &x : V.a) x = g.next() & F.mask();
  CHECK(R.m == A.m && R.n == B.n, "%s: shape %dx%d, expected %dx%d", what, R.m, R.n, A.m, B.n);
  Mat W = mul(F, A, mul(F, B, V)), G = mul(F, R, V); if (C0) W = add(W, mul(F, *C0, V));
  int bad = -1; for (int i = 0; i < W.m && bad < 0; i++) for (int j = 0; j < W.n; j++) if (W.at(i, j) != G.at(i, j)) { bad = i; break; }
  for (int t = 0; t < 3; t++) { int i = t ? g.below(A.m) : bad < 0 ? 0 : bad; Mat a = sub(A, i, 0, i + 1, A.n), r = mul(F, a, B); if (C0) r = add(r, sub(*C0, i, 0, i + 1, C0->n));
    for (int j = 0; j < R.n; j++) if (R.at(i, j) != r.at(0, j)) fail("%s: entry (%d,%d) is 0x%x, expected 0x%x", what, i, j, R.at(i, j), r.at(0, j)); }
  CHECK(bad < 0, "%s: wrong product (row %d)", what, bad);
}
Shape large_shape(Ctx &c, int lo, int hi) { Shape s; auto d = [&]() { return c.flip() ? c.range(lo, hi) : std::min(hi, std::max(lo, 64 * c.range(lo / 64, hi / 64) + c.range(0, 2) - 1)); }; s.m = d(); s.k = d(); s.n = d(); s.kind = 5; c.cls("shape large"); return s; }
}

PROPERTY(M01, 6000, 60000,
  "Random field, conformable shapes m,k,n (tiny; around word multiples; several Strassen blocks; occasionally >=512 in all dimensions or tall enough for the giant-step loop), contents, layouts; one of 8 multiplication entry points "
  "(default, schoolbook, Newton-John, Strassen with random cutoff in checked and unchecked form, Karatsuba, bilinear); result fresh or supplied with old content; compared with a schoolbook product over an independent field model. "
  "Non-trivial: both operands non-zero and the product non-zero.") {
  FF f = gen_field(c); const Field &F = *f.F; static const char *nm[] = {"mul", "mul_naive", "mul_newton_john", "mul_strassen", "_mul_strassen", "mul_karatsuba", "mul_blm", "_mul_newton_john0"};
  int op = c.pick({4, 2, 4, 4, 2, 3, 2, 1});
  Shape s = gen_shape(c, f, true, op == 0 || op == 5, op == 0 || op == 2 || op == 7); c.d << nm[op]; c.cls(nm[op]);
  int cut = gen_cutoff(c, f); bool large = (op == 0 || op == 5 || op == 6 || (f.e <= 8 && (op == 2 || op == 3))) && c.chance(1, 250);
  if (large) { cut = 0; s = large_shape(c, op == 3 ? (f.e <= 4 ? 900 : 640) : 300, op == 3 ? (f.e <= 4 ? 1150 : 800) : 1000); }
  if (op == 3 || op == 4) { if (op == 4 && !cut) cut = 64; c.d << " cutoff " << cut; if (!large) strassen_shape(c, f, s, cut); }
  bool sq = c.chance(1, 12), cl = !sq && c.chance(1, 20); if (sq || cl) s.k = s.n = s.m = std::min(s.m, std::min(s.k, s.n));
  Mat A = gen_mat(c, F, s.m, s.k), B = sq ? A : cl ? near(c, F, A) : gen_mat(c, F, s.k, s.n);
  Mat W; if (!large) W = mul(F, A, B); c.nontrivial(large ? !A.zero() && !B.zero() : !W.zero());
  PM X = in_p(c, f, A), Y; mzed_t *y; if (sq) { y = X.v; c.d << " squared"; } else { Y = in_p(c, f, B); y = Y.v; }
  auto call = [&](mzed_t *C) -> mzed_t * {
    switch (op) {
    case 0: return mzed_mul(C, X.v, y);
    case 1: return mzed_mul_naive(C, X.v, y);
    case 2: return mzed_mul_newton_john(C, X.v, y);
    case 3: return mzed_mul_strassen(C, X.v, y, cut);
    case 4: return _mzed_mul_strassen(C, X.v, y, cut);
    case 5: return mzed_mul_karatsuba(C, X.v, y);
    case 6: return mzed_mul_blm(C, X.v, y);
    default: mzed_set_ui(C, 0); return _mzed_mul_newton_john0(C, X.v, y);
    } };
  if (large) { PM R; if (c.flip()) R = PM::own(call(nullptr), &F); else { R = PM(f, gen_garbage(c, F, s.m, s.n), gen_layout(c, f.w)); CHECK(call(R.v) == R.v, "%s: supplied result not returned", nm[op]); R.outside_unchanged(nm[op]); }
    check_shape(R.v, f, s.m, s.n, nm[op]); expect_product(F, A, B, nullptr, R.get(), c.seed64(), nm[op]); }
  else out_p(c, f, W, call, nm[op], op != 4 && op != 7); X.unchanged(nm[op]); if (!sq) Y.unchanged(nm[op]);
}

PROPERTY(M02, 40000, 400000,
  "As M01 for bit-sliced operands: default, Karatsuba (checked, unchecked), schoolbook slicing, bilinear map given (compiled or not, reduced by the field) or created on the fly. Non-trivial: the product is non-zero.") {
  FF f = gen_field(c); const Field &F = *f.F; static const char *nm[] = {"slice mul", "slice mul_karatsuba", "slice addmul_naive into new", "slice mul_blm", "slice _mul_blm", "slice addmul_karatsuba into new"};
  int op = c.pick({3, 3, 3, 2, 2, 1});
  Shape s = gen_shape(c, f, false, false, false); c.d << nm[op]; c.cls(nm[op]); bool large = c.chance(1, 400); if (large) s = large_shape(c, 200, 900);
  bool sq = c.chance(1, 12), cl = !sq && c.chance(1, 20); if (sq || cl) s.k = s.n = s.m = std::min(s.m, std::min(s.k, s.n));
  Mat A = gen_mat(c, F, s.m, s.k), B = sq ? A : cl ? near(c, F, A) : gen_mat(c, F, s.k, s.n);
  Mat W; if (!large) W = mul(F, A, B); c.nontrivial(large ? !A.zero() && !B.zero() : !W.zero());
  blm_t *b = NULL; if (op == 3 || op == 4) { int mode = c.pick({2, 1, 1, 1}); if (mode) { int *p; bool djb = mode != 2; if (mode == 3 && f.e >= 3) p = crt_init(f.e, f.e); else { p = (int *)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int)); p[f.e] = 1; }
      b = blm_init_crt(f.ff, f.e, f.e, p, djb); free(p); c.d << (djb ? " compiled" : " matrix") << (mode == 3 ? " crt map" : " map"); } }
  SM X = in_s(c, f, A), Y; mzd_slice_t *y; if (sq) { y = X.v; c.d << " squared"; } else { Y = in_s(c, f, B); y = Y.v; }
  auto call = [&](mzd_slice_t *C) -> mzd_slice_t * {
    switch (op) {
    case 0: return mzd_slice_mul(C, X.v, y);
    case 1: return mzd_slice_mul_karatsuba(C, X.v, y);
    case 2: if (C) mzd_slice_set_ui(C, 0); return _mzd_slice_addmul_naive(C, X.v, y);
    case 3: return mzd_slice_mul_blm(C, X.v, y, b);
    case 4: return _mzd_slice_mul_blm(C, X.v, y, b);
    default: if (C) mzd_slice_set_ui(C, 0); return _mzd_slice_addmul_karatsuba(C, X.v, y);
    } };
  if (large) { SM R; if (c.flip()) R = SM::own(call(nullptr), &F); else { R = SM(f, gen_garbage(c, F, s.m, s.n), gen_layout(c, 1)); CHECK(call(R.v) == R.v, "%s: supplied result not returned", nm[op]); R.outside_unchanged(nm[op]); }
    check_shape(R.v, f, s.m, s.n, nm[op]); expect_product(F, A, B, nullptr, R.get(), c.seed64(), nm[op]); }
  else out_s(c, f, W, call, nm[op], true); X.unchanged(nm[op]); if (!sq) Y.unchanged(nm[op]);
  if (b) blm_free(b);
}

PROPERTY(M03, 6000, 60000,
  "Random field, shapes and layouts as M01/M02, previous content of the result random; one of 15 accumulating entry points of both representations; result compared with old content plus the model product. "
  "Non-trivial: product and previous content non-zero.") {
  FF f = gen_field(c); const Field &F = *f.F;
  static const char *nm[] = {"addmul", "_addmul", "addmul_naive", "_mul_naive", "addmul_newton_john", "_mul_newton_john", "_mul_newton_john0", "addmul_strassen", "_addmul_strassen", "addmul_karatsuba", "_addmul_karatsuba", "_addmul_blm",
    "slice addmul", "slice addmul_karatsuba", "slice _addmul_naive", "slice addmul_blm", "slice _addmul_karatsuba"};
  int op = c.pick({3, 1, 1, 1, 3, 1, 1, 4, 2, 2, 1, 1, 2, 2, 2, 1, 1}); bool sl = op >= 12;
  Shape s = gen_shape(c, f, !sl, op == 0, op == 0 || op == 4 || op == 5); c.d << nm[op]; c.cls(nm[op]);
  int cut = gen_cutoff(c, f); bool large = ((sl && op != 14) || op == 0 || (op >= 9 && op <= 11) || (f.e <= 8 && (op == 4 || op == 7))) && c.chance(1, 250);
  if (large) { cut = 0; s = large_shape(c, op == 7 ? (f.e <= 4 ? 900 : 640) : 300, op == 7 ? (f.e <= 4 ? 1150 : 800) : 900); }
  if (op == 7 || op == 8) { if (op == 8 && !cut) cut = 64; c.d << " cutoff " << cut; if (!large) strassen_shape(c, f, s, cut); }
  bool cl = c.chance(1, 20); if (cl) s.k = s.n = s.m = std::min(s.m, std::min(s.k, s.n));
  Mat A = gen_mat(c, F, s.m, s.k), B = cl ? near(c, F, A) : gen_mat(c, F, s.k, s.n);
  Mat P, C0, W; if (large) C0 = gen_mat(c, F, s.m, s.n); else { P = mul(F, A, B); C0 = c.chance(1, 12) ? near(c, F, P) : gen_mat(c, F, s.m, s.n); W = add(P, C0); }
  c.nontrivial((large ? !A.zero() && !B.zero() : !P.zero()) && !C0.zero());
  auto verify = [&](const Mat &R) { if (large) expect_product(F, A, B, &C0, R, c.seed64(), nm[op]); else expect_eq(R, W, nm[op]); };
  if (!sl) {
    PM X = in_p(c, f, A), Y = in_p(c, f, B), Z = in_p(c, f, C0); mzed_t *r = NULL;
    switch (op) {
    case 0: r = mzed_addmul(Z.v, X.v, Y.v); break; case 1: r = _mzed_addmul(Z.v, X.v, Y.v); break;
    case 2: r = mzed_addmul_naive(Z.v, X.v, Y.v); break; case 3: r = _mzed_mul_naive(Z.v, X.v, Y.v); break;
    case 4: r = mzed_addmul_newton_john(Z.v, X.v, Y.v); break; case 5: r = _mzed_mul_newton_john(Z.v, X.v, Y.v); break; case 6: r = _mzed_mul_newton_john0(Z.v, X.v, Y.v); break;
    case 7: r = mzed_addmul_strassen(Z.v, X.v, Y.v, cut); break; case 8: r = _mzed_addmul_strassen(Z.v, X.v, Y.v, cut); break;
    case 9: r = mzed_addmul_karatsuba(Z.v, X.v, Y.v); break; case 10: r = _mzed_addmul_karatsuba(Z.v, X.v, Y.v); break; case 11: r = _mzed_addmul_blm(Z.v, X.v, Y.v); break;
    }
    CHECK(r == Z.v, "%s: supplied result not returned", nm[op]); verify(Z.get()); Z.outside_unchanged(nm[op]); X.unchanged(nm[op]); Y.unchanged(nm[op]);
  } else {
    SM X = in_s(c, f, A), Y = in_s(c, f, B), Z = in_s(c, f, C0); mzd_slice_t *r = NULL;
    switch (op) {
    case 12: r = mzd_slice_addmul(Z.v, X.v, Y.v); break; case 13: r = mzd_slice_addmul_karatsuba(Z.v, X.v, Y.v); break; case 14: r = _mzd_slice_addmul_naive(Z.v, X.v, Y.v); break;
    case 15: r = mzd_slice_addmul_blm(Z.v, X.v, Y.v, NULL); break; case 16: r = _mzd_slice_addmul_karatsuba(Z.v, X.v, Y.v); break;
    }
    CHECK(r == Z.v, "%s: supplied result not returned", nm[op]); verify(Z.get()); Z.outside_unchanged(nm[op]); X.unchanged(nm[op]); Y.unchanged(nm[op]);
  }
}
