// Catalogue of matrix operations with model semantics, used for views, reproducibility, histories and leak checks.
#pragma once
#include "ple_common.hpp"

namespace ops {
struct V { bool sl = false; mzed_t *p = nullptr; mzd_slice_t *s = nullptr; };
enum Role { IN, OUT, INOUT }; // read only; overwritten completely; updated in place
enum Need { ANY, TRI_UP, TRI_LOW, INVERTIBLE };
struct Arg {
  bool sl; Role role; int m, n; Need need; bool clean; bool may_null; // clean: m4ri copies whole words here, so no foreign bits in the last word
  Mat val; V v;                                                     // filled in by the caller before prepare()/run()
};
struct Op {
  std::string name; std::vector<Arg> a; std::vector<long> ret;
  std::function<void(Ctx &)> prepare;                    // draws parameters that depend on the values and computes `want`
  std::function<void(Op &)> run;                         // calls the library
  bool alias = false; /* the result may be one of the operands of the same representation */ std::vector<Mat> want; bool exact = true;              // expected values of all arguments afterwards (when exact)
  std::function<void(Op &, const std::vector<Mat> &)> check; // for results that are specified but not modelled exactly
  int arg(bool sl, Role r, int m, int n, Need nd = ANY, bool clean = false, bool mn = false) { a.push_back(Arg{sl, r, m, n, nd, clean, mn, Mat(), V()}); return (int)a.size() - 1; }
};
typedef std::shared_ptr<Op> OpP;

// drawing dimensions
struct Dims { std::function<int(Ctx &)> d; };

static inline void set_tri(Mat &A, const Field &F, bool up, uint64_t seed) { pbt::Rng g(seed); for (int i = 0; i < A.m; i++) if (!A.at(i, i)) A.at(i, i) = 1 + g.below(F.order - 1); }
static inline bool invertible(const Field &F, const Mat &A) { Mat E = A; return A.m == A.n && (int)rref(F, E, false).size() == A.m; }
static inline Mat gen_invertible(Ctx &c, const Field &F, int n) {
  pbt::Rng g(c.seed64()); Mat L(n, n), U(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { uint16_t v = g.next() & F.mask(); if (i == j) { L.at(i, i) = 1; U.at(i, i) = 1 + g.below(F.order - 1); } else if (i > j) L.at(i, j) = v; else U.at(i, j) = v; }
  Mat A = mul(F, L, U); for (int i = n - 1; i > 0; i--) swap_rows(A, i, g.below(i + 1)); return A;
}
static inline bool fits(const Field &F, const Mat &A, Need n) {
  switch (n) { case TRI_UP: case TRI_LOW: for (int i = 0; i < A.m; i++) if (!A.at(i, i)) return false; return true; case INVERTIBLE: return invertible(F, A); default: return true; }
}
// value for an argument; now and then close to an earlier argument of the same shape
static inline Mat gen_value(Ctx &c, const Field &F, const Arg &a, const std::vector<Arg> *all = nullptr) {
  const Mat *other = nullptr; if (all && a.need != INVERTIBLE && c.chance(1, 6)) for (auto &b : *all) { if (&b == &a) break; if (b.m == a.m && b.n == a.n && b.val.m == a.m && b.val.n == a.n) other = &b.val; }
  if (a.role == OUT) return gen_garbage(c, F, a.m, a.n);
  if (a.need == INVERTIBLE) return gen_invertible(c, F, a.m);
  Mat A = other ? near(c, F, *other) : a.role == INOUT && c.flip() ? gen_ranked(c, F, a.m, a.n) : gen_mat(c, F, a.m, a.n);
  if (a.need != ANY) set_tri(A, F, a.need == TRI_UP, c.seed64());
  return A;
}
// op kinds
enum K { ADD, COPY, MUL, ADDMUL, SCALE, SADDMUL, ROWS, ECH, PLE, TRSM, PERM, INV, CAT, STACK, SUB, CONV, SET, ELEM, NJT, READ, NK };

// a bilinear map for products over f, kept with the field and used by later steps again
static inline std::shared_ptr<blm_t> make_map(Ctx &c, const FF &f) {
  int *p; if (c.flip()) p = crt_init(f.e, f.e); else { p = (int *)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int)); p[f.e] = 1; }
  blm_t *b = blm_init_crt(f.ff, f.e, f.e, p, c.flip()); m4ri_mm_free(p); return std::shared_ptr<blm_t>(b, blm_free);
}
static inline OpP gen_op(Ctx &c, const FF &f, const std::vector<int> &weights, const std::function<int(bool)> &dim) {
  auto o = std::make_shared<Op>(); Op *q = o.get(); const Field *F = f.F; const FF *ff = &f;
  int tot = 0; for (int x : weights) tot += x; int v = (int)c.n(tot), kind = 0; while (v >= weights[kind]) v -= weights[kind], kind++;
  bool sl = c.flip();
  std::string pre = sl ? "mzd_slice_" : "mzed_";
  switch (kind) {
  case ADD: { int m = dim(false), n = dim(true); q->arg(sl, OUT, m, n, ANY, false, true); q->arg(sl, IN, m, n); q->arg(sl, IN, m, n); q->name = pre + "add"; q->alias = true;
    q->prepare = [q](Ctx &) { q->want = {add(q->a[1].val, q->a[2].val), q->a[1].val, q->a[2].val}; };
    q->run = [](Op &o) { if (o.a[0].sl) o.a[0].v.s = mzd_slice_add(o.a[0].v.s, o.a[1].v.s, o.a[2].v.s); else o.a[0].v.p = mzed_add(o.a[0].v.p, o.a[1].v.p, o.a[2].v.p); }; break; }
  case COPY: { int m = dim(false), n = dim(true); q->arg(sl, OUT, m, n, ANY, false, true); q->arg(sl, IN, m, n); q->name = pre + "copy"; q->alias = true;
    q->prepare = [q](Ctx &) { q->want = {q->a[1].val, q->a[1].val}; };
    q->run = [](Op &o) { if (o.a[0].sl) o.a[0].v.s = mzd_slice_copy(o.a[0].v.s, o.a[1].v.s); else o.a[0].v.p = mzed_copy(o.a[0].v.p, o.a[1].v.p); }; break; }
  case MUL: case ADDMUL: { bool acc = kind == ADDMUL; int m = dim(false), k = dim(true), n = dim(true); q->arg(sl, acc ? INOUT : OUT, m, n, ANY, false, !acc); q->arg(sl, IN, m, k); q->arg(sl, IN, k, n);
    int alg = sl ? c.pick({3, 3, 2, 2}) : c.pick({4, 2, 3, 3, 3, 2}); int cut = c.flip() ? 0 : 64 + 64 * c.range(0, 1);
    static const char *pn[] = {"", "_naive", "_newton_john", "_strassen", "_karatsuba", "_blm"}, *sn[] = {"", "_karatsuba", "_naive", "_blm"};
    q->name = pre + (acc ? "addmul" : "mul") + (sl ? sn[alg] : pn[alg]);
    q->prepare = [q, F, acc](Ctx &) { Mat P = mul(*F, q->a[1].val, q->a[2].val); q->want = {acc ? add(q->a[0].val, P) : P, q->a[1].val, q->a[2].val}; };
    std::shared_ptr<blm_t> map; if (sl && alg == 3 && c.flip()) { auto &m = f.maps; if (m.size() < 2 && (m.empty() || c.flip())) m.push_back(make_map(c, f)); map = m[c.n(m.size())]; q->name += " given map"; }
    q->run = [acc, alg, cut, map](Op &o) {
      if (o.a[0].sl) { mzd_slice_t *&C = o.a[0].v.s, *A = o.a[1].v.s, *B = o.a[2].v.s;
        switch (alg) {
        case 0: C = acc ? mzd_slice_addmul(C, A, B) : mzd_slice_mul(C, A, B); break; case 1: C = acc ? mzd_slice_addmul_karatsuba(C, A, B) : mzd_slice_mul_karatsuba(C, A, B); break;
        case 2: if (!acc && C) mzd_slice_set_ui(C, 0); C = _mzd_slice_addmul_naive(C, A, B); break; default: C = acc ? mzd_slice_addmul_blm(C, A, B, map.get()) : mzd_slice_mul_blm(C, A, B, map.get());
        }
      } else { mzed_t *&C = o.a[0].v.p, *A = o.a[1].v.p, *B = o.a[2].v.p;
        switch (alg) {
        case 0: C = acc ? mzed_addmul(C, A, B) : mzed_mul(C, A, B); break; case 1: C = acc ? mzed_addmul_naive(C, A, B) : mzed_mul_naive(C, A, B); break;
        case 2: C = acc ? mzed_addmul_newton_john(C, A, B) : mzed_mul_newton_john(C, A, B); break; case 3: C = acc ? mzed_addmul_strassen(C, A, B, cut) : mzed_mul_strassen(C, A, B, cut); break;
        case 4: C = acc ? mzed_addmul_karatsuba(C, A, B) : mzed_mul_karatsuba(C, A, B); break; default: C = acc ? mzed_addmul_blm(C, A, B) : mzed_mul_blm(C, A, B);
        } } }; break; }
  case SCALE: { int m = dim(false), n = dim(true); uint16_t x = gen_elem(c, *F); q->arg(sl, OUT, m, n, ANY, false, true); q->arg(sl, IN, m, n); q->name = pre + "mul_scalar"; q->alias = !sl;
    q->prepare = [q, F, x](Ctx &) { q->want = {scale(*F, x, q->a[1].val), q->a[1].val}; };
    q->run = [x](Op &o) { if (o.a[0].sl) o.a[0].v.s = mzd_slice_mul_scalar(o.a[0].v.s, x, o.a[1].v.s); else o.a[0].v.p = mzed_mul_scalar(o.a[0].v.p, x, o.a[1].v.p); }; break; }
  case SADDMUL: { int m = dim(false), n = dim(true); uint16_t x = gen_elem(c, *F); q->arg(true, INOUT, m, n); q->arg(true, IN, m, n); q->name = "mzd_slice_addmul_scalar";
    q->prepare = [q, F, x](Ctx &) { q->want = {add(q->a[0].val, scale(*F, x, q->a[1].val)), q->a[1].val}; };
    q->run = [x](Op &o) { mzd_slice_addmul_scalar(o.a[0].v.s, x, o.a[1].v.s); }; break; }
  case ROWS: { int m = dim(false), n = dim(true), m2 = dim(false), r = c.n(m), s = c.n(n), t = c.n(m), u2 = c.n(n), r2 = c.n(m2); uint16_t x = gen_elem(c, *F); int w = sl ? c.pick({2, 2, 2, 2, 2, 2}) : c.pick({2, 2, 2, 2, 2, 2, 3, 2, 2});
    static const char *nm[] = {"row_swap", "col_swap", "col_swap_in_rows", "rescale_row", "copy_row", "row_add", "add_multiple_of_row", "add_row", "add_multiple_of_own_row"}; q->name = pre + nm[w];
    if (w == 5 && r == t) { if (m > 1) t = (r + 1) % m; else w = 0, q->name = pre + nm[0]; } // m4ri clears junk bits when a row is added to itself
    q->arg(sl, INOUT, m, n); if (w == 4 || w == 6 || w == 7) q->arg(sl, IN, m2, n);
    int e0 = std::min(r, t), e1 = std::max(r, t);
    q->prepare = [=](Ctx &) { Mat W = q->a[0].val; Mat O = W; q->want.clear();
      switch (w) {
      case 0: swap_rows(W, r, t); break; case 1: swap_cols(W, s, u2, 0, m); break; case 2: swap_cols(W, s, u2, e0, e1); break; case 3: for (int j = s; j < n; j++) W.at(r, j) = F->mul(x, W.at(r, j)); break;
      case 4: for (int j = 0; j < n; j++) W.at(r, j) = q->a[1].val.at(r2, j); break; case 5: row_addmul(*F, W, t, O, r, 1); break; case 6: row_addmul(*F, W, r, q->a[1].val, r2, x, s); break;
      case 7: row_addmul(*F, W, r, q->a[1].val, r2, 1, s); break; default: row_addmul(*F, W, r, O, t, x, s);
      }
      q->want.push_back(W); if (q->a.size() > 1) q->want.push_back(q->a[1].val); };
    q->run = [=](Op &o) {
      if (sl) { auto A = o.a[0].v.s; switch (w) { case 0: mzd_slice_row_swap(A, r, t); break; case 1: mzd_slice_col_swap(A, s, u2); break; case 2: mzd_slice_col_swap_in_rows(A, s, u2, e0, e1); break; case 3: mzd_slice_rescale_row(A, r, s, x); break;
        case 4: mzd_slice_copy_row(A, r, o.a[1].v.s, r2); break; default: mzd_slice_row_add(A, r, t); } }
      else { auto A = o.a[0].v.p; switch (w) { case 0: mzed_row_swap(A, r, t); break; case 1: mzed_col_swap(A, s, u2); break; case 2: mzed_col_swap_in_rows(A, s, u2, e0, e1); break; case 3: mzed_rescale_row(A, r, s, x); break;
        case 4: mzed_copy_row(A, r, o.a[1].v.p, r2); break; case 5: mzed_row_add(A, r, t); break; case 6: mzed_add_multiple_of_row(A, r, o.a[1].v.p, r2, x, s); break; case 7: mzed_add_row(A, r, o.a[1].v.p, r2, s); break;
        default: mzed_add_multiple_of_row(A, r, A, t, x, s); } } }; break; }
  case ECH: { int m = dim(false), n = dim(true), full = c.chance(2, 3), op = sl ? (int)SL_ECH : c.pick({3, 2, 4, 3}); q->arg(sl, INOUT, m, n); q->name = std::string(ech_name[op]) + (full ? " full" : "");
    q->prepare = [=](Ctx &) { Mat W = q->a[0].val; auto piv = rref(*F, W); q->want = {W}; q->exact = full; };
    q->run = [=](Op &o) { o.ret = {sl ? mzd_slice_echelonize_ple(o.a[0].v.s, full) : run_ech_p(op, o.a[0].v.p, full)}; };
    q->check = [=](Op &o, const std::vector<Mat> &got) { Mat E = got[0]; auto piv = check_ref(E, o.ret[0], o.name.c_str()); rref(*F, E); expect_eq(E, o.want[0], "reduced form of the result"); }; break; }
  case PLE: { int m = dim(false), n = dim(true), op = sl ? (int)SL_PLE + c.pick({2, 5, 2, 5}) : c.pick({2, 3, 2, 4}), cut = gen_ple_cutoff(c); q->arg(sl, INOUT, m, n); q->name = ple_name[op]; q->exact = false;
    q->prepare = [=](Ctx &) { q->want = {q->a[0].val}; };
    q->run = [=](Op &o) { mzp_t *P = mzp_init(m), *Q = mzp_init(n); rci_t r; mzed_t *A = o.a[0].v.p; mzd_slice_t *S = o.a[0].v.s;
      switch (op) { case PLE_NAIVE: r = mzed_ple_naive(A, P, Q); break; case PLE_NJ: r = mzed_ple_newton_john(A, P, Q); break; case PLE_DEF: r = mzed_ple(A, P, Q); break; case PLE_CUT: r = _mzed_ple(A, P, Q, cut); break;
        case SL_PLE: r = mzd_slice_ple(S, P, Q); break; case SL_PLE_CUT: r = _mzd_slice_ple(S, P, Q, cut); break; case SL_PLUQ: r = mzd_slice_pluq(S, P, Q); break; default: r = _mzd_slice_pluq(S, P, Q, cut); }
      o.ret = {r}; for (int i = 0; i < m; i++) o.ret.push_back(P->values[i]); for (int i = 0; i < n; i++) o.ret.push_back(Q->values[i]); mzp_free(P); mzp_free(Q); };
    q->check = [=](Op &o, const std::vector<Mat> &got) { int r = o.ret[0]; const Mat &R = got[0]; const char *w = o.name.c_str(); Mat PA = o.want[0], L, E; CHECK(r >= 0 && r <= std::min(m, n), "%s: rank %d", w, r);
      for (int i = 0; i < m; i++) { CHECK(o.ret[1 + i] >= i && o.ret[1 + i] < m, "%s: P[%d]", w, i); swap_rows(PA, i, o.ret[1 + i]); }
      const long *qv = &o.ret[1 + m]; for (int i = 0; i < n; i++) CHECK(qv[i] >= (i < r ? i : 0) && qv[i] < n, "%s: Q[%d]", w, i);
      L = Mat(m, r); E = Mat(r, n); for (int j = 0; j < r; j++) for (int i = j; i < m; i++) L.at(i, j) = R.at(i, j);
      if (op >= SL_PLUQ) { for (int i = 0; i < r; i++) { E.at(i, i) = 1; for (int j = i + 1; j < n; j++) E.at(i, j) = R.at(i, j); } for (int i = n - 1; i >= 0; i--) swap_cols(E, i, qv[i], 0, r); }
      else for (int i = 0; i < r; i++) { E.at(i, qv[i]) = 1; for (int j = qv[i] + 1; j < n; j++) E.at(i, j) = R.at(i, j); }
      expect_eq(mul(*F, L, E), PA, w); }; break; }
  case TRSM: { int m = dim(false), n = dim(true); bool up = c.flip(); int alg = c.pick({2, 3, 3, 2}), cut = 64; static const char *nm[] = {"_naive", "_newton_john", "", " default"};
    q->arg(sl, INOUT, m, n); q->arg(sl, IN, m, m, up ? TRI_UP : TRI_LOW); q->name = pre + "trsm_" + (up ? "upper" : "lower") + "_left" + nm[alg];
    q->prepare = [=](Ctx &) { // substitution on the plain arrays
      Mat X = q->a[0].val; const Mat &T = q->a[1].val;
      for (int t = 0; t < m; t++) { int i = up ? m - 1 - t : t; for (int k = up ? i + 1 : 0; k < (up ? m : i); k++) row_addmul(*F, X, i, X, k, T.at(i, k)); uint16_t iv = F->inv(T.at(i, i)); for (int j = 0; j < n; j++) X.at(i, j) = F->mul(iv, X.at(i, j)); }
      q->want = {X, T}; };
    q->run = [=](Op &o) {
      if (sl) { auto T = o.a[1].v.s, B = o.a[0].v.s; switch (alg) { case 0: (up ? mzd_slice_trsm_upper_left_naive : mzd_slice_trsm_lower_left_naive)(T, B); break; case 1: (up ? mzd_slice_trsm_upper_left_newton_john : mzd_slice_trsm_lower_left_newton_john)(T, B); break;
        case 2: (up ? _mzd_slice_trsm_upper_left : _mzd_slice_trsm_lower_left)(T, B, cut); break; default: (up ? mzd_slice_trsm_upper_left : mzd_slice_trsm_lower_left)(T, B); } }
      else { auto T = o.a[1].v.p, B = o.a[0].v.p; switch (alg) { case 0: (up ? mzed_trsm_upper_left_naive : mzed_trsm_lower_left_naive)(T, B); break; case 1: (up ? mzed_trsm_upper_left_newton_john : mzed_trsm_lower_left_newton_john)(T, B); break;
        case 2: (up ? _mzed_trsm_upper_left : _mzed_trsm_lower_left)(T, B, cut); break; default: (up ? mzed_trsm_upper_left : mzed_trsm_lower_left)(T, B); } } }; break; }
  case PERM: { int m = dim(false), n = dim(true), w = c.n(4); bool left = w < 2, tr = w & 1; int len = left ? m : n; auto p = std::make_shared<std::vector<int>>(len); pbt::Rng g(c.seed64()); for (int i = 0; i < len; i++) (*p)[i] = i + g.below(len - i);
    q->arg(sl, INOUT, m, n); q->name = pre + "apply_p_" + (left ? "left" : "right") + (tr ? "_trans" : "");
    q->prepare = [=](Ctx &) { Mat W = q->a[0].val; bool fwd = left ? !tr : tr; for (int k = 0; k < len; k++) { int i = fwd ? k : len - 1 - k; if (left) swap_rows(W, i, (*p)[i]); else swap_cols(W, i, (*p)[i], 0, m); } q->want = {W}; };
    q->run = [=](Op &o) { mzp_t *P = mzp_init(len); for (int i = 0; i < len; i++) P->values[i] = (*p)[i];
      if (sl) { auto A = o.a[0].v.s; if (left) (tr ? mzd_slice_apply_p_left_trans : mzd_slice_apply_p_left)(A, P); else (tr ? mzd_slice_apply_p_right_trans : mzd_slice_apply_p_right)(A, P); }
      else { auto A = o.a[0].v.p; if (left) (tr ? mzed_apply_p_left_trans : mzed_apply_p_left)(A, P); else (tr ? mzed_apply_p_right_trans : mzed_apply_p_right)(A, P); }
      mzp_free(P); }; break; }
  case INV: { int n = dim(true); q->arg(false, OUT, n, n, ANY, true, true); q->arg(false, IN, n, n, INVERTIBLE, true); q->name = "mzed_invert_newton_john";
    q->prepare = [=](Ctx &) { Mat T = concat(q->a[1].val, identity(n)); rref(*F, T); q->want = {model::sub(T, 0, n, n, 2 * n), q->a[1].val}; };
    q->run = [](Op &o) { o.a[0].v.p = mzed_invert_newton_john(o.a[0].v.p, o.a[1].v.p); }; break; }
  case CAT: { int m = dim(false), n = dim(true), n2 = dim(true); q->arg(sl, OUT, m, n + n2, ANY, true, true); q->arg(sl, IN, m, n, ANY, true); q->arg(sl, IN, m, n2, ANY, true); q->name = pre + "concat";
    q->prepare = [q](Ctx &) { q->want = {concat(q->a[1].val, q->a[2].val), q->a[1].val, q->a[2].val}; };
    q->run = [](Op &o) { if (o.a[0].sl) o.a[0].v.s = mzd_slice_concat(o.a[0].v.s, o.a[1].v.s, o.a[2].v.s); else o.a[0].v.p = mzed_concat(o.a[0].v.p, o.a[1].v.p, o.a[2].v.p); }; break; }
  case STACK: { int m = dim(false), n = dim(true), m2 = dim(false); q->arg(sl, OUT, m + m2, n, ANY, true, true); q->arg(sl, IN, m, n, ANY, true); q->arg(sl, IN, m2, n, ANY, true); q->name = pre + "stack";
    q->prepare = [q](Ctx &) { q->want = {model::stack(q->a[1].val, q->a[2].val), q->a[1].val, q->a[2].val}; };
    q->run = [](Op &o) { if (o.a[0].sl) o.a[0].v.s = mzd_slice_stack(o.a[0].v.s, o.a[1].v.s, o.a[2].v.s); else o.a[0].v.p = mzed_stack(o.a[0].v.p, o.a[1].v.p, o.a[2].v.p); }; break; }
  case SUB: { int m = dim(false), n = dim(true), r0 = c.n(m), r1 = r0 + 1 + c.n(m - r0), c0 = c.n(n), c1 = c0 + 1 + c.n(n - c0); q->arg(sl, OUT, r1 - r0, c1 - c0, ANY, true, true); q->arg(sl, IN, m, n); q->name = pre + "submatrix";
    q->prepare = [=](Ctx &) { q->want = {model::sub(q->a[1].val, r0, c0, r1, c1), q->a[1].val}; };
    q->run = [=](Op &o) { if (o.a[0].sl) o.a[0].v.s = mzd_slice_submatrix(o.a[0].v.s, o.a[1].v.s, r0, c0, r1, c1); else o.a[0].v.p = mzed_submatrix(o.a[0].v.p, o.a[1].v.p, r0, c0, r1, c1); }; break; }
  case CONV: { int m = dim(false), n = dim(true); q->arg(sl, OUT, m, n, ANY, false, true); q->arg(!sl, IN, m, n); q->name = sl ? "mzed_slice" : "mzed_cling";
    q->prepare = [q](Ctx &) { q->want = {q->a[1].val, q->a[1].val}; };
    q->run = [](Op &o) { if (o.a[0].sl) o.a[0].v.s = mzed_slice(o.a[0].v.s, o.a[1].v.p); else o.a[0].v.p = mzed_cling(o.a[0].v.p, o.a[1].v.s); }; break; }
  case SET: { int m = dim(false), n = dim(true); uint16_t x = gen_elem(c, *F); q->arg(sl, OUT, m, n); q->name = pre + "set_ui";
    q->prepare = [=](Ctx &) { Mat W(m, n); for (int i = 0; i < std::min(m, n); i++) W.at(i, i) = x; q->want = {W}; };
    q->run = [x](Op &o) { if (o.a[0].sl) mzd_slice_set_ui(o.a[0].v.s, x); else mzed_set_ui(o.a[0].v.p, x); }; break; }
  case ELEM: { int m = dim(false), n = dim(true), i = c.n(m), j = c.n(n), k = c.n(m), l = c.n(n); uint16_t x = gen_elem(c, *F), y = gen_elem(c, *F); q->arg(sl, INOUT, m, n); q->name = pre + "write_elem/add_elem/read_elem";
    q->prepare = [=](Ctx &) { Mat W = q->a[0].val; W.at(i, j) = x; W.at(k, l) ^= y; q->want = {W}; };
    q->run = [=](Op &o) { if (o.a[0].sl) { mzd_slice_write_elem(o.a[0].v.s, i, j, x); mzd_slice_add_elem(o.a[0].v.s, k, l, y); o.ret = {(long)mzd_slice_read_elem(o.a[0].v.s, k, l)}; } else { mzed_write_elem(o.a[0].v.p, i, j, x); mzed_add_elem(o.a[0].v.p, k, l, y); o.ret = {(long)mzed_read_elem(o.a[0].v.p, k, l)}; } };
    q->check = [=](Op &o, const std::vector<Mat> &got) { CHECK(o.ret[0] == got[0].at(k, l), "%s: read 0x%lx at (%d,%d), stored 0x%x", o.name.c_str(), o.ret[0], k, l, got[0].at(k, l)); }; break; }
  case NJT: { int m = dim(false), n = dim(true); if (f.e > 12) n = std::min(n, 20); int k = std::min(n, c.range(1, std::min(6, 64 / f.w))), col = c.range(0, n - k), r0 = c.range(0, m), r1 = c.range(r0, m); auto tr = std::make_shared<std::vector<int>>(k); for (auto &x : *tr) x = c.n(m);
    q->arg(false, INOUT, m, n); q->name = "make_table, process_rows" + std::to_string(k);
    q->prepare = [=](Ctx &) { Mat W = q->a[0].val; for (int i = 0; i < k; i++) for (int r = r0; r < r1; r++) row_addmul(*F, W, r, q->a[0].val, (*tr)[i], q->a[0].val.at(r, col + i), col + i); q->want = {W}; };
    q->run = [=](Op &o) { mzed_t *A = o.a[0].v.p; njt_mzed_t *T[6]; for (int i = 0; i < k; i++) T[i] = mzed_make_table(nullptr, A, (*tr)[i], col + i);
      switch (k) { case 1: mzed_process_rows(A, r0, r1, col, T[0]); break; case 2: mzed_process_rows2(A, r0, r1, col, T[0], T[1]); break; case 3: mzed_process_rows3(A, r0, r1, col, T[0], T[1], T[2]); break;
        case 4: mzed_process_rows4(A, r0, r1, col, T[0], T[1], T[2], T[3]); break; case 5: mzed_process_rows5(A, r0, r1, col, T[0], T[1], T[2], T[3], T[4]); break; default: mzed_process_rows6(A, r0, r1, col, T[0], T[1], T[2], T[3], T[4], T[5]); }
      for (int i = 0; i < k; i++) njt_mzed_free(T[i]); }; break; }
  default: { int m = dim(false), n = dim(true); q->arg(sl, IN, m, n); q->arg(sl, IN, m, n); q->name = pre + "cmp/is_zero" + (sl ? "" : "/first_zero_row");
    q->prepare = [q](Ctx &) { q->want = {q->a[0].val, q->a[1].val}; };
    q->run = [](Op &o) { if (o.a[0].sl) o.ret = {mzd_slice_cmp(o.a[0].v.s, o.a[1].v.s) == 0, !!mzd_slice_is_zero(o.a[0].v.s)}; else o.ret = {mzed_cmp(o.a[0].v.p, o.a[1].v.p) == 0, !!mzed_is_zero(o.a[0].v.p), mzed_first_zero_row(o.a[0].v.p)}; };
    q->check = [](Op &o, const std::vector<Mat> &got) { CHECK(o.ret[0] == (long)(got[0] == got[1]), "%s: comparison gives %ld", o.name.c_str(), o.ret[0]); CHECK(o.ret[1] == (long)got[0].zero(), "%s: zero test gives %ld", o.name.c_str(), o.ret[1]);
      if (o.ret.size() > 2) { int i = 0; for (; i < got[0].m; i++) { bool z = true; for (int j = 0; j < got[0].n; j++) z &= !got[0].at(i, j); if (z) break; } CHECK(o.ret[2] == i, "%s: first zero row %ld, expected %d", o.name.c_str(), o.ret[2], i); } }; break; }
  }
  (void)ff; return o;
}
static const std::vector<int> all_kinds = {3, 2, 5, 5, 2, 1, 5, 6, 6, 5, 3, 2, 1, 1, 2, 3, 1, 1, 3, 2};

// rare large operands: every second time a scalar multiple big enough for its table-driven path
struct Big { bool on = false, scalar = false; std::vector<int> w; };
static inline Big gen_big(Ctx &c, int one_in) {
  Big b; b.on = c.chance(1, one_in); if (!b.on) return b; b.scalar = c.chance(1, 3); c.cls("large operands"); b.w.assign(NK, 0);
  if (b.scalar) b.w[SCALE] = 1; else { b.w[ADD] = b.w[COPY] = b.w[SADDMUL] = b.w[PERM] = b.w[CONV] = b.w[READ] = b.w[ROWS] = 1; b.w[MUL] = b.w[ADDMUL] = 4; b.w[ECH] = b.w[PLE] = 4; b.w[TRSM] = 5; b.w[INV] = 1; }
  return b;
}
static inline int big_dim(Ctx &c, const Big &b) { return b.scalar ? c.range(363, 420) : c.flip() ? c.range(60, 150) : c.range(100, 260); }

// compares values read after run() with the specification
static inline void verify(Op &o, const std::vector<Mat> &got) {
  for (size_t i = 0; i < o.a.size(); i++) if (o.exact || o.a[i].role == IN) expect_eq(got[i], o.want[i], (o.name + (i ? " (operand)" : "")).c_str());
  if (o.check) o.check(o, got);
}
} // namespace ops
