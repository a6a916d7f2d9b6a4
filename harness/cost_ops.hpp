#pragma once
// the operations whose work (L01) and space (L02) is measured; the includer defines count(f), which runs f and returns the measure
namespace {
struct Job { const FF *f; int m, n, k; uint64_t seed; uint16_t x; int style; };
Mat rnd(const Job &j, int m, int n, int salt) {
  Mat A(m, n); pbt::Rng g(j.seed + salt); uint16_t k = j.f->F->mask();
  switch (j.style) {
  case 0: fill_random(A, *j.f->F, j.seed + salt); break;
  case 1: A.at(m - 1, n - 1) = 1 + g.below(k); break;                       // one element, the last
  case 2: for (int q = 0; q < n; q++) A.at(m - 1, q) = g.next() & k; break; // the last row only
  case 3: for (int i = 0; i < m; i++) A.at(i, n - 1) = g.next() & k; break; // the last column only
  case 4: for (int i = 0; i < std::min(m, n); i++) A.at(i, i) = 1; break;
  default: break;                                                          // zero
  }
  return A;
}
PM P(const Job &j, int m, int n, int salt) { return PM(*j.f, rnd(j, m, n, salt)); }
SM S(const Job &j, int m, int n, int salt) { return SM(*j.f, rnd(j, m, n, salt)); }
Mat tri(const Job &j, int m, bool up) { Mat A = rnd(j, m, m, 7); for (int r = 0; r < m; r++) for (int q = 0; q < m; q++) { if (r == q) A.at(r, r) = 1 + (A.at(r, r) % (j.f->F->order - 1)); else if ((r < q) != up) A.at(r, q) = 0; } return A; }
struct Op { const char *name; int lin; int maxe; std::function<uint64_t(const Job &)> run; int weight; }; // lin: 1 rows, 2 columns, 4 inner dimension
typedef const Job &J;
#define OPP(NAME, CALL) {NAME, 3, 16, [](J j) { PM A = P(j, j.m, j.n, 1), B = P(j, j.m, j.n, 2), C = P(j, j.m, j.n, 3); mzed_t *a = A.v, *b = B.v, *c = C.v; uint16_t x = j.x; (void)a; (void)b; (void)c; (void)x; return count([&] { CALL; }); }, 2}
#define OPS(NAME, CALL) {NAME, 3, 16, [](J j) { SM A = S(j, j.m, j.n, 1), B = S(j, j.m, j.n, 2), C = S(j, j.m, j.n, 3); mzd_slice_t *a = A.v, *b = B.v, *c = C.v; uint16_t x = j.x; (void)a; (void)b; (void)c; (void)x; return count([&] { CALL; }); }, 2}
#define PERM(NAME, LIN, MAT, LEN, CALL) {NAME, LIN, 16, [](J j) { MAT A(*j.f, rnd(j, j.m, j.n, 1)); mzp_t *p = mzp_init(j.LEN); pbt::Rng g(j.seed); for (int i = 0; i < j.LEN; i++) p->values[i] = i + g.below(j.LEN - i); uint64_t w = count([&] { CALL(A.v, p); }); mzp_free(p); return w; }, 1}
#define ECH(NAME, MAT, CALL) {NAME, 1, 16, [](J j) { MAT A(*j.f, rnd(j, j.m, j.k, 1)); return count([&] { sink = CALL; }); }, 2}
#define PLE(NAME, MAT, CALL) {NAME, 1, 16, [](J j) { MAT A(*j.f, rnd(j, j.m, j.k, 1)); mzp_t *p = mzp_init(j.m), *q = mzp_init(j.k); uint64_t w = count([&] { sink = CALL; }); mzp_free(p); mzp_free(q); return w; }, 2}
#define TRSM(NAME, MAT, MAXE, UP, CALL) {NAME, 2, MAXE, [](J j) { MAT U(*j.f, tri(j, j.k, UP)), B(*j.f, rnd(j, j.k, j.n, 2)); return count([&] { CALL(U.v, B.v); }); }, 1}
// operands large enough in every dimension (100 more) for two levels of recursion
#define REC(NAME, MAT, CALL) {NAME " (recursive)", 7, 8, [](J j) { MAT A(*j.f, rnd(j, j.m + 100, j.k + 100, 1)), B(*j.f, rnd(j, j.k + 100, j.n + 100, 2)), C(*j.f, rnd(j, j.m + 100, j.n + 100, 3)); auto a = A.v, b = B.v, c = C.v; return count([&] { CALL; }); }, 1}
#define MUL(NAME, LIN, MAT, CALL) {NAME, LIN, 16, [](J j) { MAT A(*j.f, rnd(j, j.m, j.k, 1)), B(*j.f, rnd(j, j.k, j.n, 2)), C(*j.f, rnd(j, j.m, j.n, 3)); auto a = A.v, b = B.v, c = C.v; return count([&] { CALL; }); }, 1}
volatile long sink;
const std::vector<Op> &ops() {
  static const std::vector<Op> v = {
    {"mzed_slice", 3, 16, [](J j) { PM A = P(j, j.m, j.n, 1); mzd_slice_t *r = nullptr; uint64_t w = count([&] { r = mzed_slice(nullptr, A.v); }); mzd_slice_free(r); return w; }, 6},
    {"mzed_cling", 3, 16, [](J j) { SM A = S(j, j.m, j.n, 1); mzed_t *r = nullptr; uint64_t w = count([&] { r = mzed_cling(nullptr, A.v); }); mzed_free(r); return w; }, 6},
    {"mzed_slice into a matrix", 3, 16, [](J j) { PM A = P(j, j.m, j.n, 1); SM B = S(j, j.m, j.n, 2); return count([&] { mzed_slice(B.v, A.v); }); }, 3},
    {"mzed_cling into a matrix", 3, 16, [](J j) { SM A = S(j, j.m, j.n, 1); PM B = P(j, j.m, j.n, 2); return count([&] { mzed_cling(B.v, A.v); }); }, 3},
    OPP("mzed_add", mzed_add(c, a, b)), OPP("mzed_copy", mzed_copy(c, a)), OPP("mzed_randomize", mzed_randomize(c)), OPP("mzed_set_ui", mzed_set_ui(c, x)),
    OPP("mzed_mul_scalar", mzed_mul_scalar(c, x, b)), OPP("mzed_cmp", mzed_copy(c, a); sink = mzed_cmp(a, c)), OPP("mzed_is_zero", mzed_set_ui(c, 0); sink = mzed_is_zero(c)),
    OPS("mzd_slice_add", mzd_slice_add(c, a, b)), OPS("mzd_slice_copy", mzd_slice_copy(c, a)), OPS("mzd_slice_randomize", mzd_slice_randomize(c)), OPS("mzd_slice_set_ui", mzd_slice_set_ui(c, x)),
    OPS("mzd_slice_mul_scalar", mzd_slice_mul_scalar(c, x, b)), OPS("mzd_slice_addmul_scalar", mzd_slice_addmul_scalar(c, x, b)), OPS("mzd_slice_cmp", mzd_slice_copy(c, a); sink = mzd_slice_cmp(a, c)),
    OPS("mzd_slice_is_zero", mzd_slice_set_ui(c, 0); sink = mzd_slice_is_zero(c)),
    OPP("mzed_concat", mzed_t *r = mzed_concat(nullptr, a, b); mzed_free(r)), OPP("mzed_stack", mzed_t *r = mzed_stack(nullptr, a, b); mzed_free(r)),
    OPP("mzed_submatrix", mzed_t *r = mzed_submatrix(nullptr, a, a->nrows / 4, a->ncols / 4, a->nrows, a->ncols); mzed_free(r)),
    OPS("mzd_slice_concat", mzd_slice_t *r = mzd_slice_concat(nullptr, a, b); mzd_slice_free(r)), OPS("mzd_slice_stack", mzd_slice_t *r = mzd_slice_stack(nullptr, a, b); mzd_slice_free(r)),
    OPS("mzd_slice_submatrix", mzd_slice_t *r = mzd_slice_submatrix(nullptr, a, a->nrows / 4, a->ncols / 4, a->nrows, a->ncols); mzd_slice_free(r)),
    OPP("mzed_row_swap", mzed_row_swap(a, 0, a->nrows - 1)), OPP("mzed_col_swap", mzed_col_swap(a, 0, a->ncols - 1)), OPP("mzed_rescale_row", mzed_rescale_row(a, 1, 0, x)),
    OPP("mzed_add_multiple_of_row", mzed_add_multiple_of_row(a, 0, b, 1, x, 0)), OPP("mzed_add_row", mzed_add_row(a, 0, b, 1, 0)), OPP("mzed_copy_row", mzed_copy_row(a, 0, b, 1)), OPP("mzed_row_add", mzed_row_add(a, 0, 1)),
    OPS("mzd_slice_row_swap", mzd_slice_row_swap(a, 0, a->nrows - 1)), OPS("mzd_slice_rescale_row", mzd_slice_rescale_row(a, 1, 0, x)), OPS("mzd_slice_col_swap", mzd_slice_col_swap(a, 0, a->ncols - 1)),
    {"mzed_apply_p_left", 3, 16, [](J j) { PM A = P(j, j.m, j.n, 1); mzp_t *p = mzp_init(j.m); pbt::Rng g(j.seed); for (int i = 0; i < j.m; i++) p->values[i] = i + g.below(j.m - i); uint64_t w = count([&] { mzed_apply_p_left(A.v, p); }); mzp_free(p); return w; }, 1},
    {"mzd_slice_apply_p_left", 3, 16, [](J j) { SM A = S(j, j.m, j.n, 1); mzp_t *p = mzp_init(j.m); pbt::Rng g(j.seed); for (int i = 0; i < j.m; i++) p->values[i] = i + g.below(j.m - i); uint64_t w = count([&] { mzd_slice_apply_p_left(A.v, p); }); mzp_free(p); return w; }, 1},
    {"mzed_apply_p_right", 3, 16, [](J j) { PM A = P(j, j.m, j.n, 1); mzp_t *p = mzp_init(j.n); pbt::Rng g(j.seed); for (int i = 0; i < j.n; i++) p->values[i] = i + g.below(j.n - i); uint64_t w = count([&] { mzed_apply_p_right(A.v, p); }); mzp_free(p); return w; }, 1},
    {"mzed_process_rows", 1, 10, [](J j) { PM A = P(j, j.m, j.n, 1); njt_mzed_t *T = mzed_make_table(nullptr, A.v, 0, 0); uint64_t w = count([&] { mzed_process_rows(A.v, 1, j.m, 0, T); }); njt_mzed_free(T); return w; }, 3},
    {"mzed_make_table", 2, 12, [](J j) { PM A = P(j, 2, j.n, 1); njt_mzed_t *T = njt_mzed_init(j.f->ff, j.n); uint64_t w = count([&] { mzed_make_table(T, A.v, 0, 0); }); njt_mzed_free(T); return w; }, 3},
    {"mzed_mul_naive", 7, 16, [](J j) { PM A = P(j, j.m, j.k, 1), B = P(j, j.k, j.n, 2), C = P(j, j.m, j.n, 3); return count([&] { mzed_mul_naive(C.v, A.v, B.v); }); }, 4},
    {"mzed_mul_newton_john", 7, 10, [](J j) { PM A = P(j, j.m, j.k, 1), B = P(j, j.k, j.n, 2), C = P(j, j.m, j.n, 3); return count([&] { mzed_mul_newton_john(C.v, A.v, B.v); }); }, 6},
    {"mzed_echelonize_naive", 1, 16, [](J j) { PM A = P(j, j.m, j.k, 1); return count([&] { mzed_echelonize_naive(A.v, j.x & 1); }); }, 4},
    {"mzed_echelonize_newton_john", 1, 10, [](J j) { PM A = P(j, j.m, j.k, 1); return count([&] { mzed_echelonize_newton_john(A.v, j.x & 1); }); }, 4},
    {"mzed_echelonize_newton_john (wide)", 2, 10, [](J j) { PM A = P(j, j.k, j.n, 1); return count([&] { mzed_echelonize_newton_john(A.v, j.x & 1); }); }, 2},
    {"mzed_echelonize_ple", 1, 16, [](J j) { PM A = P(j, j.m, j.k, 1); return count([&] { mzed_echelonize_ple(A.v, j.x & 1); }); }, 4},
    {"mzed_ple_naive", 1, 16, [](J j) { PM A = P(j, j.m, j.k, 1); mzp_t *p = mzp_init(j.m), *q = mzp_init(j.k); uint64_t w = count([&] { mzed_ple_naive(A.v, p, q); }); mzp_free(p); mzp_free(q); return w; }, 3},
    {"mzed_ple_newton_john", 1, 10, [](J j) { PM A = P(j, j.m, j.k, 1); mzp_t *p = mzp_init(j.m), *q = mzp_init(j.k); uint64_t w = count([&] { mzed_ple_newton_john(A.v, p, q); }); mzp_free(p); mzp_free(q); return w; }, 3},
    {"mzed_trsm_upper_left_naive", 2, 16, [](J j) { PM U(*j.f, tri(j, j.k, true)); PM B = P(j, j.k, j.n, 2); return count([&] { mzed_trsm_upper_left_naive(U.v, B.v); }); }, 2},
    {"mzed_trsm_lower_left_naive", 2, 16, [](J j) { PM U(*j.f, tri(j, j.k, false)); PM B = P(j, j.k, j.n, 2); return count([&] { mzed_trsm_lower_left_naive(U.v, B.v); }); }, 2},
    {"mzed_trsm_upper_left_newton_john", 2, 8, [](J j) { PM U(*j.f, tri(j, j.k, true)); PM B = P(j, j.k, j.n, 2); return count([&] { mzed_trsm_upper_left_newton_john(U.v, B.v); }); }, 2},
    {"mzed_trsm_lower_left_newton_john", 2, 8, [](J j) { PM U(*j.f, tri(j, j.k, false)); PM B = P(j, j.k, j.n, 2); return count([&] { mzed_trsm_lower_left_newton_john(U.v, B.v); }); }, 2},
    {"mzd_slice_trsm_upper_left_naive", 2, 16, [](J j) { SM U(*j.f, tri(j, j.k, true)); SM B = S(j, j.k, j.n, 2); return count([&] { mzd_slice_trsm_upper_left_naive(U.v, B.v); }); }, 1},
    {"mzd_slice_trsm_lower_left_naive", 2, 16, [](J j) { SM U(*j.f, tri(j, j.k, false)); SM B = S(j, j.k, j.n, 2); return count([&] { mzd_slice_trsm_lower_left_naive(U.v, B.v); }); }, 1},
    {"mzd_slice_ple", 1, 16, [](J j) { SM A = S(j, j.m, j.k, 1); mzp_t *p = mzp_init(j.m), *q = mzp_init(j.k); uint64_t w = count([&] { mzd_slice_ple(A.v, p, q); }); mzp_free(p); mzp_free(q); return w; }, 2},
    {"mzd_slice_mul", 3, 16, [](J j) { SM A = S(j, j.m, j.k, 1), B = S(j, j.k, j.n, 2), C = S(j, j.m, j.n, 3); return count([&] { mzd_slice_mul(C.v, A.v, B.v); }); }, 1},
    PERM("mzed_apply_p_left_trans", 3, PM, m, mzed_apply_p_left_trans), PERM("mzd_slice_apply_p_left_trans", 3, SM, m, mzd_slice_apply_p_left_trans), PERM("mzed_apply_p_right_trans", 3, PM, n, mzed_apply_p_right_trans),
    PERM("mzd_slice_apply_p_right", 3, SM, n, mzd_slice_apply_p_right), PERM("mzd_slice_apply_p_right_trans", 3, SM, n, mzd_slice_apply_p_right_trans),
    MUL("mzed_mul", 7, PM, mzed_mul(c, a, b)), MUL("mzed_addmul", 7, PM, mzed_addmul(c, a, b)), MUL("mzed_addmul_newton_john", 3, PM, mzed_addmul_newton_john(c, a, b)), MUL("mzed_mul_strassen", 7, PM, mzed_mul_strassen(c, a, b, 128)),
    MUL("mzed_mul_karatsuba", 7, PM, mzed_mul_karatsuba(c, a, b)), MUL("mzed_addmul_karatsuba", 7, PM, mzed_addmul_karatsuba(c, a, b)),
    MUL("mzd_slice_addmul", 7, SM, mzd_slice_addmul(c, a, b)), MUL("mzd_slice_mul_karatsuba", 7, SM, mzd_slice_mul_karatsuba(c, a, b)), MUL("_mzd_slice_addmul_naive", 7, SM, _mzd_slice_addmul_naive(c, a, b)),
    {"mzd_slice_mul_blm", 7, 12, [](J j) { SM A = S(j, j.m, j.k, 1), B = S(j, j.k, j.n, 2), C = S(j, j.m, j.n, 3); int *p = crt_init(j.f->e, j.f->e); blm_t *l = blm_init_crt(j.f->ff, j.f->e, j.f->e, p, j.x & 1); uint64_t w = count([&] { mzd_slice_mul_blm(C.v, A.v, B.v, l); }); blm_free(l); m4ri_mm_free(p); return w; }, 1},
    REC("mzed_mul_strassen", PM, mzed_mul_strassen(c, a, b, 64)), REC("mzed_addmul_strassen", PM, mzed_addmul_strassen(c, a, b, 64)),
    ECH("mzed_echelonize", PM, mzed_echelonize(A.v, j.x & 1)), ECH("mzd_slice_echelonize_ple", SM, mzd_slice_echelonize_ple(A.v, j.x & 1)),
    PLE("mzed_ple", PM, mzed_ple(A.v, p, q)), PLE("mzd_slice_pluq", SM, mzd_slice_pluq(A.v, p, q)), PLE("_mzd_slice_ple", SM, _mzd_slice_ple(A.v, p, q, 64)),
    TRSM("mzed_trsm_upper_left", PM, 16, true, mzed_trsm_upper_left), TRSM("mzed_trsm_lower_left", PM, 16, false, mzed_trsm_lower_left), TRSM("mzd_slice_trsm_upper_left", SM, 16, true, mzd_slice_trsm_upper_left), TRSM("mzd_slice_trsm_lower_left", SM, 16, false, mzd_slice_trsm_lower_left),
    TRSM("mzd_slice_trsm_upper_left_newton_john", SM, 8, true, mzd_slice_trsm_upper_left_newton_john), TRSM("mzd_slice_trsm_lower_left_newton_john", SM, 8, false, mzd_slice_trsm_lower_left_newton_john),
    OPP("mzed_first_zero_row", mzed_set_ui(c, 0); sink = mzed_first_zero_row(a)), OPS("mzd_slice_row_add", mzd_slice_row_add(a, 0, 1)), OPS("mzd_slice_copy_row", mzd_slice_copy_row(a, 0, b, 1)),
    OPP("mzed_col_swap_in_rows", mzed_col_swap_in_rows(a, 0, a->ncols - 1, 0, a->nrows)), OPS("mzd_slice_col_swap_in_rows", mzd_slice_col_swap_in_rows(a, 0, a->ncols - 1, 0, a->nrows)),
  };
  return v;
}
}
