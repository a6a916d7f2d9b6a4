#include "bridge.hpp"
using namespace model;

static mzd_slice_t *slice_w(mzd_slice_t *A, const mzed_t *Z) { switch (Z->w) { case 2: return _mzed_slice2(A, Z); case 4: return _mzed_slice4(A, Z); case 8: return _mzed_slice8(A, Z); default: return _mzed_slice16(A, Z); } }
static mzed_t *cling_w(mzed_t *A, const mzd_slice_t *Z) { switch (A->w) { case 2: return _mzed_cling2(A, Z); case 4: return _mzed_cling4(A, Z); case 8: return _mzed_cling8(A, Z); default: return _mzed_cling16(A, Z); } }

PROPERTY(C01, 100000, 600000,
  "Matrix of random field, shape (1..24 rows, 1..5 words of columns, favouring word boundaries of either representation), content and layout converted packed->sliced, sliced->packed, both ways in a row, and through the width-specific "
  "routines into a zeroed matrix; destination fresh or supplied with arbitrary old content; compared entrywise with the plain array. Non-trivial: at least two columns and a non-zero matrix.") {
  FF f = gen_field(c); const Field &F = *f.F;
  int op = c.n(6);
  int m = gen_rows(c, 24, 8, 50), n = gen_cols(c, c.flip() ? 330 : 80, 64 / f.w, m); tie(c, n, m);
  static const char *nm[] = {"slice", "cling", "slice+cling", "cling+slice", "slice width routine", "cling width routine"};
  c.d << nm[op]; c.cls(nm[op]);
  Mat A = gen_mat(c, F, m, n); c.nontrivial(n >= 2 && !A.zero());
  switch (op) {
  case 0: { PM X = in_p(c, f, A); out_s(c, f, A, [&](mzd_slice_t *C) { return mzed_slice(C, X.v); }, "mzed_slice"); X.unchanged("mzed_slice"); break; }
  case 1: { SM X = in_s(c, f, A); out_p(c, f, A, [&](mzed_t *C) { return mzed_cling(C, X.v); }, "mzed_cling"); X.unchanged("mzed_cling"); break; }
  case 2: { PM X = in_p(c, f, A); SM S = SM::own(mzed_slice(NULL, X.v), &F); PM Y = PM::own(mzed_cling(NULL, S.v), &F);
    CHECK(mzed_cmp(X.v, Y.v) == 0, "slice then cling differs from the start by mzed_cmp"); expect_eq(Y.get(), A, "slice then cling"); X.unchanged("mzed_slice");
    mzed_slice(S.v, Y.v); expect_eq(S.get(), A, "mzed_slice into the same slices again"); mzed_cling(Y.v, S.v); expect_eq(Y.get(), A, "mzed_cling into the same matrix again"); break; }
  case 3: { SM X = in_s(c, f, A); PM P = PM::own(mzed_cling(NULL, X.v), &F); SM Y = SM::own(mzed_slice(NULL, P.v), &F);
    CHECK(mzd_slice_cmp(X.v, Y.v) == 0, "cling then slice differs from the start by mzd_slice_cmp"); expect_eq(Y.get(), A, "cling then slice"); X.unchanged("mzed_cling"); break; }
  case 4: { PM X = in_p(c, f, A); SM Y(f, Mat(m, n), gen_layout(c, 1)); CHECK(slice_w(Y.v, X.v) == Y.v, "result not returned"); expect_eq(Y.get(), A, "_mzed_slice<w>"); Y.outside_unchanged("_mzed_slice<w>"); X.unchanged("_mzed_slice<w>"); break; }
  case 5: { SM X = in_s(c, f, A); PM Y(f, Mat(m, n), gen_layout(c, f.w)); CHECK(cling_w(Y.v, X.v) == Y.v, "result not returned"); expect_eq(Y.get(), A, "_mzed_cling<w>"); Y.outside_unchanged("_mzed_cling<w>"); X.unchanged("_mzed_cling<w>"); break; }
  }
}
