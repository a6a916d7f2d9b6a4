#include "bridge.hpp"
using namespace model;

namespace {
// what repeated randomisation does to each bit of each entry: neither stuck, nor tied to another bit
struct Drawn {
  std::vector<uint16_t> one, zero; std::vector<std::pair<size_t, uint64_t>> h; int m, n, e;
  Drawn(int m, int n, int e, uint64_t seed) : one((size_t)m * n), zero((size_t)m * n), m(m), n(n), e(e) {
    pbt::Rng g(seed); if (one.size() <= 256) for (size_t i = 0; i < one.size(); i++) h.push_back({i, 0}); else for (int k = 0; k < 256; k++) h.push_back({g.next() % one.size(), 0});
    std::sort(h.begin(), h.end()); h.erase(std::unique(h.begin(), h.end()), h.end()); size_t k = h.size(); for (int b = 1; b < e; b++) for (size_t i = 0; i < k; i++) h.push_back({h[i].first, 0}); // bit b of the entry: h[b * k + i]
  }
  void add(const Mat &R) {
    for (size_t i = 0; i < R.a.size(); i++) one[i] |= R.a[i], zero[i] |= ~R.a[i];
    size_t k = h.size() / e; for (size_t i = 0; i < h.size(); i++) h[i].second = h[i].second << 1 | (R.a[h[i].first] >> (i / k) & 1);
  }
  void judge(int draws, uint16_t mask, const char *w) {
    for (size_t k = 0; k < one.size(); k++) { CHECK((one[k] & mask) == mask, "%s never sets bits 0x%x of entry (%d,%d)", w, mask & ~one[k], (int)(k / n), (int)(k % n)); CHECK((zero[k] & mask) == mask, "%s never clears bits 0x%x of entry (%d,%d)", w, mask & ~zero[k], (int)(k / n), (int)(k % n)); }
    std::vector<uint64_t> v; for (auto &x : h) v.push_back(x.second); std::sort(v.begin(), v.end()); size_t dup = v.size() - (std::unique(v.begin(), v.end()) - v.begin());
    CHECK(dup <= 2, "%s: %zu of %zu bits have always agreed with another one", w, dup, v.size());
    int k = h.size() / e, dep = 0, at = 0; // the bits of one entry (and the constant one) are linearly independent, else some elements are never drawn
    for (int i = 0; i < k; i++) {
      std::vector<uint64_t> x(1, draws == 64 ? ~0ull : (1ull << draws) - 1); for (int b = 0; b < e; b++) { uint64_t y = h[(size_t)b * k + i].second; for (uint64_t z : x) y = std::min(y, y ^ z); if (!y) { dep++; at = h[i].first; break; } x.push_back(y); }
    }
    CHECK(dep <= (draws < 60), "%s: the bits of %d of %d entries are linearly dependent, (%d,%d) for example", w, dep, k, at / n, at % n);
  }
};
}
PROPERTY(E01, 60000, 240000,
  "One of 12 operation groups on packed matrices of random field, shape (dimensions favour the neighbourhood of word boundaries), content and memory layout (plain, junk after the last column, view), "
  "compared entry by entry with plain arrays; reads are checked against raw words. Non-trivial: at least two columns and a non-zero operand.") {
  FF f = gen_field(c); const Field &F = *f.F; int u = 64 / f.w;
  int op = c.n(12);
  int m = gen_rows(c, 20, 8), n = gen_cols(c, 5 * u + 3, u, m); tie(c, n, m);
  static const char *nm[] = {"init", "write", "add_elem", "read", "copy", "set_ui", "cmp", "concat", "stack", "submatrix", "add", "randomize"};
  c.d << nm[op]; c.cls(nm[op]);
  Mat A = gen_mat(c, F, m, n); c.nontrivial(n >= 2 && !A.zero());
  switch (op) {
  case 0: { mzed_t *x = mzed_init(f.ff, m, n); PM R = PM::own(x, &F); c.d << " " << m << "x" << n; check_shape(x, f, m, n, "mzed_init"); CHECK(R.get().zero(), "mzed_init: not zero");
    for (int i = 0; i < m; i++) for (int q = 0; q < x->x->width; q++) CHECK(x->x->rows[i][q] == 0, "mzed_init: word not zero"); CHECK(mzed_is_zero(x), "mzed_is_zero of a fresh matrix"); break; }
  case 1: { PM X = in_p(c, f, A); int k = c.range(1, 12); Mat W = A;
    for (int t = 0; t < k; t++) { int i = c.n(m), j = c.n(n); uint16_t v = gen_elem(c, F); mzed_write_elem(X.v, i, j, v); W.at(i, j) = v; if (t < 3) c.d << " (" << i << "," << j << ")=" << v; }
    expect_eq(X.get(), W, "mzed_write_elem"); X.outside_unchanged("mzed_write_elem"); break; }
  case 2: { PM X = in_p(c, f, A); int k = c.range(1, 12); Mat W = A;
    for (int t = 0; t < k; t++) { int i = c.n(m), j = c.n(n); uint16_t v = gen_elem(c, F); mzed_add_elem(X.v, i, j, v); W.at(i, j) ^= v; }
    expect_eq(X.get(), W, "mzed_add_elem"); X.outside_unchanged("mzed_add_elem"); break; }
  case 3: { PM X = in_p(c, f, A); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { word v = mzed_read_elem(X.v, i, j); CHECK(v == A.at(i, j), "mzed_read_elem(%d,%d)=0x%llx, stored 0x%x", i, j, (unsigned long long)v, A.at(i, j)); }
    CHECK(!!mzed_is_zero(X.v) == A.zero(), "mzed_is_zero gives %d", mzed_is_zero(X.v)); X.unchanged("mzed_read_elem"); break; }
  case 4: { PM X = in_p(c, f, A); out_p(c, f, A, [&](mzed_t *C) { return mzed_copy(C, X.v); }, "mzed_copy"); X.unchanged("mzed_copy");
    if (c.chance(1, 8)) { CHECK(mzed_copy(X.v, X.v) == X.v, "mzed_copy onto itself"); X.unchanged("mzed_copy onto itself"); } break; }
  case 5: { PM X = in_p(c, f, A); uint16_t v = gen_elem(c, F); mzed_set_ui(X.v, v); Mat W(m, n); for (int i = 0; i < std::min(m, n); i++) W.at(i, i) = v; c.d << " value " << v;
    expect_eq(X.get(), W, "mzed_set_ui"); X.outside_unchanged("mzed_set_ui"); break; }
  case 6: { Mat B = A; int k = c.pick({2, 4, 1}); if (k == 1) { int i = c.n(m), j = c.n(n); uint16_t dlt = 1 + c.n(F.order - 1); B.at(i, j) ^= dlt; } else if (k == 2) B = gen_mate(c, F, A);
    PM X = in_p(c, f, A), Y = in_p(c, f, B); int r1 = mzed_cmp(X.v, Y.v), r2 = mzed_cmp(Y.v, X.v);
    CHECK((r1 == 0) == (A == B), "mzed_cmp gives %d for %s matrices", r1, A == B ? "equal" : "different"); CHECK(r1 == -r2, "mzed_cmp is not antisymmetric: %d and %d", r1, r2);
    CHECK(mzed_cmp(X.v, X.v) == 0, "mzed_cmp(A,A)"); X.unchanged("mzed_cmp"); Y.unchanged("mzed_cmp"); break; }
  case 7: { bool sq = c.chance(1, 6); int n2 = sq ? n : gen_dim(c, 1, 5 * u + 3, u); Mat B = sq ? gen_mate(c, F, A) : gen_mat(c, F, m, n2); PM X = in_p(c, f, A, true, false), Y = in_p(c, f, B, true, false);
    out_p(c, f, concat(A, B), [&](mzed_t *C) { return mzed_concat(C, X.v, Y.v); }, "mzed_concat", true, false); X.unchanged("mzed_concat"); Y.unchanged("mzed_concat"); break; }
  case 8: { bool sq = c.chance(1, 6); int m2 = sq ? m : gen_dim(c, 1, 20, 8); Mat B = sq ? gen_mate(c, F, A) : gen_mat(c, F, m2, n); PM X = in_p(c, f, A, true, false), Y = in_p(c, f, B, true, false);
    out_p(c, f, stack(A, B), [&](mzed_t *C) { return mzed_stack(C, X.v, Y.v); }, "mzed_stack", true, false); X.unchanged("mzed_stack"); Y.unchanged("mzed_stack"); break; }
  case 9: { PM X = in_p(c, f, A); int r0 = c.n(m), r1 = r0 + 1 + c.n(m - r0), c0 = c.n(n), c1; if (c.flip()) c0 -= c0 % u; c1 = c0 + 1 + c.n(n - c0); c.d << " [" << r0 << "," << r1 << ")x[" << c0 << "," << c1 << ")";
    out_p(c, f, sub(A, r0, c0, r1, c1), [&](mzed_t *C) { return mzed_submatrix(C, X.v, r0, c0, r1, c1); }, "mzed_submatrix", true, false); X.unchanged("mzed_submatrix"); break; }
  case 10: { Mat B = gen_mate(c, F, A); int al = c.pick({6, 1, 1, 1}); bool un = c.flip(); auto fn = un ? _mzed_add : mzed_add; // in-place forms are allowed
    PM X = in_p(c, f, A), Y = in_p(c, f, B); Mat W = add(A, B);
    if (al == 0) { out_p(c, f, W, [&](mzed_t *C) { return fn(C, X.v, Y.v); }, "mzed_add", !un); X.unchanged("mzed_add"); Y.unchanged("mzed_add"); }
    else if (al == 1) { fn(X.v, X.v, Y.v); expect_eq(X.get(), W, "mzed_add(A,A,B)"); X.outside_unchanged("mzed_add"); Y.unchanged("mzed_add"); c.cls("aliased"); }
    else if (al == 2) { fn(Y.v, X.v, Y.v); expect_eq(Y.get(), W, "mzed_add(B,A,B)"); Y.outside_unchanged("mzed_add"); X.unchanged("mzed_add"); c.cls("aliased"); }
    else { fn(X.v, X.v, X.v); CHECK(X.get().zero(), "A+A is not zero"); X.outside_unchanged("mzed_add"); c.cls("aliased"); } break; }
  case 11: { PM X = in_p(c, f, A); Drawn seen(m, n, f.e, m * 1000 + n); int reps = (size_t)m * n > 200000 ? 40 : 60;
    for (int t = 0; t < reps; t++) { mzed_randomize(X.v); Mat R = X.get(); for (auto v : R.a) CHECK(v < F.order, "mzed_randomize produced 0x%x", v); seen.add(R); }
    seen.judge(reps, F.mask(), "mzed_randomize");
    X.outside_unchanged("mzed_randomize"); break; }
  }
}

PROPERTY(E02, 60000, 240000,
  "As E01 for bit-sliced matrices (13 operation groups, including depth adaptation and copying between slices). Non-trivial: at least two columns and a non-zero operand.") {
  FF f = gen_field(c); const Field &F = *f.F;
  int op = c.n(13);
  int m = gen_rows(c, 20, 8), n = gen_cols(c, 200, 64, m); tie(c, n, m);
  static const char *nm[] = {"init", "write", "add_elem", "read", "copy", "set_ui", "cmp", "concat", "stack", "submatrix", "add", "randomize", "adapt depth"};
  c.d << nm[op]; c.cls(nm[op]);
  Mat A = gen_mat(c, F, m, n); c.nontrivial(n >= 2 && !A.zero());
  switch (op) {
  case 0: { mzd_slice_t *x = mzd_slice_init(f.ff, m, n); SM R = SM::own(x, &F); c.d << " " << m << "x" << n; check_shape(x, f, m, n, "mzd_slice_init"); CHECK(R.get().zero(), "mzd_slice_init: not zero"); CHECK(mzd_slice_is_zero(x), "mzd_slice_is_zero of a fresh matrix"); break; }
  case 1: { SM X = in_s(c, f, A); int k = c.range(1, 12); Mat W = A;
    for (int t = 0; t < k; t++) { int i = c.n(m), j = c.n(n); uint16_t v = gen_elem(c, F); mzd_slice_write_elem(X.v, i, j, v); W.at(i, j) = v; if (t < 3) c.d << " (" << i << "," << j << ")=" << v; }
    expect_eq(X.get(), W, "mzd_slice_write_elem"); X.outside_unchanged("mzd_slice_write_elem"); break; }
  case 2: { SM X = in_s(c, f, A); int k = c.range(1, 12); Mat W = A;
    for (int t = 0; t < k; t++) { int i = c.n(m), j = c.n(n); uint16_t v = gen_elem(c, F); mzd_slice_add_elem(X.v, i, j, v); W.at(i, j) ^= v; }
    expect_eq(X.get(), W, "mzd_slice_add_elem"); X.outside_unchanged("mzd_slice_add_elem"); break; }
  case 3: { SM X = in_s(c, f, A); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { word v = mzd_slice_read_elem(X.v, i, j); CHECK(v == A.at(i, j), "mzd_slice_read_elem(%d,%d)=0x%llx, stored 0x%x", i, j, (unsigned long long)v, A.at(i, j)); }
    CHECK(!!mzd_slice_is_zero(X.v) == A.zero(), "mzd_slice_is_zero gives %d", mzd_slice_is_zero(X.v)); X.unchanged("mzd_slice_read_elem"); break; }
  case 4: { SM X = in_s(c, f, A); out_s(c, f, A, [&](mzd_slice_t *C) { return mzd_slice_copy(C, X.v); }, "mzd_slice_copy"); X.unchanged("mzd_slice_copy"); break; }
  case 5: { SM X = in_s(c, f, A); uint16_t v = gen_elem(c, F); mzd_slice_set_ui(X.v, v); Mat W(m, n); for (int i = 0; i < std::min(m, n); i++) W.at(i, i) = v; c.d << " value " << v;
    expect_eq(X.get(), W, "mzd_slice_set_ui"); X.outside_unchanged("mzd_slice_set_ui"); break; }
  case 6: { Mat B = A; int k = c.pick({2, 4, 1}); if (k == 1) { int i = c.n(m), j = c.n(n); uint16_t dlt = 1 + c.n(F.order - 1); B.at(i, j) ^= dlt; } else if (k == 2) B = gen_mate(c, F, A);
    SM X = in_s(c, f, A), Y = in_s(c, f, B); int r1 = mzd_slice_cmp(X.v, Y.v), r2 = mzd_slice_cmp(Y.v, X.v);
    CHECK((r1 == 0) == (A == B) && (r2 == 0) == (A == B), "mzd_slice_cmp gives %d for %s matrices", r1, A == B ? "equal" : "different");
    CHECK(mzd_slice_cmp(X.v, X.v) == 0, "mzd_slice_cmp(A,A)"); X.unchanged("mzd_slice_cmp"); Y.unchanged("mzd_slice_cmp"); break; }
  case 7: { bool sq = c.chance(1, 6); int n2 = sq ? n : gen_dim(c, 1, 200, 64); Mat B = sq ? gen_mate(c, F, A) : gen_mat(c, F, m, n2); SM X = in_s(c, f, A, true, false), Y = in_s(c, f, B, true, false);
    out_s(c, f, concat(A, B), [&](mzd_slice_t *C) { return mzd_slice_concat(C, X.v, Y.v); }, "mzd_slice_concat", true, false); X.unchanged("mzd_slice_concat"); Y.unchanged("mzd_slice_concat"); break; }
  case 8: { bool sq = c.chance(1, 6); int m2 = sq ? m : gen_dim(c, 1, 20, 8); Mat B = sq ? gen_mate(c, F, A) : gen_mat(c, F, m2, n); SM X = in_s(c, f, A, true, false), Y = in_s(c, f, B, true, false);
    out_s(c, f, stack(A, B), [&](mzd_slice_t *C) { return mzd_slice_stack(C, X.v, Y.v); }, "mzd_slice_stack", true, false); X.unchanged("mzd_slice_stack"); Y.unchanged("mzd_slice_stack"); break; }
  case 9: { SM X = in_s(c, f, A); int r0 = c.n(m), r1 = r0 + 1 + c.n(m - r0), c0 = c.n(n), c1; if (c.flip()) c0 -= c0 % 64; c1 = c0 + 1 + c.n(n - c0); c.d << " [" << r0 << "," << r1 << ")x[" << c0 << "," << c1 << ")";
    out_s(c, f, sub(A, r0, c0, r1, c1), [&](mzd_slice_t *C) { return mzd_slice_submatrix(C, X.v, r0, c0, r1, c1); }, "mzd_slice_submatrix", true, false); X.unchanged("mzd_slice_submatrix"); break; }
  case 10: { Mat B = gen_mate(c, F, A); int al = c.pick({6, 1, 1, 1}); bool un = c.flip();
    auto fn = [&](mzd_slice_t *C, mzd_slice_t *P, mzd_slice_t *Q) { return un ? _mzd_slice_add(C, P, Q) : mzd_slice_add(C, P, Q); };
    SM X = in_s(c, f, A), Y = in_s(c, f, B); Mat W = add(A, B);
    if (al == 0) { out_s(c, f, W, [&](mzd_slice_t *C) { return fn(C, X.v, Y.v); }, "mzd_slice_add", !un); X.unchanged("mzd_slice_add"); Y.unchanged("mzd_slice_add"); }
    else if (al == 1) { fn(X.v, X.v, Y.v); expect_eq(X.get(), W, "mzd_slice_add(A,A,B)"); X.outside_unchanged("mzd_slice_add"); Y.unchanged("mzd_slice_add"); c.cls("aliased"); }
    else if (al == 2) { fn(Y.v, X.v, Y.v); expect_eq(Y.get(), W, "mzd_slice_add(B,A,B)"); Y.outside_unchanged("mzd_slice_add"); X.unchanged("mzd_slice_add"); c.cls("aliased"); }
    else { fn(X.v, X.v, X.v); CHECK(X.get().zero(), "A+A is not zero"); X.outside_unchanged("mzd_slice_add"); c.cls("aliased"); } break; }
  case 11: { SM X = in_s(c, f, A); Drawn seen(m, n, f.e, m * 1000 + n); int reps = (size_t)m * n > 200000 ? 40 : 60;
    for (int t = 0; t < reps; t++) { mzd_slice_randomize(X.v); seen.add(X.get()); }
    seen.judge(reps, F.mask(), "mzd_slice_randomize");
    X.outside_unchanged("mzd_slice_randomize"); break; }
  case 12: { SM X = in_s(c, f, A, false); if (f.e == 16) break; int d = c.range(f.e, 16); c.d << " to " << d;
    CHECK(_mzd_slice_adapt_depth(X.v, d) == X.v && (int)X.v->depth == d, "_mzd_slice_adapt_depth: depth %d, wanted %d", X.v->depth, d);
    for (int i = 0; i < d; i++) CHECK(X.v->x[i] && X.v->x[i]->nrows == m && X.v->x[i]->ncols == n, "slice %d missing after extension", i);
    for (int i = f.e; i < d; i++) for (int r = 0; r < m; r++) for (int q = 0; q < X.v->x[i]->width; q++) CHECK(X.v->x[i]->rows[r][q] == 0, "new slice %d not zero", i);
    expect_eq(X.get(), A, "extended"); int d2 = c.range(f.e, 16); _mzd_slice_adapt_depth(X.v, d2); CHECK((int)X.v->depth == d2, "depth"); _mzd_slice_adapt_depth(X.v, f.e); CHECK((int)X.v->depth == f.e, "depth"); expect_eq(X.get(), A, "shrunk"); break; }
  }
}
