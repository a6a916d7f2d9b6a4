// Builds m4rie objects from model matrices, reads them back from raw words, snapshots memory.
#pragma once
#include "model.hpp"
#include "pbt.hpp"
#include <memory>
#include <malloc.h>
#include <math.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <limits.h>
#include <assert.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <ctype.h>
#include <inttypes.h>
#include <m4ri/m4ri.h>
#include <m4ri/djb.h>
// the library's headers are C: names that are keywords only in C++ are allowed there
#define new m4rie_c_new
#define class m4rie_c_class
#define this m4rie_c_this
#define delete m4rie_c_delete
#define template m4rie_c_template
#define typename m4rie_c_typename
#define namespace m4rie_c_namespace
#define operator m4rie_c_operator
#define private m4rie_c_private
#define public m4rie_c_public
#define protected m4rie_c_protected
#define try m4rie_c_try
#define catch m4rie_c_catch
#define throw m4rie_c_throw
#define virtual m4rie_c_virtual
#define friend m4rie_c_friend
#define explicit m4rie_c_explicit
#define mutable m4rie_c_mutable
#define using m4rie_c_using
#define export m4rie_c_export
#define _Bool m4rie_c_bool
typedef bool m4rie_c_bool;
#define _Static_assert static_assert
#include <m4rie/m4rie.h>
#undef new
#undef class
#undef this
#undef delete
#undef template
#undef typename
#undef namespace
#undef operator
#undef private
#undef public
#undef protected
#undef try
#undef catch
#undef throw
#undef virtual
#undef friend
#undef explicit
#undef mutable
#undef using
#undef export
#undef _Bool
#undef _Static_assert

using model::Field;
using model::Mat;
using pbt::Ctx;
using pbt::fail;
typedef std::shared_ptr<void> Keep;

namespace br {

// ---------- fields ----------
struct FF {
  const Field *F = nullptr; gf2e *ff = nullptr; int e = 0, w = 0;
  uint32_t poly = 0; std::shared_ptr<const Field> hold; mutable std::vector<std::shared_ptr<blm_t>> maps;
  FF() {}
  explicit FF(uint32_t p) : hold(model::field_for(p)) { F = hold.get(); ff = gf2e_init(p); e = model::degree(p); w = F->w; poly = p; }
  FF(const FF &) = delete; FF &operator=(const FF &) = delete;
  FF(FF &&o) { *this = std::move(o); }
  FF &operator=(FF &&o) { std::swap(F, o.F); std::swap(ff, o.ff); std::swap(e, o.e); std::swap(w, o.w); std::swap(poly, o.poly); hold.swap(o.hold); maps.swap(o.maps); return *this; }
  ~FF() { maps.clear(); if (ff) gf2e_free(ff); }
};

static const int warm_reg = (pbt::warmups().push_back([] { for (int d = 1; d <= 16; d++) model::irreducibles(d); }), 0);

// degree: lo..hi, every degree about equally likely; polynomial: any irreducible one
static inline uint32_t gen_poly(Ctx &c, int lo = 2, int hi = 16) {
  int e = c.range(lo, hi);
  auto &irr = model::irreducibles(e);
  // mostly few distinct polynomials for the large degrees: the model's tables for them are cached
  uint32_t p;
  switch (c.pick({3, 1, 5, 1})) {
  case 0: p = irr[0]; break;
  case 1: p = irr[irr.size() - 1]; break;
  case 2: p = irr.size() > 64 ? irr[(c.n(64) * irr.size()) / 64] : irr[c.n(irr.size())]; break;
  default: p = irr[c.n(irr.size())];
  }
  return p;
}
static inline FF gen_field(Ctx &c, int lo = 2, int hi = 16) {
  FF f(gen_poly(c, lo, hi));
  c.d << "GF(2^" << f.e << ")/0x" << std::hex << f.poly << std::dec << " ";
  c.cls("degree " + std::to_string(f.e));
  return f;
}

// ---------- shapes ----------
// dimension in [lo,max]; favours tiny values and neighbourhoods of multiples of `unit` and 64
static inline int gen_dim(Ctx &c, int lo, int max, int unit) {
  if (max <= lo) return lo;
  int v = lo;
  switch (c.pick({4, 4, 3, 2})) {
  case 0: v = c.range(lo, std::min(max, lo + 6)); break;
  case 1: v = c.range(lo, max); break;
  case 2: v = unit * c.range(1, std::max(1, max / unit)) + c.range(0, 2) - 1; break;
  default: v = 64 * c.range(1, std::max(1, max / 64)) + c.range(0, 2) - 1; break;
  }
  return v < lo ? lo : v > max ? max : v;
}

// row and column counts: now and then far beyond the usual range, rarely beyond 2^16 (the other dimension being small then)
static inline int gen_rows(Ctx &c, int max, int unit, int den = 150) {
  if (c.chance(1, 1500)) { c.cls("more than 2^15 rows"); return c.flip() ? c.range(32000, 140000) : 65536 + c.range(0, 4) - 2; }
  return c.chance(1, den) ? c.cls("many rows"), c.range(100, 1500) : gen_dim(c, 1, max, unit);
}
static inline int gen_cols(Ctx &c, int max, int unit, int m = 1000) {
  if (m >= 30000) return c.flip() ? c.range(1, 4) : std::min(6, unit + c.range(0, 2) - 1) + 1;
  if (m <= 6 && c.chance(1, 500)) { c.cls("more than 2^15 columns"); return c.flip() ? c.range(32000, 140000) : 65536 + c.range(0, 4) - 2; }
  return c.chance(1, 150) ? c.cls("many columns"), c.range(200, 2600) : gen_dim(c, 1, max, unit);
}

// now and then one dimension is the other one, or nearly so
static inline void tie(Ctx &c, int a, int &b, int den = 8) { if (a < 20000 && b < 20000 && c.chance(1, den)) b = std::max(1, a + c.range(0, 4) - 2), c.cls("nearly equal dimensions"); }

// ---------- contents ----------
static inline uint16_t gen_elem(Ctx &c, const Field &F) {
  switch (c.pick({1, 1, 1, 5})) {
  case 0: return 0; case 1: return 1; case 2: return F.order - 1; default: return (uint16_t)c.n(F.order);
  }
}
static inline void fill_random(Mat &A, const Field &F, uint64_t seed, int num = 1, int den = 1) {
  pbt::Rng r(seed);
  for (auto &x : A.a) { uint64_t v = r.next(); x = (den <= num || (int)((v >> 32) % den) < num) ? (uint16_t)(v & F.mask()) : 0; }
}
static inline Mat gen_mat(Ctx &c, const Field &F, int m, int n) {
  Mat A(m, n);
  if (!m || !n) return A;
  if (m * n <= 30 && c.chance(2, 3)) { for (auto &x : A.a) x = gen_elem(c, F); return A; }
  switch (c.pick({2, 8, 3, 2, 2, 2, 2, 1, 2, 2})) {
  case 0: break; // zero
  case 1: fill_random(A, F, c.seed64()); break;
  case 2: fill_random(A, F, c.seed64(), 1, 1 + c.range(1, 20)); break;
  case 3: { int k = c.range(1, 4); for (int i = 0; i < k; i++) { int r = c.n(m), q = c.n(n); A.at(r, q) = gen_elem(c, F); } break; }
  case 4: { uint16_t v = gen_elem(c, F); for (auto &x : A.a) x = v; break; }
  case 5: { // rank one / repeated rows
    Mat u(m, 1), v(1, n); fill_random(u, F, c.seed64()); fill_random(v, F, c.seed64()); A = model::mul(F, u, v); break; }
  case 6: { uint16_t v = gen_elem(c, F); for (int i = 0; i < std::min(m, n); i++) A.at(i, i) = v; break; }
  case 7: { pbt::Rng r(c.seed64()); for (auto &x : A.a) x = r.next() & 1; break; }
  case 8: { uint16_t mk = (uint16_t)c.n(F.order); fill_random(A, F, c.seed64()); for (auto &x : A.a) x &= mk; break; } // some bit positions zero everywhere
  default: { // some rows, columns and runs of columns zero
    pbt::Rng r(c.seed64()); fill_random(A, F, r.next()); int zr = r.below(3), zc = r.below(3), run = r.below(2), b = 1 << r.below(7);
    for (int i = 0; i < m; i++) if (r.below(3) < zr) for (int j = 0; j < n; j++) A.at(i, j) = 0;
    for (int j = 0; j < n; j++) if (r.below(3) < zc) for (int i = 0; i < m; i++) A.at(i, j) = 0;
    if (run) for (int j = 0; j < n; j += b) if (r.below(2)) for (int i = 0; i < m; i++) for (int q = j; q < std::min(n, j + b); q++) A.at(i, q) = 0;
    break; }
  }
  return A;
}
// a second matrix of A's shape: usually independent, sometimes equal to A or close to it (few entries changed, some bit positions cleared, a multiple)
static inline Mat near(Ctx &c, const Field &F, const Mat &A) {
  Mat B = A; if (!A.m || !A.n) return B;
  switch (c.pick({1, 4, 2, 1, 1})) {
  case 0: break;
  case 1: { int k = c.range(1, 4); for (int t = 0; t < k; t++) { int i = c.n(A.m), j = c.n(A.n); B.at(i, j) = gen_elem(c, F); } break; }
  case 2: { uint16_t mk = (uint16_t)c.n(F.order); for (auto &x : B.a) x &= mk; break; }
  case 3: { uint16_t v = gen_elem(c, F); B = model::scale(F, v, A); break; }
  default: { int i = c.n(A.m), j = c.n(A.m); for (int q = 0; q < A.n; q++) B.at(i, q) = A.at(j, q); break; }
  }
  return B;
}
static inline Mat gen_mate(Ctx &c, const Field &F, const Mat &A) { return c.chance(1, 5) ? c.cls("operand close to the other"), near(c, F, A) : gen_mat(c, F, A.m, A.n); }
// matrix of a chosen rank with a chosen column rank profile
static inline Mat gen_ranked(Ctx &c, const Field &F, int m, int n) {
  if (!m || !n) return Mat(m, n);
  if (c.chance(1, 3)) return gen_mat(c, F, m, n);
  int full = std::min(m, n), r;
  switch (c.pick({3, 2, 2, 3})) { case 0: r = full; break; case 1: r = full - std::min(full, c.range(0, 3)); break; case 2: r = std::min(full, c.range(0, 4)); break; default: r = c.range(0, full); }
  std::vector<int> piv; // pivot columns
  pbt::Rng g(c.seed64());
  int style = c.pick({3, 2, 2, 2, 2});
  std::vector<char> is(n, 0);
  if (style == 0) { for (int i = 0; i < r; i++) is[i] = 1; }
  else if (style == 1) { int off = n - r; for (int i = 0; i < r; i++) is[off + i] = 1; }
  else if (style == 2) { int left = r; while (left) { int j = g.below(n); if (!is[j]) { is[j] = 1; left--; } } }
  else if (style == 3) { // gap of zeros at a chosen place
    int gap = n - r ? c.range(0, n - r) : 0, at = r ? c.range(0, r) : 0; for (int i = 0; i < r; i++) is[i + (i >= at ? gap : 0)] = 1; }
  else { int step = r ? std::max(1, n / r) : 1; int k = 0; for (int j = 0; j < n && k < r; j += step) { is[j] = 1; k++; } for (int j = 0; j < n && k < r; j++) if (!is[j]) { is[j] = 1; k++; } }
  for (int j = 0; j < n; j++) if (is[j]) piv.push_back(j);
  Mat E(r, n);
  bool sparse = c.chance(1, 3);
  for (int i = 0; i < r; i++) { E.at(i, piv[i]) = 1; for (int j = piv[i] + 1; j < n; j++) { uint64_t v = g.next(); E.at(i, j) = (!sparse || (v >> 60) == 0) ? (v & F.mask()) : 0; } }
  Mat L(m, r);
  int ls = c.pick({3, 2, 1});
  if (ls == 0) { for (auto &x : L.a) x = g.next() & F.mask(); }
  else { std::vector<int> rows(m); for (int i = 0; i < m; i++) rows[i] = i; if (ls == 1) for (int i = m - 1; i > 0; i--) std::swap(rows[i], rows[g.below(i + 1)]);
    for (int i = 0; i < r; i++) L.at(rows[i], i) = 1 + g.below(F.order - 1);
    for (int i = 0; i < m; i++) if (g.below(4) == 0 && r) { int k = g.below(r); L.at(i, k) ^= g.next() & F.mask(); } }
  return model::mul(F, L, E);
}

// ---------- raw access ----------
static inline word raw_get(const mzd_t *x, int r, int bit, int nb) {
  word v = 0; for (int i = 0; i < nb; i++) v |= ((x->rows[r][(bit + i) / 64] >> ((bit + i) % 64)) & 1ULL) << i; return v;
}
static inline word raw_elem(const mzd_t *x, int r, int bit, int w) { return (x->rows[r][bit / 64] >> (bit % 64)) & ((1ULL << w) - 1); }
static inline void raw_put(mzd_t *x, int r, int bit, int w, word v) {
  word &q = x->rows[r][bit / 64]; word m = ((1ULL << w) - 1) << (bit % 64); q = (q & ~m) | (v << (bit % 64));
}
static inline void snap_mzd(const mzd_t *x, std::vector<word> &out) { for (int r = 0; r < x->nrows; r++) out.insert(out.end(), x->rows[r], x->rows[r] + x->width); }
static inline void dirty_tail(mzd_t *x, pbt::Rng &g, int w = 1, uint64_t mask = 1) { // random elements past the last column
  int u = x->ncols % 64; if (!u) return;
  for (int r = 0; r < x->nrows; r++) for (int b = u; b < 64; b += w) raw_put(x, r, (x->width - 1) * 64 + b, w, g.next() & mask);
}

struct Layout { int kind = 0; int r0 = 0, c0 = 0, xr = 0, xc = 0; uint64_t seed = 0; }; // 0 plain, 1 dirty tail, 2 view
static inline Layout gen_layout(Ctx &c, int w, bool views = true, bool dirty = true) {
  Layout L;
  L.kind = c.pick({6, dirty && w > 1 ? 2 : 0, views ? 3 : 0}); // m4ri takes stand-alone GF(2) matrices to have clean tails, so no junk there for slices
  if (L.kind) L.seed = c.seed64();
  if (L.kind == 2) { L.r0 = c.range(0, 3); L.c0 = c.range(0, 2) * (64 / w); L.xr = c.range(0, 2); L.xc = c.pick({1, 2}) && dirty ? c.range(0, 64 / w + 2) : 0; }
  return L;
}
static inline const char *lname(const Layout &L) { return L.kind == 0 ? "plain" : L.kind == 1 ? "dirty-tail" : "view"; }

// Packed matrix under test
struct PM {
  mzed_t *v = nullptr, *root = nullptr; Layout L; const Field *F = nullptr; std::vector<word> snap;
  PM() {}
  PM(const FF &f, const Mat &A, const Layout &l = Layout()) : L(l), F(f.F) {
    if (L.kind == 2) {
      root = mzed_init(f.ff, L.r0 + A.m + L.xr, L.c0 + A.n + L.xc);
      pbt::Rng g(L.seed); for (int i = 0; i < root->nrows; i++) for (int j = 0; j < root->ncols; j++) raw_put(root->x, i, j * root->w, root->w, g.next() & f.F->mask());
      v = mzed_init_window(root, L.r0, L.c0, L.r0 + A.m, L.c0 + A.n);
    } else root = v = mzed_init(f.ff, A.m, A.n);
    set(A);
    if (L.kind == 1) { pbt::Rng g(L.seed); dirty_tail(root->x, g, F->w, F->mask()); }
    take();
  }
  PM(const PM &) = delete; PM &operator=(const PM &) = delete;
  PM(PM &&o) { std::swap(v, o.v); std::swap(root, o.root); L = o.L; F = o.F; snap.swap(o.snap); }
  PM &operator=(PM &&o) { std::swap(v, o.v); std::swap(root, o.root); std::swap(L, o.L); std::swap(F, o.F); snap.swap(o.snap); return *this; }
  ~PM() { if (v && v != root) mzed_free_window(v); if (root) mzed_free(root); }
  static PM own(mzed_t *x, const Field *F) { PM p; p.v = p.root = x; p.F = F; return p; }
  void set(const Mat &A) { for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) raw_put(v->x, i, j * F->w, F->w, A.at(i, j)); }
  void take() { snap.clear(); snap_mzd(root->x, snap); }
  Mat get() const { Mat A(v->nrows, v->ncols); for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) A.at(i, j) = raw_elem(v->x, i, j * F->w, F->w); return A; }
  void unchanged(const char *what) const {
    std::vector<word> now; snap_mzd(root->x, now); if (now != snap) fail("%s: operand that is only read was changed (%s)", what, lname(L));
  }
  // nothing outside the view / past the last column differs from the snapshot
  void outside_unchanged(const char *what) const {
    size_t k = 0; int w = F->w; int c0 = L.kind == 2 ? L.c0 * w : 0, r0 = L.kind == 2 ? L.r0 : 0; int c1 = c0 + v->ncols * w;
    for (int r = 0; r < root->x->nrows; r++) for (int q = 0; q < root->x->width; q++, k++) {
      word diff = root->x->rows[r][q] ^ snap[k]; if (!diff) continue;
      if (r >= r0 && r < r0 + v->nrows) for (int b = 0; b < 64; b++) { int bit = q * 64 + b; if (bit >= c0 && bit < c1) diff &= ~(1ULL << b); }
      if (diff) fail("%s: wrote outside the matrix (%s): row %d word %d diff %016llx", what, lname(L), r - r0, q, (unsigned long long)diff);
    }
  }
};

// Sliced matrix under test
struct SM {
  mzd_slice_t *v = nullptr, *root = nullptr; Layout L; const Field *F = nullptr; std::vector<word> snap;
  SM() {}
  SM(const FF &f, const Mat &A, const Layout &l = Layout()) : L(l), F(f.F) {
    if (L.kind == 2) {
      root = mzd_slice_init(f.ff, L.r0 + A.m + L.xr, L.c0 + A.n + L.xc);
      pbt::Rng g(L.seed);
      for (int s = 0; s < F->e; s++) for (int i = 0; i < root->nrows; i++) for (int j = 0; j < root->ncols; j++) raw_put(root->x[s], i, j, 1, g.next() & 1);
      v = mzd_slice_init_window(root, L.r0, L.c0, L.r0 + A.m, L.c0 + A.n);
    } else root = v = mzd_slice_init(f.ff, A.m, A.n);
    set(A);
    if (L.kind == 1) { pbt::Rng g(L.seed); for (int s = 0; s < F->e; s++) dirty_tail(root->x[s], g); }
    take();
  }
  SM(const SM &) = delete; SM &operator=(const SM &) = delete;
  SM(SM &&o) { std::swap(v, o.v); std::swap(root, o.root); L = o.L; F = o.F; snap.swap(o.snap); }
  SM &operator=(SM &&o) { std::swap(v, o.v); std::swap(root, o.root); std::swap(L, o.L); std::swap(F, o.F); snap.swap(o.snap); return *this; }
  ~SM() { if (v && v != root) mzd_slice_free_window(v); if (root) mzd_slice_free(root); }
  static SM own(mzd_slice_t *x, const Field *F) { SM p; p.v = p.root = x; p.F = F; return p; }
  void set(const Mat &A) { for (int s = 0; s < F->e; s++) for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) raw_put(v->x[s], i, j, 1, (A.at(i, j) >> s) & 1); }
  void take() { snap.clear(); for (int s = 0; s < F->e; s++) snap_mzd(root->x[s], snap); }
  Mat get() const {
    Mat A(v->nrows, v->ncols);
    if ((int)v->depth < F->e) fail("sliced matrix has too few slices");
    for (int s = 0; s < F->e; s++) for (int i = 0; i < A.m; i++) { const word *row = v->x[s]->rows[i]; for (int j = 0; j < A.n; j++) A.at(i, j) |= ((row[j / 64] >> (j % 64)) & 1) << s; }
    return A;
  }
  void unchanged(const char *what) const {
    std::vector<word> now; for (int s = 0; s < F->e; s++) snap_mzd(root->x[s], now);
    if (now != snap) fail("%s: operand that is only read was changed (%s)", what, lname(L));
  }
  void outside_unchanged(const char *what) const {
    size_t k = 0; int c0 = L.kind == 2 ? L.c0 : 0, r0 = L.kind == 2 ? L.r0 : 0, c1 = c0 + v->ncols;
    for (int s = 0; s < F->e; s++) { const mzd_t *x = root->x[s];
      for (int r = 0; r < x->nrows; r++) for (int q = 0; q < x->width; q++, k++) {
        word diff = x->rows[r][q] ^ snap[k]; if (!diff) continue;
        if (r >= r0 && r < r0 + v->nrows) for (int b = 0; b < 64; b++) { int bit = q * 64 + b; if (bit >= c0 && bit < c1) diff &= ~(1ULL << b); }
        if (diff) fail("%s: wrote outside the matrix (%s): slice %d row %d word %d diff %016llx", what, lname(L), s, r - r0, q, (unsigned long long)diff);
      } }
  }
};

static inline void expect_eq(const Mat &got, const Mat &want, const char *what) {
  if (got.m != want.m || got.n != want.n) fail("%s: shape %dx%d, expected %dx%d", what, got.m, got.n, want.m, want.n);
  for (int i = 0; i < got.m; i++) for (int j = 0; j < got.n; j++) if (got.at(i, j) != want.at(i, j))
    fail("%s: entry (%d,%d) is 0x%x, expected 0x%x", what, i, j, got.at(i, j), want.at(i, j));
}
static inline void check_shape(const mzed_t *A, const FF &f, int m, int n, const char *what) {
  CHECK(A && A->nrows == m && A->ncols == n && A->finite_field == f.ff && A->w == f.w && A->x->nrows == m && A->x->ncols == n * f.w, "%s: result has wrong shape or field", what);
}
static inline void check_shape(const mzd_slice_t *A, const FF &f, int m, int n, const char *what) {
  CHECK(A && A->nrows == m && A->ncols == n && A->finite_field == f.ff && (int)A->depth == f.e, "%s: result has wrong shape, depth or field", what);
  for (int i = 0; i < f.e; i++) CHECK(A->x[i] && A->x[i]->nrows == m && A->x[i]->ncols == n, "%s: slice %d has wrong shape", what, i);
}

// m4ri takes the bits past the last column of a stand-alone matrix to be zero: a fresh result must satisfy that, or later
// operations on it (which work on whole words) go wrong
static inline void clean_tail(const mzd_t *x, const char *what) {
  int u = x->ncols % 64; if (!u) return;
  for (int r = 0; r < x->nrows; r++) if (x->rows[r][x->width - 1] >> u) fail("%s: bits past the last column of the new matrix are set (row %d)", what, r);
}
static inline void clean_tail(const mzed_t *A, const char *what) { clean_tail(A->x, what); }
static inline void clean_tail(const mzd_slice_t *A, const char *what) { for (int i = 0; i < (int)A->depth; i++) clean_tail(A->x[i], what); }

// runs fn in a child; 0 = returned normally, otherwise the wait status
static inline int in_child(const std::function<void()> &fn, std::string *err = nullptr) {
  int pfd[2]; if (pipe(pfd)) return -1;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) { close(pfd[0]); dup2(pfd[1], 2); close(pfd[1]); fn(); _exit(0); }
  close(pfd[1]); std::string s; char b[512]; ssize_t k;
  while ((k = read(pfd[0], b, sizeof b)) > 0) if (s.size() < 4000) s.append(b, k);
  close(pfd[0]);
  int st; waitpid(pid, &st, 0); if (err) *err = s; return st;
}

// content for a supplied destination: arbitrary valid elements
static inline Mat gen_garbage(Ctx &c, const Field &F, int m, int n) { Mat G(m, n); if (c.chance(7, 8)) fill_random(G, F, c.seed64()); return G; }
static inline Mat gen_garbage(Ctx &c, const Field &F, const Mat &want) { return c.chance(1, 8) ? c.cls("old content close to the result"), near(c, F, want) : gen_garbage(c, F, want.m, want.n); }
// op gets NULL or a supplied matrix of arbitrary old content (any layout) and returns the result
static inline void out_p(Ctx &c, const FF &f, const Mat &want, const std::function<mzed_t *(mzed_t *)> &op, const char *what, bool allow_null = true, bool dirty = true) {
  if (allow_null && c.flip()) {
    mzed_t *r = op(nullptr); CHECK(r != nullptr, "%s: returned NULL", what);
    PM R = PM::own(r, f.F); check_shape(r, f, want.m, want.n, what); expect_eq(R.get(), want, what); if (!c.dirty) clean_tail(r, what); c.cls("fresh result"); return;
  }
  Mat G = gen_garbage(c, *f.F, want); Layout L = gen_layout(c, f.w, true, dirty); PM C(f, G, L);
  c.d << " into " << lname(L); c.cls(std::string("result ") + lname(L));
  mzed_t *r = op(C.v); CHECK(r == C.v, "%s: supplied result not returned", what);
  check_shape(r, f, want.m, want.n, what); expect_eq(C.get(), want, what); C.outside_unchanged(what);
}
static inline void out_s(Ctx &c, const FF &f, const Mat &want, const std::function<mzd_slice_t *(mzd_slice_t *)> &op, const char *what, bool allow_null = true, bool dirty = true) {
  if (allow_null && c.flip()) {
    mzd_slice_t *r = op(nullptr); CHECK(r != nullptr, "%s: returned NULL", what);
    SM R = SM::own(r, f.F); check_shape(r, f, want.m, want.n, what); expect_eq(R.get(), want, what); if (!c.dirty) clean_tail(r, what); c.cls("fresh result"); return;
  }
  Mat G = gen_garbage(c, *f.F, want); Layout L = gen_layout(c, 1, true, dirty); SM C(f, G, L);
  c.d << " into " << lname(L); c.cls(std::string("result ") + lname(L));
  mzd_slice_t *r = op(C.v); CHECK(r == C.v, "%s: supplied result not returned", what);
  check_shape(r, f, want.m, want.n, what); expect_eq(C.get(), want, what); C.outside_unchanged(what);
}
static inline PM in_p(Ctx &c, const FF &f, const Mat &A, bool views = true, bool dirty = true) { Layout L = gen_layout(c, f.w, views, dirty); if (L.kind == 1) c.dirty = true; c.d << " " << A.m << "x" << A.n << "(" << lname(L) << ")"; if (A.m * A.n <= 64) c.d << model::show(A); c.cls(std::string("operand ") + lname(L)); return PM(f, A, L); }
static inline SM in_s(Ctx &c, const FF &f, const Mat &A, bool views = true, bool dirty = true) { Layout L = gen_layout(c, 1, views, dirty); c.d << " " << A.m << "x" << A.n << "(" << lname(L) << ")"; if (A.m * A.n <= 64) c.d << model::show(A); c.cls(std::string("operand ") + lname(L)); return SM(f, A, L); }
static inline mzd_slice_t *cs(const SM &a) { return a.v; }

extern bool g_watch; extern long g_alloc_no, g_fault_at; extern int g_watch_pid; extern volatile bool *g_fault_hit; extern std::vector<void *> *g_sites; // allocation faults, see alloc.cpp
extern bool g_space; extern size_t g_space_peak; // largest amount of allocated memory, see alloc.cpp
extern int g_fill; // pattern put into fresh m4ri blocks and freed memory
} // namespace br
using namespace br;
