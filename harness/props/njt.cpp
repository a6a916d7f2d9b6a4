#include "bridge.hpp"
using namespace model;

namespace {
// every element indexes its multiple of row r of A from column c on
void check_table(Ctx &c, const FF &f, const njt_mzed_t *T, const Mat &A, int r, int col, const char *what) {
  const Field &F = *f.F; CHECK(T->T->nrows == (rci_t)F.order && T->T->ncols == A.n, "%s: table has the wrong shape", what);
  bool all = F.order <= 256 || c.chance(1, 10); int cnt = all ? F.order : 200; pbt::Rng g(all ? 0 : c.seed64());
  int c0 = col - col % (64 / f.w);
  for (int k = 0; k < cnt; k++) {
    uint32_t a = all ? k : k < 20 ? (k < 16 ? (1u << k) & F.mask() : k - 16) : g.below(F.order);
    rci_t l = T->L[a]; CHECK(l >= 0 && l < (rci_t)F.order, "%s: L[%x] = %d is no row", what, a, l);
    for (int j = c0; j < A.n; j++) {
      word want = j < col ? 0 : F.mul(a, A.at(r, j)), got = raw_elem(T->T->x, l, j * f.w, f.w);
      CHECK(got == want, "%s: table row of element %x, column %d is %llx, expected %llx", what, a, j, (unsigned long long)got, (unsigned long long)want);
    }
    int used = A.n * f.w; if (used % 64) CHECK(raw_get(T->T->x, l, used, 64 - used % 64) == 0, "%s: bits past the last column set in table row of element %x", what, a);
  }
}
}

PROPERTY(K01, 50000, 300000,
  "Random field and matrix (any layout); 1-4 successive tables in the same (or a freshly allocated) table object for random rows and non-decreasing columns, all entries (or 200 for large fields) compared with the multiples; or "
  "1-6 tables for successive columns (k*w <= 64) - for arbitrary rows, and for rows with an identity block - applied to a random range of rows, compared with a row-by-row model; rows outside unchanged. "
  "Non-trivial: the tabulated rows are non-zero (and for processing: the range is non-empty).") {
  FF f = gen_field(c); const Field &F = *f.F; int u = 64 / f.w;
  bool big = f.e > 10; int m = c.chance(1, 150) ? c.range(100, 1500) : c.range(1, big ? 8 : 30), n = !big && c.chance(1, 200) ? c.range(200, 1500) : gen_dim(c, 1, big ? 3 * u : 12 * u, u);
  Mat A = gen_mat(c, F, m, n);
  if (c.flip()) { // table contents and reuse
    c.d << "make_table"; c.cls("make_table");
    PM X = in_p(c, f, A); njt_mzed_t *T = c.flip() ? nullptr : njt_mzed_init(f.ff, n); int k = c.range(1, big ? 2 : 4), col = c.flip() ? 0 : c.range(0, n - 1); bool nt = false;
    std::string fl;
    for (int i = 0; i < k; i++) {
      int r = c.n(m); c.d << " (row " << r << ", col " << col << ")"; if (i) c.cls("table reused");
      T = mzed_make_table(T, X.v, r, col); X.unchanged("make_table");
      for (int j = col; j < n; j++) if (A.at(r, j)) nt = true;
      check_table(c, f, T, A, r, col, i ? "make_table (reused)" : "make_table");
      // next column: the same or up to one word's worth later, as in elimination, or anything later
      col = std::min(n - 1, col + (c.chance(1, 4) ? (int)c.n(n) : c.range(0, u)));
    }
    njt_mzed_free(T); c.nontrivial(nt); return;
  }
  int k = std::min(n, c.range(1, std::min(6, u))); c.d << "process_rows" << k; c.cls("process_rows" + std::to_string(k));
  int col = c.range(0, n - k); bool ident = c.flip(); std::vector<int> tr(k);
  if (ident && m >= k) { int r = c.range(0, m - k); for (int i = 0; i < k; i++) { tr[i] = r + i; for (int j = 0; j < n && j < col + k; j++) A.at(r + i, j) = j == col + i; } }
  else { ident = false; for (int i = 0; i < k; i++) tr[i] = c.n(m); }
  // tables start at column col+i as in elimination (or at col+1 with one table as in PLE)
  bool ple = k == 1 && col + 1 < n && c.chance(1, 3);
  int r0 = c.range(0, m), r1 = c.range(r0, m); c.d << " col " << col << " rows " << r0 << ".." << r1 << (ident ? " identity" : "") << (ple ? " ple" : "");
  PM X = in_p(c, f, A); Mat W = A; bool nt = false;
  std::vector<njt_mzed_t *> T(k);
  bool stale = col > 0 && c.chance(1, 3); int c1 = stale ? std::max(0, col - c.range(1, u)) : 0;
  for (int i = 0; i < k; i++) {
    T[i] = c.flip() ? nullptr : njt_mzed_init(f.ff, n); int s = ple ? col + 1 : col + i;
    if (stale) { T[i] = mzed_make_table(T[i], X.v, c.n(m), c1); }
    T[i] = mzed_make_table(T[i], X.v, tr[i], s);
    for (int r = r0; r < r1; r++) { uint16_t x = A.at(r, col + i); if (!x) continue; row_addmul(F, W, r, A, tr[i], x, s); nt = true; }
  }
  switch (k) {
  case 1: mzed_process_rows(X.v, r0, r1, col, T[0]); break;
  case 2: mzed_process_rows2(X.v, r0, r1, col, T[0], T[1]); break;
  case 3: mzed_process_rows3(X.v, r0, r1, col, T[0], T[1], T[2]); break;
  case 4: mzed_process_rows4(X.v, r0, r1, col, T[0], T[1], T[2], T[3]); break;
  case 5: mzed_process_rows5(X.v, r0, r1, col, T[0], T[1], T[2], T[3], T[4]); break;
  default: mzed_process_rows6(X.v, r0, r1, col, T[0], T[1], T[2], T[3], T[4], T[5]); break;
  }
  for (auto t : T) njt_mzed_free(t);
  c.nontrivial(nt); expect_eq(X.get(), W, "process_rows"); X.outside_unchanged("process_rows");
}
