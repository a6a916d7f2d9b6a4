#pragma once
#include "bridge.hpp"
// polynomials with matrices over GF(2) as coefficients, bit by bit
namespace polys {
typedef std::vector<std::vector<char>> Bits;
typedef std::vector<Bits> Pol;
inline Bits bits(const mzd_t *A) { Bits r(A->nrows, std::vector<char>(A->ncols)); for (int i = 0; i < A->nrows; i++) for (int j = 0; j < A->ncols; j++) r[i][j] = raw_elem(A, i, j, 1); return r; }
inline Pol bits(const mzd_poly_t *A) { Pol r; for (int i = 0; i < A->depth; i++) r.push_back(bits(A->x[i])); return r; }
inline mzd_poly_t *gen(Ctx &c, int len, int m, int n) {
  mzd_poly_t *A = mzd_poly_init(len - 1, m, n); CHECK(A->depth == len && A->nrows == m && A->ncols == n, "mzd_poly_init: wrong shape");
  for (int i = 0; i < len; i++) for (auto &r : bits(A->x[i])) for (char b : r) CHECK(!b, "mzd_poly_init: coefficient not zero");
  pbt::Rng g(c.seed64()); int style = c.pick({1, 5, 2, 2});
  for (int k = 0; k < len; k++) { bool zero = style == 3 && g.below(3) != 0; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { uint64_t v = g.next(); raw_put(A->x[k], i, j, 1, style == 0 || zero ? 0 : style == 2 ? (v & 15) == 0 : v & 1); } }
  return A;
}
inline void bmul_add(Bits &r, const Bits &a, const Bits &b) { for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b.size(); k++) if (a[i][k]) for (size_t j = 0; j < b[0].size(); j++) r[i][j] ^= b[k][j]; }
inline bool zero(const Pol &p) { for (auto &b : p) for (auto &r : b) for (char x : r) if (x) return false; return true; }
inline Pol convolve(const Pol &a, const Pol &b, int m, int n) {
  Pol w(a.size() + b.size() - 1, Bits(m, std::vector<char>(n)));
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) bmul_add(w[i + j], a[i], b[j]);
  return w;
}
}
