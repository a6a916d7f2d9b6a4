#include "poly_common.hpp"
using namespace polys;
PROPERTY(Y01, 60000, 400000,
  "Polynomials with 1..16 (balanced Karatsuba), 1..14 (maps, CRT) or up to 20 coefficients, coefficient matrices 1..12 (sometimes up to 140) square or not, random, sparse or zero; multiply-accumulate by schoolbook, balanced Karatsuba, explicit bilinear map, "
  "CRT, extension-field evaluation, the ptr-level Karatsuba formulas, into NULL or an accumulator with old content and possibly more coefficients; addition with offset, aliasing, depth changes, comparison. Compared with the bit-level convolution. Non-trivial: non-zero product (or sum).") {
  int op = c.pick({3, 6, 3, 3, 3, 2, 2, 2}); static const char *nm[] = {"addmul_naive", "addmul_karatsuba", "addmul_blm", "addmul_crt", "addmul_ext1", "add", "adapt_depth", "cmp"};
  int fl = c.range(1, op == 1 ? 16 : op == 0 ? 12 : 14), gl = op == 1 || c.chance(1, 4) ? fl : c.range(1, op == 0 ? 12 : 14);
  if (op == 4) { fl = c.range(1, 11); gl = c.range(1, 11); }
  bool sq = c.chance(1, 6); int m = c.range(1, 10), k = c.range(1, 10), n = c.range(1, 10); if (c.chance(1, 6)) { m = gen_dim(c, 1, 70, 64); k = gen_dim(c, 1, 70, 64); n = gen_dim(c, 1, 140, 64); }
  c.d << nm[op] << " lengths " << fl << "," << gl << " shape " << m << "," << k << "," << n; c.cls(nm[op]);
  if (op <= 4) {
    if (sq) { fl = gl; m = k = n; }
    mzd_poly_t *A = gen(c, fl, m, k), *B = sq ? A : gen(c, gl, k, n), *C = NULL; Pol a = bits(A), b = bits(B), w = convolve(a, b, m, n);
    c.nontrivial(!zero(w)); int extra = 0;
    if (!c.chance(1, 4)) { extra = c.chance(1, 4) ? c.range(1, 3) : 0; C = gen(c, fl + gl - 1 + extra, m, n); Pol o = bits(C); w.resize(fl + gl - 1 + extra, Bits(m, std::vector<char>(n))); for (size_t i = 0; i < w.size(); i++) for (int x = 0; x < m; x++) for (int y = 0; y < n; y++) w[i][x][y] ^= o[i][x][y]; c.d << " accumulate" << (extra ? " longer" : ""); }
    else c.d << " into new";
    mzd_poly_t *r = NULL;
    switch (op) {
    case 0: r = _mzd_poly_addmul_naive(C, A, B); break;
    case 1: r = _mzd_poly_addmul_karatsubs_balanced(C, A, B); break;
    case 2: { int *p = crt_init(fl, gl); if (c.chance(1, 3)) { for (int d = 0; d < M4RIE_CRT_LEN; d++) p[d] = 0; p[std::max(fl, gl)] = 1; } bool djb = c.flip(); blm_t *f = blm_init_crt(NULL, fl, gl, p, djb); c.d << (djb ? " compiled" : " matrix"); r = _mzd_poly_addmul_blm(C, A, B, f); blm_free(f); m4ri_mm_free(p); break; }
    case 3: r = _mzd_poly_addmul_crt(C, A, B); break;
    default: r = _mzd_poly_addmul_ext1(C, A, B); break;
    }
    CHECK(r && (!C || r == C), "%s: result not returned", nm[op]); CHECK(r->depth >= fl + gl - 1 && r->nrows == m && r->ncols == n, "%s: result has wrong shape", nm[op]);
    Pol got = bits(r); for (size_t i = 0; i < got.size(); i++) { if (i < w.size()) CHECK(got[i] == w[i], "%s: coefficient %zu wrong", nm[op], i); else CHECK(zero(Pol(1, got[i])), "%s: surplus coefficient %zu not zero", nm[op], i); }
    CHECK(bits(A) == a && bits(B) == b, "%s: operand changed", nm[op]);
    mzd_poly_free(A); if (!sq) mzd_poly_free(B); mzd_poly_free(r);
  } else if (op == 5) {
    int len = c.chance(1, 5) ? c.range(1, 36) : fl, off = c.range(0, 4), alias = c.n(4); bool plain = c.flip(); if (plain) off = 0;
    mzd_poly_t *A = gen(c, len, m, n), *B = gen(c, len, m, n), *C = alias == 1 && !off ? A : alias == 2 && !off ? B : gen(c, len + off + c.range(0, 2), m, n);
    Pol a = bits(A), b = bits(B), w = bits(C); c.d << " " << len << " offset " << off << " alias " << alias;
    for (int i = 0; i < len; i++) for (int x = 0; x < m; x++) for (int y = 0; y < n; y++) w[i + off][x][y] = a[i][x][y] ^ b[i][x][y];
    c.nontrivial(!zero(a) && !zero(b));
    mzd_poly_t *r = plain ? mzd_poly_add(C, A, B) : _mzd_poly_add(C, A, B, off); CHECK(r == C, "add: result not returned");
    CHECK(bits(C) == w, "add: wrong sum"); if (C != A) CHECK(bits(A) == a, "add: operand changed"); if (C != B) CHECK(bits(B) == b, "add: operand changed");
    if (C != A && C != B) mzd_poly_free(C); mzd_poly_free(A); mzd_poly_free(B);
  } else if (op == 6) {
    mzd_poly_t *A = gen(c, fl, m, n); Pol w = bits(A); int steps = c.range(1, 4); c.nontrivial(!zero(w));
    for (int s = 0; s < steps; s++) { int d = c.range(1, 40); c.d << " ->" << d; CHECK(_mzd_poly_adapt_depth(A, d) == A, "adapt_depth: result not returned"); w.resize(d, Bits(m, std::vector<char>(n))); CHECK(A->depth == d && bits(A) == w, "adapt_depth: coefficients not kept or not zeroed"); }
    mzd_poly_free(A);
  } else {
    mzd_poly_t *A = gen(c, fl, m, n), *B = gen(c, fl, m, n); Pol a = bits(A); c.nontrivial(!zero(a));
    for (int i = 0; i < fl; i++) mzd_copy(B->x[i], A->x[i]); CHECK(mzd_poly_cmp(A, B) == 0, "cmp: equal polynomials differ");
    int i = c.n(fl), x = c.n(m), y = c.n(n); raw_put(B->x[i], x, y, 1, !a[i][x][y]); CHECK(mzd_poly_cmp(A, B) != 0, "cmp: polynomials differing in coefficient %d at (%d,%d) compare equal", i, x, y); CHECK(mzd_poly_cmp(B, A) != 0, "cmp: not symmetric for inequality");
    _mzd_poly_adapt_depth(B, fl + 1); CHECK(mzd_poly_cmp(A, B) == -1 && mzd_poly_cmp(B, A) == 1, "cmp: shorter polynomial is not less");
    if (m * n * fl >= 60) { mzd_poly_randomize(A); int ones = 0, tot = 0; for (auto &q : bits(A)) { for (auto &r : q) for (char v : r) { ones += v; tot++; } } if (tot >= 200) CHECK(ones > tot / 8 && ones < tot - tot / 8, "randomize: %d of %d bits set", ones, tot); }
    mzd_poly_free(A); mzd_poly_free(B);
  }
}
