#include "bridge.hpp"
extern "C" { mzd_t *_small_multiplication_map(const deg_t degree) __attribute__((weak)); mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) __attribute__((weak)); }
#include <m4ri/djb.h>

namespace {
typedef std::vector<std::vector<char>> Bits;
Bits bits(const mzd_t *A) { Bits r(A->nrows, std::vector<char>(A->ncols)); for (int i = 0; i < A->nrows; i++) for (int j = 0; j < A->ncols; j++) r[i][j] = raw_elem(A, i, j, 1); return r; }
int irr(int d) { return (int)model::irreducibles(d).size(); }
uint64_t polmod(uint64_t a, uint64_t p) { int d = model::degree(p); for (int i = 63; i >= d; i--) if (a >> i & 1) a ^= p << (i - d); return a; }
mzd_t *rnd(Ctx &c, int m, int n) { mzd_t *A = mzd_init(m, n); pbt::Rng g(c.seed64()); int dens = c.n(4); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { uint64_t v = g.next(); raw_put(A, i, j, 1, dens == 0 ? 0 : dens == 1 ? ((v & 7) == 0) : v & 1); } return A; }
Bits bmul(const Bits &a, const Bits &b) { Bits r(a.size(), std::vector<char>(b[0].size())); for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b.size(); k++) if (a[i][k]) for (size_t j = 0; j < b[0].size(); j++) r[i][j] ^= b[k][j]; return r; }
// complete check of a map: on all pairs of monomials (bilinearity gives the rest)
void check_map(const blm_t *f, int fl, int gl, const FF *ff) {
  Bits F = bits(f->F), G = bits(f->G), H = bits(f->H); size_t m = F.size();
  CHECK(G.size() == m && (int)f->F->ncols == fl && (int)f->G->ncols == gl && (size_t)f->H->ncols == m, "map has inconsistent shape");
  int outn = ff ? ff->e : fl + gl - 1; CHECK(f->H->nrows == outn, "map has %d outputs, expected %d", f->H->nrows, outn);
  for (int v = 0; v < fl; v++) for (int w = 0; w < gl; w++) {
    std::vector<char> out(outn, 0);
    for (size_t i = 0; i < m; i++) if (F[i][v] & G[i][w]) for (int k = 0; k < outn; k++) out[k] ^= H[k][i];
    uint64_t want = 1ULL << (v + w); if (ff) want = polmod(want, ff->poly);
    for (int k = 0; k < outn; k++) CHECK(out[k] == (char)(want >> k & 1), "x^%d * x^%d: coefficient %d is %d", v, w, k, out[k]);
  }
}
void apply_check(Ctx &c, const blm_t *f, int fl, int gl, const FF *ff, int how) {
  int m = c.range(1, 9), k = c.range(1, 9), n = c.range(1, 9); if (c.chance(1, 6)) { m = c.range(1, 70); k = c.range(1, 70); n = c.range(1, 70); }
  std::vector<mzd_t *> A, B, X; std::vector<Bits> a, b;
  for (int i = 0; i < fl; i++) { A.push_back(rnd(c, m, k)); a.push_back(bits(A[i])); } for (int i = 0; i < gl; i++) { B.push_back(rnd(c, k, n)); b.push_back(bits(B[i])); }
  int outn = f->H->nrows; bool dirty = c.flip(); for (int i = 0; i < outn; i++) { mzd_t *x = mzd_init(m, n); if (dirty) mzd_randomize(x); X.push_back(x); }
  switch (how) { case 0: _mzd_ptr_apply_blm_mzd(X.data(), (const mzd_t **)A.data(), (const mzd_t **)B.data(), f); break;
    case 1: _mzd_ptr_apply_blm_djb(X.data(), (const mzd_t **)A.data(), (const mzd_t **)B.data(), f); break;
    default: _mzd_ptr_apply_blm(X.data(), (const mzd_t **)A.data(), (const mzd_t **)B.data(), f); }
  std::vector<Bits> want(outn, Bits(m, std::vector<char>(n)));
  for (int v = 0; v < fl; v++) for (int w = 0; w < gl; w++) { Bits p = bmul(a[v], b[w]); uint64_t t = 1ULL << (v + w); if (ff) t = polmod(t, ff->poly);
    for (int q = 0; q < outn; q++) if (t >> q & 1) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) want[q][i][j] ^= p[i][j]; }
  for (int q = 0; q < outn; q++) CHECK(bits(X[q]) == want[q], "application (%s, %s): output %d of %d wrong", how == 0 ? "matrix" : how == 1 ? "compiled" : "default", dirty ? "old content" : "zero", q, outn);
  for (int i = 0; i < fl; i++) CHECK(bits(A[i]) == a[i], "operand changed"); for (int i = 0; i < gl; i++) CHECK(bits(B[i]) == b[i], "operand changed");
  for (auto x : A) mzd_free(x); for (auto x : B) mzd_free(x); for (auto x : X) mzd_free(x);
}
} // namespace

PROPERTY(B01, 45000, 400000,
  "Operand lengths 1..16 each (sums up to 31), scheme chosen by crt_init, drawn at random among valid ones (numbers of coprime moduli per degree plus a power at infinity, degrees adding up to enough), or a single full-length modulus; with or without "
  "reduction by a random field; compiled or not. The map is checked on all monomial pairs (which by bilinearity decides it), then applied in matrix and compiled form to random bit matrices over old content; also bilinear completion of hand-made "
  "schoolbook (with redundant rows) evaluation maps, modular-reduction matrices, small multiplication maps, compiled random linear maps. Non-trivial: both lengths at least 2.") {
  int op = c.pick({10, 2, 2, 2, 1});
  if (op == 0 || op == 4) {
    bool sq = c.chance(1, 3); int fl = c.range(1, 16), gl = sq ? fl : c.range(1, 16); FF f; bool red = c.flip(); if (red) { f = gen_field(c); if (c.flip()) fl = gl = f.e; }
    c.nontrivial(fl >= 2 && gl >= 2); int need = fl + gl - 1; c.d << "lengths " << fl << "," << gl;
    int kind = c.pick({3, 4, 1}); int *p;
    int *q = crt_init(fl, gl); { int have = q[0], cost = costs[q[0]]; for (int d = 1; d < M4RIE_CRT_LEN; d++) { have += d * q[d]; cost += costs[d] * q[d]; CHECK(q[d] >= 0 && q[d] <= irr(d), "crt_init: %d polynomials of degree %d", q[d], d); }
      CHECK(have >= need, "crt_init(%d,%d): total degree %d, needed %d", fl, gl, have, need); CHECK(blm_cost_crt(q) == cost, "blm_cost_crt is not the sum of the costs"); }
    if (op == 4) { m4ri_mm_free(q); c.cls("crt_init"); return; }
    if (kind == 0) { p = q; c.cls("scheme of crt_init"); }
    else {
      m4ri_mm_free(q); p = (int *)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
      if (kind == 2) { p[std::max(fl, gl)] = 1; c.cls("one full-length modulus"); }
      else {
        c.cls("random scheme"); int have = 0; if (c.chance(1, 3)) { p[0] = c.range(1, std::min(need, 16)); have = p[0]; }
        // valid: every degree finds an unused irreducible polynomial, or an unused one of half/quarter/eighth degree to raise to a power
        bool powers = false;
        auto valid = [&](int *q) { int used[M4RIE_CRT_LEN] = {0}; bool pw = false;
          for (int d = 1; d < M4RIE_CRT_LEN; d++) for (int i = 0; i < q[d]; i++) { int k = 1; while (k <= 8 && !(d % k == 0 && used[d / k] < irr(d / k))) k *= 2; if (k > 8) return false; used[d / k]++; if (k > 1) pw = true; }
          powers = pw; return true; };
        int guard = 0; bool wantpow = c.chance(1, 3);
        while (have < need && guard++ < 80) { int d = (wantpow ? c.pick({2, 8, 3, 8, 0, 0, 0, 3}) : c.pick({6, 5, 5, 4, 3, 2, 1, 1, 1, 1, 1, 1})) + 1; p[d]++; if (valid(p)) have += d; else p[d]--; }
        for (int d = std::max(fl, gl); have < need; d++) { p[d]++; if (valid(p)) have += d; else p[d]--; if (d == 16) d = 1; }
        if (valid(p) && powers) c.cls("powers as moduli");
      }
    }
    c.d << " scheme"; for (int d = 0; d < M4RIE_CRT_LEN; d++) if (p[d]) c.d << " " << d << ":" << p[d];
    bool djb = c.flip(); blm_t *b = blm_init_crt(red ? f.ff : NULL, fl, gl, p, djb); m4ri_mm_free(p);
    CHECK((b->f != NULL) == djb && (b->g != NULL) == djb && (b->h != NULL) == djb, "compiled forms do not match the request");
    check_map(b, fl, gl, red ? &f : NULL);
    if (!djb && c.flip()) { _blm_djb_compile(b); CHECK(b->f && b->g && b->h, "compilation left a form out"); djb = true; c.d << " compiled later"; }
    apply_check(c, b, fl, gl, red ? &f : NULL, 0); if (djb) apply_check(c, b, fl, gl, red ? &f : NULL, 1); if (c.flip()) apply_check(c, b, fl, gl, red ? &f : NULL, 2);
    blm_free(b);
  } else if (op == 1) {
    c.cls("hand-made evaluation maps"); int fl = c.range(1, 7), gl = c.range(1, 7); FF f; bool red = c.flip(); if (red) f = gen_field(c); c.nontrivial(fl >= 2 && gl >= 2);
    std::vector<std::pair<uint32_t, uint32_t>> rows; for (int i = 0; i < fl; i++) for (int j = 0; j < gl; j++) rows.push_back({1u << i, 1u << j});
    int extra = c.range(0, 6); for (int k = 0; k < extra; k++) rows.push_back({(uint32_t)c.n(1 << fl), (uint32_t)c.n(1 << gl)});
    pbt::Rng g(c.seed64()); for (size_t i = rows.size() - 1; i > 0; i--) std::swap(rows[i], rows[g.below(i + 1)]);
    c.d << "evaluation maps " << fl << "," << gl << " with " << extra << " redundant rows";
    blm_t *b = (blm_t *)m4ri_mm_malloc(sizeof(blm_t)); memset(b, 0, sizeof *b); b->F = mzd_init(rows.size(), fl); b->G = mzd_init(rows.size(), gl);
    for (size_t i = 0; i < rows.size(); i++) { for (int j = 0; j < fl; j++) raw_put(b->F, i, j, 1, rows[i].first >> j & 1); for (int j = 0; j < gl; j++) raw_put(b->G, i, j, 1, rows[i].second >> j & 1); }
    blm_t *r = _blm_finish_polymult(red ? f.ff : NULL, b); CHECK(r == b && b->H, "completion failed"); check_map(b, fl, gl, red ? &f : NULL); apply_check(c, b, fl, gl, red ? &f : NULL, 0);
    if (c.flip()) { _blm_djb_compile(b); apply_check(c, b, fl, gl, red ? &f : NULL, 1); }
    blm_free(b);
  } else if (op == 2) {
    c.cls("modular reduction matrix"); int d = c.range(1, 16), len = c.range(1, 40); bool inf = c.chance(1, 4);
    auto &v = model::irreducibles(d); uint64_t p = v[c.n(v.size())]; if (c.chance(1, 4)) p = (1ULL << d) | c.n(1ULL << d);
    c.d << "x^i mod 0x" << std::hex << (inf ? 0 : p) << std::dec << " degree " << d << " length " << len; c.nontrivial(len > d);
    if (!_crt_modred_mat) { c.cls("modular reduction matrix not exported"); return; }
    mzd_t *A = _crt_modred_mat(len, inf ? 0 : p, d); CHECK(A->nrows == d && A->ncols == len, "reduction matrix has wrong shape"); Bits a = bits(A); mzd_free(A);
    for (int i = 0; i < len; i++) { uint64_t r = inf ? 0 : polmod(1ULL << i, p); for (int j = 0; j < d; j++) { int want = inf ? (i == len - 1 - j) : (int)(r >> j & 1); CHECK(a[j][i] == want, "column %d row %d wrong", i, j); } }
  } else {
    c.cls("compiled linear map"); int m = c.range(1, 24), n = c.range(1, 24), r = c.range(1, 8), q = c.range(1, 80); c.nontrivial(m > 1 && n > 1); c.d << "linear map " << m << "x" << n;
    mzd_t *M = rnd(c, m, n); Bits mb = bits(M); mzd_t *Mc = mzd_copy(NULL, M); djb_t *z = djb_compile(Mc); mzd_free(Mc);
    std::vector<mzd_t *> V, W; std::vector<Bits> vb; for (int i = 0; i < n; i++) { V.push_back(rnd(c, r, q)); vb.push_back(bits(V[i])); } for (int i = 0; i < m; i++) { W.push_back(mzd_init(r, q)); mzd_randomize(W[i]); }
    djb_apply_mzd_ptr(z, W.data(), (const mzd_t **)V.data()); djb_free(z);
    for (int i = 0; i < m; i++) { Bits w(r, std::vector<char>(q)); for (int j = 0; j < n; j++) if (mb[i][j]) for (int x = 0; x < r; x++) for (int y = 0; y < q; y++) w[x][y] ^= vb[j][x][y]; CHECK(bits(W[i]) == w, "djb_apply_mzd_ptr: output %d wrong", i); }
    for (int i = 0; i < n; i++) CHECK(bits(V[i]) == vb[i], "djb_apply_mzd_ptr changed an input");
    for (auto x : V) mzd_free(x); for (auto x : W) mzd_free(x); mzd_free(M);
  }
}
