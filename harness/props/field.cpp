#include "bridge.hpp"
using namespace model;

static void check_mul(const FF &f, uint32_t a, uint32_t b) {
  uint32_t want = f.F->mul(a, b);
  word g1 = gf2e_mul(f.ff, a, b), g2 = f.ff->mul(f.ff, a, b);
  CHECK(g1 == want, "gf2e_mul(0x%x,0x%x)=0x%llx, expected 0x%x", a, b, (unsigned long long)g1, want);
  CHECK(g2 == want, "ff->mul(0x%x,0x%x)=0x%llx, expected 0x%x", a, b, (unsigned long long)g2, want);
}
static void check_inv(const FF &f, uint32_t a) {
  word i1 = gf2e_inv(f.ff, a), i2 = f.ff->inv(f.ff, a); uint32_t want = f.F->inv(a);
  CHECK(i1 == want, "gf2e_inv(0x%x)=0x%llx, expected 0x%x", a, (unsigned long long)i1, want);
  CHECK(i2 == want, "ff->inv(0x%x)=0x%llx, expected 0x%x", a, (unsigned long long)i2, want);
}

PROPERTY(F01, 24000, 120000,
  "A field is built from a random degree 2..16 and a random irreducible polynomial of it (all polynomials of small degrees occur); products are compared with shift-and-xor "
  "arithmetic for all pairs (degree <= 6) or 3000 random and structured pairs, inverses for all (degree <= 10) or 500 elements, pow_gen/red/width and one 16-bit table are checked. "
  "Non-trivial: the polynomial is not the first listed one of its degree.") {
  // half of the draws: a degree first; the other half: any of the 8,798 polynomials equally likely
  static int total = 0; if (!total) for (int d = 2; d <= 16; d++) total += (int)irreducibles(d).size();
  int e; uint32_t poly; if (c.flip()) { e = c.range(2, 16); poly = irreducibles(e)[c.n(irreducibles(e).size())]; }
  else { int k = c.n(total); for (e = 2; k >= (int)irreducibles(e).size(); e++) k -= irreducibles(e).size(); poly = irreducibles(e)[k]; }
  auto &irr = irreducibles(e);
  FF f(poly); const Field &F = *f.F;
  c.d << "GF(2^" << e << ")/0x" << std::hex << poly << std::dec;
  c.cls("degree " + std::to_string(e)); c.nontrivial(poly != irr[0]);
  CHECK(f.ff->degree == e, "degree %d expected %d", f.ff->degree, e);
  CHECK(f.ff->minpoly == poly, "minpoly changed");
  CHECK((int)gf2e_degree_to_w(f.ff) == F.w, "element width %d expected %d", (int)gf2e_degree_to_w(f.ff), F.w);
  for (int i = 0; i < 2 * e - 1; i++) { uint64_t want = pmod((unsigned __int128)1 << i, poly); CHECK(f.ff->pow_gen[i] == want, "pow_gen[%d]=0x%llx expected 0x%llx", i, (unsigned long long)f.ff->pow_gen[i], (unsigned long long)want); }
  for (uint32_t h = 0; h < (1u << (e - 1)); h++) { // red[h] reduces a product whose part above the degree is h
    uint64_t red = f.ff->red[h], hi = (uint64_t)h << e; CHECK(pmod(hi, poly) == ((hi ^ red)), "red[0x%x]=0x%llx does not reduce", h, (unsigned long long)red);
  }
  if (e <= 6) { for (uint32_t a = 0; a < F.order; a++) for (uint32_t b = 0; b < F.order; b++) check_mul(f, a, b); c.cls("all pairs"); }
  else {
    pbt::Rng g(c.seed64());
    for (int k = 0; k < 3000; k++) check_mul(f, g.next() & F.mask(), g.next() & F.mask());
    for (int i = 0; i < e; i++) for (int j = 0; j < e; j++) check_mul(f, 1u << i, 1u << j);
    for (int i = 0; i < e; i++) { uint32_t v = g.next() & F.mask(); check_mul(f, v, 0); check_mul(f, 0, v); check_mul(f, v, 1); check_mul(f, 1, v); check_mul(f, F.mask(), v); check_mul(f, v, 1u << i); }
    uint32_t a = gen_elem(c, F), b = gen_elem(c, F); check_mul(f, a, b);
  }
  if (e <= 10) for (uint32_t a = 1; a < F.order; a++) check_inv(f, a);
  else { pbt::Rng g(c.seed64()); for (int k = 0; k < 500; k++) { uint32_t a = g.next() & F.mask(); if (a) check_inv(f, a); } for (int i = 0; i < e; i++) { check_inv(f, 1u << i); check_inv(f, F.mask() >> i); } }
  if (c.chance(1, 4)) {
    uint32_t a = gen_elem(c, F); c.d << " table for 0x" << std::hex << a << std::dec; c.cls("16-bit table");
    word *t = gf2e_t16_init(f.ff, a);
    for (uint32_t v = 0; v < 65536; v++) {
      bool valid = true; uint32_t want = 0;
      for (int k = 0; k < 16; k += F.w) { uint32_t x = (v >> k) & ((1u << F.w) - 1); if (x >= F.order) { valid = false; break; } want |= (uint32_t)F.mul(a, x) << k; }
      if (valid) CHECK(t[v] == want, "table of 0x%x at 0x%x is 0x%llx, expected 0x%x", a, v, (unsigned long long)t[v], want);
    }
    gf2e_t16_free(t);
  }
}

PROPERTY(F02, 20000, 40000,
  "Each case either compares a shipped table of irreducible polynomials (every degree 1..16) with a trial-division enumeration, or checks 200 operand pairs for product, quotient, remainder, "
  "degree and modular inverse, operands uniform, sparse or extreme with every operand degree equally likely. Non-trivial: an operand pair with quotient degree > 0, or a table.") {
  if (c.pick({8, 1})) {
    int d = c.range(1, 16); c.d << "irreducible table of degree " << d; c.cls("table degree " + std::to_string(d)); c.nontrivial();
    auto &irr = irreducibles(d); const word *t = irreducible_polynomials[d];
    CHECK(t[0] == irr.size(), "table of degree %d has %llu entries, expected %zu", d, (unsigned long long)t[0], irr.size());
    std::set<uint64_t> s(t + 1, t + 1 + t[0]), w(irr.begin(), irr.end());
    CHECK(s == w, "table of degree %d is not the set of irreducible polynomials", d);
    return;
  }
  pbt::Rng g(c.seed64());
  auto pol = [&](int maxdeg) { int d = (int)g.below(maxdeg + 1); uint64_t v = g.next(); switch (g.below(4)) { case 0: v = 0; break; case 1: v = ~0ULL; break; default: break; } v &= (d ? (~0ULL >> (64 - d)) : 0); return v | 1ULL << d; };
  c.d << "polynomial identities";
  for (int k = 0; k < 200; k++) {
    int da = c.range(0, 31), d = k < 2 ? std::max(1, da) : 1 + (int)g.below(32);
    uint64_t a = d < 64 ? pol(d - 1) : pol(63), b = pol(31); if (g.below(20) == 0) a = 0; if (g.below(20) == 0) b = 0;
    if (k == 0) c.d << " d=" << d << " a=0x" << std::hex << a << " b=0x" << b << std::dec;
    word r = gf2x_mul(a, b, d); uint64_t want = (uint64_t)clmul(a, b);
    CHECK(r == want, "gf2x_mul(0x%llx,0x%llx,%d)=0x%llx expected 0x%llx", (unsigned long long)a, (unsigned long long)b, d, (unsigned long long)r, (unsigned long long)want);
    a = pol(63); b = pol(g.below(3) ? 63 : 20); if (g.below(30) == 0) a = 0;
    CHECK(gf2x_deg(a) == (a ? degree(a) : 0), "gf2x_deg(0x%llx)=%d", (unsigned long long)a, gf2x_deg(a));
    uint64_t rem, q = pdiv(a, b, &rem); word lr = 77;
    CHECK(gf2x_div(a, b) == q, "gf2x_div(0x%llx,0x%llx)=0x%llx expected 0x%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)gf2x_div(a, b), (unsigned long long)q);
    CHECK(gf2x_mod(a, b) == rem, "gf2x_mod(0x%llx,0x%llx)=0x%llx expected 0x%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)gf2x_mod(a, b), (unsigned long long)rem);
    CHECK(gf2x_divmod(a, b, &lr) == q && lr == rem, "gf2x_divmod(0x%llx,0x%llx)", (unsigned long long)a, (unsigned long long)b);
    if (q > 1) c.nontrivial();
    // modular inverse for a coprime pair, modulus of degree d
    d = 2 + (int)g.below(15); uint64_t m = pol(d); if (degree(m) != d) m |= 1ULL << d; uint64_t x = g.next() & ((1ULL << d) - 1);
    if (x && pgcd(x, m) == 1) { word iv = gf2x_invmod(x, m, d); CHECK(pmod(clmul(iv, x), m) == 1 && iv < (1ULL << d), "gf2x_invmod(0x%llx,0x%llx,%d)=0x%llx", (unsigned long long)x, (unsigned long long)m, d, (unsigned long long)iv); c.cls("inverse"); }
  }
}
