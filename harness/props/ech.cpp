#include "ple_common.hpp"

PROPERTY(G01, 16000, 160000,
  "Random field; matrix of chosen shape, rank and column rank profile; layout; one of 5 echelonisation entry points in full mode; the result is compared entry by entry with the reduced row echelon form from an independent elimination. "
  "Non-trivial: rank at least 1 and more than one row.") {
  FF f = gen_field(c); const Field &F = *f.F; int op = c.pick({3, 2, 4, 3, 5}); Mat A, R; rci_t r;
  gen_ech_case(c, f, op, 1, A); run_ech(c, f, op, 1, A, R, r);
  Mat W = A; auto piv = rref(F, W); c.nontrivial(piv.size() > 0 && A.m > 1); c.d << " rank " << piv.size();
  expect_eq(R, W, ech_name[op]); CHECK(r == (int)piv.size(), "%s: rank %d, expected %d", ech_name[op], r, (int)piv.size());
}

PROPERTY(G02, 16000, 160000,
  "As G01 in non-full mode: the result must be in row echelon form with leading ones, with as many non-zero rows as reported, and must have the same reduced row echelon form (row space) as the input. Non-trivial: rank at least 1 and more than one row.") {
  FF f = gen_field(c); const Field &F = *f.F; int op = c.pick({3, 2, 4, 3, 5}); Mat A, R; rci_t r;
  gen_ech_case(c, f, op, 0, A); run_ech(c, f, op, 0, A, R, r); check_ref(R, r, ech_name[op]);
  Mat W = A, V = R; auto piv = rref(F, W); rref(F, V); c.nontrivial(piv.size() > 0 && A.m > 1); c.d << " rank " << piv.size();
  expect_eq(V, W, "reduced form of the result"); CHECK(r == (int)piv.size(), "%s: rank %d, expected %d", ech_name[op], r, (int)piv.size());
}

PROPERTY(I01, 12000, 120000,
  "Random field and square matrix (random, sparse, triangular products, chosen rank deficiency), layout; inverted fresh or into a supplied matrix with old content: both products with the input must be the identity and the input unchanged; "
  "singular matrices are inverted in a child, which must abort with a diagnostic. Non-trivial: at least 2 x 2 and not a multiple of the identity.") {
  FF f = gen_field(c); const Field &F = *f.F; int n = c.flip() ? c.range(1, 12) : gen_dim(c, 1, 80, 64 / f.w); if (c.chance(1, 150)) n = c.range(100, f.w == 16 ? 200 : 280), c.cls("large"); c.d << "invert"; Mat A;
  bool sing = c.chance(1, 12);
  if (c.chance(1, 4)) A = gen_mat(c, F, n, n);
  else { // product of triangular matrices with a row permutation: invertible
    pbt::Rng g(c.seed64()); Mat L(n, n), U(n, n); int dens = c.range(0, 3);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { uint16_t v = (dens == 0 || (int)g.below(4) < dens) ? g.next() & F.mask() : 0; if (i == j) { L.at(i, i) = 1; U.at(i, i) = 1 + g.below(F.order - 1); } else if (i > j) L.at(i, j) = v; else U.at(i, j) = v; }
    A = mul(F, L, U); if (c.flip()) for (int i = n - 1; i > 0; i--) swap_rows(A, i, g.below(i + 1));
    if (sing) { int k = g.below(n); for (int j = 0; j < n; j++) A.at(k, j) = 0; int t = g.below(n); if (t != k) row_addmul(F, A, k, A, t, 1 + g.below(F.order - 1)); }
  }
  Mat E = A; int r = rref(F, E, false).size(); bool diag = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (A.at(i, j) != (i == j ? A.at(0, 0) : 0)) diag = false;
  c.nontrivial(n > 1 && !diag); c.d << " rank " << r;
  PM X = in_p(c, f, A);
  if (r < n) {
    c.cls("singular"); std::string err; bool fresh = c.flip();
    int st = in_child([&] { if (fresh) mzed_invert_newton_john(nullptr, X.v); else { PM B(f, Mat(n, n)); mzed_invert_newton_john(B.v, X.v); } }, &err);
    CHECK(!WIFEXITED(st), "inversion of a singular matrix (rank %d of %d) returned", r, n);
    CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && !err.empty(), "inversion of a singular matrix ended by signal %d without a diagnostic", WIFSIGNALED(st) ? WTERMSIG(st) : -1);
    return;
  }
  c.cls("invertible");
  Mat I = identity(n);
  auto verify = [&](const Mat &B) { expect_eq(mul(F, A, B), I, "A times inverse"); expect_eq(mul(F, B, A), I, "inverse times A"); };
  if (c.flip()) { mzed_t *b = mzed_invert_newton_john(nullptr, X.v); CHECK(b, "returned NULL"); PM B = PM::own(b, &F); check_shape(b, f, n, n, "inverse"); verify(B.get()); }
  else { PM B(f, gen_garbage(c, F, n, n), gen_layout(c, f.w, true, false)); CHECK(mzed_invert_newton_john(B.v, X.v) == B.v, "supplied result not returned"); verify(B.get()); B.outside_unchanged("inverse"); c.cls("into supplied matrix"); }
  X.unchanged("inversion");
}
