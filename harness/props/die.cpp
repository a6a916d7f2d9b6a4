#include "bridge.hpp"
using namespace model;

namespace {
enum { M_OK, M_INNER, M_FIELD, M_CROWS, M_CCOLS, M_CFIELD, M_N };
const char *mm[] = {"fitting", "inner or operand dimension", "operand field", "result rows", "result columns", "result field"};
std::vector<word> g_before; std::function<void(std::vector<word> &)> g_snap;
void on_abort(int) { std::vector<word> now; g_snap(now); _exit(now == g_before ? 66 : 77); }
}

PROPERTY(D01, 18000, 60000,
  "One of 26 checked entry points with operands of random field, shape and content, either fitting or with exactly one mismatch (inner / operand dimensions, operand field - of the same or another degree and element width -, result rows, columns or field; "
  "result fresh or supplied), run in a child: a mismatch must abort with a diagnostic, before operands or result have been changed; a fitting call must return. Non-trivial: a mismatch.") {
  FF f = gen_field(c); const Field &F = *f.F; FF g;
  static const char *nm[] = {"mzed_add", "mzed_copy", "mzed_mul", "mzed_addmul", "mzed_mul_naive", "mzed_addmul_naive", "mzed_mul_newton_john", "mzed_addmul_newton_john", "mzed_mul_strassen", "mzed_addmul_strassen",
    "mzed_mul_karatsuba", "mzed_addmul_karatsuba", "mzed_mul_blm", "mzed_addmul_blm", "mzed_concat", "mzed_stack", "mzed_submatrix",
    "mzd_slice_add", "mzd_slice_mul_karatsuba", "mzd_slice_addmul_karatsuba", "mzd_slice_mul_blm", "mzd_slice_addmul_blm", "mzd_slice_mul", "mzd_slice_addmul", "mzd_slice_concat", "mzd_slice_stack"};
  int op = c.n(26); bool sl = op >= 17, add = op == 0 || op == 17, mulop = (op >= 2 && op <= 13) || (op >= 18 && op <= 23), acc = mulop && (op < 14 ? op % 2 == 1 : op % 2 == 1);
  bool copy = op == 1, cat = op == 14 || op == 24, st = op == 15 || op == 25, subm = op == 16;
  int kind = c.chance(1, 5) ? M_OK : c.range(1, M_N - 1);
  if ((cat || st || subm) && (kind == M_FIELD || kind == M_CFIELD)) kind = M_CROWS; // fields are not checked there
  if (copy && (kind == M_INNER || kind == M_FIELD)) kind = M_CFIELD;
  if (subm && kind == M_INNER) kind = M_CCOLS;
  c.d << nm[op] << ": " << mm[kind]; c.cls(nm[op]); c.cls(mm[kind]); c.nontrivial(kind != M_OK);
  auto dim = [&]() { return c.flip() ? c.range(1, 10) : gen_dim(c, 1, 90, 64 / f.w); };
  int m = dim(), k = dim(), n = mulop ? dim() : k, am = m, an = k, bm = mulop ? k : m, bn = n;
  if (add || copy) bn = k;
  if (cat) { bn = dim(); n = an + bn; } if (st) { bm = dim(); bn = an; }
  int cm = st ? am + bm : m, cn = mulop ? n : cat ? an + bn : k;
  auto off = [&](int v) { int d = c.pick({3, 3, 1}); if (d == 0) return v + 1; if (d == 1 && v > 1) return v - 1; return v + c.range(1, 70); };
  if (subm) { cm = c.range(1, m); cn = c.range(1, k); }
  int scm = cm, scn = cn; // fitting dimensions of the result
  if (kind == M_INNER) { if (mulop) { if (c.flip()) bm = off(bm); else an = off(an); if (an == bm) bm++; } else if (cat) bm = off(bm); else if (st) bn = off(bn); else if (c.flip()) bm = off(bm); else bn = off(bn); }
  if (kind == M_CROWS) { cm = off(cm); if (subm) cm = scm - 1; } if (kind == M_CCOLS) { cn = off(cn); if (subm) cn = scn - 1; }
  if (subm && (cm < 1 || cn < 1)) { cm = scm; cn = scn; kind = M_OK; c.nontriv = false; } // a larger target is allowed there
  bool supplied = kind >= M_CROWS || acc || c.flip();
  if (kind == M_FIELD || kind == M_CFIELD) {
    if (c.flip() && model::irreducibles(f.e).size() > 1) { uint32_t p; do { p = gen_poly(c, f.e, f.e); if (p == f.poly) p = model::irreducibles(f.e)[model::irreducibles(f.e)[0] == f.poly ? 1 : 0]; } while (p == f.poly); g = FF(p); }
    else { int lo = c.flip() ? (f.w == 2 ? 2 : f.w == 4 ? 3 : f.w == 8 ? 5 : 9) : 2, hi = lo == 2 && f.w != 2 ? 16 : f.w; if (f.w == 2) hi = 16; int e = c.range(lo, hi); if (e == f.e) e = e < hi ? e + 1 : lo; if (e == f.e) e = 2; if (e == f.e) e = 3; g = FF(gen_poly(c, e, e)); }
    c.d << " (other field 0x" << std::hex << g.poly << std::dec << ")";
  }
  const FF &fb = kind == M_FIELD ? g : f, &fc = kind == M_CFIELD ? g : f;
  c.d << " A " << am << "x" << an << " B " << bm << "x" << bn << (supplied ? " C " : " C fresh "); if (supplied) c.d << cm << "x" << cn;
  Mat A = gen_mat(c, F, am, an), B = gen_mat(c, *fb.F, bm, bn), C = gen_garbage(c, *fc.F, cm, cn); int cut = c.flip() ? 0 : 64;
  std::string err; int status;
  if (!sl) {
    PM a = in_p(c, f, A, true, !(cat || st || subm)), b(fb, B), r(fc, C); mzed_t *R = supplied ? r.v : nullptr, *x = a.v, *y = b.v;
    auto call = [&]() {
      switch (op) {
      case 0: mzed_add(R, x, y); break; case 1: mzed_copy(R, x); break; case 2: mzed_mul(R, x, y); break; case 3: mzed_addmul(R, x, y); break;
      case 4: mzed_mul_naive(R, x, y); break; case 5: mzed_addmul_naive(R, x, y); break; case 6: mzed_mul_newton_john(R, x, y); break; case 7: mzed_addmul_newton_john(R, x, y); break;
      case 8: mzed_mul_strassen(R, x, y, cut); break; case 9: mzed_addmul_strassen(R, x, y, cut); break; case 10: mzed_mul_karatsuba(R, x, y); break; case 11: mzed_addmul_karatsuba(R, x, y); break;
      case 12: mzed_mul_blm(R, x, y); break; case 13: mzed_addmul_blm(R, x, y); break; case 14: mzed_concat(R, x, y); break; case 15: mzed_stack(R, x, y); break;
      default: mzed_submatrix(R, x, 0, 0, scm, scn);
      } };
    g_snap = [&](std::vector<word> &o) { snap_mzd(a.root->x, o); snap_mzd(b.root->x, o); snap_mzd(r.root->x, o); };
    g_before.clear(); g_snap(g_before); status = in_child([&] { signal(SIGABRT, on_abort); call(); }, &err);
  } else {
    SM a = in_s(c, f, A, true, !(cat || st)), b(fb, B), r(fc, C); mzd_slice_t *R = supplied ? r.v : nullptr, *x = a.v, *y = b.v;
    auto call = [&]() {
      switch (op) {
      case 17: mzd_slice_add(R, x, y); break; case 18: mzd_slice_mul_karatsuba(R, x, y); break; case 19: mzd_slice_addmul_karatsuba(R, x, y); break; case 20: mzd_slice_mul_blm(R, x, y, nullptr); break;
      case 21: mzd_slice_addmul_blm(R, x, y, nullptr); break; case 22: mzd_slice_mul(R, x, y); break; case 23: mzd_slice_addmul(R, x, y); break; case 24: mzd_slice_concat(R, x, y); break; default: mzd_slice_stack(R, x, y);
      } };
    g_snap = [&](std::vector<word> &o) { auto s = [&](const SM &q, const FF &h) { for (int i = 0; i < h.e; i++) snap_mzd(q.root->x[i], o); }; s(a, f); s(b, fb); s(r, fc); };
    g_before.clear(); g_snap(g_before); status = in_child([&] { signal(SIGABRT, on_abort); call(); }, &err);
  }
  if (kind == M_OK) { CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "%s: fitting call did not return (status %x, %s)", nm[op], status, err.c_str()); return; }
  CHECK(!(WIFEXITED(status) && WEXITSTATUS(status) == 0), "%s: call with mismatch in %s returned", nm[op], mm[kind]);
  CHECK(!(WIFEXITED(status) && WEXITSTATUS(status) == 77), "%s: operands or result were changed before the mismatch in %s was rejected", nm[op], mm[kind]);
  CHECK(!WIFSIGNALED(status), "%s: mismatch in %s ended in signal %d", nm[op], mm[kind], WTERMSIG(status));
  CHECK(!err.empty(), "%s: mismatch in %s ended the program without a diagnostic", nm[op], mm[kind]);
}
