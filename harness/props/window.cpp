#include "ops.hpp"
using namespace ops;

namespace {
// one enclosing matrix per representation in which the operands are laid out side by side and below each other
struct Region { int r0, c0, m, n; };
}

PROPERTY(W01, 50000, 600000,
  "One operation of a catalogue of about 60 entry points in 20 groups is run twice on equal values: on stand-alone matrices and on views - several disjoint views of one enclosing matrix per representation, placed at random rows and word-aligned columns with "
  "arbitrary ragged right ends, some of them views of views. Results and all returned data must agree with the model and with each other; every entry of the enclosing matrix outside written views, and every bit past its last column, must be as before. "
  "Non-trivial: a view not starting in the first word or ending inside a word, and a non-zero operand.") {
  FF f = gen_field(c); const Field &F = *f.F; bool wide = c.chance(1, 4); int u = 64 / f.w;
  Big big = gen_big(c, 300); auto dim = [&](bool col) { return big.on ? big_dim(c, big) : c.flip() ? c.range(1, 8) : wide ? gen_dim(c, 1, col ? 140 : 80, u) : gen_dim(c, 1, col ? std::min(90, 2 * u + 5) : 20, u); };
  OpP o = gen_op(c, f, big.on ? big.w : all_kinds, dim); c.d << o->name; c.cls(o->name);
  bool nz = false; for (auto &a : o->a) { a.val = gen_value(c, F, a, &o->a); nz |= !a.val.zero(); c.d << " " << a.m << "x" << a.n; if (a.m * a.n <= 40) c.d << show(a.val); }
  o->prepare(c);
  Op ref = *o; // same parameters, run on stand-alone matrices
  std::vector<PM> sp(ref.a.size()); std::vector<SM> ss(ref.a.size()); std::vector<Mat> got1;
  for (size_t i = 0; i < ref.a.size(); i++) { Arg &a = ref.a[i]; a.v = V(); a.v.sl = a.sl; if (a.sl) { ss[i] = SM(f, a.val); a.v.s = ss[i].v; } else { sp[i] = PM(f, a.val); a.v.p = sp[i].v; } }
  ref.run(ref); for (size_t i = 0; i < ref.a.size(); i++) got1.push_back(ref.a[i].sl ? ss[i].get() : sp[i].get());
  verify(ref, got1);
  // layout of the views
  std::vector<Region> reg(o->a.size()); bool vnt = false;
  for (int S = 0; S < 2; S++) {
    int rows = c.range(0, 2), width = 0, row = rows, word0 = 0, hmax = 0; int uu = S ? 64 : u; bool any = false;
    for (size_t i = 0; i < o->a.size(); i++) { Arg &a = o->a[i]; if (a.sl != (S == 1)) continue; any = true;
      bool below = word0 == 0 || c.flip(); if (below) { row += hmax + c.range(0, 1); hmax = 0; word0 = c.range(0, 2); }
      reg[i] = Region{row, word0 * uu, a.m, a.n}; hmax = std::max(hmax, a.m); word0 += (a.n + uu - 1) / uu + c.range(0, 1); width = std::max(width, reg[i].c0 + a.n); if (a.n % uu || reg[i].c0) vnt = true;
    }
    rows = row + hmax + c.range(0, 2); int extra = c.flip() ? c.range(0, uu) : 0;
    bool clean = false; for (auto &a : o->a) if (a.sl == (S == 1) && a.clean) clean = true;
    if (clean) { // m4ri copies whole words for these: everything ends where the word ends or at the last column
      width = 0; row = c.range(0, 2); int maxn = 0; for (auto &a : o->a) if (a.sl == (S == 1)) maxn = std::max(maxn, a.n);
      for (size_t i = 0; i < o->a.size(); i++) { Arg &a = o->a[i]; if (a.sl != (S == 1)) continue; if (a.n % uu && a.n != maxn) vnt = vnt; reg[i] = Region{row, c.range(0, 1) * uu, a.m, a.n}; row += a.m + c.range(0, 1); width = std::max(width, reg[i].c0 + a.n); }
      rows = row + c.range(0, 1); extra = 0; }
    if (!any) continue;
    width += extra;
    Mat J(rows, width); fill_random(J, F, c.seed64());
    if (clean) for (size_t i = 0; i < o->a.size(); i++) if (o->a[i].sl == (S == 1)) { // no foreign bits in the last word of a view
      int e0 = reg[i].c0 + reg[i].n, e1 = std::min(width, (e0 + uu - 1) / uu * uu); for (int r = reg[i].r0; r < reg[i].r0 + reg[i].m; r++) for (int j = e0; j < e1; j++) J.at(r, j) = 0; }
    for (size_t i = 0; i < o->a.size(); i++) if (o->a[i].sl == (S == 1)) for (int r = 0; r < reg[i].m; r++) for (int j = 0; j < reg[i].n; j++) J.at(reg[i].r0 + r, reg[i].c0 + j) = o->a[i].val.at(r, j);
    if (S == 0) { sp.emplace_back(PM(f, J)); } else { ss.emplace_back(SM(f, J)); }
  }
  mzed_t *rp = sp.size() > o->a.size() ? sp.back().v : nullptr; mzd_slice_t *rs = ss.size() > o->a.size() ? ss.back().v : nullptr;
  Mat before_p = rp ? sp.back().get() : Mat(), before_s = rs ? ss.back().get() : Mat();
  std::vector<std::function<void()>> fin;
  for (size_t i = 0; i < o->a.size(); i++) { Arg &a = o->a[i]; Region &g = reg[i]; a.v = V(); a.v.sl = a.sl; bool nest = c.chance(1, 4); int uu = a.sl ? 64 : u;
    int top = nest ? c.range(0, g.r0) : 0, lw = nest ? c.range(0, g.c0 / uu) * uu : 0;
    if (a.sl) { if (nest) { mzd_slice_t *o1 = mzd_slice_init_window(rs, top, lw, rs->nrows, rs->ncols); a.v.s = mzd_slice_init_window(o1, g.r0 - top, g.c0 - lw, g.r0 - top + g.m, g.c0 - lw + g.n); fin.push_back([o1] { mzd_slice_free_window(o1); }); c.cls("view of a view"); }
      else a.v.s = mzd_slice_init_window(rs, g.r0, g.c0, g.r0 + g.m, g.c0 + g.n); }
    else { if (nest) { mzed_t *o1 = mzed_init_window(rp, top, lw, rp->nrows, rp->ncols); a.v.p = mzed_init_window(o1, g.r0 - top, g.c0 - lw, g.r0 - top + g.m, g.c0 - lw + g.n); fin.push_back([o1] { mzed_free_window(o1); }); c.cls("view of a view"); }
      else a.v.p = mzed_init_window(rp, g.r0, g.c0, g.r0 + g.m, g.c0 + g.n); } }
  c.nontrivial(nz && vnt);
  std::vector<V> views; for (auto &a : o->a) views.push_back(a.v);
  o->run(*o);
  for (size_t i = 0; i < views.size(); i++) CHECK(views[i].p == o->a[i].v.p && views[i].s == o->a[i].v.s, "%s: returned another matrix than the supplied view", o->name.c_str());
  std::vector<Mat> got2;
  for (size_t i = 0; i < o->a.size(); i++) { Arg &a = o->a[i]; Mat R = a.sl ? ss.back().get() : sp.back().get(); got2.push_back(model::sub(R, reg[i].r0, reg[i].c0, reg[i].r0 + reg[i].m, reg[i].c0 + reg[i].n)); }
  verify(*o, got2);
  for (size_t i = 0; i < o->a.size(); i++) expect_eq(got2[i], got1[i], "on a view, compared with stand-alone copies");
  CHECK(o->ret == ref.ret, "%s: returns other data on views than on stand-alone copies", o->name.c_str());
  for (int S = 0; S < 2; S++) { if (!(S ? (void *)rs : (void *)rp)) continue; Mat W = S ? before_s : before_p, N = S ? ss.back().get() : sp.back().get();
    for (size_t i = 0; i < o->a.size(); i++) if (o->a[i].sl == (S == 1)) for (int r = 0; r < reg[i].m; r++) for (int j = 0; j < reg[i].n; j++) W.at(reg[i].r0 + r, reg[i].c0 + j) = got2[i].at(r, j);
    expect_eq(N, W, "enclosing matrix outside the views"); if (S) ss.back().outside_unchanged("past the last column"); else sp.back().outside_unchanged("past the last column"); }
  for (auto &v : views) { if (v.s) mzd_slice_free_window(v.s); if (v.p) mzed_free_window(v.p); }
  for (auto &fn : fin) fn();
}
