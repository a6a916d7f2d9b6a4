#include "ops.hpp"
using namespace ops;

namespace {
struct Root { int id; bool sl; Mat val; PM p; SM s; int nr() const { return val.m; } int nc() const { return val.n; } };
typedef std::shared_ptr<Root> RootP;
struct World { FF f; std::vector<RootP> pool; std::vector<int> dr, dc; int next = 0; };
struct Place { RootP r; int r0 = 0, c0 = 0; bool view = false; };

RootP mk(World &W, bool sl, const Mat &A) { auto r = std::make_shared<Root>(); r->id = W.next++; r->sl = sl; r->val = A; if (sl) r->s = SM(W.f, A); else r->p = PM(W.f, A); W.pool.push_back(r); return r; }
void audit(World &W, const char *what) { // every live matrix holds exactly what the model holds
  for (auto &r : W.pool) {
    Mat got = r->sl ? r->s.get() : r->p.get(); std::string w = std::string("after ") + what + ", matrix " + std::to_string(r->id); expect_eq(got, r->val, w.c_str());
    if (r->sl) r->s.outside_unchanged(w.c_str()), clean_tail(r->s.root, w.c_str()); else r->p.outside_unchanged(w.c_str()), clean_tail(r->p.root, w.c_str());
  }
}
bool overlap(const Place &a, int m, int n, const Place &b, int k, int l) { return a.r == b.r && a.r0 < b.r0 + k && b.r0 < a.r0 + m && a.c0 < b.c0 + l && b.c0 < a.c0 + n; }
}

PROPERTY(S01, 24000, 300000,
  "A history of up to 24 steps (70 in the thorough tier) over one or two fields alive at once and a pool of packed and sliced matrices: each step draws an operation of the catalogue (about 60 entry points), takes its operands from the pool - whole matrices, the same matrix twice, or word-aligned views into a pool "
  "matrix - or creates them, with the result in a new, an existing or (where allowed) an operand matrix. The model performs the same step on plain arrays (decompositions are adopted after L*E = P*A is verified). After every step all live matrices are compared entry by entry, and bits past their last columns must be untouched. "
  "Non-trivial: at least three steps with at least one operand produced by an earlier step.") {
  int nf = c.chance(1, 3) ? 2 : 1; std::vector<std::unique_ptr<World>> ws;
  bool wide = c.chance(1, 5);
  for (int i = 0; i < nf; i++) {
    ws.emplace_back(new World); World &W = *ws.back(); W.f = gen_field(c); int u = 64 / W.f.w;
    int k = c.range(2, 4); for (int j = 0; j < k; j++) { W.dr.push_back(c.flip() ? c.range(1, 8) : wide ? gen_dim(c, 1, 80, u) : gen_dim(c, 1, 16, u)); }
    W.dc = W.dr; W.dc.push_back(wide ? gen_dim(c, 1, 140, u) : gen_dim(c, 1, std::min(70, 2 * u + 5), u)); W.dc.push_back(std::min(wide ? 128 : 64, u));
  }
  int steps = c.range(1, c.thorough ? 70 : 24), reused = 0, done = 0;
  for (int t = 0; t < steps; t++) {
    if (t && !c.chance(14, 15)) break; // lets the shrinker cut histories short
    World &W = *ws[nf > 1 ? c.n(nf) : 0]; const Field &F = *W.f.F; int u = 64 / W.f.w;
    while (W.pool.size() > 9) W.pool.erase(W.pool.begin() + c.n(W.pool.size()));
    std::function<int(bool)> dim = [&](bool col) { auto &d = col ? W.dc : W.dr; return d[c.n(d.size())]; };
    OpP o = gen_op(c, W.f, all_kinds, dim); c.d << "; " << o->name; c.cls(o->name);
    std::vector<Place> pl(o->a.size()); bool old = false;
    for (size_t i = 0; i < o->a.size(); i++) {
      Arg &a = o->a[i]; int uu = a.sl ? 64 : u; Place P; bool found = false;
      if (a.may_null && c.flip()) { pl[i].r = nullptr; a.v = V(); a.v.sl = a.sl; c.d << " new"; a.val = Mat(a.m, a.n); continue; }
      if (c.chance(4, 5)) { // from the pool
        std::vector<Place> cand;
        for (auto &r : W.pool) if (r->sl == a.sl) {
          if (r->nr() == a.m && r->nc() == a.n) { Place q; q.r = r; for (int k = 0; k < 3; k++) cand.push_back(q); }
          if (!a.clean && r->nr() >= a.m && r->nc() >= a.n) { Place q; q.r = r; q.view = true; q.r0 = c.range(0, r->nr() - a.m); q.c0 = c.range(0, (r->nc() - a.n) / uu) * uu; cand.push_back(q); }
        }
        if (!cand.empty()) { P = cand[c.n(cand.size())]; found = true;
          for (size_t j = 0; j < i && found; j++) if (pl[j].r && (a.role != IN || o->a[j].role != IN) && overlap(P, a.m, a.n, pl[j], o->a[j].m, o->a[j].n)) {
            bool same = !P.view && !pl[j].view && P.r == pl[j].r; if (!(same && o->alias && j == 0)) found = false; }
          if (found) { Mat v = model::sub(P.r->val, P.r0, P.c0, P.r0 + a.m, P.c0 + a.n); if (a.role != OUT && !fits(F, v, a.need)) found = false; else { a.val = v; if (a.role != OUT) old = true; } } }
      }
      if (!found) { a.val = gen_value(c, F, a, &o->a); P = Place(); P.r = mk(W, a.sl, a.val); }
      c.d << (found ? P.view ? " view of #" : " #" : " fresh #") << P.r->id << "[" << P.r0 << "," << P.c0 << "]" << a.m << "x" << a.n; if (!found && a.m * a.n <= 24) c.d << show(a.val);
      pl[i] = P; a.v = V(); a.v.sl = a.sl; Root &R = *P.r;
      if (P.view) { if (a.sl) a.v.s = mzd_slice_init_window(R.s.v, P.r0, P.c0, P.r0 + a.m, P.c0 + a.n); else a.v.p = mzed_init_window(R.p.v, P.r0, P.c0, P.r0 + a.m, P.c0 + a.n); c.cls("operand is a view"); }
      else { a.v.s = a.sl ? R.s.v : nullptr; a.v.p = a.sl ? nullptr : R.p.v; }
    }
    o->prepare(c);
    std::vector<V> given; for (auto &a : o->a) given.push_back(a.v);
    o->run(*o);
    // adopt results
    for (size_t i = 0; i < o->a.size(); i++) { Arg &a = o->a[i];
      if (!pl[i].r) { const char *w = o->name.c_str(); CHECK(a.sl ? a.v.s != nullptr : a.v.p != nullptr, "%s: returned NULL", w);
        auto r = std::make_shared<Root>(); r->id = W.next++; r->sl = a.sl; if (a.sl) { r->s = SM::own(a.v.s, &F); check_shape(a.v.s, W.f, a.m, a.n, w); r->s.take(); } else { r->p = PM::own(a.v.p, &F); check_shape(a.v.p, W.f, a.m, a.n, w); r->p.take(); }
        r->val = Mat(a.m, a.n); W.pool.push_back(r); pl[i].r = r; }
      else CHECK(a.v.p == given[i].p && a.v.s == given[i].s, "%s: returned another matrix than the supplied one", o->name.c_str()); }
    std::vector<Mat> got;
    for (size_t i = 0; i < o->a.size(); i++) { Root &R = *pl[i].r; Mat g = R.sl ? R.s.get() : R.p.get(); got.push_back(model::sub(g, pl[i].r0, pl[i].c0, pl[i].r0 + o->a[i].m, pl[i].c0 + o->a[i].n)); }
    if (o->check) o->check(*o, got);
    for (size_t i = 0; i < o->a.size(); i++) if (o->a[i].role != IN) { const Mat &w = o->exact ? o->want[i] : got[i]; Mat &T = pl[i].r->val; for (int r = 0; r < w.m; r++) for (int j = 0; j < w.n; j++) T.at(pl[i].r0 + r, pl[i].c0 + j) = w.at(r, j); }
    for (size_t i = 0; i < o->a.size(); i++) if (pl[i].view) { if (o->a[i].v.s) mzd_slice_free_window(o->a[i].v.s); if (o->a[i].v.p) mzed_free_window(o->a[i].v.p); }
    for (auto &w : ws) audit(*w, o->name.c_str());
    done++; if (old) reused++;
  }
  c.nontrivial(done >= 3 && reused >= 1);
}
