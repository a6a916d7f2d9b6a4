#include "ops.hpp"
using namespace ops;

namespace {
__attribute__((noinline)) void scribble_stack(int v) { volatile char b[16384]; memset((void *)b, v, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
void fill_with(int v) {
  br::g_fill = v;
#ifndef PBT_SAN
  mallopt(M_PERTURB, v ^ 0xff ? v ^ 0xff : 0x5a); // allocations get the complement
#endif
}
struct Run { std::vector<Mat> out; std::vector<long> ret; };
// one drawn call: the operation, its operands and their layouts
struct Call { OpP o; std::vector<Layout> lay; bool nz = false, alias = false, square = false; int with = 0; };
static Call setup(Ctx &c, const FF &f, int den = 300) {
  Call R;
  const Field &F = *f.F; bool wide = c.chance(1, 4); int u = 64 / f.w;
  bool alias = c.chance(1, 4); std::vector<int> wts = all_kinds; bool square = false;
  if (alias) { square = c.flip(); wts.assign(NK, 0); if (square) wts[MUL] = wts[ADDMUL] = 1; else { wts[ADD] = 3; wts[COPY] = 1; wts[SCALE] = 2; } }
  int sq = c.flip() ? c.range(1, 8) : gen_dim(c, 1, wide ? 80 : 20, u);
  Big big; if (!alias) big = gen_big(c, den); if (big.on) wts = big.w; std::function<int(bool)> dim = [&](bool col) { if (square) return sq; return big.on ? big_dim(c, big) : c.flip() ? c.range(1, 8) : wide ? gen_dim(c, 1, col ? 140 : 80, u) : gen_dim(c, 1, col ? std::min(90, 2 * u + 5) : 20, u); };
  OpP o = gen_op(c, f, wts, dim); c.d << o->name; c.cls(o->name);
  std::vector<Layout> lay; bool nz = false;
  int with = alias ? (square ? 2 : o->a.size() > 2 ? c.range(1, 2) : 1) : 0; // operand identified with another one
  if (alias && !square && !o->alias) { alias = false; with = 0; }
  for (size_t i = 0; i < o->a.size(); i++) { Arg &a = o->a[i]; a.val = gen_value(c, F, a, &o->a);
    lay.push_back(gen_layout(c, a.sl ? 1 : f.w, !a.clean, !a.clean)); nz |= a.role != OUT && !a.val.zero(); c.d << " " << a.m << "x" << a.n << "(" << lname(lay.back()) << ")"; if (a.m * a.n <= 40) c.d << show(a.val); }
  if (alias) { if (square) { o->a[2].val = o->a[1].val; c.cls("same matrix as both factors"); c.d << " same factors"; } else { o->a[0].val = o->a[with].val; c.cls("result is an operand"); c.d << " result is operand " << with; } }
  o->prepare(c);
  R.o = o; R.lay = lay; R.nz = nz; R.alias = alias; R.square = square; R.with = with; return R;
}
// runs a call on plain operands and forgets the results
static void run_plain(const FF &h, OpP q) {
  std::vector<PM> ps(q->a.size()); std::vector<SM> ss(q->a.size());
  for (size_t i = 0; i < q->a.size(); i++) { Arg &x = q->a[i]; x.v = V(); x.v.sl = x.sl; if (x.sl) { ss[i] = SM(h, x.val); x.v.s = ss[i].v; } else { ps[i] = PM(h, x.val); x.v.p = ps[i].v; } }
  q->run(*q);
}
}

PROPERTY(N01, 40000, 600000,
  "One operation of the catalogue (about 60 entry points in 20 groups) is executed twice on equal operands: fresh memory, freed memory and the stack are filled with different patterns before each execution, and in between up to three other operations run, over the same field or another one created and released in between. "
  "Results and returned data must be bit-equal and equal to the model, operands that are only read must keep every word (bits past the last column included). In one case of three the same call was made just before over another field of the same degree that has been released since. One case in four runs an operation with the result being one of its operands (additions, copies, packed scalar multiples) or the same matrix as both factors. "
  "Non-trivial: a non-zero operand and either noise operations in between or an aliased call.") {
  // "twin": the same call has just been made over another field of the same degree, which is gone now
  // (its memory is usually reused for the new field)
  FF f; Call K; uint32_t poly = gen_poly(c);
  if (c.chance(1, 3)) {
    int e = model::degree(poly); uint32_t poly2 = gen_poly(c, e, e);
    std::vector<uint64_t> tape, *old = c.s.tap;
    { FF g(poly2); c.s.tap = &tape; Ctx &cc = c; Call G; try { G = setup(cc, g, 40); } catch (...) { c.s.tap = old; throw; } c.s.tap = old; if (old) old->insert(old->end(), tape.begin(), tape.end()); run_plain(g, G.o); }
    c.d.str(""); c.classes.clear(); f = FF(poly); Ctx r; r.thorough = c.thorough; r.s.mode = pbt::Src::REPLAY; r.s.rep = tape.data(); r.s.nrep = tape.size();
    K = setup(r, f, 40); c.d << "after the same call over 0x" << std::hex << poly2 << std::dec << " "; c.d << r.d.str(); for (auto &x : r.classes) c.cls(x); c.cls(poly2 == poly ? "same call before" : "same call over another field before");
  } else { f = FF(poly); K = setup(c, f); }
  c.d << "GF(2^" << f.e << ")/0x" << std::hex << f.poly << std::dec << " "; c.cls("degree " + std::to_string(f.e));
  OpP o = K.o; auto &lay = K.lay; bool nz = K.nz, alias = K.alias, square = K.square; int with = K.with;
  std::vector<char> null(o->a.size()); if (!alias) for (size_t i = 0; i < o->a.size(); i++) null[i] = o->a[i].may_null && c.flip();
  auto exec = [&](int fill) {
    fill_with(fill); Op q = *o; std::vector<PM> ps(q.a.size()); std::vector<SM> ss(q.a.size()); Run R;
    for (size_t i = 0; i < q.a.size(); i++) { Arg &a = q.a[i]; a.v = V(); a.v.sl = a.sl; if (null[i]) continue; if (a.sl) { ss[i] = SM(f, a.val, lay[i]); a.v.s = ss[i].v; } else { ps[i] = PM(f, a.val, lay[i]); a.v.p = ps[i].v; } }
    if (alias) { if (square) q.a[2].v = q.a[1].v; else q.a[0].v = q.a[with].v; }
    scribble_stack(fill ^ 0x33);
    q.run(q);
    for (size_t i = 0; i < q.a.size(); i++) { Arg &a = q.a[i]; const char *w = q.name.c_str(); size_t k = alias && !square && i == 0 ? with : alias && square && i == 2 ? 1 : i;
      if (null[i]) { CHECK(a.sl ? a.v.s != nullptr : a.v.p != nullptr, "%s: returned NULL", w); if (a.sl) ss[i] = SM::own(a.v.s, f.F); else ps[i] = PM::own(a.v.p, f.F); }
      R.out.push_back(a.sl ? ss[k].get() : ps[k].get()); bool ro = a.role == IN && !(alias && !square && (int)i == with);
      if (null[i]) continue; if (a.sl) { if (ro) ss[k].unchanged(w); else ss[k].outside_unchanged(w); } else { if (ro) ps[k].unchanged(w); else ps[k].outside_unchanged(w); } }
    R.ret = q.ret;
    if (alias && !square) { expect_eq(R.out[0], q.want[0], (q.name + ", result is an operand").c_str()); }
    else verify(q, R.out);
    return R;
  };
  int p1 = c.n(256), p2 = c.pick({1, 1}) ? (p1 ^ 0xff) : (int)c.n(256);
  Run a = exec(p1);
  int noise = c.range(0, 3); c.nontrivial(nz && (noise || alias));
  for (int k = 0; k < noise; k++) { // other work in between
    bool other = c.chance(1, 3); FF g; if (other) { g = gen_field(c); c.cls("other field in between"); } const FF &h = other ? g : f; std::function<int(bool)> sm = [&](bool) { return c.range(1, 12); };
    OpP q = gen_op(c, h, all_kinds, sm); c.d << " ... " << q->name;
    for (size_t i = 0; i < q->a.size(); i++) q->a[i].val = gen_value(c, *h.F, q->a[i], &q->a);
    q->prepare(c); run_plain(h, q);
  }
  Run b = exec(p2);
  CHECK(a.ret == b.ret, "%s: returned data differ between two calls on equal operands", o->name.c_str());
  for (size_t i = 0; i < a.out.size(); i++) expect_eq(b.out[i], a.out[i], (o->name + ", second call on equal operands").c_str());
}
