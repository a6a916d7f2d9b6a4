#include "ops.hpp"
#include "poly_common.hpp"
#include <ucontext.h>
#include <link.h>
using namespace ops;

// Cooperative threads: the library is compiled with a call at every basic block (gcc -fsanitize-coverage=trace-pc),
// where the running call may be put aside in favour of another one, as a drawn schedule says. libm4ri is never interrupted.
namespace {
struct Co { ucontext_t ctx; char *stack = nullptr; std::function<void()> body; bool done = false, failed = false; std::string err; std::vector<char> tls; };
const size_t STACK = 8u << 20;
ucontext_t main_ctx; Co *cur = nullptr; uint64_t left = 0;
void entry() { Co *me = cur; try { me->body(); } catch (const pbt::Fail &f) { me->failed = true; me->err = f.msg; } me->done = true; cur = nullptr; swapcontext(&me->ctx, &main_ctx); }
}
#ifdef PBT_COOP
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc() { Co *me = cur; if (!me) return; if (--left) return; cur = nullptr; swapcontext(&me->ctx, &main_ctx); }
#endif
namespace {
// A thread-local variable is a sound choice of the library: every cooperative thread gets its own copy of the executable's thread-local block.
struct Tls {
  char *at = nullptr; size_t n = 0; const char *init = nullptr; size_t ninit = 0;
  Tls() {
    dl_iterate_phdr([](dl_phdr_info *i, size_t, void *p) {
      Tls &t = *(Tls *)p;
      for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { t.at = (char *)i->dlpi_tls_data; t.n = i->dlpi_phdr[k].p_memsz; t.init = (const char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); t.ninit = i->dlpi_phdr[k].p_filesz; }
      return 1; }, this); // the first object is the executable
  }
  void load(std::vector<char> &v) { if (!n) return; if (v.empty()) { v.assign(n, 0); memcpy(v.data(), init, ninit); } memcpy(at, v.data(), n); }
  void save(std::vector<char> &v) { if (n) { v.resize(n); memcpy(v.data(), at, n); } }
};
struct Sched { // lengths of the turns, in basic blocks
  int style; uint64_t q; pbt::Rng g; int turn = 0;
  uint64_t next() { turn++; return now() << (turn > 4000 ? std::min(24, (turn - 4000) / 500 + 1) : 0); } // long calls: turns grow after 4000 switches
  uint64_t now() { switch (style) { case 0: return q; case 1: return 1 + (g.next() % (1ull << (1 + g.next() % 12))); default: return turn == 1 ? q : turn == 3 ? 1 + (g.next() % (1ull << (1 + g.next() % 12))) : 1ull << 36; } }
};
// runs all bodies to their end, interleaved; returns the number of switches
int interleave(std::vector<Co> &cs, Sched &s) {
  static std::vector<char *> stacks; int sw = 0; Tls tls; std::vector<char> mine; tls.save(mine);
  for (size_t i = 0; i < cs.size(); i++) {
    if (i >= stacks.size()) stacks.push_back((char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    cs[i].stack = stacks[i]; getcontext(&cs[i].ctx); cs[i].ctx.uc_stack.ss_sp = cs[i].stack; cs[i].ctx.uc_stack.ss_size = STACK; cs[i].ctx.uc_link = nullptr; makecontext(&cs[i].ctx, entry, 0);
  }
  size_t k = 0, alive = cs.size();
  while (alive) {
    while (cs[k].done) k = (k + 1) % cs.size();
    left = s.next(); tls.load(cs[k].tls); cur = &cs[k]; swapcontext(&main_ctx, &cs[k].ctx); cur = nullptr; tls.save(cs[k].tls); tls.load(mine);
    if (cs[k].done) alive--; else sw++;
    k = (k + 1) % cs.size();
  }
  return sw;
}
struct Task {
  uint32_t poly = 0; gf2e *made = nullptr; std::vector<uint64_t> xs, ys, prod, inv; // a task that builds a field and computes in it (poly != 0)
  int pk = -1, djb = 0; mzd_poly_t *A = nullptr, *B = nullptr, *C = nullptr, *R = nullptr; polys::Pol pa, pb, want; // a task that multiplies matrix polynomials over GF(2) (pk >= 0)
  FF own; const FF *f = nullptr; OpP o; std::vector<Layout> lay; std::vector<char> null, shared; std::vector<PM> ps; std::vector<SM> ss;
  void run() {
    switch (pk) {
    case 0: R = _mzd_poly_addmul_naive(C, A, B); return;
    case 1: R = _mzd_poly_addmul_karatsubs_balanced(C, A, B); return;
    case 2: { int *p = crt_init(A->depth, B->depth); blm_t *l = blm_init_crt(NULL, A->depth, B->depth, p, djb); R = _mzd_poly_addmul_blm(C, A, B, l); blm_free(l); m4ri_mm_free(p); return; }
    case 3: R = _mzd_poly_addmul_crt(C, A, B); return;
    case 4: R = _mzd_poly_addmul_ext1(C, A, B); return;
    }
    if (!poly) { o->run(*o); return; }
    made = gf2e_init(poly); for (size_t i = 0; i < xs.size(); i++) { prod.push_back(made->mul(made, xs[i], ys[i])); inv.push_back(xs[i] ? made->inv(made, xs[i]) : 0); }
  }
};
void draw_poly(Ctx &c, Task &t, const Task *like) { // like: the same product with other contents, perhaps another shape
  static const char *nm[] = {"addmul_naive", "addmul_karatsuba", "addmul_blm", "addmul_crt", "addmul_ext1"};
  bool same = like && c.chance(4, 5), shape = same && c.flip(); t.pk = same ? like->pk : c.pick({2, 3, 3, 3, 3}); t.djb = c.flip();
  int fl = shape ? like->A->depth : c.range(1, t.pk == 4 ? 9 : 8), gl = shape ? like->B->depth : t.pk == 1 ? fl : c.range(1, t.pk == 4 ? 9 : 8), m = shape ? like->A->nrows : c.range(1, 8), k = shape ? like->A->ncols : c.range(1, 8), n = shape ? like->B->ncols : c.chance(1, 6) ? c.range(60, 140) : c.range(1, 8);
  t.A = polys::gen(c, fl, m, k); t.B = polys::gen(c, gl, k, n); t.pa = polys::bits(t.A); t.pb = polys::bits(t.B); t.want = polys::convolve(t.pa, t.pb, m, n);
  if (c.flip()) { t.C = polys::gen(c, fl + gl - 1, m, n); polys::Pol o = polys::bits(t.C); for (size_t i = 0; i < o.size(); i++) for (int x = 0; x < m; x++) for (int y = 0; y < n; y++) t.want[i][x][y] ^= o[i][x][y]; }
  c.d << "mzd_poly " << nm[t.pk] << " " << fl << "," << gl << " " << m << "x" << k << "x" << n; c.cls("matrix polynomials");
}
OpP draw_op(Ctx &c, const FF &f) {
  int u = 64 / f.w; bool wide = c.chance(1, 4); Big big = gen_big(c, 400); std::vector<int> wts = big.on ? big.w : all_kinds;
  std::function<int(bool)> dim = [&](bool col) { return big.on ? big_dim(c, big) : c.flip() ? c.range(1, 8) : gen_dim(c, 1, col && wide ? 80 : 20, col ? u : 1); };
  return gen_op(c, f, wts, dim);
}
void fill_task(Ctx &c, Task &t) { // contents, memory layout, parameters
  for (auto &a : t.o->a) { a.val = gen_value(c, *t.f->F, a, &t.o->a); t.lay.push_back(gen_layout(c, a.sl ? 1 : t.f->w, !a.clean, !a.clean)); t.null.push_back(a.may_null && c.flip()); t.shared.push_back(0); }
  t.o->prepare(c);
}
}

PROPERTY(H01, 16000, 300000,
  "Two or three cooperative threads execute 1-3 operations of the catalogue each (about 60 entry points in 20 groups) on separate operands: the library calls the scheduler at every basic block, and a drawn schedule (constant turns, random turns, one preemption at a random block) decides where a call is put aside. "
  "The later calls are often the first one with other contents, another shape or scalar, over the same field object or another field of the same degree; operands that are only read are sometimes the same object in several calls. Every result must equal the model, read-only operands and surroundings stay unchanged. "
  "A call may also build a field and compute in it, or multiply matrix polynomials over GF(2) (five algorithms, bit-level convolution as the model). Non-trivial: at least one switch inside a call and a non-zero operand.") {
#ifndef PBT_COOP
  c.cls("not instrumented"); return;
#endif
  FF f = gen_field(c); int nt = c.chance(1, 5) ? 3 : 2; std::vector<int> th; // thread of each call
  for (int k = 0; k < nt; k++) for (int i = c.pick({3, 1, 1}); i >= 0; i--) th.push_back(k);
  bool chain = c.flip(), lock = c.chance(1, 3); // lock: every thread makes the same two calls
  if (lock) { th = {0, 0, 1, 1}; nt = 2; c.cls("same two calls in both threads"); }
  std::vector<Task> ts(th.size()); if ((int)th.size() > nt) c.cls("several calls in a thread"); std::vector<uint64_t> tape, *old = c.s.tap; bool nz = false, fields = false;
  for (size_t k = 0; k < ts.size(); k++) {
    Task &t = ts[k]; t.f = &f;
    if ((fields = k ? lock ? fields : c.chance(fields ? 4 : 1, fields ? 5 : 20) : c.chance(1, 12))) {
      t.poly = gen_poly(c, 2, c.chance(1, 8) ? 16 : 10); int e = model::degree(t.poly); auto mf = model::field_for(t.poly); for (int i = 0; i < 30; i++) { t.xs.push_back(gen_elem(c, *mf)); t.ys.push_back(gen_elem(c, *mf)); }
      c.d << (!k ? " " : th[k] == th[k - 1] ? ", then " : " | ") << "construction of GF(2^" << e << ")/0x" << std::hex << t.poly << std::dec; c.cls("field construction"); nz = true; continue;
    }
    if (k ? ts[0].pk >= 0 : c.chance(1, 14)) { c.d << (!k ? " " : th[k] == th[k - 1] ? ", then " : " | "); draw_poly(c, t, k ? &ts[0] : nullptr); nz |= !polys::zero(t.want); continue; }
    if (k == 0 || ts[0].poly) { c.s.tap = &tape; try { t.o = draw_op(c, f); } catch (...) { c.s.tap = old; throw; } c.s.tap = old; if (old) old->insert(old->end(), tape.begin(), tape.end()); fill_task(c, t); }
    else {
      int fk = lock || chain && c.chance(3, 4) ? 0 : c.pick({3, 2, 1}); if (fk) { t.own = FF(fk == 1 ? gen_poly(c, f.e, f.e) : gen_poly(c)); t.f = &t.own; c.cls(fk == 1 ? "another field of the same degree" : "another field"); }
      if (lock || (fk < 2 && c.chance(2, 3))) { // the same operation, sometimes with another shape or scalar
        std::vector<uint64_t> tape2 = tape; if (c.chance(lock ? 1 : 4, 6)) for (int i = c.range(1, 2); i > 0; i--) { size_t at = tape.size() / 2 + c.n(tape.size() - tape.size() / 2); if (at < tape2.size()) tape2[at] = c.seed64(); }
        Ctx r; r.thorough = c.thorough; r.s.mode = pbt::Src::REPLAY; r.s.rep = tape2.data(); r.s.nrep = tape2.size(); t.o = draw_op(r, *t.f); c.cls("the same operation"); }
      else t.o = draw_op(c, *t.f);
      fill_task(c, t);
      if (!fk) for (size_t i = 0; i < t.o->a.size() && i < ts[0].o->a.size(); i++) { // share operands that are only read
        Arg &a = t.o->a[i], &b = ts[0].o->a[i];
        if (a.role == IN && b.role == IN && a.sl == b.sl && a.m == b.m && a.n == b.n && a.need == b.need && a.clean == b.clean && a.need == ANY && c.chance(1, 3)) { a.val = b.val; t.shared[i] = 1; c.cls("shared operand"); }
      }
      t.o->prepare(c);
    }
    c.d << (!k ? " " : th[k] == th[k - 1] ? ", then " : " | ") << t.o->name << " 0x" << std::hex << t.f->poly << std::dec; c.cls(t.o->name);
    for (size_t i = 0; i < t.o->a.size(); i++) { Arg &a = t.o->a[i]; nz |= a.role != OUT && !a.val.zero(); c.d << " " << a.m << "x" << a.n << (t.shared[i] ? "(shared)" : ""); }
  }
  Sched s{c.pick({3, 3, 2}), 0, pbt::Rng(0)}; { int b = s.style == 0 && c.flip() ? 0 : c.range(0, s.style == 2 ? 14 : 10); s.q = 1 + c.n(1 << b); s.g = pbt::Rng(c.seed64()); }
  c.d << (s.style == 0 ? " turns of " : s.style == 1 ? " random turns" : " preempted after "); if (s.style != 1) c.d << s.q; c.cls(s.style == 0 ? "constant turns" : s.style == 1 ? "random turns" : "one preemption");
  std::vector<Co> cs(nt); int finished = 0;
  for (int k = 0; k < nt; k++) cs[k].body = [&, k] { // lock: the second calls start together
    for (size_t i = 0; i < ts.size(); i++) if (th[i] == k) { ts[i].run(); if (lock && ++finished < 2) { Co *me = cur; while (me && finished < 2) { cur = nullptr; swapcontext(&me->ctx, &main_ctx); } } }
    };
  for (size_t k = 0; k < ts.size(); k++) {
    Task &t = ts[k];
    if (t.poly || t.pk >= 0) continue;
    t.ps.resize(t.o->a.size()); t.ss.resize(t.o->a.size());
    for (size_t i = 0; i < t.o->a.size(); i++) {
      Arg &a = t.o->a[i]; a.v = V(); a.v.sl = a.sl; if (t.null[i]) continue;
      if (t.shared[i]) { a.v = ts[0].o->a[i].v; continue; }
      if (a.sl) { t.ss[i] = SM(*t.f, a.val, t.lay[i]); a.v.s = t.ss[i].v; } else { t.ps[i] = PM(*t.f, a.val, t.lay[i]); a.v.p = t.ps[i].v; }
    }
  }
  int sw = interleave(cs, s); c.nontrivial(sw > 0 && nz);
  for (auto &co : cs) if (co.failed) fail("%s", co.err.c_str());
  for (size_t k = 0; k < ts.size(); k++) {
    Task &t = ts[k];
    if (t.poly) {
      auto mf = model::field_for(t.poly); const Field &F = *mf; gf2e *m = t.made; int w = th[k] + 1;
      CHECK(m->minpoly == t.poly && m->degree == F.e, "field built in thread %d: wrong degree or polynomial", w);
      for (size_t i = 0; i < t.xs.size(); i++) {
        CHECK(t.prod[i] == F.mul(t.xs[i], t.ys[i]) && t.inv[i] == (t.xs[i] ? F.inv(t.xs[i]) : 0), "product or inverse computed in thread %d is wrong: 0x%llx, 0x%llx", w, (unsigned long long)t.xs[i], (unsigned long long)t.ys[i]);
        CHECK(m->mul(m, t.xs[i], t.ys[i]) == F.mul(t.xs[i], t.ys[i]), "field built in thread %d multiplies 0x%llx, 0x%llx wrongly", w, (unsigned long long)t.xs[i], (unsigned long long)t.ys[i]);
      }
      if (F.e <= 8) for (uint32_t a = 0; a < F.order; a += F.e < 7 ? 1 : 3) for (uint32_t b = 0; b < F.order; b += F.e < 7 ? 1 : 2) CHECK(m->mul(m, a, b) == F.mul(a, b), "field built in thread %d multiplies 0x%x, 0x%x wrongly", w, a, b);
      gf2e_free(m); continue;
    }
    if (t.pk >= 0) {
      int w = th[k] + 1; CHECK(t.R && (!t.C || t.R == t.C) && t.R->depth >= (int)t.want.size(), "matrix polynomial product of thread %d: result missing or too short", w);
      polys::Pol got = polys::bits(t.R); for (size_t i = 0; i < got.size(); i++) CHECK(i < t.want.size() ? got[i] == t.want[i] : polys::zero({got[i]}), "matrix polynomial product of thread %d: coefficient %zu wrong", w, i);
      CHECK(polys::bits(t.A) == t.pa && polys::bits(t.B) == t.pb, "matrix polynomial product of thread %d: operand changed", w);
      mzd_poly_free(t.A); mzd_poly_free(t.B); mzd_poly_free(t.R); continue;
    }
    Op &q = *t.o; std::string w = q.name + " (call " + std::to_string(k + 1) + ", thread " + std::to_string(th[k] + 1) + ")";
    std::vector<Mat> out;
    for (size_t i = 0; i < q.a.size(); i++) {
      Arg &a = q.a[i];
      if (t.null[i]) { CHECK(a.sl ? a.v.s != nullptr : a.v.p != nullptr, "%s: returned NULL", w.c_str()); if (a.sl) t.ss[i] = SM::own(a.v.s, t.f->F); else t.ps[i] = PM::own(a.v.p, t.f->F); }
      Task &h = t.shared[i] ? ts[0] : t; out.push_back(a.sl ? h.ss[i].get() : h.ps[i].get());
      if (t.null[i]) continue;
      if (a.sl) { if (a.role == IN) h.ss[i].unchanged(w.c_str()); else h.ss[i].outside_unchanged(w.c_str()); } else { if (a.role == IN) h.ps[i].unchanged(w.c_str()); else h.ps[i].outside_unchanged(w.c_str()); }
    }
    std::string nm = q.name; q.name = w; verify(q, out); q.name = nm;
  }
}
