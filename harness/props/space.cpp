#include "bridge.hpp"
#include <ucontext.h>
#include <sys/mman.h>
using namespace pbt;
using namespace model;

// runs a call on a stack of its own; how much of it was touched (whole pages) and how much memory was allocated at most
namespace {
const size_t STACK = 64u << 20, PAGE = 4096;
struct Space { size_t heap, stack; };
ucontext_t here, there; std::function<void()> *body; std::string *failed;
void entry() { try { (*body)(); } catch (const pbt::Fail &f) { *failed = f.msg; } swapcontext(&there, &here); }
Space last;
template <class T> uint64_t count(T fn) {
  static char *st = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  madvise(st, STACK, MADV_DONTNEED); std::function<void()> f = fn; body = &f; std::string err; failed = &err;
  getcontext(&there); there.uc_stack.ss_sp = st; there.uc_stack.ss_size = STACK; there.uc_link = nullptr; makecontext(&there, entry, 0);
  struct mallinfo2 m = mallinfo2(); size_t base = m.uordblks + m.hblkhd; br::g_space_peak = base; br::g_space = true;
  swapcontext(&here, &there); br::g_space = false; if (!err.empty()) fail("%s", err.c_str());
  std::vector<unsigned char> in(STACK / PAGE); if (mincore(st, STACK, in.data())) fail("mincore: %s", strerror(errno));
  size_t low = 0; while (low < in.size() && !(in[low] & 1)) low++;
  last = {br::g_space_peak - base, (in.size() - low) * PAGE}; return 1;
}
}
#include "cost_ops.hpp"

PROPERTY(L02, 4000, 60000,
  "Each case draws a field, one of about 87 operations, shapes and the dimension to grow (rows, columns or, for products, the inner dimension), and runs the operation for sizes s, 2s, 4s and 8s (s up to 4000) on dense or very sparse operands, on a stack of its own. Measured are the largest amount of memory allocated at any time during the call and the pages of the stack touched. "
  "The memory may grow by at most four times as much (and 600 kB) as two copies of operands and result in both representations (plus, for operations that may use lookup tables, eight tables of 2^e rows and the triangular matrix), and only by twice as much if it more than triples in two successive doublings, and the stack must not grow by more than 24 KB. Non-trivial: the operation allocated memory.") {
  int tot = 0; for (auto &o : ops()) tot += o.weight;
  int x = c.n(tot); const Op *o = &ops()[0]; for (auto &q : ops()) { if (x < q.weight) { o = &q; break; } x -= q.weight; }
  std::string nm = o->name; bool tables = o->maxe < 16; for (const char *t : {"mul", "newton_john", "ple", "pluq", "trsm", "echelonize"}) tables |= nm.find(t) != nm.npos;
  c.d << nm << " "; FF f = gen_field(c, 2, o->maxe); c.cls(nm);
  std::vector<int> dirs; for (int d = 1; d <= 4; d *= 2) if (o->lin & d) dirs.push_back(d); bool cubic = o->lin != 3 && c.chance(1, 3); if (cubic) { dirs.clear(); for (int d = 1; d <= 4; d *= 2) if (!(o->lin & d)) dirs.push_back(d); if (dirs.empty()) dirs = {1, 2, 4}; }
  int dir = dirs[c.n(dirs.size())]; Job j{&f, 0, 0, 0, c.seed64(), (uint16_t)(2 + c.n(f.F->order - 2))};
  j.m = c.range(24, 60); j.n = c.range(1, 40); j.k = c.range(1, 24); if (c.flip()) j.m = 17, j.n = c.range(1, 4), j.k = c.range(1, 4); int &g = dir == 1 ? j.m : dir == 2 ? j.n : j.k, top = c.chance(1, 3) ? 4000 : 1000; size_t row = (8ull << f.e) * f.w / 8; // bytes per column of eight tables
  if (tables && dir != 1) top = std::max<size_t>(8, std::min<size_t>(top, (48u << 20) / (8 * row)));
  if (tables) for (int *d : {&j.n, &j.k}) if (d != &g) *d = std::max<size_t>(1, std::min<size_t>(*d, (48u << 20) / row));
  if (cubic) { top = std::min(top, 60); j.m = std::min(j.m, 30); j.n = std::min(j.n, 10); j.k = std::min(j.k, 10); if (dir == 4 && nm.find("trsm") != nm.npos && c.flip()) j.n = c.range(100, 300), top = 30; c.cls("a dimension with more than proportional work"); }
  int s0 = g = c.range(std::max(4, top / 4), top); j.style = c.pick({8, 1, 2, 1, 1, 1}); if (j.style) c.cls("sparse operands");
  c.d << (dir == 1 ? "rows" : dir == 2 ? "columns" : "inner dimension") << " growing from " << s0 << ", m=" << j.m << " n=" << j.n << " k=" << j.k; c.cls(dir == 1 ? "rows" : dir == 2 ? "columns" : "inner dimension");
  double h[4], unit[4]; size_t st[4];
  for (int i = 0; i < 4; i++) {
    g = s0 << i; o->run(j); h[i] = last.heap; st[i] = last.stack;
    auto u = [&](size_t m, size_t n) { size_t W = (n * f.w + 63) / 64, V = (n + 63) / 64; return (double)(m * ((W + 2) * 8 + f.e * ((V + 2) * 8))); };
    int o = nm.find("recursive") != nm.npos ? 100 : 0; // such operands are larger
    unit[i] = (nm.find("trsm") != nm.npos ? 2 * (u(j.k, j.n) + u(j.k, j.k)) : 2 * (u(j.m + o, j.n + o) + u(j.m + o, j.k + o) + u(j.k + o, j.n + o))) + (tables ? u(1, std::max(j.n, j.k) + o) * (8ull << f.e) : 0);
  }
  c.nontrivial(h[3] > 0);
  const char *dn = dir == 1 ? "rows" : dir == 2 ? "columns" : "inner columns"; double d1 = h[1] - h[0], d2 = h[2] - h[1], d3 = h[3] - h[2], du = unit[3] - unit[0];
  if (getenv("L02_SHOW")) printf("S %.3f %s e=%d %d heap %.0f %.0f %.0f %.0f stack %zu %zu unit %.0f\n", (h[3] - h[0]) / du, o->name, f.e, dir, h[0], h[1], h[2], h[3], st[0], st[3], unit[3]);
  CHECK(!(d2 > 3 * std::max(d1, 0.) + 16384 && d3 > 3 * std::max(d2, 0.) + 16384 && h[3] - h[0] > 2 * du), "%s over GF(2^%d): the memory needed grows faster than the number of %s: %.0f, %.0f, %.0f, %.0f bytes for %d, %d, %d, %d", o->name, f.e, dn, h[0], h[1], h[2], h[3], s0, 2 * s0, 4 * s0, 8 * s0);
  CHECK(h[3] - h[0] <= 4 * du + 600000, "%s over GF(2^%d): %d more %s need %.0f more bytes, at most %.0f are expected", o->name, f.e, 7 * s0, dn, h[3] - h[0], 4 * du + 600000);
  CHECK(st[3] <= st[0] + 24576, "%s over GF(2^%d): the stack grows with the number of %s: %zu bytes for %d, %zu for %d", o->name, f.e, dn, st[0], s0, st[3], 8 * s0);
}
