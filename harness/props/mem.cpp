#include "bridge.hpp"
#include <dlfcn.h>
#ifdef PBT_SAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
using namespace pbt;

namespace {
// cost-balanced choice among the functional properties linked into this driver
struct W { const char *id; int w; };
const W wts[] = {{"E01", 8}, {"E02", 8}, {"C01", 8}, {"R01", 6}, {"M01", 5}, {"M02", 8}, {"M03", 5}, {"M04", 8}, {"B01", 8}, {"Y01", 10}, {"K01", 8}, {"T01", 6}, {"P01", 6}, {"P02", 4},
  {"G01", 6}, {"G02", 4}, {"I01", 4}, {"X01", 6}, {"W01", 12}, {"S01", 10}, {"N01", 4}, {"F01", 5}, {"F02", 2}, {"Q01", 3}, {"D01", 1}};
const Prop *choose(Ctx &c, bool leaks) {
  std::vector<std::pair<const Prop *, int>> v; int tot = 0;
  for (auto &w : wts) for (auto &q : registry()) if (!strcmp(q.id, w.id) && !(leaks && (!strcmp(w.id, "D01") || !strcmp(w.id, "Q01")))) { v.push_back({&q, w.w}); tot += w.w; }
  int x = c.n(tot); for (auto &q : v) { if (x < q.second) return q.first; x -= q.second; } return v[0].first;
}
}

PROPERTY(Z01, 16000, 400000,
  "The library and every check of this framework are compiled with AddressSanitizer and array bounds checking, all m4ri blocks being separate heap objects; each case draws one functional property (weights by cost) and one case of it. "
  "Any sanitizer report, crash or hang is a violation; functional failures are left to the functional checks. Non-trivial: the drawn case is non-trivial by that property's rule.") {
  const Prop *p = choose(c, false); c.d << p->id << ": "; c.cls(p->id);
  auto keep = c.classes;
  try { p->fn(c); } catch (const Fail &) { c.classes = keep; c.cls("functional failure, not judged here"); return; }
  c.classes = keep;
}

// matrices whose size in bits or elements exceeds the range of int, nearly all zero
static void huge(Ctx &c) {
  if (c.flip()) {
    int m = (1 << 16) + c.range(0, 3), n = (1 << 11) + c.range(0, 70);
    br::FF f(br::gen_poly(c, 16, 16)); c.d << "mzed_echelonize " << m << "x" << n << " over GF(2^16)"; c.cls("huge matrix");
    mzed_t *A = mzed_init(f.ff, m, n); int k = c.range(0, 3); for (int i = 0; i < k; i++) mzed_write_elem(A, c.n(m), c.n(n), 1 + c.n(65535));
    rci_t r = mzed_echelonize(A, 1); c.nontrivial(r > 0); mzed_free(A);
  } else {
    int m = (1 << 16) + c.range(0, 2), n = (1 << 15) + c.range(0, 40); br::FF f(br::gen_poly(c, 2, 2)); c.d << "mzed_mul_scalar " << m << "x" << n << " over GF(4)"; c.cls("huge matrix");
    mzed_t *A = mzed_init(f.ff, m, n); mzed_write_elem(A, c.n(m), c.n(n), 1 + c.n(3)); mzed_mul_scalar(A, 2, A); c.nontrivial(true); mzed_free(A);
  }
}

PROPERTY(U01, 20000, 400000,
  "The library and every check of this framework are compiled with undefined-behaviour instrumentation (shift distances, signed overflow, division by zero, misaligned or null accesses, missing return values); each case draws one functional property (weights by cost) and one case of it; 1 case in 3000 is an elimination or scalar multiplication of a matrix of 2^31 bits or elements. "
  "Any report or crash is a violation; functional failures are left to the functional checks. Non-trivial: the drawn case is non-trivial by that property's rule.") {
#ifndef PBT_LIBFUZZER
  if (c.chance(1, 3000)) { huge(c); return; }
#endif
  const Prop *p = choose(c, false); c.d << p->id << ": "; c.cls(p->id);
  auto keep = c.classes;
  try { p->fn(c); } catch (const Fail &) { c.classes = keep; c.cls("functional failure, not judged here"); return; }
  c.classes = keep;
}

PROPERTY(V01, 12000, 200000,
  "Half of the cases run in a build by clang -O2 with every assertion enabled for a processor with an L2 cache of 64 KB (which lowers the default cutoffs of the recursive algorithms), half in a build by gcc -O3 with no assertion for one of 16 MB. "
  "Each case draws one functional property (weights by cost) and one case of it, and its oracle has to be satisfied; a failed assertion is a violation as well. Non-trivial: the drawn case is non-trivial by that property's rule.") {
  const Prop *p = choose(c, false); c.d << p->id << ": "; c.cls(p->id); auto keep = c.classes;
  p->fn(c); c.classes = keep;
}

#ifdef PBT_SAN
static size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t live_bytes() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
#endif

PROPERTY(Z02, 8000, 200000,
  "Each case draws one functional property and one case of it (histories, views, all entry points, fields, lookup tables, bilinear maps, polynomials), runs it, and repeats exactly the same case five more times in the same process. "
  "Every object the case receives is released by its owner, so the number of live heap bytes (exact, from the sanitizer's allocator) must stop growing: growth in every repetition is a violation. Non-trivial: the drawn case is non-trivial by that property's rule.") {
  const Prop *p = choose(c, true); c.d << p->id << ": "; c.cls(p->id);
  std::vector<uint64_t> ch; c.s.tap = &ch; auto keep = c.classes;
  try { p->fn(c); } catch (const Fail &) { c.s.tap = nullptr; c.classes = keep; c.cls("functional failure, not judged here"); return; }
  c.s.tap = nullptr; c.classes = keep;
  size_t lv[6]; lv[0] = 0; int grew = 0; long long total = 0;
  for (int k = 0; k < 5; k++) {
    { Ctx q; q.thorough = c.thorough; q.s.mode = Src::REPLAY; q.s.rep = ch.data(); q.s.nrep = ch.size();
      try { p->fn(q); } catch (const Fail &) { c.cls("functional failure, not judged here"); return; } }
    lv[k] = live_bytes();
    if (k) { if (lv[k] > lv[k - 1]) grew++; total += (long long)lv[k] - (long long)lv[k - 1]; if (lv[k] <= lv[k - 1]) break; }
  }
  CHECK(grew < 4, "repeating the same case leaves %lld more bytes allocated each time (%zu, %zu, %zu, %zu, %zu)", total / 4, lv[0], lv[1], lv[2], lv[3], lv[4]);
}

PROPERTY(A01, 14000, 200000,
  "Each case draws one functional property (weights by cost) and one case of it (histories, views, all entry points, fields, lookup tables, bilinear maps, polynomials), runs it while the allocation requests made by the library are recorded, "
  "chooses one of the requesting places and one of its requests, and runs the same case again in a child process in which exactly that request is refused. The child must end by abort with a diagnostic on standard error: returning, a crash or a hang is a violation. "
  "Non-trivial: the chosen request was made again in the child.") {
  const Prop *p = choose(c, true); c.d << p->id << ": "; c.cls(p->id);
  std::vector<uint64_t> ch; std::vector<void *> sites; c.s.tap = &ch; auto keep = c.classes; bool nt = c.nontriv;
  g_watch_pid = getpid(); g_alloc_no = 0; g_fault_at = 0; g_sites = &sites; g_watch = true;
  try { p->fn(c); } catch (const Fail &) { g_watch = false; c.s.tap = nullptr; c.classes = keep; c.cls("functional failure, not judged here"); return; }
  g_watch = false; g_sites = nullptr; c.s.tap = nullptr; c.classes = keep; c.nontriv = nt;
  if (sites.empty()) { c.cls("no allocation"); return; }
  std::vector<void *> order; std::map<void *, std::vector<long>> at;
  for (size_t i = 0; i < sites.size(); i++) { auto &v = at[sites[i]]; if (v.empty()) order.push_back(sites[i]); if (v.size() < 100000) v.push_back((long)i + 1); }
  void *site = order[c.n(order.size())]; auto &v = at[site]; long k = v[c.flip() ? 0 : c.n(v.size())];
  c.d << " ; allocation " << k << " of " << sites.size() << " (" << order.size() << " places) refused"; Dl_info di; if (dladdr(site, &di)) c.d << ", requested in " << (di.dli_sname ? di.dli_sname : "?") << " at " << (void *)((char *)site - (char *)di.dli_fbase);
  volatile bool *hit = (volatile bool *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *hit = false;
  std::string err;
  int st = in_child([&] {
    alarm(50); signal(SIGABRT, SIG_DFL);
    g_watch_pid = getpid(); g_alloc_no = 0; g_fault_at = k; g_fault_hit = hit; g_watch = true;
    Ctx q; q.thorough = c.thorough; q.s.mode = Src::REPLAY; q.s.rep = ch.data(); q.s.nrep = ch.size();
    try { p->fn(q); } catch (const Fail &f) { g_watch = false; _exit(71); }
    g_watch = false; _exit(70);
  }, &err);
  bool h = *hit; munmap((void *)hit, 4096);
  if (!h) { c.cls("request not made again"); return; }
  c.nontrivial(true);
  CHECK(!(WIFEXITED(st) && (WEXITSTATUS(st) == 70 || WEXITSTATUS(st) == 71)), "allocation request %ld was refused, and the operation went on and returned%s", k, WEXITSTATUS(st) == 71 ? " a wrong result" : "");
  CHECK(!(WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT), "allocation request %ld was refused, and the program crashed with signal %d", k, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
  CHECK(WIFSIGNALED(st) || WEXITSTATUS(st) != 0, "allocation request %ld was refused, and the program ended as if nothing had happened", k);
  CHECK(!err.empty(), "allocation request %ld was refused, and the program ended without a diagnostic", k);
}
