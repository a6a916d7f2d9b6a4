// Choice-sequence property-based testing engine: generation, forked execution,
// shrinking, replay, evidence.  Independent of the code under test.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace pbt {

static inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed * 0x2545F4914F6CDD1DULL + 0x1234567ULL) {}
  uint64_t next() { return splitmix(s); }
  uint64_t below(uint64_t b) { return b <= 1 ? 0 : (uint64_t)(((unsigned __int128)next() * b) >> 64); }
};

struct Fail { std::string msg; };

static const size_t MAXREC = 1 << 20;

// Source of choices.  Records every choice so that a case is replayable.
struct Src {
  enum Mode { RANDOM, REPLAY, BYTES } mode = RANDOM;
  Rng rng;
  const uint64_t *rep = nullptr; size_t nrep = 0, pos = 0;
  const uint8_t *bytes = nullptr; size_t nbytes = 0;
  uint64_t *rec = nullptr; volatile uint64_t *nrec = nullptr;
  uint64_t hash = 1469598103934665603ULL;
  std::vector<uint64_t> *tap = nullptr; // a second recording, used by properties that run other properties

  uint64_t next(uint64_t bound) {
    uint64_t v = 0;
    if (bound > 1) {
      switch (mode) {
      case RANDOM: v = rng.below(bound); break;
      case REPLAY: v = pos < nrep ? rep[pos] : 0; pos++; if (v >= bound) v = bound - 1; break;
      case BYTES: {
        int k = bound <= 256 ? 1 : bound <= 65536 ? 2 : bound <= (1ULL << 32) ? 4 : 8;
        for (int i = 0; i < k && pos < nbytes; i++) v |= (uint64_t)bytes[pos++] << (8 * i);
        v %= bound;
        break; }
      }
      if (tap) tap->push_back(v);
      if (rec && *nrec < MAXREC) rec[(*nrec)] = v, *nrec = *nrec + 1;
      hash = (hash ^ v) * 1099511628211ULL; hash ^= hash >> 29;
    }
    return v;
  }
};

struct Ctx {
  Src s;
  bool nontriv = false;
  bool thorough = false;
  bool dirty = false;                   // an operand with bits set past its last column was given
  std::ostringstream d;                 // human-readable description of the case
  std::vector<std::string> classes;     // classification labels
  uint64_t n(uint64_t bound) { return s.next(bound); }
  int range(int lo, int hi) { return hi <= lo ? lo : lo + (int)s.next((uint64_t)(hi - lo) + 1); }
  bool flip() { return s.next(2) != 0; }
  bool chance(int num, int den) { return (int)s.next(den) >= den - num; } // 0 -> false
  int pick(std::initializer_list<int> w) {
    int t = 0; for (int x : w) t += x;
    int v = (int)s.next(t), i = 0;
    for (int x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
  }
  uint64_t seed64() { return s.next(1ULL << 32); }
  void cls(const std::string &c) { classes.push_back(c); }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
};

typedef void (*PropFn)(Ctx &);
struct Prop {
  const char *id; PropFn fn; const char *rule;
  int quick, thorough;      // case counts
  int expected_time;        // soft time cap in seconds for quick
};
inline std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }
struct Reg { Reg(const Prop &p) { registry().push_back(p); } };
#define PROPERTY(ID, QUICK, THOROUGH, RULE)                                        \
  static void prop_##ID(pbt::Ctx &c);                                              \
  static pbt::Reg reg_##ID(pbt::Prop{#ID, prop_##ID, RULE, QUICK, THOROUGH, 0});   \
  static void prop_##ID(pbt::Ctx &c)

[[noreturn]] inline void fail(const char *fmt, ...) {
  char buf[3000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  throw Fail{buf};
}
#define CHECK(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)

// hooks the bridge may set: called around each case
inline std::vector<void (*)()> &warmups() { static std::vector<void (*)()> v; return v; } // run once before workers are forked
inline std::function<void(Ctx &)> &before_case() { static std::function<void(Ctx &)> f; return f; }
inline std::function<void(Ctx &)> &after_case() { static std::function<void(Ctx &)> f; return f; }
inline bool &swallow_functional() { static bool b = false; return b; }

int main(int argc, char **argv);
void run_bytes(const Prop &p, const uint8_t *data, size_t size);
} // namespace pbt
