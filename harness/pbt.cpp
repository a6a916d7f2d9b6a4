#include "pbt.hpp"
namespace pbt {

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static const int NCLS = 160, NSAMP = 2;
struct Shared {
  volatile int64_t cur; volatile double started; volatile int state; // 0 idle 1 running 2 finished-all 3 to be continued by a fresh process
  volatile int64_t start; // first case of this process
  volatile uint64_t evals, nontriv, swallowed;
  volatile int failed; char msg[4096]; char desc[8192];
  int ncls; char cls[NCLS][56]; uint64_t clsn[NCLS];
  int nsamp; char samp[NSAMP][1600];
  uint64_t nhash;
  volatile uint64_t nrec; uint64_t rec[MAXREC];
};

template <class T> static T *shmem(size_t n = 1) {
  void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (T *)p;
}

static uint64_t strhash(const char *s) { uint64_t h = 1469598103934665603ULL; for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ULL; return h; }

struct Opts {
  std::string tier = "quick"; uint64_t seed = 1; int64_t cases = -1; double time = 200; int workers = 8;
  std::string evidence, replaydir = ".", replay, bytes; std::string prop; double case_timeout = 60; bool verbose = false;
  int64_t first = 0; std::string level = "exploration";
  bool quiet_stderr = true; std::string engine;
};

// on a crash, put the description of the running case where the parent finds it
static Ctx *g_cur; static Shared *g_sh;
static void on_crash(int sig) {
  signal(sig, SIG_DFL);
  if (g_cur && g_sh) { Ctx *c = g_cur; g_cur = nullptr; snprintf(g_sh->desc, sizeof g_sh->desc, "%s", c->d.str().c_str()); }
  raise(sig);
}
static void catch_crashes() {
#ifndef PBT_LIBFUZZER
  static char stk[65536]; stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
#ifdef PBT_SAN
  for (int s : {SIGABRT}) sigaction(s, &sa, nullptr);
#else
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
#endif
#endif
}

// runs one case in this process; returns true if it passed
static bool run_case(const Prop &p, Ctx &c, Shared *sh) {
  g_cur = &c; g_sh = sh;
  try {
    if (before_case()) before_case()(c);
    p.fn(c);
    if (after_case()) after_case()(c);
    return true;
  } catch (const Fail &f) {
    if (swallow_functional()) { sh->swallowed = sh->swallowed + 1; return true; }
    snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
  } catch (const std::exception &e) {
    snprintf(sh->msg, sizeof sh->msg, "harness exception: %s", e.what());
  }
  snprintf(sh->desc, sizeof sh->desc, "%s", c.d.str().c_str());
  sh->failed = 1;
  return false;
}

static uint64_t case_seed(const Opts &o, const Prop &p, int64_t idx) {
  uint64_t x = o.seed * 0x9E3779B97F4A7C15ULL ^ strhash(p.id); splitmix(x); x += (uint64_t)idx * 0xD1342543DE82EF95ULL; return splitmix(x);
}

static void worker(const Opts &o, const Prop &p, Shared *sh, uint64_t *hashes, int w, int64_t from, int64_t cases, double deadline) {
  if (o.quiet_stderr) { int fd = open("/dev/null", O_WRONLY); (void)fd; if (fd >= 0) { dup2(fd, 2); close(fd); } }
  catch_crashes(); sh->start = from;
  // histories of different lengths: worker w's processes end after 10 * 2^w cases
  int64_t chunk = (int64_t)10 << std::min(w, 20), done = 0;
  for (int64_t i = from; i < cases; i += o.workers) {
    if (now() > deadline) break;
    if (done++ == chunk) { sh->state = 3; fflush(stdout); _exit(0); }
    Ctx c; c.thorough = o.tier == "thorough";
    c.s.rng = Rng(case_seed(o, p, i)); c.s.rec = sh->rec; c.s.nrec = &sh->nrec;
    sh->nrec = 0; sh->cur = i; sh->started = now(); sh->state = 1;
    if (!run_case(p, c, sh)) { fflush(stdout); _exit(9); }
    sh->state = 0;
    sh->evals = sh->evals + 1;
    if (c.nontriv) { sh->nontriv = sh->nontriv + 1; hashes[sh->nhash++] = c.s.hash;
      if (sh->nsamp < NSAMP && (i / o.workers) % 7 == 3) snprintf(sh->samp[sh->nsamp++], sizeof sh->samp[0], "%s", c.d.str().c_str()); }
    for (auto &k : c.classes) {
      int j = 0; for (; j < sh->ncls; j++) if (!strncmp(sh->cls[j], k.c_str(), 55)) break;
      if (j == sh->ncls) { if (j == NCLS) continue; snprintf(sh->cls[j], 56, "%s", k.c_str()); sh->ncls++; }
      sh->clsn[j]++;
    }
  }
  sh->state = 2;
  fflush(stdout);
  _exit(0);
}

struct Outcome { bool failed = false; std::string msg, desc; std::vector<uint64_t> rec; };

static std::string status_str(int st) {
  char b[200];
  if (WIFSIGNALED(st)) snprintf(b, sizeof b, "terminated by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else snprintf(b, sizeof b, "terminated with exit status %d", WEXITSTATUS(st));
  return b;
}

// execute a case given by choices in a child
// a case has run too long: by the clock, and by the processor time it got (on a busy machine it may get little), or by the clock alone in the extreme
static double cpu_of(pid_t pid) {
  char f[64], b[1024]; snprintf(f, sizeof f, "/proc/%d/stat", pid); FILE *h = fopen(f, "r"); if (!h) return 0;
  size_t n = fread(b, 1, sizeof b - 1, h); fclose(h); b[n] = 0; char *q = strrchr(b, ')'); if (!q) return 0;
  unsigned long u = 0, v = 0; long cu = 0, cv = 0; if (sscanf(q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %ld %ld", &u, &v, &cu, &cv) != 4) return 0;
  return (double)(u + v + cu + cv) / sysconf(_SC_CLK_TCK);
}
struct Watch {
  double started = -1, cpu0 = 0;
  bool over(pid_t pid, double start, double limit) {
    if (start != started) { started = start; cpu0 = -1; }
    double t = now() - start; if (t > 1 && cpu0 < 0) cpu0 = cpu_of(pid);
    return t > limit && (t > 4 * limit || cpu_of(pid) - cpu0 > limit / 2);
  }
};

static Outcome exec_choices(const Prop &p, const std::vector<uint64_t> *ch, const std::vector<uint8_t> *bytes, Shared *sh, double timeout, bool thorough, bool keep_stderr, bool have_rng = false, uint64_t rngseed = 0) {
  Outcome r;
  sh->failed = 0; sh->msg[0] = 0; sh->desc[0] = 0; sh->nrec = 0; sh->state = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    if (!keep_stderr) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); close(fd); } }
    catch_crashes();
    Ctx c; c.thorough = thorough;
    if (have_rng) c.s.rng = Rng(rngseed);
    else if (ch) { c.s.mode = Src::REPLAY; c.s.rep = ch->data(); c.s.nrep = ch->size(); }
    else { c.s.mode = Src::BYTES; c.s.bytes = bytes->data(); c.s.nbytes = bytes->size(); }
    c.s.rec = sh->rec; c.s.nrec = &sh->nrec;
    bool ok = run_case(p, c, sh);
    if (ok) snprintf(sh->desc, sizeof sh->desc, "%s", c.d.str().c_str());
    fflush(stdout);
    _exit(ok ? 0 : 9);
  }
  double t0 = now(); int st = 0; bool hung = false; Watch wt;
  useconds_t nap = 200;
  for (;;) {
    pid_t q = waitpid(pid, &st, WNOHANG);
    if (q == pid) break;
    if (wt.over(pid, t0, timeout)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
    usleep(nap); if (nap < 5000) nap += nap / 4;
  }
  r.desc = sh->desc;
  if (hung) { r.failed = true; r.msg = "case did not finish (hang)"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.failed = false;
  else if (sh->failed) { r.failed = true; r.msg = sh->msg; }
  else { r.failed = true; r.msg = status_str(st); }
  r.rec.assign(sh->rec, sh->rec + sh->nrec);
  return r;
}

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> cur, Shared *sh, double budget, double ctimeout, bool thorough, Outcome &best) {
  double end = now() + budget;
  auto attempt = [&](std::vector<uint64_t> cand) {
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (cand == cur) return false;
    if (now() > end) return false;
    Outcome o = exec_choices(p, &cand, nullptr, sh, ctimeout, thorough, false);
    if (!o.failed) return false;
    std::vector<uint64_t> norm = o.rec.size() <= cand.size() ? o.rec : cand;
    while (!norm.empty() && norm.back() == 0) norm.pop_back();
    if (norm.size() > cur.size() || (norm.size() == cur.size() && !(norm < cur))) return false;
    cur = norm; best = o; return true;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t k = cur.size() / 2; k >= 1; k /= 2) { // truncate
      while (cur.size() > k) { std::vector<uint64_t> c(cur.begin(), cur.end() - k); if (!attempt(c)) break; progress = true; }
      if (k == 1) break;
    }
    for (size_t k = 32; k >= 1; k /= 2) // delete chunks
      for (size_t i = 0; i + k <= cur.size() && now() < end;) {
        auto c = cur; c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) progress = true; else i += (k > 1 ? k / 2 : 1);
      }
    for (size_t i = 0; i < cur.size() && now() < end; i++) { // lower values
      if (!cur[i]) continue;
      auto c = cur; c[i] = 0; if (attempt(c)) { progress = true; continue; }
      if (i >= cur.size()) break;
      uint64_t lo = 0, hi = cur[i];
      for (int it = 0; it < 12 && hi - lo > 1 && i < cur.size(); it++) {
        uint64_t mid = lo + (hi - lo) / 2; c = cur; c[i] = mid;
        if (attempt(c)) { progress = true; if (i >= cur.size()) break; hi = cur[i]; } else lo = mid;
      }
      if (i < cur.size() && cur[i] > 0) { c = cur; c[i]--; if (attempt(c)) progress = true; }
    }
  }
  return cur;
}

// repeats one worker's cases up to idx in a child; true if it fails again
static bool run_slice(const Opts &o, const Prop &p, Shared *sh, int w, int64_t from, int64_t idx, double limit) {
  uint64_t *hs = shmem<uint64_t>(idx / o.workers + 4); fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) worker(o, p, sh, hs, w, from, idx + 1, now() + limit);
  int st = 0; bool hung = false; double seen = now(); Watch wt;
  for (;;) {
    if (waitpid(pid, &st, WNOHANG) == pid) break;
    if (sh->state == 1 && wt.over(pid, std::max(seen, (double)sh->started), o.case_timeout)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
    usleep(2000);
  }
  return hung || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

// runs all workers; returns the index of the first failing case, or -1
static int64_t run_workers(const Opts &o, const Prop &p, Shared *sh, std::vector<uint64_t *> &hashes, const std::vector<int64_t> &from, int64_t end, double deadline, Outcome &found) {
  std::vector<pid_t> pids(o.workers); std::vector<Watch> wt(o.workers); int64_t idx = -1; int live = 0;
  fflush(stdout);
  for (int w = 0; w < o.workers; w++) {
    pids[w] = fork(); live++;
    if (pids[w] == 0) worker(o, p, &sh[w], hashes[w], w, from[w], end, deadline);
  }
  while (live > 0 && idx < 0) {
    int st; pid_t q = waitpid(-1, &st, WNOHANG);
    if (q > 0) {
      for (int w = 0; w < o.workers; w++) if (pids[w] == q) {
        pids[w] = 0; live--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].state == 3) {
          int64_t nx = sh[w].cur + o.workers; pids[w] = fork(); live++;
          if (pids[w] == 0) worker(o, p, &sh[w], hashes[w], w, nx, end, deadline);
          continue;
        }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].state == 2)) {
          found.failed = true; found.msg = sh[w].failed ? sh[w].msg : status_str(st); found.desc = sh[w].desc;
          found.rec.assign(sh[w].rec, sh[w].rec + sh[w].nrec); idx = sh[w].cur;
        }
      }
      continue;
    }
    for (int w = 0; w < o.workers; w++)
      if (pids[w] && sh[w].state == 1 && wt[w].over(pids[w], sh[w].started, o.case_timeout)) {
        kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); pids[w] = 0;
        found.failed = true; found.msg = "case did not finish (hang)"; found.desc = sh[w].desc;
        found.rec.assign(sh[w].rec, sh[w].rec + sh[w].nrec); idx = sh[w].cur;
        break;
      }
    usleep(2000);
  }
  for (int w = 0; w < o.workers; w++) if (pids[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); }
  return idx;
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

static std::string write_replay(const Opts &o, const Prop &p, const std::vector<uint64_t> &ch, const Outcome &oc, int64_t sliceidx, int64_t slicefrom) {
  uint64_t h = 1469598103934665603ULL; for (auto v : ch) h = (h ^ v) * 1099511628211ULL;
  char name[400]; snprintf(name, sizeof name, "%s/%s-%08x.replay", o.replaydir.c_str(), p.id, (unsigned)(h ^ (h >> 32)));
  FILE *f = fopen(name, "w");
  if (!f) return "(unwritable)";
  fprintf(f, "property %s\n", p.id);
  std::string m = oc.msg; for (auto &x : m) if (x == '\n') x = ' ';
  std::string d = oc.desc; for (auto &x : d) if (x == '\n') x = ' ';
  fprintf(f, "message %s\ncase %s\nchoices", m.c_str(), d.c_str());
  for (auto v : ch) fprintf(f, " %llu", (unsigned long long)v);
  fprintf(f, "\n");
  if (sliceidx >= 0) fprintf(f, "slice tier=%s seed=%llu first=%lld workers=%d last=%lld\n", o.tier.c_str(), (unsigned long long)o.seed, (long long)slicefrom, o.workers, (long long)sliceidx);
  fclose(f);
  return name;
}

static std::vector<uint64_t> load_replay(const std::string &path, std::string &prop, Opts &o, int64_t &slice) {
  std::vector<uint64_t> v; FILE *f = fopen(path.c_str(), "r"); if (!f) { perror(path.c_str()); exit(3); }
  char *line = nullptr; size_t n = 0;
  while (getline(&line, &n, f) > 0) {
    if (!strncmp(line, "property ", 9)) { prop = line + 9; while (!prop.empty() && prop.back() <= ' ') prop.pop_back(); }
    char tier[64]; unsigned long long sd; long long fi, la; int wk;
    if (sscanf(line, "slice tier=%63s seed=%llu first=%lld workers=%d last=%lld", tier, &sd, &fi, &wk, &la) == 5) { o.tier = tier; o.seed = sd; o.first = fi; o.workers = wk; slice = la; }
    if (!strncmp(line, "choices", 7)) { char *q = line + 7; for (;;) { char *e; errno = 0; unsigned long long x = strtoull(q, &e, 10); if (e == q) break; v.push_back(x); q = e; } }
  }
  free(line); fclose(f); return v;
}

int main(int argc, char **argv) {
  Opts o; double t0 = now();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") o.tier = val(); else if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--cases") o.cases = atoll(val().c_str()); else if (a == "--time") o.time = atof(val().c_str());
    else if (a == "--workers") o.workers = atoi(val().c_str()); else if (a == "--evidence") o.evidence = val();
    else if (a == "--replaydir") o.replaydir = val(); else if (a == "--replay") o.replay = val();
    else if (a == "--prop") o.prop = val(); else if (a == "--bytes") o.bytes = val();
    else if (a == "--case-timeout") o.case_timeout = atof(val().c_str());
    else if (a == "--swallow") swallow_functional() = true;
    else if (a == "--stderr") o.quiet_stderr = false; else if (a == "--first") o.first = atoll(val().c_str());
    else if (a == "--engine") o.engine = val();
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  Shared *sh = shmem<Shared>(o.workers + 1); Shared *xs = sh + o.workers;
  std::vector<uint64_t> ch; std::string rp; int64_t sliceidx = -1; bool slice = false; Outcome conf;
  if (!o.replay.empty()) { int nw = o.workers; ch = load_replay(o.replay, rp, o, sliceidx); (void)nw; if (o.prop.empty()) o.prop = rp; }
  const Prop *pp = nullptr;
  for (auto &q : registry()) if (o.prop == q.id || (o.prop.empty() && registry().size() == 1)) pp = &q;
  if (!pp) { fprintf(stderr, "no property %s here\n", o.prop.c_str()); return 3; }
  const Prop &p = *pp;
  bool thorough = o.tier == "thorough";
  if (!o.replay.empty() && sliceidx >= 0) {
    int w = (int)((sliceidx - o.first) % o.workers); bool bad = run_slice(o, p, xs, 20, o.first + w, sliceidx, 600);
    printf("replay of %s, cases %d to %lld step %d: %s\n", p.id, (int)o.first + w, (long long)sliceidx, o.workers, bad ? xs->failed ? xs->msg : "crashed" : "passes");
    if (bad) printf("VIOLATION property=%s replay=%s\n", p.id, o.replay.c_str());
    return bad;
  }
  if (!o.replay.empty()) {
    Outcome r = exec_choices(p, &ch, nullptr, xs, o.case_timeout, thorough, true);
    printf("replay of %s: %s\n  case: %s\n", p.id, r.failed ? r.msg.c_str() : "passes", r.desc.c_str());
    if (r.failed) printf("VIOLATION property=%s replay=%s\n", p.id, o.replay.c_str());
    return r.failed ? 1 : 0;
  }
  int64_t cases = o.cases >= 0 ? o.cases : thorough ? p.thorough : p.quick;
  Outcome found; bool have = false; int64_t foundidx = -1, slicefrom = 0;
  std::vector<uint64_t *> hashes;
  for (auto f : warmups()) f();
  if (!o.bytes.empty()) {
    FILE *f = fopen(o.bytes.c_str(), "rb"); if (!f) { perror("bytes"); return 3; }
    std::vector<uint8_t> b; int x; while ((x = fgetc(f)) != EOF) b.push_back(x); fclose(f);
    Outcome r = exec_choices(p, nullptr, &b, xs, o.case_timeout, thorough, false);
    if (!r.failed) { printf("bytes case passes\n"); return 0; }
    found = r; conf = r; have = true;
  } else {
    std::vector<int64_t> nexti(o.workers);
    for (int w = 0; w < o.workers; w++) { hashes.push_back(shmem<uint64_t>(cases / o.workers + 2)); nexti[w] = o.first + w; }
    for (int round = 0; round < 6; round++) {
      have = false; found = Outcome();
      foundidx = run_workers(o, p, sh, hashes, nexti, o.first + cases, t0 + o.time, found);
      if (foundidx < 0) break;
      // confirm in a fresh process from the recorded choices; otherwise repeat the worker's whole slice
      int w = (int)((foundidx - o.first) % o.workers);
      conf = exec_choices(p, &found.rec, nullptr, xs, o.case_timeout, thorough, false);
      if (conf.failed) { have = true; break; }
      printf("note: case %lld of %s failed once (%s) and passed when repeated alone\n", (long long)foundidx, p.id, found.msg.c_str());
      Shared *ys = xs; memset((void *)ys, 0, offsetof(Shared, rec));
      int64_t from = sh[w].start;
      if (run_slice(o, p, ys, 20, from, foundidx, 600)) { slicefrom = from;  have = true; slice = true; break; }
      printf("note: not reproducible, not reported\n");
      for (int k = 0; k < o.workers; k++) if (sh[k].state == 2) nexti[k] = o.first + cases; else if (sh[k].state == 1) nexti[k] = sh[k].cur; else nexti[k] = sh[k].cur + o.workers;
      nexti[w] = foundidx + o.workers;
      for (int k = 0; k < o.workers; k++) { sh[k].failed = 0; sh[k].msg[0] = 0; sh[k].desc[0] = 0; if (nexti[k] >= o.first + cases) continue; sh[k].state = 0; }
    }
  }
  int rc = 0; uint64_t violations = 0;
  if (have) {
    bool hang = found.msg.find("hang") != std::string::npos;
    {
      Outcome best = conf.failed ? conf : found; std::vector<uint64_t> small = found.rec;
      if (!slice) {
        double budget = getenv("PBT_NOSHRINK") ? 0 : hang ? 30 : (thorough ? 120 : 45), ct = hang ? 8 : 20;
        small = shrink(p, found.rec, xs, budget, ct, thorough, best);
        // the minimised case must keep failing; otherwise fall back to the original
        Outcome q = exec_choices(p, &small, nullptr, xs, o.case_timeout, thorough, false);
        if (!q.failed) { small = found.rec; best = conf; } else best = q;
      } else best.msg += " [needs the preceding cases of the same process: the replay repeats them]";
      if (best.desc.empty()) best.desc = found.desc;
      std::string path = write_replay(o, p, small, best, slice ? foundidx : -1, slicefrom);
      printf("case %lld: %s\n  minimal (%zu choices, from %zu): %s\n", (long long)foundidx, best.msg.c_str(), small.size(), found.rec.size(), best.desc.c_str());
      printf("VIOLATION property=%s replay=%s\n", p.id, path.c_str());
      rc = 1; violations = 1;
    }
  }
  uint64_t evals = 0, nt = 0, sw = 0; std::map<std::string, uint64_t> cls; std::vector<std::string> samp;
  std::set<uint64_t> distinct;
  for (int w = 0; w < o.workers && !hashes.empty(); w++) {
    evals += sh[w].evals; nt += sh[w].nontriv; sw += sh[w].swallowed;
    for (int j = 0; j < sh[w].ncls; j++) cls[sh[w].cls[j]] += sh[w].clsn[j];
    for (int j = 0; j < sh[w].nsamp; j++) if (samp.size() < 6) samp.push_back(sh[w].samp[j]);
    for (uint64_t j = 0; j < sh[w].nhash; j++) distinct.insert(hashes[w][j]);
  }
  if (samp.empty() && hashes.size()) samp.push_back("(no non-trivial case was sampled)");
  if (!o.evidence.empty()) {
    FILE *f = fopen(o.evidence.c_str(), "w");
    if (f) {
      fprintf(f, "{\"property\": %s, \"tier\": %s, \"seed\": %llu, \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": %llu, \"distinct_nontrivial\": %zu, \"rule\": %s,\n  \"samples\": [", jstr(p.id).c_str(), jstr(o.tier).c_str(), (unsigned long long)o.seed, (unsigned long long)evals, distinct.size(), jstr(p.rule).c_str());
      for (size_t i = 0; i < samp.size(); i++) fprintf(f, "%s%s", i ? ",\n   " : "\n   ", jstr(samp[i]).c_str());
      fprintf(f, "],\n  \"planned_cases\": %lld, \"nontrivial\": %llu, \"classes\": {", (long long)cases, (unsigned long long)nt);
      bool first = true; for (auto &k : cls) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(k.first).c_str(), (unsigned long long)k.second); first = false; }
      fprintf(f, "}},\n \"assumptions\": [\"libm4ri (system library) is correct\", \"inputs respect the documented preconditions\"],\n \"wall_s\": %.2f, \"violations\": %llu}\n", now() - t0, (unsigned long long)violations);
      fclose(f);
    }
  }
  printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %.1fs%s\n", p.id, o.tier.c_str(), (unsigned long long)o.seed, (unsigned long long)evals, distinct.size(), now() - t0, rc ? ", VIOLATED" : "");
  if (sw) printf("%s: %llu functional failures left to the functional checks\n", p.id, (unsigned long long)sw);
  return rc;
}
} // namespace pbt

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  static const pbt::Prop *pp = nullptr;
  if (!pp) { const char *want = getenv("PBT_PROP"); for (auto &q : pbt::registry()) if (!want || !strcmp(want, q.id)) pp = &q; }
  pbt::Ctx c; c.thorough = false; c.s.mode = pbt::Src::BYTES; c.s.bytes = data; c.s.nbytes = size;
  try { if (pbt::before_case()) pbt::before_case()(c); pp->fn(c); if (pbt::after_case()) pbt::after_case()(c); }
  catch (const pbt::Fail &f) { if (!pbt::swallow_functional()) { fprintf(stderr, "PBT-FAIL %s | %s\n", f.msg.c_str(), c.d.str().c_str()); abort(); } }
  return 0;
}
#else
int main(int argc, char **argv) { return pbt::main(argc, argv); }
#endif
