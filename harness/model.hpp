// Reference model: GF(2)[x]/(f) by shift-and-xor, matrices as plain arrays.
// Shares nothing with the library under test.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace model {

static inline int degree(uint64_t p) { int d = -1; while (p) { d++; p >>= 1; } return d; }
static inline unsigned __int128 clmul(uint64_t a, uint64_t b) {
  unsigned __int128 r = 0, bb = b; for (; a; a >>= 1, bb <<= 1) if (a & 1) r ^= bb; return r;
}
static inline uint64_t pmod(unsigned __int128 a, uint64_t f) {
  int df = degree(f);
  for (int i = 127; i >= df; i--) if ((a >> i) & 1) a ^= (unsigned __int128)f << (i - df);
  return (uint64_t)a;
}
static inline uint64_t pdiv(uint64_t a, uint64_t b, uint64_t *rem) {
  int db = degree(b); uint64_t q = 0;
  for (int i = 63; i >= db; i--) if ((a >> i) & 1) { a ^= b << (i - db); q |= 1ULL << (i - db); }
  if (rem) *rem = a; return q;
}
static inline uint64_t pgcd(uint64_t a, uint64_t b) { while (b) { uint64_t r; pdiv(a, b, &r); a = b; b = r; } return a; }

// all irreducible polynomials of degree d (1..16), by trial division
inline const std::vector<uint32_t> &irreducibles(int d) {
  static std::map<int, std::vector<uint32_t>> cache;
  auto it = cache.find(d); if (it != cache.end()) return it->second;
  std::vector<uint32_t> r;
  std::vector<uint32_t> small;
  for (int k = 1; k <= d / 2; k++) { auto &q = irreducibles(k); small.insert(small.end(), q.begin(), q.end()); }
  for (uint32_t p = 1u << d; p < (2u << d); p++) {
    bool irr = true;
    for (uint32_t q : small) {
      int dq = degree(q); uint32_t a = p;
      for (int i = d; i >= dq; i--) if ((a >> i) & 1) a ^= q << (i - dq);
      if (!a) { irr = false; break; }
    }
    if (irr) r.push_back(p);
  }
  return cache[d] = r;
}

struct Field {
  int e; uint32_t poly; int w; uint32_t order; // order = 2^e
  std::vector<uint16_t> exp; std::vector<uint32_t> log;
  static uint32_t slow(uint32_t a, uint32_t b, uint32_t poly, int e) {
    uint32_t r = 0; for (int i = 0; i < e; i++) if ((b >> i) & 1) r ^= a << i;
    for (int i = 2 * e - 2; i >= e; i--) if ((r >> i) & 1) r ^= poly << (i - e);
    return r;
  }
  uint32_t power(uint32_t b, uint32_t k) const { uint32_t r = 1; for (; k; k >>= 1, b = slow(b, b, poly, e)) if (k & 1) r = slow(r, b, poly, e); return r; }
  explicit Field(uint32_t p) : e(degree(p)), poly(p) {
    w = e <= 2 ? 2 : e <= 4 ? 4 : e <= 8 ? 8 : 16; order = 1u << e;
    uint32_t N = order - 1;
    log.assign(order, 0); exp.assign(4 * (size_t)order + 4, 0);
    for (uint32_t g = 2; g < order; g++) { // find a generator
      bool gen = true; for (uint32_t q = 2, n = N; n > 1 && gen; q++) if (n % q == 0) { while (n % q == 0) n /= q; gen = power(g, N / q) != 1; }
      if (!gen) continue;
      uint32_t x = 1, k = 0; 
      do { exp[k] = x; k++; x = slow(x, g, poly, e); } while (x != 1 && k < N);
      if (k == N && x == 1) break;
    }
    for (uint32_t k = 0; k < N; k++) { log[exp[k]] = k; exp[k + N] = exp[k]; }
    log[0] = 2 * N; for (size_t k = 2 * N; k < exp.size(); k++) exp[k] = 0;
  }
  uint16_t mul(uint32_t a, uint32_t b) const { return exp[log[a] + log[b]]; }
  uint16_t inv(uint32_t a) const { uint32_t N = order - 1; return exp[(N - log[a]) % N]; }
  uint32_t mask() const { return order - 1; }
};
inline const Field &field(uint32_t poly) {
  static std::map<uint32_t, std::unique_ptr<Field>> cache;
  auto &p = cache[poly]; if (!p) p.reset(new Field(poly)); return *p;
}
// as field(), but for the large degrees the tables live only as long as the holder once many are cached
inline std::shared_ptr<const Field> field_for(uint32_t poly) {
  static std::map<uint32_t, std::shared_ptr<const Field>> cache; static int large = 0;
  auto it = cache.find(poly); if (it != cache.end()) return it->second;
  auto p = std::make_shared<const Field>(poly); if (degree(poly) <= 11 || large++ < 150) cache[poly] = p; return p;
}

struct Mat {
  int m = 0, n = 0; std::vector<uint16_t> a;
  Mat() {}
  Mat(int m_, int n_) : m(m_), n(n_), a((size_t)m_ * n_, 0) {}
  uint16_t &at(int i, int j) { return a[(size_t)i * n + j]; }
  uint16_t at(int i, int j) const { return a[(size_t)i * n + j]; }
  bool operator==(const Mat &o) const { return m == o.m && n == o.n && a == o.a; }
  bool operator!=(const Mat &o) const { return !(*this == o); }
  bool zero() const { for (auto x : a) if (x) return false; return true; }
};
inline Mat identity(int n) { Mat r(n, n); for (int i = 0; i < n; i++) r.at(i, i) = 1; return r; }
inline Mat mul(const Field &F, const Mat &A, const Mat &B) {
  Mat C(A.m, B.n); const uint16_t *ex = F.exp.data(); const uint32_t *lg = F.log.data();
  std::vector<uint32_t> lb(B.a.size()); for (size_t i = 0; i < lb.size(); i++) lb[i] = lg[B.a[i]];
  for (int i = 0; i < A.m; i++) for (int k = 0; k < A.n; k++) {
    uint16_t x = A.at(i, k); if (!x) continue;
    const uint16_t *e = ex + lg[x]; uint16_t *c = &C.a[(size_t)i * C.n]; const uint32_t *b = &lb[(size_t)k * B.n];
    for (int j = 0; j < B.n; j++) c[j] ^= e[b[j]];
  }
  return C;
}
inline Mat add(const Mat &A, const Mat &B) { Mat C = A; for (size_t i = 0; i < C.a.size(); i++) C.a[i] ^= B.a[i]; return C; }
inline Mat scale(const Field &F, uint16_t s, const Mat &A) { Mat C = A; for (auto &x : C.a) x = F.mul(s, x); return C; }
inline Mat sub(const Mat &A, int r0, int c0, int r1, int c1) { Mat C(r1 - r0, c1 - c0); for (int i = r0; i < r1; i++) for (int j = c0; j < c1; j++) C.at(i - r0, j - c0) = A.at(i, j); return C; }
inline Mat concat(const Mat &A, const Mat &B) { Mat C(A.m, A.n + B.n); for (int i = 0; i < A.m; i++) { for (int j = 0; j < A.n; j++) C.at(i, j) = A.at(i, j); for (int j = 0; j < B.n; j++) C.at(i, A.n + j) = B.at(i, j); } return C; }
inline Mat stack(const Mat &A, const Mat &B) { Mat C(A.m + B.m, A.n); std::copy(A.a.begin(), A.a.end(), C.a.begin()); std::copy(B.a.begin(), B.a.end(), C.a.begin() + A.a.size()); return C; }
inline void row_addmul(const Field &F, Mat &A, int dst, const Mat &B, int src, uint16_t x, int from = 0) { for (int j = from; j < A.n; j++) A.at(dst, j) ^= F.mul(x, B.at(src, j)); }
inline void swap_rows(Mat &A, int r, int s) { if (r != s) for (int j = 0; j < A.n; j++) std::swap(A.at(r, j), A.at(s, j)); }
inline void swap_cols(Mat &A, int r, int s, int from, int to) { if (r != s) for (int i = from; i < to; i++) std::swap(A.at(i, r), A.at(i, s)); }
// reduced row echelon form; returns the pivot columns
inline std::vector<int> rref(const Field &F, Mat &A, bool full = true) {
  std::vector<int> piv; int r = 0;
  for (int c = 0; c < A.n && r < A.m; c++) {
    int p = r; while (p < A.m && !A.at(p, c)) p++;
    if (p == A.m) continue;
    swap_rows(A, p, r);
    uint16_t iv = F.inv(A.at(r, c)); for (int j = c; j < A.n; j++) A.at(r, j) = F.mul(iv, A.at(r, j));
    for (int i = full ? 0 : r + 1; i < A.m; i++) if (i != r && A.at(i, c)) { uint16_t x = A.at(i, c); row_addmul(F, A, i, A, r, x, c); }
    piv.push_back(c); r++;
  }
  return piv;
}
// C * v with random vectors is left to callers; helper product with a column vector
inline std::vector<uint16_t> mulvec(const Field &F, const Mat &A, const std::vector<uint16_t> &v) {
  std::vector<uint16_t> r(A.m, 0); for (int i = 0; i < A.m; i++) { uint16_t s = 0; for (int j = 0; j < A.n; j++) s ^= F.mul(A.at(i, j), v[j]); r[i] = s; } return r;
}
inline std::string show(const Mat &A, int maxr = 6, int maxc = 8) {
  std::string s; char b[16];
  for (int i = 0; i < A.m && i < maxr; i++) { s += i ? ";" : "["; for (int j = 0; j < A.n && j < maxc; j++) { snprintf(b, sizeof b, j ? " %x" : "%x", A.at(i, j)); s += b; } if (A.n > maxc) s += " .."; }
  if (A.m > maxr) s += ";.."; return s + (A.m ? "]" : "[]");
}
} // namespace model
