#include "bridge.hpp"
#include <sys/mman.h>
using namespace model;

namespace {
std::string captured(const std::function<void()> &fn) {
  fflush(stdout); int old = dup(1), fd = memfd_create("print", 0); if (old < 0 || fd < 0) { perror("memfd"); exit(2); }
  dup2(fd, 1); fn(); fflush(stdout); dup2(old, 1); close(old);
  std::string s; off_t n = lseek(fd, 0, SEEK_END); s.resize(n); if (n && pread(fd, &s[0], n, 0) != n) fail("could not read back the output"); close(fd); return s;
}
// strict parser: "[" elem (" " elem)* "]\n" per row, each elem right-aligned in `width` characters, hexadecimal
void verify(const std::string &s, const Mat &A, int width, const char *what) {
  size_t p = 0;
  for (int i = 0; i < A.m; i++) {
    CHECK(p < s.size() && s[p] == '[', "%s: row %d does not start with '['", what, i); p++;
    for (int j = 0; j < A.n; j++) {
      if (j) { CHECK(p < s.size() && s[p] == ' ', "%s: no separator before (%d,%d)", what, i, j); p++; }
      CHECK(p + width <= s.size(), "%s: output ends at (%d,%d)", what, i, j); unsigned v = 0; bool dig = false;
      for (int k = 0; k < width; k++) { char ch = s[p++]; if (ch == ' ' && !dig) continue; CHECK(isxdigit((unsigned char)ch), "%s: '%c' in element (%d,%d)", what, ch, i, j); dig = true; v = v * 16 + (isdigit((unsigned char)ch) ? ch - '0' : tolower(ch) - 'a' + 10); }
      CHECK(dig && v == A.at(i, j), "%s: element (%d,%d) printed as %x, stored %x", what, i, j, v, A.at(i, j));
    }
    CHECK(p + 2 <= s.size() && s[p] == ']' && s[p + 1] == '\n', "%s: row %d does not end with ']' and a newline", what, i); p += 2;
  }
  CHECK(p == s.size(), "%s: text after the last row", what);
}
}

PROPERTY(Q01, 60000, 200000,
  "Matrix of random field, shape, content and layout printed in packed and in sliced form to a captured stdout; the text is parsed strictly (one bracketed line per row, single spaces, fixed hexadecimal width of the element size, no trailing text) "
  "and compared with the entries; both forms must print the same text. Non-trivial: at least two different elements.") {
  FF f = gen_field(c); const Field &F = *f.F; int m = c.range(1, 8), n = c.flip() ? c.range(1, 20) : gen_dim(c, 1, 140, 64 / f.w); c.d << "print";
  Mat A = gen_mat(c, F, m, n); bool nt = false; for (auto x : A.a) nt |= x != A.a[0]; c.nontrivial(nt);
  PM X = in_p(c, f, A); SM S = in_s(c, f, A); int width = (f.w + 3) / 4;
  std::string a = captured([&] { mzed_print(X.v); }), b = captured([&] { mzd_slice_print(S.v); });
  verify(a, A, width, "mzed_print"); verify(b, A, width, "mzd_slice_print"); CHECK(a == b, "packed and sliced print differently");
  X.unchanged("mzed_print"); S.unchanged("mzd_slice_print");
}
