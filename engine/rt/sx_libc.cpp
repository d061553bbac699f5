// Models of libc / libstdc++ functions that live in uninstrumented libraries; compiled WITH the pass, so
// that symbolic bytes flow through them.
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <istream>
#include <limits>
#include <locale>
#include <string>

#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
extern "C" {
void _sx_note_opaque(const char *);
int sx_symbolic(uint64_t);

size_t sxm_strlen(const char * s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t sxm_strnlen(const char * s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
void * sxm_memchr(const void * p, int c, size_t n)
{
  auto * s = static_cast<const unsigned char *>(p);
  bool consecutive = n > 1 && n <= 64;  // "0123456789": one fork, and the position is an offset
  for (size_t i = 0; consecutive && i < n; ++i) consecutive = !sx_symbolic(s[i]) && s[i] == s[0] + i;
  if (consecutive && sx_symbolic(static_cast<uint64_t>(c))) {
    const unsigned char d = static_cast<unsigned char>(static_cast<unsigned char>(c) - s[0]);
    return d < n ? const_cast<unsigned char *>(s + d) : nullptr;
  }
  if (n && n <= 64 && sx_symbolic(static_cast<uint64_t>(c))) {  // one term instead of a path per position
    uintptr_t r = 0;
    for (size_t i = n; i-- > 0;) {
      const uintptr_t m = 0 - static_cast<uintptr_t>(s[i] == static_cast<unsigned char>(c));
      r = (r & ~m) | (reinterpret_cast<uintptr_t>(s + i) & m);
    }
    return reinterpret_cast<void *>(r);
  }
  for (size_t i = 0; i < n; ++i) if (s[i] == static_cast<unsigned char>(c)) return const_cast<unsigned char *>(s + i);
  return nullptr;
}
void * sxm_memrchr(const void * p, int c, size_t n)
{
  auto * s = static_cast<const unsigned char *>(p);
  for (size_t i = n; i-- > 0;) if (s[i] == static_cast<unsigned char>(c)) return const_cast<unsigned char *>(s + i);
  return nullptr;
}
int sxm_strcmp(const char * a, const char * b)
{
  for (;; ++a, ++b) {
    unsigned char x = *a, y = *b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
int sxm_strncmp(const char * a, const char * b, size_t n)
{
  for (; n; --n, ++a, ++b) {
    unsigned char x = *a, y = *b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
char * sxm_strchr(const char * s, int c)
{
  for (;; ++s) { if (*s == static_cast<char>(c)) return const_cast<char *>(s); if (!*s) return nullptr; }
}
int sxm_isspace(int c) { return (c == ' ') | ((c >= '\t') & (c <= '\r')); }
int sxm_isdigit(int c) { return (c >= '0') & (c <= '9'); }
int sxm_isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int sxm_islower(int c) { return (c >= 'a') & (c <= 'z'); }
int sxm_isalpha(int c) { return sxm_isupper(c) | sxm_islower(c); }
int sxm_isalnum(int c) { return sxm_isalpha(c) | sxm_isdigit(c); }
int sxm_isxdigit(int c) { return sxm_isdigit(c) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f')); }
int sxm_isprint(int c) { return (c >= 32) & (c < 127); }
int sxm_ispunct(int c) { return sxm_isprint(c) & !sxm_isalnum(c) & (c != ' '); }
int sxm_tolower(int c) { return sxm_isupper(c) ? c + 32 : c; }
int sxm_toupper(int c) { return sxm_islower(c) ? c - 32 : c; }

static unsigned long long parseInt(const char * s, char ** end, int base, bool & neg, bool & over)
{
  const char * p = s;
  while (sxm_isspace(static_cast<unsigned char>(*p))) ++p;
  neg = false; over = false;
  if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && sxm_isxdigit(static_cast<unsigned char>(p[2]))) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long long v = 0;
  bool any = false;
  for (;; ++p) {
    int c = static_cast<unsigned char>(*p), d;
    if (c >= '0' && c <= '9') d = c - '0';
    else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
    else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
    else break;
    if (d >= base) break;
    any = true;
    if (v > (~0ull - d) / base) over = true;
    v = v * base + d;
  }
  if (end) *end = const_cast<char *>(any ? p : s);
  return v;
}
long sxm_strtol(const char * s, char ** end, int base)
{
  bool neg, over;
  unsigned long long v = parseInt(s, end, base, neg, over);
  unsigned long long lim = neg ? 1ull << 63 : (1ull << 63) - 1;
  if (over || v > lim) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? static_cast<long>(0 - v) : static_cast<long>(v);
}
long long sxm_strtoll(const char * s, char ** end, int base) { return sxm_strtol(s, end, base); }
unsigned long sxm_strtoul(const char * s, char ** end, int base)
{
  bool neg, over;
  unsigned long long v = parseInt(s, end, base, neg, over);
  if (over) { errno = ERANGE; return ULONG_MAX; }
  return neg ? 0 - v : v;
}
unsigned long long sxm_strtoull(const char * s, char ** end, int base) { return sxm_strtoul(s, end, base); }
int sxm_atoi(const char * s) { return static_cast<int>(sxm_strtol(s, nullptr, 10)); }

// Decimal strtod, exact (correctly rounded) while the digits stay below 2^53 and the power of ten is at most 22;
// otherwise the libc value of this run is used and the run is marked as concretised.
double sxm_strtod(const char * s, char ** end)
{
  const char * p = s;
  while (sxm_isspace(static_cast<unsigned char>(*p))) ++p;
  bool neg = false;
  if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  auto word = [&](const char * w) {
    const char * q = p;
    for (; *w; ++w, ++q) if (sxm_tolower(static_cast<unsigned char>(*q)) != *w) return false;
    return true;
  };
  if (sxm_tolower(static_cast<unsigned char>(*p)) == 'i' && word("inf")) {
    p += 3;
    if (word("inity")) p += 5;
    if (end) *end = const_cast<char *>(p);
    return neg ? -HUGE_VAL : HUGE_VAL;
  }
  if (sxm_tolower(static_cast<unsigned char>(*p)) == 'n' && word("nan")) {
    p += 3;
    if (end) *end = const_cast<char *>(p);
    return neg ? -std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::quiet_NaN();
  }
  uint64_t m = 0;
  int k = 0, nd = 0;
  bool any = false, big = false;
  if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) {
    bool hex = sxm_isxdigit(static_cast<unsigned char>(p[2])) || (p[2] == '.' && sxm_isxdigit(static_cast<unsigned char>(p[3])));
    if (hex) { _sx_note_opaque("strtod:hex"); return strtod(s, end); }
  }
  for (; sxm_isdigit(static_cast<unsigned char>(*p)); ++p) { any = true; if (++nd > 15) big = true; else m = m * 10 + (*p - '0'); }
  if (*p == '.') {
    const char * q = p + 1;
    for (; sxm_isdigit(static_cast<unsigned char>(*q)); ++q) { any = true; if (++nd > 15) big = true; else { m = m * 10 + (*q - '0'); --k; } }
    if (any) p = q;
  }
  if (!any) { if (end) *end = const_cast<char *>(s); return 0.0; }
  if (*p == 'e' || *p == 'E') {
    const char * q = p + 1;
    bool en = false;
    if (*q == '-') { en = true; ++q; } else if (*q == '+') ++q;
    if (sxm_isdigit(static_cast<unsigned char>(*q))) {
      int e = 0;
      for (; sxm_isdigit(static_cast<unsigned char>(*q)); ++q) if (e < 10000) e = e * 10 + (*q - '0');
      k += en ? -e : e;
      p = q;
    }
  }
  if (end) *end = const_cast<char *>(p);
  if (big || k < -22 || k > 22) {
    if (m == 0 && !big) return neg ? -0.0 : 0.0;
    _sx_note_opaque("strtod:long");
    return strtod(s, nullptr);
  }
  double v = static_cast<double>(static_cast<int64_t>(m));
  static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  // the exponent is enumerated, so the table access is concrete on each path
  if (k < 0) { for (int i = 1; i <= 22; ++i) if (k == -i) { v = v / p10[i]; break; } }
  else if (k > 0) { for (int i = 1; i <= 22; ++i) if (k == i) { v = v * p10[i]; break; } }
  return neg ? -v : v;
}
float sxm_strtof(const char * s, char ** end) { return static_cast<float>(sxm_strtod(s, end)); }
double sxm_atof(const char * s) { return sxm_strtod(s, nullptr); }
long sxm_lround(double d) { return static_cast<long>(std::round(d)); }
long sxm_lroundf(float d) { return static_cast<long>(std::round(d)); }
long long sxm_llround(double d) { return static_cast<long long>(std::round(d)); }
long sxm_lrint(double d) { return static_cast<long>(std::rint(d)); }
long long sxm_llrint(double d) { return static_cast<long long>(std::rint(d)); }
int sxm_isnan(double d) { return d != d; }
double sxm_modf(double d, double * ip) { *ip = std::trunc(d); return d - *ip; }

void sxm_convert_to_d(const char * s, double & v, std::ios_base::iostate & err, const void *)
{
  char * end;
  v = sxm_strtod(s, &end);
  if (end == s || *end != '\0') { v = 0.0; err = std::ios_base::failbit; }
  else if (v == HUGE_VAL) { v = std::numeric_limits<double>::max(); err = std::ios_base::failbit; }
  else if (v == -HUGE_VAL) { v = -std::numeric_limits<double>::max(); err = std::ios_base::failbit; }
}
void sxm_convert_to_f(const char * s, float & v, std::ios_base::iostate & err, const void *)
{
  char * end;
  v = sxm_strtof(s, &end);
  if (end == s || *end != '\0') { v = 0.0f; err = std::ios_base::failbit; }
}

std::istream & sxm_istream_string(std::istream & in, std::string & str)
{
  size_t extracted = 0;
  std::ios_base::iostate err = std::ios_base::goodbit;
  std::istream::sentry cerb(in, false);
  if (cerb) {
    str.erase();
    const std::streamsize w = in.width();
    const size_t n = w > 0 ? static_cast<size_t>(w) : str.max_size();
    const auto eof = std::char_traits<char>::eof();
    auto c = in.rdbuf()->sgetc();
    while (extracted < n && c != eof && !sxm_isspace(static_cast<unsigned char>(std::char_traits<char>::to_char_type(c)))) {
      str.push_back(std::char_traits<char>::to_char_type(c));
      ++extracted;
      c = in.rdbuf()->snextc();
    }
    if (extracted < n && c == eof) err |= std::ios_base::eofbit;
    in.width(0);
  }
  if (!extracted) err |= std::ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
std::istream & sxm_getline(std::istream & in, std::string & str, char delim)
{
  size_t extracted = 0;
  std::ios_base::iostate err = std::ios_base::goodbit;
  std::istream::sentry cerb(in, true);
  if (cerb) {
    str.erase();
    const auto eof = std::char_traits<char>::eof();
    auto c = in.rdbuf()->sgetc();
    while (c != eof && std::char_traits<char>::to_char_type(c) != delim) {
      str.push_back(std::char_traits<char>::to_char_type(c));
      ++extracted;
      c = in.rdbuf()->snextc();
    }
    if (c == eof) err |= std::ios_base::eofbit;
    else { ++extracted; in.rdbuf()->sbumpc(); }
  }
  if (!extracted) err |= std::ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}

// locale facets whose code is instrumented (the ones in libstdc++.so are not)
void sxm_init()
{
  std::locale l(std::locale::classic(), new std::num_get<char>());
  l = std::locale(l, new std::num_put<char>());
  std::locale::global(l);
}
}  // extern "C"
