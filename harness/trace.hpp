// ndjson trace writer and scenario reader shared by the drivers.
#ifndef VERIF_TRACE_HPP
#define VERIF_TRACE_HPP
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <sstream>
#include <vector>
#include <fstream>
#include <algorithm>

namespace vt
{
// Values beyond this do not fit TLC's 32-bit integers; BIG never equals an expected value.
static const long BIG = 2000000000L;

inline std::string q(const std::string &s)
{
   std::string r = "\"";
   for (char c : s)
   {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if ((unsigned char) c < 32) r += ' ';
      else r += c;
   }
   return r + "\"";
}

// nearest integer of v * scale
inline long fx(double v, double scale = 1.0)
{
   double t = v * scale;
   if (!(std::fabs(t) < (double) BIG)) return BIG;
   return std::lround(t);
}

class Ev
{
   std::ostringstream o;
   bool first = true;
   void key(const char *k) { if (!first) o << ","; first = false; o << "\"" << k << "\":"; }
public:
   Ev(const Ev &e) : first(e.first) { o << e.o.str(); }
   Ev &operator=(const Ev &e) { if (this != &e) { first = e.first; o.str(""); o << e.o.str(); } return *this; }
   Ev(const char *event) { o << "{"; s("event", event); }
   Ev &s(const char *k, const std::string &v) { key(k); o << q(v); return *this; }
   Ev &i(const char *k, long v) { key(k); if (v > BIG) v = BIG; if (v < -BIG) v = -BIG; o << v; return *this; }
   Ev &b(const char *k, bool v) { key(k); o << (v ? "true" : "false"); return *this; }
   Ev &raw(const char *k, const std::string &json) { key(k); o << json; return *this; }
   template<class C> Ev &ai(const char *k, const C &c, int n)
   { key(k); o << "["; for (int j = 0; j < n; j++) { if (j) o << ","; o << (long) c[j]; } o << "]"; return *this; }
   Ev &ai(const char *k, const std::vector<long> &c) { return ai(k, c, (int) c.size()); }
   Ev &ai(const char *k, const std::vector<int> &c) { return ai(k, c, (int) c.size()); }
   Ev &as(const char *k, const std::vector<std::string> &c)
   { key(k); o << "["; for (size_t j = 0; j < c.size(); j++) { if (j) o << ","; o << q(c[j]); } o << "]"; return *this; }
   std::string str() const { return o.str() + "}"; }
};

inline FILE *tf()
{
   static FILE *f = NULL;
   if (!f)
   {
      const char *p = getenv("VERIF_TRACE");
      f = (p && *p) ? fopen(p, "w") : stdout;
      if (!f) { fprintf(stderr, "cannot open trace\n"); _Exit(77); }
   }
   return f;
}
inline void emit(const Ev &e) { fprintf(tf(), "%s\n", e.str().c_str()); fflush(tf()); }

inline void harness_error(const char *msg) { fprintf(stderr, "HARNESS ERROR: %s\n", msg); fflush(stderr); _Exit(77); }

// JSON fragments
inline std::string jarr(const std::vector<std::string> &v)
{ std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += v[i]; } return r + "]"; }
inline std::string jint(const std::vector<long> &v)
{ std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += std::to_string(v[i]); } return r + "]"; }

// small deterministic generator (independent of the standard library's)
struct Rng
{
   unsigned long long x;
   Rng(unsigned long long s) : x(s * 6364136223846793005ULL + 1442695040888963407ULL) { next(); next(); }
   unsigned next() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (unsigned) (x >> 32); }
   int in(int lo, int hi) { return lo + (int) (next() % (unsigned) (hi - lo + 1)); }
   bool flip() { return next() & 1; }
};
}
#endif
