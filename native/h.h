// Runtime side of the contracts: the real library, built with the ordinary standard library, is run on
// directed and random inputs and every contract is evaluated against an independent oracle.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <unistd.h>
namespace h {
static uint64_t rs = 88172645463325252ull;
inline uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
inline uint64_t below(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
inline bool coin(int k = 2) { return below(k) == 0; }
static bool thorough = false;
static long evals = 0; static std::set<uint64_t> seen; static std::vector<std::string> samples; static int fails = 0;
static char cur[4096] = "";
inline std::string show(const std::string& s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) { if (c < 32 || c >= 127 || c == '"' || c == '\\') { snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; if (r.size() > 400) { r += "..."; break; } }
  return r + "\"";
}
inline std::string show(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
inline std::string show(long d) { return std::to_string(d); }
inline std::string show(const std::vector<double>& v) { std::string r = "{"; for (double d : v) { r += show(d) + ","; if (r.size() > 300) { r += "..."; break; } } return r + "}"; }
template <class M> std::string showm(const M& m) { std::string r = "{"; for (auto& p : m) r += show(p.first) + ":" + show(p.second) + ","; return r + "}"; }
// one case: what is being run (reported if it crashes or hangs)
inline void now(const std::string& s) {
  ++evals; seen.insert(std::hash<std::string>()(s)); snprintf(cur, sizeof cur, "%s", s.c_str());
  if (samples.size() < 4 || (samples.size() < 12 && (evals & (evals - 1)) == 0)) samples.push_back(s.substr(0, 200));
}
inline void more(long n) { evals += n; }
inline void report();
inline void fail(const std::string& what, const std::string& detail = "") {
  std::string d = detail.empty() ? std::string(cur) : detail;
  for (auto& c : d) if (c == '\n') c = ' ';
  printf("FAIL %s | %s\n", what.c_str(), d.c_str()); fflush(stdout);
  if (++fails >= 3) { report(); fflush(stdout); _exit(1); }
}
inline bool expect(bool ok, const char* what, const std::string& detail = "") { if (!ok) fail(what, detail); return ok; }
inline void report() {
  printf("STATS %ld %ld\n", evals, (long)seen.size());
  for (auto& s : samples) { std::string t = s; for (auto& c : t) if (c == '\n') c = ' '; printf("SAMPLE %s\n", t.c_str()); }
}
inline void on_sig(int s) {
  char b[4500]; int n = snprintf(b, sizeof b, "FAIL %s | %s\n", s == SIGALRM ? "the operation does not terminate" : s == SIGSEGV ? "memory access outside the objects (segmentation fault)" : s == SIGABRT ? "abort (assertion or sanitizer)" : "crash", cur);
  ssize_t r = write(1, b, n); (void)r; _exit(1);
}
// mixed byte strings; alphabets chosen per use
inline std::string str(int maxlen, const char* alpha = nullptr, bool anybyte = true) {
  std::string s; int n = (int)below(maxlen + 1); int na = alpha ? (int)strlen(alpha) : 0;
  for (int i = 0; i < n; ++i) s += (na && (!anybyte || below(8))) ? alpha[below(na)] : (char)below(256);
  return s;
}
inline double num() {
  switch (below(12)) {
    case 0: return 0.0; case 1: return -0.0; case 2: return 1.0; case 3: return (double)below(20) - 10;
    case 4: return ldexp((double)below(1u << 30), (int)below(80) - 40); case 5: return (double)below(1000) / 8;
    case 6: return -(double)below(1000) / 16; case 7: return 1e308; case 8: return 5e-324; case 9: return 0.1 * below(30);
    case 10: return -0.1 * below(30); default: return (double)below(5);
  }
}
inline double anynum() {
  switch (below(14)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: { uint64_t b = rnd(); double d; memcpy(&d, &b, 8); return d; } default: return num(); }
}
inline bool sameval(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
inline bool eqval(double a, double b) { return a == b || (a != a && b != b); }
}
using h::below; using h::coin; using h::expect; using h::show; using h::now; using h::fail;
void run();
#ifndef LIMIT_S
#define LIMIT_S 240
#endif
int main(int argc, char** argv) {
  if (argc > 1) h::rs ^= strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull;
  if (argc > 2) h::thorough = !strcmp(argv[2], "thorough");
  for (int i = 0; i < 20; ++i) h::rnd();
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = h::on_sig;
  for (int s : {SIGALRM, SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, 0);
  alarm(LIMIT_S * (h::thorough ? 3 : 1));
  try { run(); } catch (const std::exception& e) { fail(std::string("unexpected exception ") + e.what()); } catch (...) { fail("unexpected exception"); }
  h::report();
  fflush(stdout);
  _exit(h::fails ? 1 : 0);
}
