#include "h.h"
#include <locale>
#include <sstream>
#include <iomanip>
#include "prometheus/text_serializer.h"
#include "prometheus/metric_family.h"
using namespace prometheus;
// the exposition format, written down independently. Numbers are \x01<raw double>\x02 tokens in the expected text
struct Tok { std::string text; double num; bool isnum; };
typedef std::vector<Tok> Exp;
static void T(Exp& e, const std::string& s) { if (!e.empty() && !e.back().isnum) e.back().text += s; else e.push_back({s, 0, false}); }
static void N(Exp& e, double d) { if (std::isinf(d)) T(e, d < 0 ? "-Inf" : "+Inf"); else e.push_back({"", d, true}); }
static std::string esc(const std::string& s, bool q) { std::string r; for (char c : s) if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '"' && q) r += "\\\""; else r += c; return r; }
static void head(Exp& e, const std::string& name, const ClientMetric& m, const char* xl = nullptr, double xv = 0) {
  T(e, name); if (m.label.empty() && !xl) { T(e, " "); return; } T(e, "{"); bool first = true;
  for (auto& l : m.label) { T(e, std::string(first ? "" : ",") + l.name + "=\"" + esc(l.value, true) + "\""); first = false; }
  if (xl) { T(e, std::string(first ? "" : ",") + xl + "=\""); N(e, xv); T(e, "\""); } T(e, "} "); }
static void tail(Exp& e, const ClientMetric& m) { if (m.timestamp_ms) T(e, " " + std::to_string(m.timestamp_ms)); T(e, "\n"); }
static Exp spec(const std::vector<MetricFamily>& fs) {
  Exp e; for (auto& f : fs) {
    if (!f.help.empty()) T(e, "# HELP " + f.name + " " + esc(f.help, false) + "\n");
    const char* ty = "?"; switch (f.type) { case MetricType::Counter: ty = "counter"; break; case MetricType::Gauge: case MetricType::Info: ty = "gauge"; break; case MetricType::Summary: ty = "summary"; break; case MetricType::Untyped: ty = "untyped"; break; case MetricType::Histogram: ty = "histogram"; }
    T(e, "# TYPE " + f.name + " " + ty + "\n");
    for (auto& m : f.metric) switch (f.type) {
      case MetricType::Counter: head(e, f.name, m); N(e, m.counter.value); tail(e, m); break;
      case MetricType::Gauge: head(e, f.name, m); N(e, m.gauge.value); tail(e, m); break;
      case MetricType::Info: head(e, f.name + "_info", m); N(e, m.info.value); tail(e, m); break;
      case MetricType::Untyped: head(e, f.name, m); N(e, m.untyped.value); tail(e, m); break;
      case MetricType::Summary: head(e, f.name + "_count", m); T(e, std::to_string(m.summary.sample_count)); tail(e, m); head(e, f.name + "_sum", m); N(e, m.summary.sample_sum); tail(e, m); for (auto& q : m.summary.quantile) { head(e, f.name, m, "quantile", q.quantile); N(e, q.value); tail(e, m); } break;
      case MetricType::Histogram: { head(e, f.name + "_count", m); T(e, std::to_string(m.histogram.sample_count)); tail(e, m); head(e, f.name + "_sum", m); N(e, m.histogram.sample_sum); tail(e, m); bool inf = false; for (auto& b : m.histogram.bucket) { head(e, f.name + "_bucket", m, "le", b.upper_bound); T(e, std::to_string(b.cumulative_count)); tail(e, m); inf = b.upper_bound == INFINITY; } if (!inf) { head(e, f.name + "_bucket", m, "le", INFINITY); T(e, std::to_string(m.histogram.sample_count)); tail(e, m); } }
    } }
  return e; }
// a written number: C locale, at least 16 significant digits
static bool numok(const std::string& s, double d) {
  if (d != d) { std::string l; for (char c : s) l += (char)((c >= 'A' && c <= 'Z') ? c + 32 : c); return l == "nan"; }
  char b[64]; for (int p = 16; p <= 17; ++p) { snprintf(b, 64, "%.*g", p, d); if (s == b) return true; }
  for (char c : s) if (!((c >= '0' && c <= '9') || c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-')) return false;
  char* end; double r = strtod(s.c_str(), &end); return !s.empty() && !*end && r == d; }
static void compare(const Exp& e, const std::string& got, const std::string& id) {
  size_t i = 0; for (size_t k = 0; k < e.size(); ++k) {
    if (!e[k].isnum) { if (got.compare(i, e[k].text.size(), e[k].text) != 0) { size_t j = 0; while (j < e[k].text.size() && i + j < got.size() && got[i + j] == e[k].text[j]) ++j; fail("the output contains exactly the collected data", id + " expected " + show(e[k].text.substr(j > 20 ? j - 20 : 0, 80)) + " got " + show(got.substr(i + (j > 20 ? j - 20 : 0), 80))); return; } i += e[k].text.size(); }
    else { size_t j = i; while (j < got.size() && got[j] != ' ' && got[j] != '\n' && got[j] != '"') ++j; if (!numok(got.substr(i, j - i), e[k].num)) { fail("numbers are written in the C locale with at least 16 significant digits", id + " value " + show(e[k].num) + " written " + show(got.substr(i, j - i))); return; } i = j; } }
  expect(i == got.size(), "the output contains nothing else", id + " extra " + show(got.substr(i)));
}
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
static double val() { return coin(3) ? h::anynum() : coin(3) ? 0.1 * below(100) : coin() ? (double)below(100000000) : h::num(); }
static uint64_t cnt() { switch (below(4)) { case 0: return below(5); case 1: return 1000000 + below(100000000); case 2: return h::rnd(); default: return 9007199254740993ull; } }
static MetricType types[] = {MetricType::Counter, MetricType::Gauge, MetricType::Summary, MetricType::Untyped, MetricType::Histogram, MetricType::Info};
static void one() {
  std::vector<MetricFamily> fs(below(4)); std::string id = "families:";
  for (auto& f : fs) {
    f.name = h::str(4, "abc_:"); f.help = coin() ? "" : h::str(6, "help \\\n\"", false); f.type = types[below(6)]; f.metric.resize(below(4)); id += " [type " + std::to_string((int)f.type) + " help " + show(f.help);
    for (auto& m : f.metric) {
      for (int i = below(4); i > 0; --i) { ClientMetric::Label l; l.name = h::str(2, "lmn", false) + "x"; l.value = h::str(4, "v\\\n\" ,}", false); m.label.push_back(l); }
      m.counter.value = val(); m.gauge.value = val(); m.info.value = coin() ? 1 : val(); m.untyped.value = val(); m.summary.sample_count = cnt(); m.summary.sample_sum = val(); m.summary.quantile.resize(below(4)); for (auto& q : m.summary.quantile) { q.quantile = coin() ? 0.5 : val(); q.value = val(); }
      m.histogram.sample_count = cnt(); m.histogram.sample_sum = val(); m.histogram.bucket.resize(below(4)); double u = -3; for (auto& b : m.histogram.bucket) { b.cumulative_count = cnt(); u += 1 + 0.1 * below(9); b.upper_bound = u; } if (!m.histogram.bucket.empty() && coin()) m.histogram.bucket.back().upper_bound = coin(4) ? NAN : INFINITY;
      if (coin()) m.timestamp_ms = coin(3) ? -(int64_t)below(2000) : coin(3) ? (int64_t)h::rnd() : 1 + below(2000000000000);
      id += " {labels " + std::to_string(m.label.size()) + " ts " + std::to_string(m.timestamp_ms) + " counter " + show(m.counter.value) + " gauge " + show(m.gauge.value) + " sum " + show(m.histogram.sample_sum) + " buckets " + std::to_string(m.histogram.bucket.size()) + "}"; }
    id += "]"; }
  now(id); Exp e = spec(fs);
  compare(e, TextSerializer().Serialize(fs), id);
  if (h::fails) return;
  // a stream with a foreign locale and precision
  std::ostringstream os; std::locale loc(std::locale::classic(), new Comma); if (coin()) os.imbue(loc); else loc = os.getloc(); int prec = below(20); os.precision(prec);
  TextSerializer().Serialize(os, fs); std::string sid = id + " stream precision " + std::to_string(prec);
  compare(e, os.str(), sid);
  expect(os.precision() == prec, "the stream's precision is restored", sid); expect(os.getloc() == loc, "the stream's locale is restored", sid);
}
void run() {
  for (long i = 0; i < (h::thorough ? 300000 : 25000) && !h::fails; ++i) one();
  std::locale::global(std::locale(std::locale::classic(), new Comma)); for (long i = 0; i < (h::thorough ? 100000 : 5000) && !h::fails; ++i) one(); std::locale::global(std::locale::classic());
  for (long i = 0; i < 20000 && !h::fails; ++i) { std::vector<MetricFamily> fs(1); fs[0].name = "x"; fs[0].type = MetricType::Gauge; fs[0].metric.resize(1); fs[0].metric[0].gauge.value = h::anynum(); now("gauge " + show(fs[0].metric[0].gauge.value)); compare(spec(fs), TextSerializer().Serialize(fs), "gauge " + show(fs[0].metric[0].gauge.value)); }
}
