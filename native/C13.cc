#include "h.h"
#include <map>
#include <algorithm>
#include "prometheus/text_serializer.h"
#include "prometheus/metric_family.h"
using namespace prometheus;
static std::string ser(const MetricFamily& f) { return TextSerializer().Serialize({f}); }
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> r; std::string c; for (char x : t) if (x == '\n') { r.push_back(c); c.clear(); } else c += x; if (!c.empty()) r.push_back(c); return r; }
static MetricType types[] = {MetricType::Counter, MetricType::Gauge, MetricType::Summary, MetricType::Untyped, MetricType::Histogram, MetricType::Info};
// reads the quoted value starting after the opening quote; false if it is not closed
static bool unescape(const std::string& s, size_t& i, std::string& out) {
  for (; i < s.size(); ++i) {
    if (s[i] == '"') { ++i; return true; }
    if (s[i] == '\n') return false;
    if (s[i] == '\\') { if (++i >= s.size()) return false; if (s[i] == 'n') out += '\n'; else if (s[i] == '\\' || s[i] == '"') out += s[i]; else return false; }
    else out += s[i];
  }
  return false;
}
static size_t nlines(int t, bool help) { return (help ? 1 : 0) + 1 + (types[t] == MetricType::Summary ? 3 : types[t] == MetricType::Histogram ? 4 : 1); }
static void one(const std::vector<std::string>& vals, const std::string& help, int t) {
  MetricFamily f; f.name = "nm"; f.help = help; f.type = types[t]; f.metric.resize(1); auto& m = f.metric[0];
  for (size_t i = 0; i < vals.size(); ++i) { ClientMetric::Label l; l.name = "l" + std::to_string(i); l.value = vals[i]; m.label.push_back(l); }
  if (types[t] == MetricType::Summary) { m.summary.quantile.resize(1); } if (types[t] == MetricType::Histogram) { m.histogram.bucket.resize(1); m.histogram.bucket[0].upper_bound = 1; }
  std::string id = "type " + std::to_string(t) + " help " + show(help) + " values"; for (auto& v : vals) id += " " + show(v); now(id);
  std::string text = ser(f); auto ls = lines(text);
  if (!expect(!text.empty() && text.back() == '\n' && ls.size() == nlines(t, !help.empty()), "no label value or help text starts a new line", id + " text " + show(text))) return;
  size_t k = 0;
  if (!help.empty()) {
    std::string pre = "# HELP nm "; if (!expect(ls[0].compare(0, pre.size(), pre) == 0, "the HELP line names the family", id)) return;
    std::string got, h = ls[0].substr(pre.size()); bool ok = true; for (size_t i = 0; i < h.size(); ++i) if (h[i] == '\\') { if (++i >= h.size()) ok = false; else if (h[i] == 'n') got += '\n'; else if (h[i] == '\\') got += '\\'; else ok = false; } else got += h[i];
    if (!expect(ok && got == help, "un-escaping the help text gives it back", id + " line " + show(ls[0]))) return; k = 1; }
  for (++k; k < ls.size(); ++k) {
    const std::string& l = ls[k]; size_t i = l.find('{');
    size_t extra = (types[t] == MetricType::Summary && l.compare(0, 3, "nm{") == 0) || (types[t] == MetricType::Histogram && l.compare(0, 9, "nm_bucket") == 0);
    if (vals.empty() && !extra) { continue; }
    if (!expect(i != std::string::npos, "labels are written", id + " line " + show(l))) return; ++i;
    for (size_t j = 0; j < vals.size(); ++j) {
      std::string want = (j ? ",l" : "l") + std::to_string(j) + "=\""; std::string v;
      if (!expect(l.compare(i, want.size(), want) == 0, "a label value ends a quoted value early", id + " line " + show(l))) return; i += want.size();
      if (!expect(unescape(l, i, v) && v == vals[j], "un-escaping a written label value gives back the original", id + " line " + show(l))) return; }
    if (extra) { std::string want = std::string(vals.empty() ? "" : ",") + (types[t] == MetricType::Summary ? "quantile=\"" : "le=\""); std::string v; if (!expect(l.compare(i, want.size(), want) == 0, "a label value ends a quoted value early", id + " line " + show(l))) return; i += want.size(); if (!expect(unescape(l, i, v), "quoted", id)) return; }
    if (!expect(l.compare(i, 2, "} ") == 0 && l.find_first_not_of("0123456789.eE+-Naif", i + 2) == std::string::npos, "a label value ends a quoted value early", id + " line " + show(l))) return;
  }
}
void run() {
  for (int a = 0; a < 256; ++a) { std::string A(1, (char)a); for (int t = 0; t < 6; ++t) { one({A}, "", t); one({}, A, t); } one({"x" + A}, A + "h", 1); one({A + "y", "z"}, "h" + A, 2); one({"x" + A + A + "y"}, "a" + A + A, 4); for (int b : {(int)'"', (int)'\\', (int)'\n', (int)'n', 0, (int)'a', (int)'\r', 0x85, 255}) { std::string B(1, (char)b); one({A + B}, A + B, 0); one({B + A}, B + A, 5); one({A, B}, B + A + B, 1); } }
  for (long i = 0; i < (h::thorough ? 400000 : 40000) && !h::fails; ++i) { std::vector<std::string> v; int n = below(4); for (int j = 0; j < n; ++j) v.push_back(h::str(coin(50) ? 3000 : 8, "\"\\\nn,={} a\r#", !coin(3))); one(v, coin() ? "" : h::str(coin(50) ? 3000 : 8, "\"\\\nn #\r", !coin(3)), below(6)); }
  // distinct values are written differently
  std::map<std::string, std::string> wr; const char al[] = {'"', '\\', '\n', 'n', 'a'};
  for (int len = 0; len <= 5; ++len) { int tot = 1; for (int i = 0; i < len; ++i) tot *= 5; for (int c = 0; c < tot; ++c) { std::string s; for (int x = c, i = 0; i < len; ++i, x /= 5) s += al[x % 5]; now("value " + show(s)); MetricFamily f; f.name = "n"; f.type = MetricType::Gauge; f.metric.resize(1); ClientMetric::Label l; l.name = "l"; l.value = s; f.metric[0].label.push_back(l); auto t = ser(f); auto r = wr.insert({t, s}); expect(r.second, "distinct label values are written differently", show(s) + " and " + show(r.first->second)); } }
}
