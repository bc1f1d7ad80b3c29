#include "h.h"
#include <functional>
#include "fakecurl.h"
#include <sstream>
#include "prometheus/gateway.h"
#include "prometheus/labels.h"
#include "prometheus/metric_family.h"
#include "prometheus/collectable.h"
#include "prometheus/detail/base64.h"
#include "label_encoder.h"
using namespace prometheus;
static bool unres(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~'; }
// the Pushgateway's rule: <name>/<value> or <name>@base64/<base64url, padding optional>
static bool gwdecode(std::string v, std::string& out) {
  out.clear(); while (!v.empty() && v.back() == '=') v.pop_back(); unsigned acc = 0; int bits = 0;
  for (char c : v) { int x = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '-' ? 62 : c == '_' ? 63 : -1; if (x < 0) return false; acc = acc << 6 | x; bits += 6; if (bits >= 8) { bits -= 8; out += (char)(acc >> bits & 255); } }
  return v.size() % 4 != 1; }
// parses "/name/value/name/value..."; checks each pair against the wanted labels
static bool segs(const std::string& path, const std::vector<std::pair<std::string, std::string>>& want, const std::string& id) {
  std::vector<std::string> s; std::string c; if (!path.empty() && path[0] != '/') return expect(false, "a label starts with a slash", id + " path " + show(path)); for (size_t i = 1; i <= path.size(); ++i) if (i == path.size() || path[i] == '/') { s.push_back(c); c.clear(); } else c += path[i];
  if (path.empty()) s.clear();
  if (!expect(s.size() == 2 * want.size(), "every label is one name segment and one value segment", id + " path " + show(path))) return false;
  for (size_t i = 0; i < want.size(); ++i) {
    std::string n = s[2 * i], v = s[2 * i + 1], d; const std::string suf = "@base64"; bool b64 = n.size() >= suf.size() && n.compare(n.size() - suf.size(), suf.size(), suf) == 0; if (b64) n = n.substr(0, n.size() - suf.size());
    if (!expect(n == want[i].first, "the name segment is the label name", id + " path " + show(path))) return false;
    bool must = want[i].second.empty(); for (char x : want[i].second) must = must || !unres(x);
    if (!expect(!must || b64, "values with characters outside the unreserved set are base64url encoded", id + " path " + show(path))) return false;
    if (!expect(!v.empty(), "a value segment is never empty", id + " path " + show(path))) return false;
    if (b64) { if (!expect(gwdecode(v, d), "the value segment is base64url", id + " path " + show(path))) return false; } else { d = v; if (!expect(v != "." && v != "..", "no label value alters a path segment", id + " path " + show(path))) return false; for (char x : v) if (!expect(unres(x), "a plain value segment has unreserved characters only", id)) return false; }
    if (!expect(d == want[i].second, "the original value is recovered from the value segment", id + " path " + show(path) + " decoded " + show(d))) return false; }
  return true; }
static void one(const std::string& n, const std::string& v) { now("label " + n + "=" + show(v)); std::ostringstream os; detail::encodeLabel(os, Label{n, v}); segs(os.str(), {{n, v}}, h::cur); }
struct Coll : Collectable { std::vector<MetricFamily> Collect() const override { return {}; } };
static void gw() {
  static const char* urls[] = {"", "http://h:1", "http://h:1/", "http://h:1/a", "h", "/", "http://h/a/b/"}; std::string url = urls[below(7)], job = h::str(4, "job/. "); Labels ls, gl; const char* nm[] = {"a", "b", "instance", "z"};
  for (int i = below(4); i > 0; --i) ls[nm[below(4)]] = h::str(3, "v/.-", coin()); for (int i = below(3); i > 0; --i) gl[nm[below(4)]] = h::str(3, "v/.=", coin());
  std::string id = "url " + show(url) + " job " + show(job) + " labels " + h::showm(ls) + " collectable labels " + h::showm(gl); now(id); std::unique_ptr<Gateway> g; std::string base = url; bool hp = coin(3);
  if (hp) { base = "host:9091"; g.reset(new Gateway("host", "9091", job, ls)); } else g.reset(new Gateway(url, std::function<void(CURL*)>(), job, ls));
  if (!base.empty() && base.back() != '/') base += "/"; base += "metrics";
  auto c = std::make_shared<Coll>(); bool withl = coin(); g->RegisterCollectable(c, withl ? &gl : nullptr); fc::log.clear();
  std::vector<std::pair<std::string, std::string>> want{{"job", job}}; 
  g->Delete(); if (!expect(fc::log.size() == 1 && fc::log[0].url.compare(0, base.size(), base) == 0, "the URL starts with the base URL and the metrics path", id) || !segs(fc::log[0].url.substr(base.size()), want, id)) return;
  for (auto& p : ls) want.push_back(p); fc::log.clear(); g->DeleteForInstance(); if (!expect(fc::log.size() == 1 && fc::log[0].url.compare(0, base.size(), base) == 0, "the URL starts with the base URL and the metrics path", id) || !segs(fc::log[0].url.substr(base.size()), want, id)) return;
  if (withl) for (auto& p : gl) want.push_back(p); fc::log.clear(); g->Push(); if (!expect(fc::log.size() == 1 && fc::log[0].url.compare(0, base.size(), base) == 0, "the URL starts with the base URL and the metrics path", id)) return; segs(fc::log[0].url.substr(base.size()), want, id);
}
void run() {
  one("l", ""); for (int a = 0; a < 256; ++a) { std::string A(1, (char)a); one("l", A); one("n@x", A); for (int b = 0; b < 256; ++b) one("l", A + (char)b); one("l", "ab" + A); one("l", A + "bc"); one("l", "a" + A + "c"); one("l", std::string(20, 'x') + A); }
  for (const char* v : {".", "..", "...", "a.", "./", "../x", "/", "//", "a/b", "@base64", "%2F", "=", "==", "+", "-", "_", "~", "a@base64/b"}) one("job", v);
  for (long i = 0; i < (h::thorough ? 500000 : 50000) && !h::fails; ++i) one("lab", h::str(coin(40) ? 2000 : 12, "ab/.-_~@=+", !coin(3)));
  for (long i = 0; i < (h::thorough ? 50000 : 5000) && !h::fails; ++i) gw();
}
