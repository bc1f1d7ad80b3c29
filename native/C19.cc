#include "h.h"
#include "fakecivet.h"
#include <algorithm>
#include "prometheus/exposer.h"
#include "prometheus/collectable.h"
#include "prometheus/registry.h"
using namespace prometheus;
struct Coll : Collectable { int id; std::vector<MetricFamily> Collect() const override { std::vector<MetricFamily> r(1); r[0].name = "m" + std::to_string(id) + "_"; r[0].type = MetricType::Gauge; r[0].metric.resize(1); return r; } };
// which collectables a scrape of this URI shows
static std::vector<int> scrape(const std::string& uri) { std::vector<int> r; auto it = cv::handlers.find(uri); if (it == cv::handlers.end()) return r; mg_connection c; static_cast<CivetHandler*>(it->second)->handleGet(nullptr, &c); std::string b = parse(c.out).body; size_t p = 0; while ((p = b.find("# TYPE m", p)) != std::string::npos) { r.push_back(atoi(b.c_str() + p + 8)); ++p; } return r; }
struct Tag { std::string n; Tag(std::string n) : n(n) {} ~Tag() { cv::log.push_back("destroyed " + n); } };
static std::string vs(const std::vector<int>& v) { std::string r; for (int i : v) r += " " + std::to_string(i); return r; }
static void one() {
  cv::handlers.clear(); cv::auths.clear(); cv::log.clear(); std::string hist = "exposer:";
  { Exposer ex(std::vector<std::string>{"listening_ports", "0"}); const char* uris[] = {"/metrics", "/a", "/", "/metrics/"}; std::map<std::string, std::vector<int>> lists; std::vector<std::shared_ptr<Coll>> live; std::vector<std::weak_ptr<Coll>> weak; std::map<std::string, int> auths; int na = 0; std::set<std::string> used; std::map<std::string, CivetHandler*> first;
  int ns = 1 + below(12);
  for (int s = 0; s < ns; ++s) {
    std::string u = uris[below(1 + below(4))]; int op = below(8); used.insert(u); size_t mark = cv::log.size();
    if (live.empty() || op < 4) { int id; if (live.empty() || coin(3)) { auto c = std::make_shared<Coll>(); c->id = live.size(); live.push_back(c); weak.push_back(c); id = c->id; } else id = below(live.size()); hist += " register " + std::to_string(id) + "@" + u; now(hist); if (live[id]) { if (u == "/metrics" && coin()) ex.RegisterCollectable(live[id]); else ex.RegisterCollectable(live[id], u); lists[u].push_back(id); } else { ex.RegisterCollectable(weak[id], u); hist += "(dead)"; } }
    else if (op < 6) { int id = below(live.size()); hist += " remove " + std::to_string(id) + (live[id] ? "" : "(dead)") + "@" + u; now(hist); ex.RemoveCollectable(weak[id], u); if (live[id]) { auto& l = lists[u]; l.erase(std::remove(l.begin(), l.end(), id), l.end()); } }
    else if (op == 6) { int id = below(live.size()); live[id].reset(); hist += " " + std::to_string(id) + " dies"; for (auto& p : lists) p.second.erase(std::remove(p.second.begin(), p.second.end(), id), p.second.end()); if (!used.count(u) ) {} used.erase(u); for (auto& p : first) if (p.first == u) used.insert(u); }
    else { ++na; std::string nm = "auth" + std::to_string(na); auto tag = std::make_shared<Tag>(nm); hist += " auth " + nm + "@" + u; now(hist); ex.RegisterAuth([tag](const std::string&, const std::string& p) { return p == tag->n; }, "r", u); tag.reset(); int old = auths.count(u) ? auths[u] : 0; auths[u] = na;
      size_t at = 0, de = 0; for (size_t i = mark; i < cv::log.size(); ++i) { if (cv::log[i] == "addauth " + u) at = i + 1; if (old && cv::log[i] == "destroyed auth" + std::to_string(old)) de = i + 1; if (!expect(cv::log[i] != "destroyed " + nm, "a newly installed authentication stays alive", hist)) return; }
      if (!expect(at, "replacing the authentication installs the new handler", hist)) return; if (old && !expect(de > at, de ? "the new authentication is installed before the old one is destroyed" : "the replaced authentication is destroyed", hist)) return; for (size_t i = mark; i < cv::log.size(); ++i) if (!expect(cv::log[i] != "removeauth " + u || i + 1 < at, "the authentication of a URI stays installed", hist)) return; }
    for (auto& x : used) { auto it = cv::handlers.find(x); if (!expect(it != cv::handlers.end(), "the endpoint of a URI is created on first use", hist)) return; if (!first.count(x)) { first[x] = it->second; for (auto& p : first) if (!expect(p.first == x || p.second != it->second, "different URIs have different endpoints", hist)) return; } if (!expect(first[x] == it->second && std::count(cv::log.begin(), cv::log.end(), "add " + x) == 1, "each URI has exactly one endpoint", hist)) return; }
    if (!expect(cv::handlers.size() == used.size() , "each used URI, and no other, has an endpoint", hist)) return;
    for (auto& x : used) { auto g = scrape(x); if (!expect(g == lists[x], "a URI's list has exactly the registered live collectables in order", hist + " at " + x + " want" + vs(lists[x]) + " got" + vs(g))) return; }
    for (auto& p : auths) { auto it = cv::auths.find(p.first); if (!expect(it != cv::auths.end(), "the authentication of a URI stays installed", hist)) return; mg_connection c; std::string cr = "x:auth" + std::to_string(p.second), e; static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; for (size_t i = 0; i < cr.size(); i += 3) { unsigned v = (unsigned char)cr[i] << 16 | (i + 1 < cr.size() ? (unsigned char)cr[i + 1] << 8 : 0) | (i + 2 < cr.size() ? (unsigned char)cr[i + 2] : 0); e += A[v >> 18]; e += A[v >> 12 & 63]; e += i + 1 < cr.size() ? A[v >> 6 & 63] : '='; e += i + 2 < cr.size() ? A[v & 63] : '='; } c.req["Authorization"] = "Basic " + e; if (!expect(static_cast<CivetAuthHandler*>(it->second)->authorize(nullptr, &c), "the installed authentication is the one registered last", hist)) return; }
  } }
  expect(cv::handlers.empty() && cv::auths.empty(), "endpoints unregister when the exposer goes", hist);
  size_t srv = 0, last = 0; for (size_t i = 0; i < cv::log.size(); ++i) { if (cv::log[i] == "~server") srv = i; if (cv::log[i].compare(0, 6, "remove") == 0) last = i; } expect(srv > last || last == 0, "handlers are removed before the server goes", hist);
}
void run() { for (long i = 0; i < (h::thorough ? 30000 : 3000) && !h::fails; ++i) one(); }
