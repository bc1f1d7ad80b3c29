#include "h.h"
#include "fakecurl.h"
#include <map>
#include <future>
#include <atomic>
#include "prometheus/gateway.h"
#include "prometheus/collectable.h"
#include "prometheus/metric_family.h"
#include "prometheus/text_serializer.h"
using namespace prometheus;
struct Coll : Collectable { int id; mutable std::atomic<int> n{0}; bool empty = false; std::vector<MetricFamily> Collect() const override { ++n; if (empty) return {}; std::vector<MetricFamily> r(1); r[0].name = "m" + std::to_string(id); r[0].type = MetricType::Gauge; r[0].metric.resize(1); r[0].metric[0].gauge.value = id + 0.5; return r; } };
static long statuses[] = {200, 202, 201, 399, 400, 404, 500, 100, 99, 0, 301, 599, 204};
static void one() {
  Gateway g("http://h:9", std::function<void(CURL*)>(), "j", coin() ? Labels{{"inst", "x"}} : Labels{}); std::vector<std::shared_ptr<Coll>> all; std::vector<int> order; std::vector<std::string> path; std::map<int, std::string> uri; int n = below(5); std::string hist = "collectables";
  std::vector<Labels> ls; bool instl;
  { fc::log.clear(); fc::decide = nullptr; fc::plan.clear(); g.DeleteForInstance(); g.Delete(); instl = fc::log[0].url != fc::log[1].url; (void)instl; }
  std::string base = fc::log[0].url;
  for (int i = 0; i < n; ++i) { auto c = std::make_shared<Coll>(); c->id = i; c->empty = coin(6); bool l = coin(); Labels lab{{"k", std::to_string(i)}}; g.RegisterCollectable(c, l ? &lab : nullptr); uri[i] = base + (l ? "/k/" + std::to_string(i) : ""); order.push_back(i); all.push_back(c); hist += " " + std::to_string(i) + (c->empty ? "(empty)" : ""); if (coin(4)) { g.RegisterCollectable(c, nullptr); order.push_back(1000 + i); uri[1000 + i] = base; hist += " again"; } if (coin(5)) { all[below(i + 1)].reset(); hist += " one dies"; } }
  if (n && coin(3)) { all[below(n)].reset(); hist += " one dies"; }
  for (int round = 0; round < 3; ++round) {
    int op = below(4); static const char* on[] = {"Push", "PushAdd", "AsyncPush", "AsyncPushAdd"}; std::map<std::string, std::pair<CURLcode, long>> plan; std::vector<std::pair<CURLcode, long>> seq; std::vector<fc::Req> want; std::vector<int> ret; std::string h2 = hist + " " + on[op] + " replies";
    // replies by request number for the synchronous calls, by request for the asynchronous ones
    for (int o : order) { int i = o % 1000; if (!all[i]) continue; fc::Req r; r.url = uri[o]; r.method = op % 2 ? "PUT" : "POST"; r.body = TextSerializer().Serialize(all[i]->Collect()); want.push_back(r); CURLcode rc = coin(8) ? CURLE_COULDNT_CONNECT : coin(12) ? CURLE_OPERATION_TIMEDOUT : CURLE_OK; long st = below(3) ? 200 : statuses[below(13)]; auto p = std::make_pair(rc, st); std::string key = r.method + r.url + "\n" + r.body; if (plan.count(key)) p = plan[key]; plan[key] = p; seq.push_back(p); ret.push_back(p.first ? -(int)p.first : (int)p.second); h2 += " " + std::to_string(ret.back()); }
    for (auto& c : all) if (c) c->n = 0;
    { std::lock_guard<std::mutex> l(fc::mu); fc::log.clear(); fc::decide = [&plan](const fc::Req& r) { auto it = plan.find(r.method + r.url + "\n" + r.body); return it == plan.end() ? std::make_pair(CURLE_OK, 200l) : it->second; }; }
    now(h2); int got = op == 0 ? g.Push() : op == 1 ? g.PushAdd() : op == 2 ? g.AsyncPush().get() : g.AsyncPushAdd().get();
    { std::lock_guard<std::mutex> l(fc::mu); fc::decide = nullptr; }
    auto bad = [](int s) { return s < 100 || s >= 400; };
    if (op < 2) {
      size_t k = want.size(); int expect_ret = 200; for (size_t i = 0; i < ret.size(); ++i) if (bad(ret[i])) { k = i + 1; expect_ret = ret[i]; break; }
      if (!expect(fc::log.size() == k, "a synchronous push sends one request per live collectable and stops at the first failure", h2 + " sent " + std::to_string(fc::log.size()))) return;
      for (size_t i = 0; i < k; ++i) { if (!expect(fc::log[i].url == want[i].url, "each collectable is pushed to its own URL", h2 + " " + fc::log[i].url)) return; if (!expect(fc::log[i].method == want[i].method, "the request method is that of the call", h2)) return; if (!expect(fc::log[i].body == want[i].body, "each request carries exactly its collectable's serialised metrics", h2 + " " + show(fc::log[i].body))) return; }
      if (!expect(got == expect_ret, "a push returns 200 or the status of the first failure", h2 + " returned " + std::to_string(got))) return;
    } else {
      std::multiset<std::string> a, b; for (auto& r : fc::log) a.insert(r.method + " " + r.url + "\n" + r.body); for (auto& r : want) b.insert(r.method + " " + r.url + "\n" + r.body);
      if (!expect(a == b, "an asynchronous push sends every live collectable once to its own URL", h2)) return;
      bool anybad = false, isone = false; for (int r : ret) { if (bad(r)) { anybad = true; isone = isone || r == got; } }
      if (!expect(anybad ? isone : got == 200, "an asynchronous push returns the status of a failed request, 200 if there is none", h2 + " returned " + std::to_string(got))) return;
    }
    if (coin(3) && n) { all[below(n)].reset(); hist += " one dies"; }
    if (coin(3)) { auto c = std::make_shared<Coll>(); c->id = n; ++n; g.RegisterCollectable(c); order.push_back(c->id); uri[c->id] = base; all.push_back(c); hist += " register " + std::to_string(c->id); }
  }
  for (int k = 0; k < 4; ++k) { CURLcode rc = coin(5) ? CURLE_COULDNT_CONNECT : CURLE_OK; long st = statuses[below(13)]; { std::lock_guard<std::mutex> l(fc::mu); fc::log.clear(); fc::decide = [&](const fc::Req&) { return std::make_pair(rc, st); }; } static const char* dn[] = {"Delete", "DeleteForInstance", "AsyncDelete", "AsyncDeleteForInstance"}; std::string h2 = hist + " " + dn[k] + " reply " + std::to_string(rc) + "/" + std::to_string(st); now(h2);
    int got = k == 0 ? g.Delete() : k == 1 ? g.DeleteForInstance() : k == 2 ? g.AsyncDelete().get() : g.AsyncDeleteForInstance().get(); { std::lock_guard<std::mutex> l(fc::mu); fc::decide = nullptr; }
    std::string job = "http://h:9/metrics/job/j"; if (!expect(fc::log.size() == 1 && fc::log[0].method == "DELETE" && fc::log[0].body.empty() && fc::log[0].url == (k % 2 ? base : job), "a delete sends one DELETE to its URL", h2)) return; if (!expect(got == (rc ? -(int)rc : (int)st), "a delete returns the status of its request", h2 + " returned " + std::to_string(got))) return; }
}
void run() { for (long i = 0; i < (h::thorough ? 30000 : 2500) && !h::fails; ++i) one(); }
