// built with the thread sanitizer: any unprotected access to shared state is reported whatever the schedule
#define LIMIT_S 150
#include "h.h"
#include "fakecurl.h"
#include "fakecivet.h"
#include <thread>
#include <atomic>
#include <future>
#include "prometheus/metric_family.h"
#include "prometheus/exposer.h"
#include "prometheus/gateway.h"
#include "prometheus/registry.h"
#include "prometheus/family.h"
#include "prometheus/counter.h"
#include "prometheus/gauge.h"
#include "prometheus/histogram.h"
#include "prometheus/summary.h"
#include "prometheus/info.h"
using namespace prometheus;
typedef std::function<void(int)> Op;
static void pairs(const char* what, std::vector<std::pair<const char*, Op>> ops, int reps) {
  for (size_t i = 0; i < ops.size(); ++i) for (size_t j = i; j < ops.size(); ++j) {
    now(std::string(what) + ": " + ops[i].first + " concurrently with " + ops[j].first); std::atomic<int> go{0};
    std::thread a([&] { ++go; while (go < 2) {} for (int k = 0; k < reps; ++k) ops[i].second(k); }), b([&] { ++go; while (go < 2) {} for (int k = 0; k < reps; ++k) ops[j].second(k + 1); }); a.join(); b.join(); }
}
template <class T> void fam(const char* n, std::function<T&(Family<T>&, const Labels&)> add) {
  Family<T> f("fam", "h", {{"const", "1"}}); pairs((std::string(n)).c_str(), {
    {"Add", [&](int k) { add(f, {{"l", std::to_string(k % 7)}}); }}, {"Add invalid", [&](int k) { try { add(f, {{"__x", std::to_string(k)}}); } catch (const std::exception&) {} }}, {"Add constant", [&](int k) { try { add(f, {{"const", std::to_string(k)}}); } catch (const std::exception&) {} }},
    {"Has", [&](int k) { f.Has({{"l", std::to_string(k % 7)}}); }}, {"Collect", [&](int) { f.Collect(); }}, {"Remove", [&](int k) { f.Remove(k % 2 ? nullptr : &add(f, {{"gone", std::to_string(k)}})); }}, {"GetName", [&](int) { f.GetName(); f.GetConstantLabels(); }}}, 12);
}
struct Coll : Collectable { std::vector<MetricFamily> Collect() const override { return {}; } };
void run() {
  int N = h::thorough ? 8 : 2;
  for (int r = 0; r < N; ++r) {
    fam<Counter>("counter family", [](Family<Counter>& f, const Labels& l) -> Counter& { return f.Add(l); }); fam<Gauge>("gauge family", [](Family<Gauge>& f, const Labels& l) -> Gauge& { return f.Add(l); }); fam<Info>("info family", [](Family<Info>& f, const Labels& l) -> Info& { return f.Add(l); });
    fam<Histogram>("histogram family", [](Family<Histogram>& f, const Labels& l) -> Histogram& { return f.Add(l, Histogram::BucketBoundaries{1, 2}); }); fam<Summary>("summary family", [](Family<Summary>& f, const Labels& l) -> Summary& { return f.Add(l, Summary::Quantiles{{0.5, 0.05}}); });
    { Histogram hg(Histogram::BucketBoundaries{1, 2, 3}); pairs("histogram", {{"Observe", [&](int k) { hg.Observe(k % 5); }}, {"ObserveMultiple", [&](int) { hg.ObserveMultiple({1, 2, 3, 4}, 5); }}, {"ObserveMultiple wrong size", [&](int) { try { hg.ObserveMultiple({1}, 5); } catch (const std::exception&) {} }}, {"Reset", [&](int) { hg.Reset(); }}, {"Collect", [&](int) { hg.Collect(); }}}, 40);
      // a collection never shows half an update
      hg.Reset(); std::atomic<bool> stop{false}, bad{false}; now("histogram: Collect sees whole updates"); std::thread w([&] { for (int k = 0; k < 3000; ++k) { hg.ObserveMultiple({1, 1, 1, 1}, 4); if (k % 3 == 0) hg.Reset(); } stop = true; }), rd([&] { while (!stop) { auto m = hg.Collect().histogram; if (m.sample_sum != (double)m.sample_count || m.bucket[0].cumulative_count * 4 != m.sample_count) bad = true; } }); w.join(); rd.join(); expect(!bad, "a collection shows half an update of the histogram");
      hg.Reset(); stop = false; now("histogram: Collect sees whole observations"); std::thread w2([&] { for (int k = 0; k < 3000; ++k) hg.Observe(1); stop = true; }), rd2([&] { while (!stop) { auto m = hg.Collect().histogram; if (m.sample_sum != (double)m.sample_count) bad = true; } }); w2.join(); rd2.join(); expect(!bad, "a collection shows half an observation of the histogram"); }
    { Summary s(Summary::Quantiles{{0.5, 0.05}, {0.9, 0.01}}, std::chrono::milliseconds(5), 3); pairs("summary", {{"Observe", [&](int k) { for (int i = 0; i < 30; ++i) s.Observe(k); }}, {"Collect", [&](int) { s.Collect(); }}}, 60); std::atomic<bool> stop{false}, bad{false}; Summary s2(Summary::Quantiles{{0.5, 0.05}}); now("summary: Collect sees whole observations"); std::thread w([&] { for (int k = 0; k < 4000; ++k) s2.Observe(1); stop = true; }), rd([&] { while (!stop) { auto m = s2.Collect().summary; if (m.sample_sum != (double)m.sample_count) bad = true; } }); w.join(); rd.join(); expect(!bad, "a collection shows half an observation of the summary"); }
    for (int mode = 0; mode < 2; ++mode) { Registry reg(mode ? Registry::InsertBehavior::Merge : Registry::InsertBehavior::Throw); std::atomic<int> id{0};
      pairs("registry", {{"Add counter", [&](int k) { try { BuildCounter().Name("c" + std::to_string(k % 5)).Register(reg); } catch (const std::exception&) {} }}, {"Add gauge", [&](int k) { try { BuildGauge().Name("c" + std::to_string(k % 5)).Register(reg); } catch (const std::exception&) {} }}, {"Add histogram", [&](int k) { try { BuildHistogram().Name("h" + std::to_string(k % 5)).Register(reg); } catch (const std::exception&) {} }}, {"Add summary", [&](int k) { try { BuildSummary().Name("s" + std::to_string(k % 5)).Register(reg); } catch (const std::exception&) {} }}, {"Add info", [&](int k) { try { BuildInfo().Name("i" + std::to_string(k % 5)).Register(reg); } catch (const std::exception&) {} }}, {"Add invalid", [&](int) { try { BuildInfo().Name("9").Register(reg); } catch (const std::exception&) {} }}, {"Collect", [&](int) { reg.Collect(); }},
        {"Remove counter", [&](int) { reg.Remove(BuildCounter().Name("gc" + std::to_string(++id)).Register(reg)); }}, {"Remove gauge", [&](int) { reg.Remove(BuildGauge().Name("gg" + std::to_string(++id)).Register(reg)); }}, {"Remove histogram", [&](int) { reg.Remove(BuildHistogram().Name("gh" + std::to_string(++id)).Register(reg)); }}, {"Remove info", [&](int) { reg.Remove(BuildInfo().Name("gi" + std::to_string(++id)).Register(reg)); }}, {"Remove summary", [&](int) { reg.Remove(BuildSummary().Name("gs" + std::to_string(++id)).Register(reg)); }}}, 8);
      std::vector<std::thread> ts; std::atomic<int> won{0}; now("registry: racing registrations of one name"); for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { for (int k = 0; k < 50; ++k) try { std::string n = "r" + std::to_string(k); if (t % 2) BuildCounter().Name(n).Register(reg).Add({}); else BuildGauge().Name(n).Register(reg).Add({}); ++won; } catch (const std::exception&) {} }); for (auto& t : ts) t.join(); std::set<std::string> names; for (auto& f : reg.Collect()) expect(names.insert(f.name).second, "racing registrations give two families one name"); }
    { cv::handlers.clear(); cv::auths.clear(); Exposer ex(std::vector<std::string>{"listening_ports", "0"}); std::vector<std::shared_ptr<Collectable>> cs; for (int i = 0; i < 4; ++i) cs.push_back(std::make_shared<Coll>()); ex.RegisterCollectable(cs[0]); CivetHandler* hd = cv::handlers["/metrics"];
      pairs("exposer", {{"RegisterCollectable", [&](int k) { ex.RegisterCollectable(cs[k % 4], k % 3 ? "/metrics" : "/x" + std::to_string(k)); }}, {"RemoveCollectable", [&](int k) { ex.RemoveCollectable(cs[k % 4], k % 3 ? "/metrics" : "/y" + std::to_string(k)); }}, {"RegisterAuth", [&](int k) { ex.RegisterAuth([](const std::string&, const std::string&) { return true; }, "r", k % 3 ? "/metrics" : "/z" + std::to_string(k)); }}, {"scrape", [&](int k) { mg_connection c; if (k % 2) c.req["Accept-Encoding"] = "gzip"; hd->handleGet(nullptr, &c); }}}, 12); }
    { std::vector<std::shared_ptr<Collectable>> cs; for (int i = 0; i < 4; ++i) cs.push_back(std::make_shared<Coll>()); Gateway g("http://h", std::function<void(CURL*)>(), "j", {{"a", "b"}}); g.RegisterCollectable(cs[0]);
      pairs("gateway", {{"RegisterCollectable", [&](int k) { Labels l{{"x", "y"}}; g.RegisterCollectable(k % 3 ? cs[k % 4] : std::make_shared<Coll>(), k % 2 ? &l : nullptr); }}, {"Push", [&](int) { g.Push(); }}, {"PushAdd", [&](int) { g.PushAdd(); }}, {"AsyncPush", [&](int) { g.AsyncPush().get(); }}, {"AsyncPushAdd", [&](int) { g.AsyncPushAdd().get(); }}, {"Delete", [&](int) { g.Delete(); }}, {"AsyncDelete", [&](int) { g.AsyncDelete().get(); }}, {"DeleteForInstance", [&](int) { g.DeleteForInstance(); }}, {"AsyncDeleteForInstance", [&](int) { g.AsyncDeleteForInstance().get(); }}, {"AddHttpHeader", [&](int) { g.AddHttpHeader("a: b"); }}}, 4);
      expect(!fc::overlaps, "requests of a gateway overlap on its connection"); }
    { Counter c; pairs("counter", {{"Increment", [&](int) { c.Increment(); }}, {"Increment(v)", [&](int k) { c.Increment(k); }}, {"Reset", [&](int) { c.Reset(); }}, {"Value", [&](int) { c.Value(); }}, {"Collect", [&](int) { c.Collect(); }}}, 50); }
    { Gauge c; pairs("gauge", {{"Increment", [&](int) { c.Increment(); }}, {"Decrement(v)", [&](int k) { c.Decrement(k); }}, {"Set", [&](int) { c.Set(3); }}, {"SetToCurrentTime", [&](int) { c.SetToCurrentTime(); }}, {"Value", [&](int) { c.Value(); }}, {"Collect", [&](int) { c.Collect(); }}}, 50); }
  }
  // an exception releases the lock: the object is still usable (the watchdog reports a hang)
  { Family<Counter> f("x", "", {{"c", "1"}}); for (Labels l : {Labels{{"c", "2"}}, Labels{{"__", "2"}}}) { now("family usable after a rejected Add"); try { f.Add(l); } catch (const std::exception&) {} f.Add({{"ok", "1"}}); f.Collect(); } Registry r; now("registry usable after a rejected registration"); BuildCounter().Name("a").Register(r); for (int i = 0; i < 2; ++i) { try { if (i) BuildGauge().Name("a").Register(r); else BuildCounter().Name("9a").Register(r); } catch (const std::exception&) {} r.Collect(); } Histogram hg(Histogram::BucketBoundaries{1}); now("histogram usable after a rejected bulk observation"); try { hg.ObserveMultiple({}, 1); } catch (const std::exception&) {} hg.Observe(1); hg.Collect(); }
}
extern "C" void __tsan_on_report(void*) { static std::atomic<int> n{0}; if (n++ == 0) { fprintf(stdout, "FAIL unprotected concurrent access (data race) | %s\n", h::cur); fflush(stdout); ++h::fails; } }
extern "C" const char* __tsan_default_options() { return "halt_on_error=0 report_signal_unsafe=0 exitcode=0 detect_deadlocks=1 log_path=/dev/null"; }
