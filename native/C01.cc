#include "h.h"
#include <thread>
#include "prometheus/counter.h"
#include "prometheus/client_metric.h"
using namespace prometheus;
static void check(Counter& c, double want, const std::string& hist) {
  if (!h::eqval(c.Value(), want)) fail("Counter::Value differs from the sum of the accepted increments", hist + " want " + show(want) + " got " + show(c.Value()));
  if (!h::eqval(c.Collect().counter.value, want)) fail("Counter::Collect differs from the sum of the accepted increments", hist + " want " + show(want) + " got " + show(c.Collect().counter.value));
}
static void history() {
  Counter c; double want = 0; std::string hist = "history:"; int n = 1 + below(12);
  check(c, 0, hist);
  for (int i = 0; i < n; ++i) {
    switch (below(10)) {
      case 0: c.Reset(); want = 0; hist += " reset"; break;
      case 1: case 2: c.Increment(); want = want + 1.0; hist += " inc"; break;
      default: { double v = coin(10) ? h::anynum() : h::num(); hist += " inc(" + show(v) + ")"; c.Increment(v); if (!(v < 0.0)) want = want + v; }
    }
    now(hist);
    check(c, want, hist);
  }
}
static void race(int threads, int per, int readers) {
  Counter c; std::vector<std::thread> ts; volatile bool stop = false; bool mono = true;
  now("concurrent: " + std::to_string(threads) + " threads x " + std::to_string(per) + " increments");
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] { for (int i = 0; i < per; ++i) { if (t % 3 == 0) c.Increment(); else if (t % 3 == 1) c.Increment(2.0); else { c.Increment(-5.0); c.Increment(0.5); } } });
  std::vector<std::thread> rt;
  for (int r = 0; r < readers; ++r) rt.emplace_back([&] { double last = 0; while (!stop) { double v = r % 2 ? c.Value() : c.Collect().counter.value; if (v < last) mono = false; last = v; } });
  for (auto& t : ts) t.join(); stop = true; for (auto& t : rt) t.join();
  double want = 0; for (int t = 0; t < threads; ++t) want += per * (t % 3 == 0 ? 1.0 : t % 3 == 1 ? 2.0 : 0.5);
  expect(c.Value() == want, "concurrent increments are all counted exactly once", std::string(h::cur) + " want " + show(want) + " got " + show(c.Value()));
  expect(mono, "the counter decreased during concurrent increments");
}
void run() {
  for (double v : {0.0, 1.0, -1.0, -0.0, 0.5, 1e308, 5e-324, -5e-324, (double)INFINITY, -(double)INFINITY, 9007199254740992.0, 1e-300, 4294967296.0, -1e-300}) {
    Counter c; c.Increment(v); double w = v < 0 ? 0 : 0 + v; now("inc " + show(v)); check(c, w, "inc(" + show(v) + ")"); c.Increment(); check(c, w + 1, "inc(" + show(v) + ") inc"); c.Increment(v); check(c, v < 0 ? 1 : w + 1 + v, "inc v inc inc v"); c.Reset(); check(c, 0, "reset"); }
  for (long i = 0; i < (h::thorough ? 400000 : 40000); ++i) history();
  { Counter c; double w = 0; for (long i = 0; i < 300000; ++i) { double v = (i % 7) * 0.1; c.Increment(v); w += v; } now("300000 increments in one counter"); check(c, w, "long history"); }
  for (int i = 0; i < (h::thorough ? 60 : 8); ++i) race(2 + below(7), 60000, 2);
}
