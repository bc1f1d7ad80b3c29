#include "h.h"
#include <thread>
#include <time.h>
#include "prometheus/gauge.h"
#include "prometheus/client_metric.h"
using namespace prometheus;
static time_t wall = 12345; static bool faked = false;
extern "C" time_t time(time_t* p) noexcept { faked = true; if (p) *p = wall; return wall; }
static void check(Gauge& c, double want, const std::string& hist) {
  if (!h::eqval(c.Value(), want)) fail("Gauge::Value differs from the value the updates define", hist + " want " + show(want) + " got " + show(c.Value()));
  if (!h::eqval(c.Collect().gauge.value, want)) fail("Gauge::Collect differs from the value the updates define", hist + " want " + show(want) + " got " + show(c.Collect().gauge.value));
}
static void history() {
  double want = coin() ? 0 : h::num(); Gauge c(want); std::string hist = "history: start " + show(want); int n = 1 + below(12);
  check(c, want, hist);
  for (int i = 0; i < n; ++i) {
    double v = coin(8) ? h::anynum() : h::num();
    switch (below(8)) {
      case 0: c.Increment(); want = want + 1.0; hist += " inc"; break;
      case 1: c.Decrement(); want = want - 1.0; hist += " dec"; break;
      case 2: case 3: c.Increment(v); want = want + v; hist += " inc(" + show(v) + ")"; break;
      case 4: case 5: c.Decrement(v); want = want - v; hist += " dec(" + show(v) + ")"; break;
      case 6: c.Set(v); want = v; hist += " set(" + show(v) + ")"; break;
      case 7: wall = coin(4) ? 1700000000 + below(1000000) : coin(3) ? 5000000000l + below(100) : coin(3) ? 0 : (time_t)below(100000); faked = false; c.SetToCurrentTime();
        if (!faked) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (std::fabs(c.Value() - ts.tv_sec) <= 2 && c.Value() == std::floor(c.Value())) { want = c.Value(); hist += " setnow"; break; } }
        want = (double)wall; hist += " setnow(" + std::to_string(wall) + ")"; break;
    }
    now(hist); check(c, want, hist);
  }
}
static void race(int threads, int per) {
  Gauge c; std::vector<std::thread> ts; now("concurrent: " + std::to_string(threads) + " threads x " + std::to_string(per) + " updates");
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] { for (int i = 0; i < per; ++i) switch (t % 4) { case 0: c.Increment(); break; case 1: c.Decrement(); break; case 2: c.Increment(3.0); break; case 3: c.Decrement(0.5); } });
  for (auto& t : ts) t.join();
  double want = 0; double d[] = {1, -1, 3, -0.5}; for (int t = 0; t < threads; ++t) want += per * d[t % 4];
  expect(c.Value() == want, "racing updates are never lost", std::string(h::cur) + " want " + show(want) + " got " + show(c.Value()));
  // set racing with set: only written values are ever read
  Gauge g(1.0); volatile bool stop = false; bool torn = false;
  std::thread a([&] { for (int i = 0; i < per; ++i) g.Set(1e300); stop = true; }), b([&] { while (!stop) g.Set(1.0); }), r([&] { while (!stop) { double v = g.Value(); if (v != 1.0 && v != 1e300) torn = true; v = g.Collect().gauge.value; if (v != 1.0 && v != 1e300) torn = true; } });
  a.join(); b.join(); r.join(); expect(!torn, "a racing Set is torn");
}
// a Set must not be overwritten by the read-modify-write it races with (set once, other thread adds)
static void race_set(int rounds) {
  now("set racing with increments");
  for (int k = 0; k < rounds; ++k) {
    Gauge g; std::thread a([&] { for (int i = 0; i < 3000; ++i) g.Increment(); }); g.Set(1e9); a.join(); double v = g.Value();
    // linearisable: the set happens after j increments, the other 3000-j follow
    if (!(v >= 1e9 && v <= 1e9 + 3000)) { fail("an update overwrote a racing Set", "3000 increments racing Set(1e9): final " + show(v)); return; }
  }
}
void run() {
  for (double v : {0.0, 1.0, -1.0, -0.0, 0.5, 1e308, 5e-324, -5e-324, (double)INFINITY, -(double)INFINITY, (double)NAN, 9007199254740992.0}) {
    Gauge c; c.Increment(v); now("inc " + show(v)); check(c, 0 + v, "inc(" + show(v) + ")"); c.Set(2); c.Decrement(v); check(c, 2 - v, "set 2 dec(" + show(v) + ")"); c.Set(v); check(c, v, "set(" + show(v) + ")"); Gauge d(v); check(d, v, "ctor " + show(v)); }
  for (long i = 0; i < (h::thorough ? 400000 : 40000); ++i) history();
  for (int i = 0; i < (h::thorough ? 60 : 8); ++i) race(2 + below(7), 60000);
  race_set(h::thorough ? 2000 : 300);
}
