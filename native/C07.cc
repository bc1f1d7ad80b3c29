#include "h.h"
#include "clock.h"
#include "prometheus/summary.h"
#include "prometheus/client_metric.h"
#include "prometheus/detail/time_window_quantiles.h"
using namespace prometheus;
// groups of identical observations with ascending values: the highest rank must show the youngest group,
// the lowest rank an old group that is still allowed and not younger than the oldest required one
struct Group { long t; double v; };
template <class F, class G> static void drive(F observe, G lowhigh, long age_ns, int ab, int steps, std::string hist) {
  long interval = age_ns / ab; std::vector<Group> gs; double v = 0; long start = fake_ns; (void)start;
  long phases[] = {interval, interval - 1, interval + 1, interval / 2, interval / 3, 2 * interval, age_ns, age_ns - interval, age_ns - interval - 1, age_ns + 1, age_ns - 1, 0, 1, 3 * age_ns, 10 * age_ns + 7};
  for (int i = 0; i < steps; ++i) {
    long d = below(4) == 0 ? (long)below(2 * age_ns) : below(3) == 0 ? (long)below(interval / 2 + 1) : phases[below(15)]; if (d < 0) d = 0;
    fake_ns += d; if (hist.size() < 1500) hist += " +" + std::to_string(d);
    if (below(2)) { v += 1; for (int k = 0; k < 10; ++k) observe(v); gs.push_back({fake_ns, v}); if (hist.size() < 1500) hist += " obs" + show(v); now(hist); if (below(3)) continue; }
    double lo, hi; lowhigh(lo, hi); if (hist.size() < 1500) hist += " collect"; now(hist);
    double minok = INFINITY, minreq = INFINITY, maxok = -INFINITY, maxreq = -INFINITY;
    for (auto& g : gs) { long a = fake_ns - g.t; if (a <= age_ns) { minok = std::min(minok, g.v); maxok = std::max(maxok, g.v); } if (a < (ab - 1) * interval) { minreq = std::min(minreq, g.v); maxreq = std::max(maxreq, g.v); } }
    std::string got = hist + " got " + show(lo) + ".." + show(hi);
    if (maxok == -INFINITY) { if (!expect(lo != lo && hi != hi, "quantiles never reflect an observation older than the maximum age", got)) return; }
    if (maxreq > -INFINITY) {
      if (!expect(hi >= maxreq, "quantiles reflect every observation younger than maximum age minus one interval", got)) return;
      if (!expect(lo <= minreq, "quantiles reflect every observation younger than maximum age minus one interval (oldest)", got)) return;
    }
    if (lo == lo && maxok > -INFINITY && !expect(lo >= minok, "quantiles never reflect an observation older than the maximum age (mixed)", got)) return;
  }
}
static void history(int steps) {
  int ab = 1 + below(8); long unit = coin() ? 1000000l : 1 + below(100000); long age_ms = 1; long age_ns; bool via_summary = coin();
  if (via_summary) { age_ms = ab * (1 + below(50000)); age_ns = age_ms * 1000000l; } else age_ns = ab * unit * (1 + below(1000));
  fake_ns = 1000000000l + below(1000000);
  std::string hist = (via_summary ? "Summary" : "TimeWindowQuantiles") + std::string(" max_age ") + std::to_string(age_ns) + "ns buckets " + std::to_string(ab) + ":";
  if (via_summary) {
    Summary s(Summary::Quantiles{{0.0001, 0.00001}, {0.9999, 0.00001}}, std::chrono::milliseconds(age_ms), ab);
    drive([&](double v) { s.Observe(v); }, [&](double& lo, double& hi) { auto q = s.Collect().summary.quantile; lo = q[0].value; hi = q[1].value; }, age_ns, ab, steps, hist);
  } else {
    std::vector<detail::CKMSQuantiles::Quantile> qs{{0.0001, 0.00001}, {0.9999, 0.00001}};
    detail::TimeWindowQuantiles w(qs, std::chrono::nanoseconds(age_ns), ab);
    drive([&](double v) { w.insert(v); }, [&](double& lo, double& hi) { if (coin()) { lo = w.get(0.0001); hi = w.get(0.9999); } else { hi = w.get(0.9999); lo = w.get(0.0001); } }, age_ns, ab, steps, hist);
  }
}
void run() {
  { Summary s(Summary::Quantiles{{0.5, 0.05}}); long z = clock_reads; s.Collect(); if (clock_reads == z) { printf("NOTE the clock the library reads is not under control\n"); return; } }
  for (long i = 0; i < (h::thorough ? 60000 : 5000); ++i) history(2 + below(20));
  for (long i = 0; i < (h::thorough ? 300 : 30); ++i) history(300);
}
