#include "h.h"
#include <memory>
#include "prometheus/histogram.h"
#include "prometheus/client_metric.h"
using namespace prometheus;
typedef std::vector<double> V;
static void check(Histogram& hg, const V& b, const V& obs, double sum, const std::string& hist) {
  ClientMetric m = hg.Collect(); auto& H = m.histogram;
  if (!expect(H.bucket.size() == b.size() + 1, "a histogram lists its boundaries and one +Inf bucket", hist)) return;
  for (size_t i = 0; i <= b.size(); ++i) {
    double ub = i < b.size() ? b[i] : INFINITY; uint64_t n = 0;
    for (double o : obs) if (i == b.size() || o <= ub) ++n;
    if (!expect(h::eqval(H.bucket[i].upper_bound, ub), "bucket boundaries are reported in order, then +Inf", hist)) return;
    if (!expect(H.bucket[i].cumulative_count == n, "cumulative count equals the number of observations <= boundary", hist + " bucket " + std::to_string(i) + " want " + std::to_string(n) + " got " + std::to_string(H.bucket[i].cumulative_count))) return;
  }
  expect(H.sample_count == obs.size(), "the sample count equals the number of observations", hist);
  expect(h::eqval(H.sample_sum, sum), "the sum is the sum of the observed values", hist + " want " + show(sum) + " got " + show(H.sample_sum));
}
static V bounds() {
  std::set<double> s; int n = below(4) ? below(6) : below(40); bool dense = coin();
  for (int i = 0; i < n; ++i) s.insert(dense ? (double)below(12) - 4 : h::num());
  if (coin(12)) s.insert(-INFINITY); if (coin(12)) s.insert(INFINITY);
  V v(s.begin(), s.end()); return v;
}
static void history(int len) {
  V b = bounds(), obs; double sum = 0; std::string hist = "boundaries " + show(b) + " observe";
  V copy = b; bool mv = coin();
  std::unique_ptr<Histogram> hp(mv ? new Histogram(std::move(copy)) : new Histogram(b)); Histogram& hg = *hp;
  check(hg, b, obs, 0, hist);
  for (int i = 0; i < len; ++i) {
    if (coin(30)) { hg.Reset(); obs.clear(); sum = 0; hist += " reset"; check(hg, b, obs, sum, hist); continue; }
    double v;
    if (!b.empty() && below(3)) { v = b[below(b.size())]; switch (below(4)) { case 0: v = std::nextafter(v, INFINITY); break; case 1: v = std::nextafter(v, -INFINITY); break; default:; } }
    else v = coin(20) ? h::anynum() : h::num();
    hg.Observe(v); obs.push_back(v); sum = sum + v; hist += " " + show(v);
    now(hist); if (len < 40 || coin(16) || i == len - 1) check(hg, b, obs, sum, hist);
  }
}
#include <thread>
void run() {
  for (long i = 0; i < (h::thorough ? 60000 : 6000); ++i) history(1 + below(10));
  for (long i = 0; i < (h::thorough ? 200 : 20); ++i) history(1500);
  { V b; for (int i = 0; i < 3000; ++i) b.push_back(i); Histogram hg(b); V obs; double sum = 0; for (int i = -1; i <= 3001; ++i) { hg.Observe(i); obs.push_back(i); sum += i; } now("3000 boundaries"); check(hg, b, obs, sum, "3000 boundaries, each observed"); }
  for (int k = 0; k < (h::thorough ? 20 : 4); ++k) { V b{1, 2, 3}; Histogram hg(b); std::vector<std::thread> ts; bool bad = false; volatile bool stop = false; now("concurrent observers and collectors");
    for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 20000; ++i) hg.Observe(t); });
    std::thread r([&] { while (!stop) { auto m = hg.Collect().histogram; uint64_t last = 0; for (auto& x : m.bucket) { if (x.cumulative_count < last) bad = true; last = x.cumulative_count; } if (last != m.sample_count) bad = true; } });
    for (auto& t : ts) t.join(); stop = true; r.join(); expect(!bad, "a concurrent collection is inconsistent");
    auto m = hg.Collect().histogram; uint64_t w[] = {40000, 60000, 80000, 80000}; for (int i = 0; i < 4; ++i) expect(m.bucket[i].cumulative_count == w[i], "concurrent observations are all counted"); expect(m.sample_count == 80000 && m.sample_sum == 20000.0 * 6, "concurrent observations are all counted in count and sum"); }
}
