#include "h.h"
#include "clock.h"
#include <thread>
#include <memory>
#include "prometheus/summary.h"
#include "prometheus/client_metric.h"
using namespace prometheus;
static const double ranks[] = {0.5, 0.9, 0.99, 0.01, 0.25, 0.999};
static void check(Summary& s, const std::vector<double>& q, uint64_t n, double sum, const std::string& hist) {
  for (int k = 0; k < 2; ++k) {
    auto S = s.Collect().summary;
    if (!expect(S.sample_count == n, "the count is the number of observations of the whole lifetime", hist + " want " + std::to_string(n) + " got " + std::to_string(S.sample_count))) return;
    if (!expect(h::eqval(S.sample_sum, sum), "the sum is the running sum of all observations", hist + " want " + show(sum) + " got " + show(S.sample_sum))) return;
    if (!expect(S.quantile.size() == q.size(), "one entry per configured quantile", hist)) return;
    for (size_t i = 0; i < q.size(); ++i) if (!expect(S.quantile[i].quantile == q[i], "quantiles are reported in configuration order with their rank", hist)) return;
  }
}
static void history(int len) {
  std::vector<double> q; Summary::Quantiles qs; int n = below(6);
  for (int i = 0; i < n; ++i) { double r = ranks[below(6)]; q.push_back(r); qs.push_back({r, coin() ? 0.05 : 0.001}); }
  int ab = 1 + below(7); long age = 1 + below(100000); std::string hist = "quantiles " + show(q) + " max_age " + std::to_string(age) + " buckets " + std::to_string(ab);
  std::unique_ptr<Summary> sp(coin() ? new Summary(qs, std::chrono::milliseconds(age), ab) : new Summary(Summary::Quantiles(qs), std::chrono::milliseconds(age), ab)); Summary& s = *sp;
  double sum = 0; uint64_t c = 0; check(s, q, 0, 0, hist);
  for (int i = 0; i < len; ++i) {
    if (coin(3)) { long d = below(3) ? below(age * 1000000l / ab + 2) : below(age * 3000000l); fake_ns += d; hist += " +" + std::to_string(d) + "ns"; }
    double v = h::num(); s.Observe(v); ++c; sum += v; if (hist.size() < 1000) hist += " " + show(v); now(hist);
    if (len < 30 || coin(100)) check(s, q, c, sum, hist);
  }
  check(s, q, c, sum, hist);
}
void run() {
  for (long i = 0; i < (h::thorough ? 30000 : 3000); ++i) history(below(14));
  for (long i = 0; i < (h::thorough ? 200 : 20); ++i) history(1200 + below(2000));
  { Summary::Quantiles qs{{0.5, 0.05}}; for (int cp = 0; cp < 2; ++cp) { Summary* s = cp ? new Summary(qs) : new Summary(Summary::Quantiles(qs), std::chrono::milliseconds(1000), 2); s->Observe(1); now("default constructed"); check(*s, {0.5}, 1, 1, "one observation"); delete s; } }
  for (int k = 0; k < (h::thorough ? 10 : 3); ++k) { Summary s(Summary::Quantiles{{0.5, 0.05}}); std::vector<std::thread> ts; now("concurrent observers"); for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 10000; ++i) s.Observe(t); }); for (int i = 0; i < 50; ++i) s.Collect(); for (auto& t : ts) t.join(); check(s, {0.5}, 40000, 60000, "4 threads x 10000 observations"); }
}
