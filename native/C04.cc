#include "h.h"
#include <stdexcept>
#include "prometheus/histogram.h"
#include "prometheus/client_metric.h"
using namespace prometheus;
typedef std::vector<double> V;
static bool strictly(const V& b) { for (size_t i = 0; i + 1 < b.size(); ++i) if (!(b[i] < b[i + 1])) return false; return true; }
static bool same(const ClientMetric::Histogram& a, const ClientMetric::Histogram& b) {
  if (a.bucket.size() != b.bucket.size() || a.sample_count != b.sample_count || !h::eqval(a.sample_sum, b.sample_sum)) return false;
  for (size_t i = 0; i < a.bucket.size(); ++i) if (a.bucket[i].cumulative_count != b.bucket[i].cumulative_count || !h::eqval(a.bucket[i].upper_bound, b.bucket[i].upper_bound)) return false;
  return true;
}
static void construct(const V& b) {
  now("construct " + show(b)); bool want = strictly(b);
  for (int mv = 0; mv < 2; ++mv) {
    bool ok = true; V c = b;
    try { if (mv) { Histogram hg(std::move(c)); auto H = hg.Collect().histogram; if (H.bucket.size() != b.size() + 1) fail("a constructed histogram has one bucket per boundary and +Inf"); for (size_t i = 0; i < b.size(); ++i) expect(h::eqval(H.bucket[i].upper_bound, b[i]), "boundaries are kept"); } else { Histogram hg(c); auto H = hg.Collect().histogram; for (size_t i = 0; i < b.size(); ++i) expect(i < H.bucket.size() && h::eqval(H.bucket[i].upper_bound, b[i]), "boundaries are kept"); } }
    catch (const std::exception&) { ok = false; }
    if (!expect(ok == want, mv ? "moving construction succeeds iff the boundaries strictly increase" : "copying construction succeeds iff the boundaries strictly increase")) return;
  }
}
static void bulk() {
  V b; std::set<double> s; int n = below(7); for (int i = 0; i < n; ++i) s.insert(h::num()); b.assign(s.begin(), s.end());
  Histogram hg(b); std::vector<uint64_t> cnt(b.size() + 1, 0); double sum = 0; std::string hist = "boundaries " + show(b);
  for (int k = 1 + below(6); k > 0; --k) {
    auto before = hg.Collect().histogram;
    if (coin(3)) { double v = h::num(); hg.Observe(v); size_t i = 0; while (i < b.size() && !(v <= b[i])) ++i; cnt[i]++; sum += v; hist += " observe " + show(v); }
    else {
      size_t len = below(3) ? b.size() + 1 : below(b.size() + 4); V inc; for (size_t i = 0; i < len; ++i) inc.push_back((double)below(coin(5) ? 1000000 : 6));
      double d = h::num(); hist += " bulk " + show(inc) + " sum " + show(d); now(hist);
      bool ok = true; try { hg.ObserveMultiple(inc, d); } catch (const std::exception&) { ok = false; }
      if (!expect(ok == (len == b.size() + 1), "a bulk observation succeeds iff it has one increment per bucket", hist)) return;
      auto after = hg.Collect().histogram;
      if (!ok) { if (!expect(same(before, after), "a rejected bulk observation changes nothing", hist)) return; }
      else { for (size_t i = 0; i < len; ++i) cnt[i] += (uint64_t)inc[i]; sum += d; }
    }
    auto H = hg.Collect().histogram; uint64_t c = 0; if (!expect(H.bucket.size() == cnt.size(), "bucket number", hist)) return;
    for (size_t i = 0; i < cnt.size(); ++i) { c += cnt[i]; if (!expect(H.bucket[i].cumulative_count == c, "each bucket grows by its own increment", hist)) return; }
    if (!expect(H.sample_count == c, "sample count", hist) || !expect(h::eqval(H.sample_sum, sum), "the sum grows by the given sum", hist)) return;
  }
}
void run() {
  double vals[] = {-INFINITY, -1, -0.0, 0.0, 1, std::nextafter(1.0, 2), 2, INFINITY, NAN};
  for (double a : vals) { construct({a}); for (double b : vals) { construct({a, b}); for (double c : vals) { construct({a, b, c}); construct({a, b, c, 5}); construct({-7, a, b, c}); construct({-9, -7, -5, a, b, c}); } } }
  construct({});
  for (long i = 0; i < (h::thorough ? 100000 : 8000); ++i) {
    std::set<double> s; int n = coin(10) ? below(200) : below(12); for (int j = 0; j < n; ++j) s.insert(h::num()); V b(s.begin(), s.end()); construct(b);
    if (b.size() > 1) { size_t k = below(b.size() - 1); V c = b; switch (below(4)) { case 0: c[k] = c[k + 1]; break; case 1: std::swap(c[k], c[k + 1]); break; case 2: c[k] = NAN; break; case 3: std::swap(c[0], c[c.size() - 1]); } construct(c); k = b.size() - 2; c = b; c[k + 1] = c[k]; construct(c); c = b; c[1] = c[0]; construct(c); }
  }
  for (long i = 0; i < (h::thorough ? 200000 : 20000); ++i) bulk();
}
