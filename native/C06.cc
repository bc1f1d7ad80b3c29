#include "h.h"
#include <algorithm>
#include "prometheus/detail/ckms_quantiles.h"
using namespace prometheus::detail;
// internals, if they are called what they are called today
template <class T> auto accounted(T& t, long n, int) -> decltype((void)t.sample_[0].g, (void)t.sample_[0].value, int()) {
  long g = 0; for (size_t i = 0; i < t.sample_.size(); ++i) { g += t.sample_[i].g; if (t.sample_[i].g < 1) return 2; if (i && t.sample_[i].value < t.sample_[i - 1].value) return 3; }
  return g == n ? 1 : 4;
}
template <class T> int accounted(T&, long, long) { return 0; }
template <class T> auto counted(T& t, long n, int) -> decltype((void)t.count_, bool()) { return (long)t.count_ == n; }
template <class T> bool counted(T&, long, long) { return true; }
static double ranks[] = {0.5, 0.9, 0.99, 0.01, 0.25, 0.999, 0.0, 1.0};
static void history(int maxlen) {
  std::vector<CKMSQuantiles::Quantile> qs; int nq = below(4);
  std::string hist = "quantiles"; for (int i = 0; i < nq; ++i) { double r = ranks[below(6)], e = coin(5) ? 0.0 : coin() ? 0.05 : 0.001; qs.push_back({r, e}); hist += " " + show(r) + "/" + show(e); }
  CKMSQuantiles c(qs); std::multiset<double> obs; int mode = below(6); double v = 0;
  int ops = 1 + below(8);
  auto query = [&] {
    for (double q : ranks) { if (below(3) == 0) q = (double)below(1001) / 1000;
      double r = c.get(q); now(hist + " get(" + show(q) + ")");
      if (obs.empty()) { if (!expect(r != r, "the estimate is NaN if nothing was observed", std::string(h::cur) + " got " + show(r))) return; }
      else if (!expect(obs.count(r) > 0, "the estimate is one of the observed values", std::string(h::cur) + " got " + show(r))) return;
      int a = accounted(c, (long)obs.size(), 0);
      if (!expect(counted(c, (long)obs.size(), 0), "every observation is counted exactly once")) return;
      if (!expect(a < 2, a == 3 ? "the sample stays sorted" : a == 4 ? "the sample accounts for every observation exactly once" : "every sample item stands for at least one observation")) return; }
  };
  if (coin(3)) query();
  for (int k = 0; k < ops && !h::fails; ++k) {
    int n = below(3) ? below(maxlen) : coin() ? 498 + below(5) : 998 + below(5);
    hist += " insert " + std::to_string(n) + " mode " + std::to_string(mode);
    for (int i = 0; i < n; ++i) {
      switch (mode) { case 0: v = (double)below(5); break; case 1: v += 1; break; case 2: v -= 1; break; case 3: v = h::num(); break; case 4: v = 3; break; case 5: v = (i % 2) ? i : -i; }
      c.insert(v); obs.insert(v);
      if (n < 12) { hist += " " + show(v); if (coin(4)) query(); }
    }
    if (below(4)) query();
    if (coin(5)) { c.reset(); obs.clear(); hist += " reset"; if (coin()) query(); }
    if (coin(3)) mode = below(6);
  }
  query();
}
void run() {
  for (long i = 0; i < (h::thorough ? 15000 : 1500); ++i) history(20);
  for (long i = 0; i < (h::thorough ? 3000 : 250); ++i) history(1600);
}
