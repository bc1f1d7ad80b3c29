#include "h.h"
#include "names.h"
#include <locale.h>
#include <locale>
#include "prometheus/check_names.h"
#include "prometheus/metric_type.h"
using namespace prometheus;
static void one(const std::string& s) {
  now("name " + show(s));
  expect(CheckMetricName(s) == spec::name(s, true), "CheckMetricName accepts exactly the metric name grammar");
  for (int t = 0; t < 6; ++t) {
    MetricType m = (MetricType)t;
    if (!expect(CheckLabelName(s, m) == spec::label(s, m == MetricType::Histogram, m == MetricType::Summary), "CheckLabelName accepts exactly the label name grammar and reserved names", "label name " + show(s) + " type " + std::to_string(t))) return;
  }
}
void run() {
  for (int round = 0; round < 2; ++round) {
    if (round) { setlocale(LC_ALL, "C.UTF-8"); try { std::locale::global(std::locale("C.UTF-8")); } catch (...) {} }
    one("");
    for (int a = 0; a < 256; ++a) { one(std::string(1, (char)a)); for (int b = 0; b < 256; ++b) one(std::string{(char)a, (char)b}); }
    for (const char* p : {"_", "__", "a", "le", "quantile", "a_", "A0:", ":", "::", "_:", "le_", "quantil", "quantiles", "Le", "xle"})
      for (int a = 0; a < 256; ++a) { one(std::string(p) + (char)a); one((char)a + std::string(p)); one(std::string(p) + (char)a + "z"); one(std::string(p) + "zz" + (char)a); }
    for (const char* p : {"le", "quantile", "_", "__", "___", "a__b", "_a_", "_9", "9", "0a"}) one(p);
    for (int n : {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 65536}) {
      one(std::string(n, 'a')); std::string s(n, 'a'); s[n - 1] = '-'; one(s); s[n - 1] = ':'; one(s); s[n - 1] = 0; one(s); s[n / 2] = '\xe9'; one(s); s.assign(n, '_'); one(s); s[1] = 'a'; one(s);
    }
    long N = h::thorough ? 1500000 : 150000;
    for (long i = 0; i < N; ++i) one(h::str(below(10) ? 8 : 200, "abzAZ09__:lequantile", !coin(3)));
  }
}
