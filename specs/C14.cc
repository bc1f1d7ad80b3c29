#include "env.h"
#include <limits>
#include <vector>
#include "text.h"
static bool counted(const ClientMetric& m) { return true; }
// one family of the given type, any number of metrics
static void one(MetricType t) {
  MetricFamily& f = any<MetricFamily>("family"); f.type = t;
  std::vector<MetricFamily> fs; fs.push_back(f);
  std::string& before = any<std::string>("before");
  std::ostringstream os; os << before; os.imbue(std::locale("any")); os.precision(__v_any_i64("precision"));
  std::locale l = os.getloc(); long p = os.precision();
  TextSerializer().Serialize(os, fs);
  std::string want = before; spec::preamble(want, f);
  for (size_t i = 0; i < f.metric.size(); ++i) spec::metric(want, t, f.name, f.metric[i]);
  check_eq(os.str(), want, "a family is written as its help, its type and exactly the lines of its metrics");
  check(os.getloc() == l && os.precision() == p, "the locale and precision of the stream are restored");
}
ENTRY(t_counter) { one(MetricType::Counter); }
ENTRY(t_gauge) { one(MetricType::Gauge); }
ENTRY(t_info) { one(MetricType::Info); }
ENTRY(t_untyped) { one(MetricType::Untyped); }
ENTRY(t_summary) { one(MetricType::Summary); }
ENTRY(t_histogram) { one(MetricType::Histogram); }
