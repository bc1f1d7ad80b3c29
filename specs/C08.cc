#include "env.h"
#include "prometheus/check_names.h"
#include "prometheus/metric_type.h"
#include "names.h"
using namespace prometheus;

ENTRY(t_metric_name) {
  std::string& s = any<std::string>("name");
  bool r = CheckMetricName(s);
  __v_reach("ok");
  check(r == spec::name(s, true), "CheckMetricName accepts exactly the metric name grammar");
}
ENTRY(t_label_name) {
  std::string& s = any<std::string>("name");
  int t = __v_any_i32("type");
  __v_assume(t >= 0 && t <= 5);
  bool want = spec::label(s, t == (int)MetricType::Histogram, t == (int)MetricType::Summary);
  bool r = CheckLabelName(s, (MetricType)t);
  check(r == want, "CheckLabelName accepts exactly the label name grammar and reserved names");
}
