#include "env.h"
#include <limits>
#include <locale>
#include <sstream>
#include <vector>
#include "prometheus/metric_family.h"
#include "prometheus/text_serializer.h"
using namespace prometheus;
// contract of the serialisation of one family (proved as C14 in C14.cc): on a stream in the C locale
// with at least 16 digits, appends a text that depends on the family only
static long id(const MetricFamily& f) { return __v_fn_i64("family", __v_fn_i64("family1", __v_strid(&f.name), __v_strid(&f.help)), __v_fn_i64("family2", __v_vecid(&f.metric, sizeof(ClientMetric)), (long)f.type)); }
static std::string text(const MetricFamily& f) { std::string r; __v_fn_str(&r, "family text", id(f), 0); return r; }
void ct_family(std::ostream& out, const MetricFamily& f) __asm__("__ct__ZN10prometheus12_GLOBAL__N_115SerializeFamilyERSt7ostreamRKNS_12MetricFamilyE");
void ct_family(std::ostream& out, const MetricFamily& f) {
  check(out.getloc() == std::locale::classic(), "numbers are written in the C locale"); check(out.precision() >= 16, "numbers are written with at least 16 digits");
  out << text(f);
}
ENTRY(t_list) {
  std::vector<MetricFamily>& fs = any<std::vector<MetricFamily> >("families"); std::string& before = any<std::string>("before");
  std::ostringstream os; os << before; os.imbue(std::locale("any")); os.precision(__v_any_i64("precision"));
  std::locale l = os.getloc(); long p = os.precision();
  TextSerializer().Serialize(os, fs);
  std::string want = before; for (size_t i = 0; i < fs.size(); ++i) want += text(fs[i]);
  check_eq(os.str(), want, "the families are written one after the other");
  check(os.getloc() == l && os.precision() == p, "the locale and precision of the stream are restored");
}
ENTRY(t_string) {
  std::vector<MetricFamily>& fs = any<std::vector<MetricFamily> >("families");
  TextSerializer t; std::string want; for (size_t i = 0; i < fs.size(); ++i) want += text(fs[i]);
  check_eq(static_cast<const Serializer&>(t).Serialize(fs), want, "serialising to a string gives the same text");
}
