// Families as the contracts see them: any number of metrics, no two with one label set, none null and none twice.
#pragma once
#include "env.h"
#include <stdexcept>
#include "prometheus/family.h"
#include "prometheus/counter.h"
#include "prometheus/gauge.h"
#include "prometheus/histogram.h"
#include "prometheus/info.h"
#include "prometheus/summary.h"
#include "prometheus/check_names.h"
using namespace prometheus;
// contracts of the name checks (decided as C08): functions of the name (and the metric type)
static bool name_ok(const std::string& n) { return __v_fn_bool("metric_name_ok", __v_strid(&n), 0); }
static bool label_ok(const std::string& n, MetricType t) { return __v_fn_bool("label_name_ok", __v_strid(&n), (unsigned long)t); }
bool ct_name(const std::string& n) __asm__("__ct__ZN10prometheus15CheckMetricNameERKSs"); bool ct_name(const std::string& n) { return name_ok(n); }
bool ct_label(const std::string& n, MetricType t) __asm__("__ct__ZN10prometheus14CheckLabelNameERKSsNS_10MetricTypeE"); bool ct_label(const std::string& n, MetricType t) { return label_ok(n, t); }
template <class T> struct Fam {
  typedef std::unordered_map<Labels, std::unique_ptr<T>, detail::LabelHasher> Map;
  static void sane(Family<T>& f) {
    Map& m = f.metrics_;
    assume_all(0, m.size(), [&](size_t i) { return m.__at(i)->second.get() != nullptr; });
    assume_pairs(0, m.size(), [&](size_t i, size_t j) { return !(m.__at(i)->first == m.__at(j)->first); });
    assume_pairs(0, m.size(), [&](size_t i, size_t j) { return __v_ref(m.__at(i)->second.get()) != __v_ref(m.__at(j)->second.get()); });
  }
  static T* find(const Map& m, const Labels& q) { for (size_t i = 0; i < m.size(); ++i) if (m.__at(i)->first == q) return m.__at(i)->second.get(); return nullptr; }
};
static bool has_name(const Labels& l, const std::string& n) { for (auto& p : l) if (p.first == n) return true; return false; }
