// the Prometheus text exposition format
#pragma once
#include <locale>
#include <sstream>
#include <string>
#include <cmath>
#include "prometheus/metric_family.h"
#include "prometheus/text_serializer.h"
using namespace prometheus;
namespace spec {
// how one byte of a label value (or help text) is written
static void esc(std::string& out, const std::string& v, bool quote) {
  for (size_t i = 0; i < v.size(); ++i) {
    char c = v[i];
    if (c == '\n') out += "\\n"; else if (c == '\\') { out += '\\'; out += c; } else if (c == '"' && quote) { out += '\\'; out += c; } else out += c;
  }
}
// a number: C locale, 16 significant digits (more are taken as equal), as the stream writes it
static void num(std::string& out, double v) {
  if (std::isnan(v)) { out += "Nan"; return; }
  if (std::isinf(v)) { out += v < 0 ? "-Inf" : "+Inf"; return; }
  std::ostringstream os; os.imbue(std::locale::classic()); os.precision(16); os << v; out += os.str();
}
static void count(std::string& out, unsigned long n) { std::ostringstream os; os.imbue(std::locale::classic()); os << n; out += os.str(); }
static void labels(std::string& out, const ClientMetric& m) {
  for (size_t i = 0; i < m.label.size(); ++i) { if (i) out += ","; out += m.label[i].name; out += "=\""; esc(out, m.label[i].value, true); out += "\""; }
}
static void head(std::string& out, const std::string& name, const char* suffix, const ClientMetric& m) {
  out += name; out += suffix;
  if (!m.label.empty()) { out += "{"; labels(out, m); out += "}"; }
  out += " ";
}
static void extra(std::string& out, const std::string& name, const char* suffix, const ClientMetric& m, const char* label, double v) {
  out += name; out += suffix; out += "{"; labels(out, m); if (!m.label.empty()) out += ",";
  out += label; out += "=\""; num(out, v); out += "\"} ";
}
static void tail(std::string& out, const ClientMetric& m) {
  if (m.timestamp_ms != 0) { out += " "; std::ostringstream os; os.imbue(std::locale::classic()); os << m.timestamp_ms; out += os.str(); }
  out += "\n";
}
static void simple(std::string& out, const std::string& name, const char* suffix, const ClientMetric& m, double v) { head(out, name, suffix, m); num(out, v); tail(out, m); }
static void summary(std::string& out, const std::string& name, const ClientMetric& m) {
  head(out, name, "_count", m); count(out, m.summary.sample_count); tail(out, m);
  simple(out, name, "_sum", m, m.summary.sample_sum);
  for (size_t i = 0; i < m.summary.quantile.size(); ++i) { extra(out, name, "", m, "quantile", m.summary.quantile[i].quantile); num(out, m.summary.quantile[i].value); tail(out, m); }
}
static void histogram(std::string& out, const std::string& name, const ClientMetric& m) {
  head(out, name, "_count", m); count(out, m.histogram.sample_count); tail(out, m);
  simple(out, name, "_sum", m, m.histogram.sample_sum);
  size_t n = m.histogram.bucket.size();
  for (size_t i = 0; i < n; ++i) { extra(out, name, "_bucket", m, "le", m.histogram.bucket[i].upper_bound); count(out, m.histogram.bucket[i].cumulative_count); tail(out, m); }
  const double inf = std::numeric_limits<double>::infinity();
  if (n == 0 || !(m.histogram.bucket[n - 1].upper_bound == inf)) { extra(out, name, "_bucket", m, "le", inf); count(out, m.histogram.sample_count); tail(out, m); }
}
static const char* type(MetricType t) {
  switch (t) { case MetricType::Counter: return "counter"; case MetricType::Gauge: case MetricType::Info: return "gauge"; case MetricType::Summary: return "summary"; case MetricType::Untyped: return "untyped"; case MetricType::Histogram: return "histogram"; }
  return "";
}
static void metric(std::string& out, MetricType t, const std::string& name, const ClientMetric& m) {
  switch (t) {
    case MetricType::Counter: simple(out, name, "", m, m.counter.value); break;
    case MetricType::Gauge: simple(out, name, "", m, m.gauge.value); break;
    case MetricType::Info: simple(out, name, "_info", m, m.info.value); break;
    case MetricType::Untyped: simple(out, name, "", m, m.untyped.value); break;
    case MetricType::Summary: summary(out, name, m); break;
    case MetricType::Histogram: histogram(out, name, m); break;
  }
}
static void preamble(std::string& out, const MetricFamily& f) {
  if (!f.help.empty()) { out += "# HELP "; out += f.name; out += " "; esc(out, f.help, false); out += "\n"; }
  out += "# TYPE "; out += f.name; out += " "; out += type(f.type); out += "\n";
}
}
