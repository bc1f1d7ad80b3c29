#pragma once
#include "h.h"
#include <map>
#include <memory>
#include "names.h"
#include "prometheus/client_metric.h"
#include "prometheus/metric_family.h"
#include "prometheus/counter.h"
#include "prometheus/gauge.h"
#include "prometheus/histogram.h"
#include "prometheus/info.h"
#include "prometheus/summary.h"
#include "prometheus/family.h"
#include "prometheus/registry.h"
using namespace prometheus;
template <class T> struct K;
template <> struct K<Counter> { static const char* n() { return "counter"; } static Counter& add(Family<Counter>& f, const Labels& l) { return f.Add(l); } static void set(Counter& c, double v) { c.Reset(); c.Increment(v); } static double get(const ClientMetric& m) { return m.counter.value; } static const bool valued = true; };
template <> struct K<Gauge> { static const char* n() { return "gauge"; } static Gauge& add(Family<Gauge>& f, const Labels& l) { return f.Add(l); } static void set(Gauge& c, double v) { c.Set(v); } static double get(const ClientMetric& m) { return m.gauge.value; } static const bool valued = true; };
template <> struct K<Histogram> { static const char* n() { return "histogram"; } static Histogram& add(Family<Histogram>& f, const Labels& l) { return f.Add(l, Histogram::BucketBoundaries{1, 2}); } static void set(Histogram& c, double v) { c.Reset(); c.Observe(v); } static double get(const ClientMetric& m) { return m.histogram.sample_sum; } static const bool valued = true; };
template <> struct K<Summary> { static const char* n() { return "summary"; } static Summary& add(Family<Summary>& f, const Labels& l) { return f.Add(l, Summary::Quantiles{{0.5, 0.05}}); } static void set(Summary&, double) {} static double get(const ClientMetric& m) { return m.summary.sample_sum; } static const bool valued = false; };
template <> struct K<Info> { static const char* n() { return "info"; } static Info& add(Family<Info>& f, const Labels& l) { return f.Add(l); } static void set(Info&, double) {} static double get(const ClientMetric& m) { return m.info.value; } static const bool valued = false; };
static const char* lnames[] = {"a", "b", "c", "le", "quantile", "_x", "__bad", "1a", "", "x:y", "ab", "z_9", "A", "bad-", "\xc3\xa9"};
inline Labels randlabels(int maxn, int pool) { Labels l; int n = below(maxn + 1); for (int i = 0; i < n; ++i) l[lnames[below(pool)]] = coin(6) ? h::str(4) : std::string(1, 'u' + below(3)); return l; }
template <class T> bool okname(const std::string& n) { return spec::label(n, T::metric_type == MetricType::Histogram, T::metric_type == MetricType::Summary); }
