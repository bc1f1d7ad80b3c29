#pragma once
#include "env.h"
#define private public
#include "prometheus/histogram.h"
#include "prometheus/client_metric.h"
#undef private
using namespace prometheus;
typedef std::vector<double> V; typedef std::vector<unsigned long> C;
static bool strictly_increasing(const V& b) { for (size_t i = 0; i + 1 < b.size(); ++i) if (!(b[i] < b[i + 1])) return false; return true; }
// an arbitrary histogram satisfying the class invariant: boundaries strictly increase (so none is NaN) and
// there is one whole counter per boundary plus one
struct Any { Histogram* h; V* b; C* c; double sum; size_t n; };
static Any any_histogram() {
  Any a; V& b = any<V>("boundaries"); C& c = any<C>("counts"); a.b = &b; a.c = &c; a.n = b.size();
  __v_assume(c.size() == b.size() + 1);
  assume_pairs(0, a.n, [&](size_t i, size_t j) { return b[i] < b[j]; });
  assume_all(0, a.n, [&](size_t i) { return b[i] == b[i]; });
  assume_all(0, c.size(), [&](size_t i) { return c[i] >= 0; });
  Histogram& h = any<Histogram>("h"); a.h = &h;
  new (&h.bucket_boundaries_) V(b);
  new (&h.bucket_counts_) std::vector<Counter>(c.size());
  for (size_t i = 0; i < c.size(); ++i) h.bucket_counts_[i].gauge_.value_.v_ = (double)c[i];
  a.sum = __v_any_double("sum"); h.sum_.value_.v_ = a.sum;
  return a;
}
static double count_of(const Histogram& h, size_t i) { return h.bucket_counts_[i].gauge_.value_.v_; }
static double sum_of(const Histogram& h) { return h.sum_.value_.v_; }
static unsigned long total(const C& c, size_t n) { unsigned long s = 0; for (size_t i = 0; i < n; ++i) s += c[i]; return s; }
// the bucket an observation belongs to: the first boundary it is less than or equal to, else +Inf
static size_t bucket_of(const V& b, double v) { for (size_t i = 0; i < b.size(); ++i) if (v <= b[i]) return i; return b.size(); }
static void unchanged_boundaries(const Any& a) { check_vec(a.h->bucket_boundaries_, *a.b, "the boundaries are never changed"); check(a.h->bucket_counts_.size() == a.n + 1, "there is one counter per boundary plus one"); }
