#include "hist.h"
#include <stdexcept>
#include <utility>
ENTRY(t_construct_copy) {
  V& b = any<V>("b"); V keep = b;
  bool threw = false;
  try { Histogram h(b); check_vec(h.bucket_boundaries_, keep, "the boundaries are stored as given"); check(h.bucket_counts_.size() == keep.size() + 1, "there is one counter per boundary plus one");
    check_all(0, keep.size() + 1, [&](size_t i) { return same(count_of(h, i), 0.0); }, "every bucket starts at zero"); check(same(sum_of(h), 0.0), "the sum starts at zero"); }
  catch (const std::exception&) { threw = true; }
  check(threw == !strictly_increasing(keep), "construction succeeds iff the boundaries strictly increase");
  check_vec(b, keep, "the caller's boundaries are not changed");
}
ENTRY(t_construct_move) {
  V& b = any<V>("b"); V keep = b;
  bool threw = false;
  try { Histogram h(std::move(b)); check_vec(h.bucket_boundaries_, keep, "the boundaries are stored as given"); check(h.bucket_counts_.size() == keep.size() + 1, "there is one counter per boundary plus one");
    check_all(0, keep.size() + 1, [&](size_t i) { return same(count_of(h, i), 0.0); }, "every bucket starts at zero"); check(same(sum_of(h), 0.0), "the sum starts at zero"); }
  catch (const std::exception&) { threw = true; }
  check(threw == !strictly_increasing(keep), "moving construction succeeds iff the boundaries strictly increase");
}
ENTRY(t_bulk) {
  Any a = any_histogram(); C& inc = any<C>("increments"); double s = __v_any_double("bulk sum");
  assume_all(0, inc.size(), [&](size_t i) { return inc[i] >= 0; });
  V vi(inc.size(), 0.0); for (size_t i = 0; i < inc.size(); ++i) vi[i] = (double)inc[i];
  bool threw = false;
  try { a.h->ObserveMultiple(vi, s); } catch (const std::exception&) { threw = true; }
  check(threw == (inc.size() != a.n + 1), "a bulk observation succeeds iff it has one increment per bucket");
  unchanged_boundaries(a);
  if (threw) {
    check_all(0, a.n + 1, [&](size_t i) { return same(count_of(*a.h, i), (double)(*a.c)[i]); }, "a rejected bulk observation changes no bucket");
    check(same(sum_of(*a.h), a.sum), "a rejected bulk observation does not change the sum");
  } else {
    check_all(0, a.n + 1, [&](size_t i) { return same(count_of(*a.h, i), (double)((*a.c)[i] + inc[i])); }, "each bucket grows by its own increment");
    check(same(sum_of(*a.h), a.sum + s), "the sum grows by the given sum");
  }
  check(__v_locks_held() == 0, "no lock stays held");
}
