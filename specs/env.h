// Vocabulary of the contract files: every specification primitive is interpreted by the verifier.
#pragma once
#include <string>
#include <vector>
#define ENTRY(n) extern "C" void n()
template <class T> static T& any(const char* n) { return *(T*)__v_any_obj(n); }
static inline void check(bool b, const char* what) { __v_assert(b, what); }
#ifndef ENV_ALIVE
extern "C" bool __v_alive(const void*) { return true; }
#endif
#ifndef ENV_NOW
extern "C" long __v_now(int) { return __v_fresh_i64(); }
#endif
#ifndef ENV_ATOMIC
extern "C" void __v_atomic_event(const void*, int, double, double) {}
extern "C" bool __v_interference() { return false; }
#endif
// sufficient conditions: proved when they hold, left undecided (never an alarm) when they do not
static inline void check_soft(bool b, const char* what) { __v_assert_soft(b, what); }
static inline void check_eq_soft(const std::string& a, const std::string& b, const char* what) { __v_assert_seq_eq_soft(&a, &b, 1, what); }
static inline void check_eq(const std::string& a, const std::string& b, const char* what) { __v_assert_seq_eq(&a, &b, 1, what); }
template <class T> static void check_vec(const std::vector<T>& a, const std::vector<T>& b, const char* what) { __v_assert_seq_eq(&a, &b, sizeof(T), what); }
// assumption: f(j) holds for every lo <= j < hi
template <class F> static void assume_all(size_t lo, size_t hi, F f) { size_t j = __v_bound_begin(lo, hi); bool r = f(j); __v_bound_end(r); }
// assumption: f(i, j) holds for every lo <= i < j < hi
template <class F> static void assume_pairs(size_t lo, size_t hi, F f) {
  size_t i = __v_bound_begin(lo, hi); size_t j = __v_bound_begin(i + 1, hi); bool r = f(i, j); bool inner = __v_bound_value(r); __v_bound_end(inner);
}
// obligation: f(j) holds for every lo <= j < hi (shown for an arbitrary j)
template <class F> static void check_all(size_t lo, size_t hi, F f, const char* what) { if (__v_fork()) { size_t j = __v_skolem(lo, hi); __v_assert(f(j), what); __v_stop(); } }
// induction: f(0) and f(j) => f(j + 1) for j < n are obligations; f(j) for all j <= n is then known
template <class F> static void induct(size_t n, F f, const char* what) {
  if (__v_fork()) { __v_assert(f(0), what); __v_stop(); }
  if (__v_fork()) { size_t j = __v_skolem(0, n); __v_assume(f(j)); __v_assert(f(j + 1), what); __v_stop(); }
  assume_all(0, n + 1, f);
}
static inline bool same(double a, double b) { return __v_d_eq_bits(a, b); }
