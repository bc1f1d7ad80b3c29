// Verification build of the parts of the C++ standard library that prometheus-cpp uses.
// Containers are handles whose contents the verifier keeps as mathematical sequences; everything
// else is ordinary C++ executed by the verifier.  Only the __v_* primitives are trusted.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <assert.h>
#include <string.h>
#include <time.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <ctype.h>
#include <float.h>
#include <math.h>
#undef isnan
#undef isinf
#undef isfinite
#undef signbit
#undef isnormal

extern "C" {
void __v_str_init(void*); void __v_str_copy(void*, const void*); void __v_str_from(void*, const char*, size_t);
void __v_str_fill(void*, size_t, char); size_t __v_str_len(const void*); char* __v_str_data(const void*);
void __v_str_append(void*, const void*); void __v_str_append_n(void*, const char*, size_t); void __v_str_push(void*, char);
void __v_str_sub(void*, const void*, size_t, size_t); void __v_str_replace(void*, size_t, size_t, const void*);
bool __v_str_eq(const void*, const void*); int __v_str_cmp(const void*, const void*); size_t __v_str_hash(const void*);
size_t __v_cstrlen(const char*); void __v_fmt_int(void*, long); void __v_fmt_double(void*, double, long, int);
void __v_str_opaque(void*, const char*, const void*, long); void __v_nonul(const void*);
void __v_vec_init(void*, size_t); size_t __v_vec_len(const void*, size_t); void* __v_vec_at(const void*, size_t, size_t);
void __v_vec_copy(void*, const void*, size_t); void __v_vec_push(void*, const void*, size_t);
void __v_vec_fill(void*, size_t, const void*, size_t); void __v_vec_insert(void*, size_t, const void*, size_t);
void __v_vec_erase(void*, size_t, size_t, size_t); void __v_vec_splice(void*, size_t, const void*, size_t, size_t, size_t);
void __v_vec_resize(void*, size_t, const void*, size_t); bool __v_vec_eq(const void*, const void*, size_t);
void __v_vec_raw(void*, const void*, size_t, size_t);
void __v_put_bytes(void*, const void*); void __v_vec_sort(void*, size_t, size_t, size_t);
void __v_lock(void*); void __v_unlock(void*); long __v_locks_held(); bool __v_holds(void*); long __v_section(const void*, size_t);
void __v_guard(const void*, size_t, void*, const char*, int); void __v_guard_off();
void* __v_any_obj(const char*); void* __v_any_heap(const char*);
long __v_any_i64(const char*); unsigned long __v_any_u64(const char*); int __v_any_i32(const char*);
bool __v_any_bool(const char*); double __v_any_double(const char*);
bool __v_fresh_bool(); long __v_fresh_i64(); unsigned long __v_fresh_u64(); double __v_fresh_double();
void __v_fresh_str(void*); void __v_fresh_vec(void*, size_t); void __v_fresh_obj(void*, size_t);
long __v_fn_i64(const char*, long, long); int __v_fn_i32(const char*, long, long); bool __v_fn_bool(const char*, long, long); double __v_fn_double(const char*, long, long);
void __v_fn_vec(void*, const char*, long, long, size_t); void __v_fn_str(void*, const char*, long, long); void __v_fn_obj(void*, size_t, const char*, long, long);
long __v_ref(const void*); long __v_strid(const void*); long __v_vecid(const void*, size_t);
void __v_assume(bool); void __v_assert(bool, const char*); void __v_assert_soft(bool, const char*); void __v_assert_seq_eq_soft(const void*, const void*, size_t, const char*); void __v_reach(const char*); void __v_stop() __attribute__((noreturn));
size_t __v_skolem(size_t, size_t); bool __v_fork(); size_t __v_bound_begin(size_t, size_t); void __v_bound_end(bool); bool __v_bound_value(bool);
bool __v_seq_eq(const void*, const void*, size_t); void __v_assert_seq_eq(const void*, const void*, size_t, const char*);
bool __v_same_obj(const void*, const void*, size_t); void __v_assert_same_obj(const void*, const void*, size_t, const char*);
long __v_va_i64(int); void* __v_va_ptr(int); int __v_va_count();
void __v_debug(const char*, ...); void __v_debug_str(const char*, const void*); void __v_debug_vec(const char*, const void*, size_t);
void __v_limit(const char*); bool __v_d_eq_bits(double, double); long __v_d_bits(double);
void __v_hb(int);
}
// hooks supplied by the contracts (specs/env.h)
extern "C" {
bool __v_alive(const void*);        // is the object behind a weak_ptr still alive
long __v_now(int clock);            // clocks
void __v_atomic_event(const void* obj, int kind, double before, double after);
bool __v_interference();            // other threads may run between atomic accesses
}

namespace std {
using ::size_t; using ::ptrdiff_t; typedef decltype(nullptr) nullptr_t; using ::max_align_t;
using ::int8_t; using ::int16_t; using ::int32_t; using ::int64_t; using ::uint8_t; using ::uint16_t; using ::uint32_t; using ::uint64_t;
using ::intptr_t; using ::uintptr_t; using ::intmax_t; using ::uintmax_t;
using ::time_t; using ::abort; using ::exit;
typedef long streamsize; typedef long streamoff;

// ------------------------------------------------------------ type traits
template <class T, T v> struct integral_constant { static constexpr T value = v; typedef T value_type; typedef integral_constant type; constexpr operator T() const { return v; } };
typedef integral_constant<bool, true> true_type; typedef integral_constant<bool, false> false_type;
template <class T> struct remove_reference { typedef T type; };
template <class T> struct remove_reference<T&> { typedef T type; };
template <class T> struct remove_reference<T&&> { typedef T type; };
template <class T> struct remove_const { typedef T type; };
template <class T> struct remove_const<const T> { typedef T type; };
template <class T> struct remove_volatile { typedef T type; };
template <class T> struct remove_volatile<volatile T> { typedef T type; };
template <class T> struct remove_cv { typedef typename remove_volatile<typename remove_const<T>::type>::type type; };
template <class T> struct remove_pointer { typedef T type; };
template <class T> struct remove_pointer<T*> { typedef T type; };
template <class T> struct add_const { typedef const T type; };
template <bool B, class T = void> struct enable_if {};
template <class T> struct enable_if<true, T> { typedef T type; };
template <bool B, class T, class F> struct conditional { typedef T type; };
template <class T, class F> struct conditional<false, T, F> { typedef F type; };
template <class A, class B> struct is_same : false_type {};
template <class A> struct is_same<A, A> : true_type {};
template <class T> struct is_lvalue_reference : false_type {};
template <class T> struct is_lvalue_reference<T&> : true_type {};
template <class T> struct is_reference : false_type {};
template <class T> struct is_reference<T&> : true_type {};
template <class T> struct is_reference<T&&> : true_type {};
template <class T> struct is_const : false_type {};
template <class T> struct is_const<const T> : true_type {};
template <class T> struct is_pointer : false_type {};
template <class T> struct is_pointer<T*> : true_type {};
template <class T> struct is_integral : integral_constant<bool, is_same<typename remove_cv<T>::type, bool>::value || is_same<typename remove_cv<T>::type, char>::value ||
  is_same<typename remove_cv<T>::type, signed char>::value || is_same<typename remove_cv<T>::type, unsigned char>::value || is_same<typename remove_cv<T>::type, short>::value ||
  is_same<typename remove_cv<T>::type, unsigned short>::value || is_same<typename remove_cv<T>::type, int>::value || is_same<typename remove_cv<T>::type, unsigned>::value ||
  is_same<typename remove_cv<T>::type, long>::value || is_same<typename remove_cv<T>::type, unsigned long>::value || is_same<typename remove_cv<T>::type, long long>::value || is_same<typename remove_cv<T>::type, unsigned long long>::value> {};
template <class T> struct is_floating_point : integral_constant<bool, is_same<typename remove_cv<T>::type, float>::value || is_same<typename remove_cv<T>::type, double>::value || is_same<typename remove_cv<T>::type, long double>::value> {};
template <class T> struct is_arithmetic : integral_constant<bool, is_integral<T>::value || is_floating_point<T>::value> {};
template <class A, class B> struct is_convertible : integral_constant<bool, __is_convertible_to(A, B)> {};
template <class A, class B> struct is_base_of : integral_constant<bool, __is_base_of(A, B)> {};
template <class T> struct is_enum : integral_constant<bool, __is_enum(T)> {};
template <class T> struct is_class : integral_constant<bool, __is_class(T)> {};
template <class T> struct is_void : is_same<typename remove_cv<T>::type, void> {};
template <class T> struct is_signed : integral_constant<bool, is_arithmetic<T>::value && (T(-1) < T(0))> {};
template <class T> struct is_unsigned : integral_constant<bool, is_integral<T>::value && !(T(-1) < T(0))> {};
template <class T> struct is_array : false_type {};
template <class T, size_t N> struct is_array<T[N]> : true_type {};
template <class T> struct decay { typedef typename remove_cv<typename remove_reference<T>::type>::type type; };
template <class R, class... A> struct decay<R(A...)> { typedef R (*type)(A...); };
template <class T, size_t N> struct decay<T[N]> { typedef T* type; };
template <class T, size_t N> struct decay<T (&)[N]> { typedef typename remove_cv<T>::type* type; };
template <class T, size_t N> struct decay<const T (&)[N]> { typedef const T* type; };
template <class... T> struct __void_t { typedef void type; };
template <class T> struct underlying_type { typedef __underlying_type(T) type; };
template <class T> struct make_unsigned { typedef T type; };
template <> struct make_unsigned<char> { typedef unsigned char type; };
template <> struct make_unsigned<signed char> { typedef unsigned char type; };
template <> struct make_unsigned<int> { typedef unsigned type; };
template <> struct make_unsigned<long> { typedef unsigned long type; };
template <class T> struct make_signed { typedef T type; };
template <> struct make_signed<unsigned long> { typedef long type; };
template <> struct make_signed<unsigned> { typedef int type; };

template <class T> constexpr typename remove_reference<T>::type&& move(T&& t) noexcept { return static_cast<typename remove_reference<T>::type&&>(t); }
template <class T> constexpr T&& forward(typename remove_reference<T>::type& t) noexcept { return static_cast<T&&>(t); }
template <class T> constexpr T&& forward(typename remove_reference<T>::type&& t) noexcept { return static_cast<T&&>(t); }
template <class T> T&& declval() noexcept;
template <class T> void swap(T& a, T& b) { T t = std::move(a); a = std::move(b); b = std::move(t); }
template <class T, class U> T exchange(T& a, U&& b) { T o = std::move(a); a = std::forward<U>(b); return o; }
template <class T> T* addressof(T& t) { return __builtin_addressof(t); }
template <class T> constexpr const T& min(const T& a, const T& b) { return b < a ? b : a; }
template <class T> constexpr const T& max(const T& a, const T& b) { return a < b ? b : a; }
template <class T, class C> const T& min(const T& a, const T& b, C c) { return c(b, a) ? b : a; }
template <class T, class C> const T& max(const T& a, const T& b, C c) { return c(a, b) ? b : a; }
template <class F> typename decay<F>::type __decay_copy(F&& f) { return std::forward<F>(f); }
template <class F, class... A> struct __result { typedef decltype(declval<F>()(declval<A>()...)) type; };
template <class S> struct result_of;
template <class F, class... A> struct result_of<F(A...)> { typedef decltype(declval<F>()(declval<A>()...)) type; };

// ------------------------------------------------------------ initializer_list
template <class E> class initializer_list {
  const E* b_; size_t n_;
 public:
  typedef E value_type; typedef const E& reference; typedef size_t size_type; typedef const E* iterator; typedef const E* const_iterator;
  constexpr initializer_list() : b_(nullptr), n_(0) {}
  constexpr initializer_list(const E* b, size_t n) : b_(b), n_(n) {}
  constexpr size_t size() const { return n_; }
  constexpr const E* begin() const { return b_; }
  constexpr const E* end() const { return b_ + n_; }
};

// ------------------------------------------------------------ limits
template <class T> struct numeric_limits { static constexpr bool is_specialized = false; };
#define __V_LIM(T, MIN, MAX, SG) template <> struct numeric_limits<T> { static constexpr bool is_specialized = true; static constexpr bool is_signed = SG; static constexpr bool is_integer = true; \
  static constexpr T min() { return MIN; } static constexpr T max() { return MAX; } static constexpr T lowest() { return MIN; } static constexpr int digits = sizeof(T) * 8 - SG; static constexpr int digits10 = digits * 3 / 10; };
__V_LIM(char, CHAR_MIN, CHAR_MAX, 1) __V_LIM(signed char, SCHAR_MIN, SCHAR_MAX, 1) __V_LIM(unsigned char, 0, UCHAR_MAX, 0)
__V_LIM(short, SHRT_MIN, SHRT_MAX, 1) __V_LIM(unsigned short, 0, USHRT_MAX, 0) __V_LIM(int, INT_MIN, INT_MAX, 1) __V_LIM(unsigned, 0, UINT_MAX, 0)
__V_LIM(long, LONG_MIN, LONG_MAX, 1) __V_LIM(unsigned long, 0, ULONG_MAX, 0) __V_LIM(long long, LLONG_MIN, LLONG_MAX, 1) __V_LIM(unsigned long long, 0, ULLONG_MAX, 0)
__V_LIM(bool, false, true, 0)
template <> struct numeric_limits<double> {
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, has_infinity = true, has_quiet_NaN = true, is_iec559 = true;
  static constexpr int digits = 53, digits10 = 15, max_digits10 = 17;
  static constexpr double infinity() { return __builtin_inf(); } static constexpr double quiet_NaN() { return __builtin_nan(""); }
  static constexpr double max() { return DBL_MAX; } static constexpr double min() { return DBL_MIN; } static constexpr double lowest() { return -DBL_MAX; } static constexpr double epsilon() { return DBL_EPSILON; }
};
template <class T> constexpr bool numeric_limits<T>::is_specialized;

// ------------------------------------------------------------ math, ctype
inline bool isnan(double x) { return x != x; }
inline bool isinf(double x) { return x == __builtin_inf() || x == -__builtin_inf(); }
inline bool isfinite(double x) { return !isnan(x) && !isinf(x); }
inline double floor(double x) { return __builtin_floor(x); }
inline double ceil(double x) { return -__builtin_floor(-x); }
inline double fabs(double x) { return __builtin_fabs(x); }
inline double abs(double x) { return __builtin_fabs(x); }
inline int abs(int x) { return x < 0 ? -x : x; }
inline long abs(long x) { return x < 0 ? -x : x; }
inline bool signbit(double x) { return x < 0; }
inline int isdigit(int c) { return c >= '0' && c <= '9'; }
inline int isupper(int c) { return c >= 'A' && c <= 'Z'; }
inline int islower(int c) { return c >= 'a' && c <= 'z'; }
inline int isalpha(int c) { return isupper(c) || islower(c); }
inline int isalnum(int c) { return isalpha(c) || isdigit(c); }
inline int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
inline int isprint(int c) { return c >= 32 && c < 127; }
inline int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
inline int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline int tolower(int c) { return isupper(c) ? c + 32 : c; }
inline int toupper(int c) { return islower(c) ? c - 32 : c; }
inline time_t time(time_t* t) { time_t v = __v_now(2); if (t) *t = v; return v; }
inline size_t strlen(const char* s) { return __v_cstrlen(s); }

// ------------------------------------------------------------ iterators
struct input_iterator_tag {}; struct output_iterator_tag {}; struct forward_iterator_tag : input_iterator_tag {};
struct bidirectional_iterator_tag : forward_iterator_tag {}; struct random_access_iterator_tag : bidirectional_iterator_tag {};
template <class I> struct iterator_traits { typedef typename I::value_type value_type; typedef typename I::difference_type difference_type; typedef typename I::reference reference; typedef typename I::pointer pointer; typedef typename I::iterator_category iterator_category; };
template <class T> struct iterator_traits<T*> { typedef T value_type; typedef ptrdiff_t difference_type; typedef T& reference; typedef T* pointer; typedef random_access_iterator_tag iterator_category; };
template <class T> struct iterator_traits<const T*> { typedef T value_type; typedef ptrdiff_t difference_type; typedef const T& reference; typedef const T* pointer; typedef random_access_iterator_tag iterator_category; };
template <class Cat, class T, class Dist = ptrdiff_t, class P = T*, class R = T&> struct iterator { typedef T value_type; typedef Dist difference_type; typedef P pointer; typedef R reference; typedef Cat iterator_category; };

// index iterator into a container C whose element i is C::__at(i)
template <class C, class T> struct __vit {
  typedef typename remove_const<T>::type value_type; typedef ptrdiff_t difference_type; typedef T& reference; typedef T* pointer; typedef random_access_iterator_tag iterator_category;
  const C* c; ptrdiff_t i;
  __vit() : c(nullptr), i(0) {}
  __vit(const C* cc, ptrdiff_t ii) : c(cc), i(ii) {}
  operator __vit<C, const T>() const { return __vit<C, const T>(c, i); }
  T& operator*() const { return *const_cast<T*>(c->__at(i)); }
  T* operator->() const { return const_cast<T*>(c->__at(i)); }
  T& operator[](ptrdiff_t n) const { return *const_cast<T*>(c->__at(i + n)); }
  __vit& operator++() { ++i; return *this; } __vit operator++(int) { __vit t = *this; ++i; return t; }
  __vit& operator--() { --i; return *this; } __vit operator--(int) { __vit t = *this; --i; return t; }
  __vit& operator+=(ptrdiff_t n) { i += n; return *this; } __vit& operator-=(ptrdiff_t n) { i -= n; return *this; }
  __vit operator+(ptrdiff_t n) const { return __vit(c, i + n); } __vit operator-(ptrdiff_t n) const { return __vit(c, i - n); }
  template <class U> ptrdiff_t operator-(const __vit<C, U>& o) const { return i - o.i; }
  template <class U> bool operator==(const __vit<C, U>& o) const { return i == o.i; }
  template <class U> bool operator!=(const __vit<C, U>& o) const { return i != o.i; }
  template <class U> bool operator<(const __vit<C, U>& o) const { return i < o.i; }
  template <class U> bool operator>(const __vit<C, U>& o) const { return i > o.i; }
  template <class U> bool operator<=(const __vit<C, U>& o) const { return i <= o.i; }
  template <class U> bool operator>=(const __vit<C, U>& o) const { return i >= o.i; }
};
template <class C, class T> __vit<C, T> operator+(ptrdiff_t n, const __vit<C, T>& it) { return it + n; }
template <class I> struct reverse_iterator {
  typedef typename iterator_traits<I>::value_type value_type; typedef ptrdiff_t difference_type; typedef typename iterator_traits<I>::reference reference; typedef typename iterator_traits<I>::pointer pointer; typedef random_access_iterator_tag iterator_category;
  I b; reverse_iterator() {} explicit reverse_iterator(I i) : b(i) {}
  I base() const { return b; }
  reference operator*() const { I t = b; --t; return *t; } pointer operator->() const { I t = b; --t; return &*t; }
  reverse_iterator& operator++() { --b; return *this; } reverse_iterator operator++(int) { reverse_iterator t = *this; --b; return t; }
  reverse_iterator& operator--() { ++b; return *this; } reverse_iterator operator+(ptrdiff_t n) const { return reverse_iterator(b - n); }
  ptrdiff_t operator-(const reverse_iterator& o) const { return o.b - b; }
  bool operator==(const reverse_iterator& o) const { return b == o.b; } bool operator!=(const reverse_iterator& o) const { return !(b == o.b); }
};
template <class I> struct move_iterator {
  typedef typename iterator_traits<I>::value_type value_type; typedef ptrdiff_t difference_type; typedef value_type&& reference; typedef I pointer; typedef random_access_iterator_tag iterator_category;
  I b; move_iterator() {} explicit move_iterator(I i) : b(i) {} I base() const { return b; }
  value_type&& operator*() const { return static_cast<value_type&&>(*b); }
  move_iterator& operator++() { ++b; return *this; } bool operator==(const move_iterator& o) const { return b == o.b; } bool operator!=(const move_iterator& o) const { return !(b == o.b); }
  ptrdiff_t operator-(const move_iterator& o) const { return b - o.b; }
};
template <class I> move_iterator<I> make_move_iterator(I i) { return move_iterator<I>(i); }
template <class I> reverse_iterator<I> make_reverse_iterator(I i) { return reverse_iterator<I>(i); }
template <class C> auto begin(C& c) -> decltype(c.begin()) { return c.begin(); }
template <class C> auto end(C& c) -> decltype(c.end()) { return c.end(); }
template <class C> auto begin(const C& c) -> decltype(c.begin()) { return c.begin(); }
template <class C> auto end(const C& c) -> decltype(c.end()) { return c.end(); }
template <class C> auto cbegin(const C& c) -> decltype(c.begin()) { return c.begin(); }
template <class C> auto cend(const C& c) -> decltype(c.end()) { return c.end(); }
template <class T, size_t N> T* begin(T (&a)[N]) { return a; }
template <class T, size_t N> T* end(T (&a)[N]) { return a + N; }
template <class I> ptrdiff_t distance(I a, I b) { return b - a; }
template <class I, class N> void advance(I& a, N n) { a += n; }
template <class I> I next(I a, ptrdiff_t n = 1) { return a + n; }
template <class I> I prev(I a, ptrdiff_t n = 1) { return a - n; }
template <class C> struct back_insert_iterator {
  typedef void value_type; typedef void difference_type; typedef void reference; typedef void pointer; typedef output_iterator_tag iterator_category;
  C* c; explicit back_insert_iterator(C& x) : c(&x) {}
  back_insert_iterator& operator*() { return *this; } back_insert_iterator& operator++() { return *this; } back_insert_iterator operator++(int) { return *this; }
  template <class V> back_insert_iterator& operator=(V&& v) { c->push_back(std::forward<V>(v)); return *this; }
};
template <class C> back_insert_iterator<C> back_inserter(C& c) { return back_insert_iterator<C>(c); }

// ------------------------------------------------------------ pair, tuple
struct piecewise_construct_t {}; static const piecewise_construct_t piecewise_construct = piecewise_construct_t();
template <class A, class B> struct pair {
  typedef A first_type; typedef B second_type;
  A first; B second;
  pair() : first(), second() {}
  pair(const A& a, const B& b) : first(a), second(b) {}
  template <class U, class V, class = typename enable_if<is_convertible<U&&, A>::value && is_convertible<V&&, B>::value>::type> pair(U&& u, V&& v) : first(std::forward<U>(u)), second(std::forward<V>(v)) {}
  template <class U, class V> pair(const pair<U, V>& p) : first(p.first), second(p.second) {}
  template <class U, class V> pair(pair<U, V>&& p) : first(std::forward<U>(p.first)), second(std::forward<V>(p.second)) {}
  pair(const pair&) = default; pair(pair&&) = default;
  pair& operator=(const pair&) = default; pair& operator=(pair&&) = default;
};
template <class A, class B> pair<typename decay<A>::type, typename decay<B>::type> make_pair(A&& a, B&& b) { return pair<typename decay<A>::type, typename decay<B>::type>(std::forward<A>(a), std::forward<B>(b)); }
template <class A, class B> bool operator==(const pair<A, B>& x, const pair<A, B>& y) { return x.first == y.first && x.second == y.second; }
template <class A, class B> bool operator!=(const pair<A, B>& x, const pair<A, B>& y) { return !(x == y); }
template <class A, class B> bool operator<(const pair<A, B>& x, const pair<A, B>& y) { return x.first < y.first || (!(y.first < x.first) && x.second < y.second); }
template <class... T> struct tuple;
template <> struct tuple<> {};
template <class H, class... T> struct tuple<H, T...> { H h; tuple<T...> t; tuple() {} tuple(H a, T... b) : h(std::forward<H>(a)), t(std::forward<T>(b)...) {} };
inline bool __tlt(const tuple<>&, const tuple<>&) { return false; }
inline bool __teq(const tuple<>&, const tuple<>&) { return true; }
template <class H, class... T> bool __teq(const tuple<H, T...>& a, const tuple<H, T...>& b) { return a.h == b.h && __teq(a.t, b.t); }
template <class H, class... T> bool __tlt(const tuple<H, T...>& a, const tuple<H, T...>& b) { return a.h < b.h || (!(b.h < a.h) && __tlt(a.t, b.t)); }
template <class... T> bool operator<(const tuple<T...>& a, const tuple<T...>& b) { return __tlt(a, b); }
template <class... T> bool operator==(const tuple<T...>& a, const tuple<T...>& b) { return __teq(a, b); }
template <class... T> tuple<T&...> tie(T&... t) { return tuple<T&...>(t...); }
template <size_t I, class T> struct tuple_element;
template <class H, class... T> struct tuple_element<0, tuple<H, T...>> { typedef H type; };
template <size_t I, class H, class... T> struct tuple_element<I, tuple<H, T...>> : tuple_element<I - 1, tuple<T...>> {};
template <size_t I> struct __tget { template <class H, class... T> static typename tuple_element<I, tuple<H, T...>>::type& get(tuple<H, T...>& x) { return __tget<I - 1>::get(x.t); } };
template <> struct __tget<0> { template <class H, class... T> static H& get(tuple<H, T...>& x) { return x.h; } };
template <size_t I, class... T> typename tuple_element<I, tuple<T...>>::type& get(tuple<T...>& x) { return __tget<I>::get(x); }
template <class... T> tuple<typename decay<T>::type...> make_tuple(T&&... t) { return tuple<typename decay<T>::type...>(std::forward<T>(t)...); }
struct __ignore { template <class T> const __ignore& operator=(const T&) const { return *this; } }; static const __ignore ignore = __ignore();

// ------------------------------------------------------------ exceptions (declared early)
class exception { public: exception() noexcept {} exception(const exception&) noexcept {} virtual ~exception() noexcept {} virtual const char* what() const noexcept { return "std::exception"; } exception& operator=(const exception&) noexcept { return *this; } };
class bad_alloc : public exception { public: bad_alloc() noexcept {} };
class bad_cast : public exception { public: bad_cast() noexcept {} };
class bad_function_call : public exception { public: bad_function_call() noexcept {} };
[[noreturn]] void terminate() noexcept;
void __throw_out_of_range();
bool uncaught_exception() noexcept;
class type_info { public: virtual ~type_info(); const char* n; };

// ------------------------------------------------------------ string
template <class C> struct char_traits { static size_t length(const C* s) { return __v_cstrlen(s); } };
template <class T> struct allocator { typedef T value_type; };
template <class C, class Tr = char_traits<C>, class A = allocator<C>> class basic_string;
template <> class basic_string<char, char_traits<char>, allocator<char>> {
  void* h_;
 public:
  typedef char value_type; typedef size_t size_type; typedef ptrdiff_t difference_type; typedef char& reference; typedef const char& const_reference; typedef char* pointer; typedef const char* const_pointer;
  typedef __vit<basic_string, char> iterator; typedef __vit<basic_string, const char> const_iterator; typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  typedef char_traits<char> traits_type; typedef allocator<char> allocator_type;
  static const size_t npos = (size_t)-1;
  const char* __at(ptrdiff_t i) const { return __v_str_data(this) + i; }
  basic_string() { __v_str_init(this); }
  basic_string(const basic_string& o) { __v_str_copy(this, &o); }
  basic_string(basic_string&& o) noexcept { __v_str_copy(this, &o); __v_str_init(&o); }
  basic_string(const char* s) { __v_str_from(this, s, __v_cstrlen(s)); }
  basic_string(const char* s, size_t n) { __v_str_from(this, s, n); }
  basic_string(size_t n, char c) { __v_str_fill(this, n, c); }
  basic_string(const basic_string& o, size_t pos, size_t n = npos) { __sub(o, pos, n); }
  basic_string(initializer_list<char> il) { __v_str_from(this, il.begin(), il.size()); }
  template <class C, class T> basic_string(__vit<C, T> a, __vit<C, T> b) { __v_str_init(this); for (; a != b; ++a) __v_str_push(this, *a); }
  basic_string(const char* a, const char* b) { __v_str_from(this, a, b - a); }
  ~basic_string() {}
  basic_string& operator=(const basic_string& o) { if (this != &o) __v_str_copy(this, &o); return *this; }
  basic_string& operator=(basic_string&& o) noexcept { if (this != &o) { __v_str_copy(this, &o); __v_str_init(&o); } return *this; }
  basic_string& operator=(const char* s) { __v_str_from(this, s, __v_cstrlen(s)); return *this; }
  basic_string& operator=(char c) { __v_str_fill(this, 1, c); return *this; }
  basic_string& assign(const basic_string& o) { return *this = o; } basic_string& assign(const char* s) { return *this = s; }
  basic_string& assign(const char* s, size_t n) { __v_str_from(this, s, n); return *this; } basic_string& assign(size_t n, char c) { __v_str_fill(this, n, c); return *this; }
  basic_string& assign(basic_string&& o) { return *this = std::move(o); }
  template <class C, class T> basic_string& assign(__vit<C, T> a, __vit<C, T> b) { basic_string t(a, b); return *this = std::move(t); }
  size_t size() const { return __v_str_len(this); } size_t length() const { return __v_str_len(this); } bool empty() const { return __v_str_len(this) == 0; }
  size_t capacity() const { return size(); } size_t max_size() const { return (size_t)1 << 60; } void reserve(size_t = 0) {} void shrink_to_fit() {} void clear() { __v_str_init(this); }
  const char* c_str() const { return __v_str_data(this); } const char* data() const { return __v_str_data(this); }
  char& operator[](size_t i) { return __v_str_data(this)[i]; } const char& operator[](size_t i) const { return __v_str_data(this)[i]; }
  char& at(size_t i) { if (i >= size()) __throw_out_of_range(); return __v_str_data(this)[i]; } const char& at(size_t i) const { if (i >= size()) __throw_out_of_range(); return __v_str_data(this)[i]; }
  char& front() { return (*this)[0]; } const char& front() const { return (*this)[0]; } char& back() { return (*this)[size() - 1]; } const char& back() const { return (*this)[size() - 1]; }
  iterator begin() { return iterator(this, 0); } iterator end() { return iterator(this, size()); } const_iterator begin() const { return const_iterator(this, 0); } const_iterator end() const { return const_iterator(this, size()); }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); } reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  basic_string& append(const basic_string& s) { __v_str_append(this, &s); return *this; } basic_string& append(const char* s) { __v_str_append_n(this, s, __v_cstrlen(s)); return *this; }
  basic_string& append(const char* s, size_t n) { __v_str_append_n(this, s, n); return *this; }
  basic_string& append(size_t n, char c) { if (__builtin_constant_p(n) && n == 1) { __v_str_push(this, c); return *this; } basic_string t(n, c); __v_str_append(this, &t); return *this; }
  basic_string& append(const basic_string& s, size_t pos, size_t n = npos) { basic_string t(s, pos, n); __v_str_append(this, &t); return *this; }
  template <class C, class T> basic_string& append(__vit<C, T> a, __vit<C, T> b) { basic_string t(a, b); __v_str_append(this, &t); return *this; }
  basic_string& append(initializer_list<char> il) { __v_str_append_n(this, il.begin(), il.size()); return *this; }
  void push_back(char c) { __v_str_push(this, c); } void pop_back() { __v_str_sub(this, this, 0, size() - 1); }
  basic_string& operator+=(const basic_string& s) { return append(s); } basic_string& operator+=(const char* s) { return append(s); } basic_string& operator+=(char c) { push_back(c); return *this; }
  basic_string& operator+=(initializer_list<char> il) { return append(il); }
  void __sub(const basic_string& o, size_t pos, size_t n) { size_t l = o.size(); if (pos > l) __throw_out_of_range(); if (n > l - pos) n = l - pos; __v_str_sub(this, &o, pos, n); }
  basic_string substr(size_t pos = 0, size_t n = npos) const { basic_string r; r.__sub(*this, pos, n); return r; }
  void resize(size_t n, char c = 0) { size_t l = size(); if (n <= l) __v_str_sub(this, this, 0, n); else append(n - l, c); }
  basic_string& erase(size_t pos = 0, size_t n = npos) { size_t l = size(); if (pos > l) __throw_out_of_range(); if (n > l - pos) n = l - pos; basic_string e; __v_str_replace(this, pos, n, &e); return *this; }
  iterator erase(const_iterator p) { basic_string e; __v_str_replace(this, p.i, 1, &e); return iterator(this, p.i); }
  iterator erase(const_iterator p, const_iterator q) { basic_string e; __v_str_replace(this, p.i, q.i - p.i, &e); return iterator(this, p.i); }
  basic_string& insert(size_t pos, const basic_string& s) { if (pos > size()) __throw_out_of_range(); basic_string t(s); __v_str_replace(this, pos, 0, &t); return *this; }
  basic_string& insert(size_t pos, const char* s) { return insert(pos, basic_string(s)); } basic_string& insert(size_t pos, size_t n, char c) { return insert(pos, basic_string(n, c)); }
  iterator insert(const_iterator p, char c) { basic_string t(1, c); __v_str_replace(this, p.i, 0, &t); return iterator(this, p.i); }
  basic_string& replace(size_t pos, size_t n, const basic_string& s) { size_t l = size(); if (pos > l) __throw_out_of_range(); if (n > l - pos) n = l - pos; basic_string t(s); __v_str_replace(this, pos, n, &t); return *this; }
  basic_string& replace(size_t pos, size_t n, const char* s) { return replace(pos, n, basic_string(s)); } basic_string& replace(size_t pos, size_t n, size_t m, char c) { return replace(pos, n, basic_string(m, c)); }
  void swap(basic_string& o) { basic_string t(o); __v_str_copy(&o, this); __v_str_copy(this, &t); }
  int compare(const basic_string& s) const { return __v_str_cmp(this, &s); } int compare(const char* s) const { basic_string t(s); return __v_str_cmp(this, &t); }
  int compare(size_t pos, size_t n, const basic_string& s) const { basic_string t(*this, pos, n); return __v_str_cmp(&t, &s); }
  int compare(size_t pos, size_t n, const char* s) const { basic_string t(*this, pos, n); basic_string u(s); return __v_str_cmp(&t, &u); }
  int compare(size_t pos, size_t n, const char* s, size_t m) const { basic_string t(*this, pos, n); basic_string u(s, m); return __v_str_cmp(&t, &u); }
  int compare(size_t pos, size_t n, const basic_string& s, size_t p2, size_t n2 = npos) const { basic_string t(*this, pos, n); basic_string u(s, p2, n2); return __v_str_cmp(&t, &u); }
  bool __match(size_t i, const char* s, size_t n) const { for (size_t j = 0; j < n; ++j) if ((*this)[i + j] != s[j]) return false; return true; }
  size_t find(char c, size_t pos = 0) const { size_t l = size(); for (size_t i = pos; i < l; ++i) if ((*this)[i] == c) return i; return npos; }
  size_t find(const char* s, size_t pos, size_t n) const { size_t l = size(); if (n == 0) return pos <= l ? pos : npos; for (size_t i = pos; i + n <= l; ++i) if (__match(i, s, n)) return i; return npos; }
  size_t find(const char* s, size_t pos = 0) const { return find(s, pos, __v_cstrlen(s)); } size_t find(const basic_string& s, size_t pos = 0) const { return find(s.data(), pos, s.size()); }
  size_t rfind(char c, size_t pos = npos) const { size_t l = size(); if (pos < l) l = pos + 1; for (size_t i = 0; i < l; ++i) if ((*this)[l - 1 - i] == c) return l - 1 - i; return npos; }
  static bool __in(char c, const char* s, size_t n) { for (size_t j = 0; j < n; ++j) if (s[j] == c) return true; return false; }
  size_t find_first_of(const char* s, size_t pos, size_t n) const { size_t l = size(); for (size_t i = pos; i < l; ++i) if (__in((*this)[i], s, n)) return i; return npos; }
  size_t find_first_of(const char* s, size_t pos = 0) const { return find_first_of(s, pos, __v_cstrlen(s)); } size_t find_first_of(const basic_string& s, size_t pos = 0) const { return find_first_of(s.data(), pos, s.size()); } size_t find_first_of(char c, size_t pos = 0) const { return find(c, pos); }
  size_t find_first_not_of(const char* s, size_t pos, size_t n) const { size_t l = size(); for (size_t i = pos; i < l; ++i) if (!__in((*this)[i], s, n)) return i; return npos; }
  size_t find_first_not_of(const char* s, size_t pos = 0) const { return find_first_not_of(s, pos, __v_cstrlen(s)); } size_t find_first_not_of(const basic_string& s, size_t pos = 0) const { return find_first_not_of(s.data(), pos, s.size()); } size_t find_first_not_of(char c, size_t pos = 0) const { return find_first_not_of(&c, pos, 1); }
  size_t find_last_of(const char* s) const { size_t l = size(); size_t n = __v_cstrlen(s); for (size_t i = 0; i < l; ++i) if (__in((*this)[l - 1 - i], s, n)) return l - 1 - i; return npos; } size_t find_last_of(char c) const { return rfind(c); }
  size_t copy(char* d, size_t n, size_t pos = 0) const { size_t l = size() - pos; if (n > l) n = l; for (size_t i = 0; i < n; ++i) d[i] = (*this)[pos + i]; return n; }
};
typedef basic_string<char> string;
inline bool operator==(const string& a, const string& b) { return __v_str_eq(&a, &b); }
inline bool operator==(const string& a, const char* b) { string t(b); return __v_str_eq(&a, &t); } inline bool operator==(const char* a, const string& b) { return b == a; }
inline bool operator!=(const string& a, const string& b) { return !(a == b); } inline bool operator!=(const string& a, const char* b) { return !(a == b); } inline bool operator!=(const char* a, const string& b) { return !(b == a); }
inline bool operator<(const string& a, const string& b) { return __v_str_cmp(&a, &b) < 0; } inline bool operator>(const string& a, const string& b) { return b < a; } inline bool operator<=(const string& a, const string& b) { return !(b < a); } inline bool operator>=(const string& a, const string& b) { return !(a < b); }
inline string operator+(const string& a, const string& b) { string r(a); r.append(b); return r; } inline string operator+(const string& a, const char* b) { string r(a); r.append(b); return r; }
inline string operator+(const char* a, const string& b) { string r(a); r.append(b); return r; } inline string operator+(const string& a, char b) { string r(a); r.push_back(b); return r; } inline string operator+(char a, const string& b) { string r(1, a); r.append(b); return r; }
inline void swap(string& a, string& b) { a.swap(b); }
inline string to_string(int n) { string r; __v_fmt_int(&r, n); return r; } inline string to_string(unsigned n) { string r; __v_fmt_int(&r, n); return r; } inline string to_string(long n) { string r; __v_fmt_int(&r, n); return r; }
inline string to_string(unsigned long n) { string r; __v_fmt_int(&r, n); return r; } inline string to_string(long long n) { string r; __v_fmt_int(&r, n); return r; } inline string to_string(unsigned long long n) { string r; __v_fmt_int(&r, n); return r; }
inline string to_string(double x) { string r; __v_fmt_double(&r, x, -6, 0); return r; }
inline int strcmp(const char* a, const char* b) { string x(a), y(b); return __v_str_cmp(&x, &y); }
inline int strncmp(const char* a, const char* b, size_t n) { string x(a), y(b); if (x.size() > n) x.resize(n); if (y.size() > n) y.resize(n); return __v_str_cmp(&x, &y); }
inline const char* strchr(const char* s, int c) { size_t n = __v_cstrlen(s); for (size_t i = 0; i < n; ++i) if (s[i] == (char)c) return s + i; return nullptr; }
inline const char* strstr(const char* h, const char* n) { size_t ln = __v_cstrlen(n); string hs(h); size_t p = hs.find(n, 0, ln); return p == string::npos ? nullptr : h + p; }

class logic_error : public exception { string m_; public: explicit logic_error(const string& s) : m_(s) {} explicit logic_error(const char* s) : m_(s) {} const char* what() const noexcept override { return m_.c_str(); } };
class runtime_error : public exception { string m_; public: explicit runtime_error(const string& s) : m_(s) {} explicit runtime_error(const char* s) : m_(s) {} const char* what() const noexcept override { return m_.c_str(); } };
#define __V_EXC(N, B) class N : public B { public: explicit N(const string& s) : B(s) {} explicit N(const char* s) : B(s) {} };
__V_EXC(invalid_argument, logic_error) __V_EXC(domain_error, logic_error) __V_EXC(length_error, logic_error) __V_EXC(out_of_range, logic_error) __V_EXC(range_error, runtime_error) __V_EXC(overflow_error, runtime_error) __V_EXC(underflow_error, runtime_error) __V_EXC(system_error, runtime_error)
inline void __throw_out_of_range() { throw out_of_range("out of range"); }

// ------------------------------------------------------------ vector
template <class T, class A = allocator<T>> class vector {
  void* h_;
  union Hold { T v; char c; Hold() {} ~Hold() {} };
 public:
  typedef T value_type; typedef size_t size_type; typedef ptrdiff_t difference_type; typedef T& reference; typedef const T& const_reference; typedef T* pointer; typedef const T* const_pointer; typedef A allocator_type;
  typedef __vit<vector, T> iterator; typedef __vit<vector, const T> const_iterator; typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  const T* __at(ptrdiff_t i) const { return (const T*)__v_vec_at(this, i, sizeof(T)); }
  vector() { __v_vec_init(this, sizeof(T)); }
  vector(const vector& o) { __v_vec_copy(this, &o, sizeof(T)); }
  vector(vector&& o) noexcept { __v_vec_copy(this, &o, sizeof(T)); __v_vec_init(&o, sizeof(T)); }
  explicit vector(size_t n) { Hold h; new (&h.v) T(); __v_vec_fill(this, n, &h.v, sizeof(T)); }
  vector(size_t n, const T& x) { __v_vec_fill(this, n, &x, sizeof(T)); }
  vector(initializer_list<T> il) { if (il.size() == 0) __v_vec_init(this, sizeof(T)); else __v_vec_raw(this, il.begin(), il.size(), sizeof(T)); }
  template <class I, class = typename I::iterator_category> vector(I a, I b) { __v_vec_init(this, sizeof(T)); for (; a != b; ++a) emplace_back(*a); }
  vector(const T* a, const T* b) { __v_vec_raw(this, a, b - a, sizeof(T)); }
  ~vector() {}
  vector& operator=(const vector& o) { if (this != &o) __v_vec_copy(this, &o, sizeof(T)); return *this; }
  vector& operator=(vector&& o) noexcept { if (this != &o) { __v_vec_copy(this, &o, sizeof(T)); __v_vec_init(&o, sizeof(T)); } return *this; }
  vector& operator=(initializer_list<T> il) { vector t(il); return *this = std::move(t); }
  void assign(size_t n, const T& x) { vector t(n, x); *this = std::move(t); }
  template <class I, class = typename I::iterator_category> void assign(I a, I b) { vector t(a, b); *this = std::move(t); }
  size_t size() const { return __v_vec_len(this, sizeof(T)); } bool empty() const { return __v_vec_len(this, sizeof(T)) == 0; } size_t capacity() const { return size(); } size_t max_size() const { return (size_t)1 << 56; }
  void reserve(size_t) {} void shrink_to_fit() {} void clear() { __v_vec_init(this, sizeof(T)); }
  T& operator[](size_t i) { return *const_cast<T*>(__at(i)); } const T& operator[](size_t i) const { return *__at(i); }
  T& at(size_t i) { if (i >= size()) __throw_out_of_range(); return (*this)[i]; } const T& at(size_t i) const { if (i >= size()) __throw_out_of_range(); return (*this)[i]; }
  T& front() { return (*this)[0]; } const T& front() const { return (*this)[0]; } T& back() { return (*this)[size() - 1]; } const T& back() const { return (*this)[size() - 1]; }
  T* data() { return const_cast<T*>(__at(0)); } const T* data() const { return __at(0); }
  iterator begin() { return iterator(this, 0); } iterator end() { return iterator(this, size()); } const_iterator begin() const { return const_iterator(this, 0); } const_iterator end() const { return const_iterator(this, size()); }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); } reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  void push_back(const T& x) { Hold h; new (&h.v) T(x); __v_vec_push(this, &h.v, sizeof(T)); }
  void push_back(T&& x) { Hold h; new (&h.v) T(std::move(x)); __v_vec_push(this, &h.v, sizeof(T)); }
  template <class... X> void emplace_back(X&&... x) { Hold h; new (&h.v) T(std::forward<X>(x)...); __v_vec_push(this, &h.v, sizeof(T)); }
  void pop_back() { size_t n = size(); __v_vec_erase(this, n - 1, n, sizeof(T)); }
  template <class... X> iterator emplace(const_iterator p, X&&... x) { Hold h; new (&h.v) T(std::forward<X>(x)...); __v_vec_insert(this, p.i, &h.v, sizeof(T)); return iterator(this, p.i); }
  iterator insert(const_iterator p, const T& x) { return emplace(p, x); } iterator insert(const_iterator p, T&& x) { return emplace(p, std::move(x)); }
  iterator insert(const_iterator p, size_t n, const T& x) { vector t(n, x); __v_vec_splice(this, p.i, &t, 0, n, sizeof(T)); return iterator(this, p.i); }
  iterator insert(const_iterator p, iterator a, iterator b) { __v_vec_splice(this, p.i, a.c, a.i, b.i, sizeof(T)); return iterator(this, p.i); }
  iterator insert(const_iterator p, const_iterator a, const_iterator b) { __v_vec_splice(this, p.i, a.c, a.i, b.i, sizeof(T)); return iterator(this, p.i); }
  iterator insert(const_iterator p, move_iterator<iterator> a, move_iterator<iterator> b) { __v_vec_splice(this, p.i, a.b.c, a.b.i, b.b.i, sizeof(T)); return iterator(this, p.i); }
  iterator erase(const_iterator p) { __v_vec_erase(this, p.i, p.i + 1, sizeof(T)); return iterator(this, p.i); }
  iterator erase(const_iterator p, const_iterator q) { __v_vec_erase(this, p.i, q.i, sizeof(T)); return iterator(this, p.i); }
  void resize(size_t n) { Hold h; new (&h.v) T(); __v_vec_resize(this, n, &h.v, sizeof(T)); } void resize(size_t n, const T& x) { __v_vec_resize(this, n, &x, sizeof(T)); }
  void swap(vector& o) { vector t(o); __v_vec_copy(&o, this, sizeof(T)); __v_vec_copy(this, &t, sizeof(T)); }
};
template <class T> bool operator==(const vector<T>& a, const vector<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }
template <class T> bool operator!=(const vector<T>& a, const vector<T>& b) { return !(a == b); }
template <class T> void swap(vector<T>& a, vector<T>& b) { a.swap(b); }
template <class T, size_t N> struct array {
  typedef T value_type; typedef size_t size_type; typedef T* iterator; typedef const T* const_iterator; typedef T& reference; typedef const T& const_reference;
  T e_[N];
  constexpr size_t size() const { return N; } constexpr bool empty() const { return N == 0; } T& operator[](size_t i) { return e_[i]; } const T& operator[](size_t i) const { return e_[i]; } T& at(size_t i) { if (i >= N) __throw_out_of_range(); return e_[i]; }
  T* begin() { return &e_[0]; } T* end() { return &e_[0] + N; } const T* begin() const { return &e_[0]; } const T* end() const { return &e_[0] + N; } const T* cbegin() const { return begin(); } const T* cend() const { return end(); }
  T& front() { return e_[0]; } T& back() { return e_[N - 1]; } T* data() { return &e_[0]; } const T* data() const { return &e_[0]; } void fill(const T& x) { for (size_t i = 0; i < N; ++i) e_[i] = x; }
};
// arrays of numbers are sequences of fixed length
template <size_t N> struct array<double, N> {
  typedef double value_type; typedef size_t size_type; typedef double& reference; typedef const double& const_reference; typedef vector<double>::iterator iterator; typedef vector<double>::const_iterator const_iterator;
  vector<double> v_;
  array() : v_(N) {} array(initializer_list<double> l) : v_(l) { v_.resize(N); }
  constexpr size_t size() const { return N; } constexpr bool empty() const { return N == 0; } double& operator[](size_t i) { return v_[i]; } const double& operator[](size_t i) const { return v_[i]; } double& at(size_t i) { if (i >= N) __throw_out_of_range(); return v_[i]; }
  iterator begin() { return v_.begin(); } iterator end() { return v_.end(); } const_iterator begin() const { return v_.begin(); } const_iterator end() const { return v_.end(); } const_iterator cbegin() const { return v_.begin(); } const_iterator cend() const { return v_.end(); }
  double& front() { return v_[0]; } double& back() { return v_[N - 1]; } const double* data() const { return v_.data(); } void fill(const double& x) { v_.assign(N, x); }
};

// ------------------------------------------------------------ algorithms
template <class I, class P> I find_if(I a, I b, P p) { for (; a != b; ++a) if (p(*a)) return a; return b; }
template <class I, class P> I find_if_not(I a, I b, P p) { for (; a != b; ++a) if (!p(*a)) return a; return b; }
template <class I, class V> I find(I a, I b, const V& v) { for (; a != b; ++a) if (*a == v) return a; return b; }
template <class I, class P> bool any_of(I a, I b, P p) { for (; a != b; ++a) if (p(*a)) return true; return false; }
template <class I, class P> bool all_of(I a, I b, P p) { for (; a != b; ++a) if (!p(*a)) return false; return true; }
template <class I, class P> bool none_of(I a, I b, P p) { for (; a != b; ++a) if (p(*a)) return false; return true; }
template <class I, class F> F for_each(I a, I b, F f) { for (; a != b; ++a) f(*a); return f; }
template <class I, class P> ptrdiff_t count_if(I a, I b, P p) { ptrdiff_t n = 0; for (; a != b; ++a) if (p(*a)) ++n; return n; }
template <class I, class V> ptrdiff_t count(I a, I b, const V& v) { ptrdiff_t n = 0; for (; a != b; ++a) if (*a == v) ++n; return n; }
template <class I, class O, class F> O transform(I a, I b, O o, F f) { for (; a != b; ++a) { *o = f(*a); ++o; } return o; }
template <class I, class J, class O, class F> O transform(I a, I b, J c, O o, F f) { for (; a != b; ++a) { *o = f(*a, *c); ++o; ++c; } return o; }
template <class I, class O> O copy(I a, I b, O o) { for (; a != b; ++a) { *o = *a; ++o; } return o; }
template <class I, class O, class P> O copy_if(I a, I b, O o, P p) { for (; a != b; ++a) if (p(*a)) { *o = *a; ++o; } return o; }
template <class I, class O> O move(I a, I b, O o) { for (; a != b; ++a) { *o = std::move(*a); ++o; } return o; }
template <class I, class N, class O> O copy_n(I a, N n, O o) { for (N i = 0; i < n; ++i) { *o = *a; ++a; ++o; } return o; }
template <class I, class V> void fill(I a, I b, const V& v) { for (; a != b; ++a) *a = v; }
template <class I, class N, class V> I fill_n(I a, N n, const V& v) { for (N i = 0; i < n; ++i) { *a = v; ++a; } return a; }
template <class I, class A> A accumulate(I a, I b, A z) { for (; a != b; ++a) z = z + *a; return z; }
template <class I, class A, class F> A accumulate(I a, I b, A z, F f) { for (; a != b; ++a) z = f(z, *a); return z; }
template <class I, class P> I adjacent_find(I a, I b, P p) { if (a == b) return b; I n = a; ++n; for (; n != b; ++n, ++a) if (p(*a, *n)) return a; return b; }
template <class I> I adjacent_find(I a, I b) { if (a == b) return b; I n = a; ++n; for (; n != b; ++n, ++a) if (*a == *n) return a; return b; }
template <class I> bool is_sorted(I a, I b) { if (a == b) return true; I n = a; ++n; for (; n != b; ++n, ++a) if (*n < *a) return false; return true; }
template <class I, class P> bool is_sorted(I a, I b, P p) { if (a == b) return true; I n = a; ++n; for (; n != b; ++n, ++a) if (p(*n, *a)) return false; return true; }
template <class I, class J> bool equal(I a, I b, J c) { for (; a != b; ++a, ++c) if (!(*a == *c)) return false; return true; }
template <class I, class J, class P> bool equal(I a, I b, J c, P p) { for (; a != b; ++a, ++c) if (!p(*a, *c)) return false; return true; }
// binary searches: the partition point, with the proof obligation that the range is partitioned
template <class I, class V, class C> I lower_bound(I a, I b, const V& v, C c) {
  ptrdiff_t n = b - a, i = 0;
  for (; i < n; ++i) if (!c(*(a + i), v)) break;
  if (__v_fork()) { ptrdiff_t j = __v_skolem(i, n); __v_assert(!c(*(a + j), v), "lower_bound: range is partitioned"); __v_stop(); }
  return a + i;
}
template <class I, class V> I lower_bound(I a, I b, const V& v) { return std::lower_bound(a, b, v, [](const typename iterator_traits<I>::value_type& x, const V& y) { return x < y; }); }
template <class I, class V, class C> I upper_bound(I a, I b, const V& v, C c) {
  ptrdiff_t n = b - a, i = 0;
  for (; i < n; ++i) if (c(v, *(a + i))) break;
  if (__v_fork()) { ptrdiff_t j = __v_skolem(i, n); __v_assert(c(v, *(a + j)), "upper_bound: range is partitioned"); __v_stop(); }
  return a + i;
}
template <class I, class V> I upper_bound(I a, I b, const V& v) { return std::upper_bound(a, b, v, [](const V& y, const typename iterator_traits<I>::value_type& x) { return y < x; }); }
template <class I, class P> I partition_point(I a, I b, P p) { return std::lower_bound(a, b, 0, [&p](const typename iterator_traits<I>::value_type& x, int) { return p(x); }); }
template <class T, class P> __vit<vector<T>, T> remove_if(__vit<vector<T>, T> a, __vit<vector<T>, T> b, P p) {
  vector<T> kept;
  vector<T>* v = const_cast<vector<T>*>(a.c);
  for (ptrdiff_t i = a.i; i < b.i; ++i) if (!p((*v)[i])) __v_vec_push(&kept, &(*v)[i], sizeof(T));
  size_t m = kept.size(), n = b.i - a.i, all = v->size();
  vector<T> rest; __v_fresh_vec(&rest, sizeof(T)); __v_assume(rest.size() == n - m);
  vector<T> out;
  __v_vec_splice(&out, 0, v, 0, a.i, sizeof(T)); __v_vec_splice(&out, out.size(), &kept, 0, m, sizeof(T)); __v_vec_splice(&out, out.size(), &rest, 0, rest.size(), sizeof(T)); __v_vec_splice(&out, out.size(), v, b.i, all, sizeof(T));
  __v_vec_copy(v, &out, sizeof(T));
  return __vit<vector<T>, T>(v, a.i + m);
}
template <class P> __vit<string, char> remove_if(__vit<string, char> a, __vit<string, char> b, P p) {
  string kept; string* v = const_cast<string*>(a.c);
  for (ptrdiff_t i = a.i; i < b.i; ++i) { char c = (*v)[i]; if (!p(c)) kept.push_back(c); }
  size_t m = kept.size(), n = b.i - a.i; string rest; __v_fresh_str(&rest); __v_assume(rest.size() == n - m);
  string out = v->substr(0, a.i); out += kept; out += rest; out += v->substr(b.i); __v_str_copy(v, &out);
  return __vit<string, char>(v, a.i + m);
}
template <class I, class V> I remove(I a, I b, const V& v) { return std::remove_if(a, b, [&v](const typename iterator_traits<I>::value_type& x) { return x == v; }); }
template <class I> void sort(I, I) { __v_limit("std::sort of this range"); }
template <class I, class C> void sort(I, I, C) { __v_limit("std::sort with a comparator"); }
// sorting numbers: none may be a NaN; the result is a rearrangement of the range in increasing order
inline void sort(__vit<vector<double>, double> a, __vit<vector<double>, double> b) {
  vector<double>& v = *const_cast<vector<double>*>(a.c); size_t lo = a.i, hi = b.i, n = v.size(); __v_assert(lo <= hi && hi <= n, "the range to be sorted lies in its container");
  if (__v_fork()) { size_t j = __v_skolem(lo, hi); __v_assert(!(v[j] != v[j]), "the numbers to be sorted are ordered"); __v_stop(); }
  vector<double> r; __v_fresh_vec(&r, sizeof(double)); __v_assume(r.size() == n); long id = __v_fresh_i64();
  { size_t j = __v_bound_begin(0, n); bool f = (j >= lo && j < hi) || __v_d_eq_bits(r[j], v[j]); __v_bound_end(f); }
  { size_t j = __v_bound_begin(lo, hi); size_t k = __v_fn_i64("place before sorting", id, j); bool f = k >= lo && k < hi && __v_d_eq_bits(r[j], v[k]); __v_bound_end(f); }
  { size_t i = __v_bound_begin(lo, hi); size_t j = __v_bound_begin(i + 1, hi); bool f = r[i] <= r[j]; bool in = __v_bound_value(f); __v_bound_end(in); }
  v = r;
}
template <class I, class C> I max_element(I a, I b, C c) { if (a == b) return b; I m = a; for (++a; a != b; ++a) if (c(*m, *a)) m = a; return m; }
template <class I> void reverse(I a, I b) { while (a != b && a != --b) { std::swap(*a, *b); ++a; } }

// ------------------------------------------------------------ functional
template <class T> struct hash;
template <> struct hash<string> { size_t operator()(const string& s) const { return __v_str_hash(&s); } typedef size_t result_type; typedef string argument_type; };
#define __V_HASH(T) template <> struct hash<T> { size_t operator()(T x) const { return (size_t)__v_fn_i64("hash." #T, (long)x, 0); } };
__V_HASH(int) __V_HASH(unsigned) __V_HASH(long) __V_HASH(unsigned long) __V_HASH(char)
template <class T> struct reference_wrapper { T* p; reference_wrapper(T& t) : p(&t) {} operator T&() const { return *p; } T& get() const { return *p; } typedef T type; };
template <class T> reference_wrapper<T> ref(T& t) { return reference_wrapper<T>(t); } template <class T> reference_wrapper<const T> cref(const T& t) { return reference_wrapper<const T>(t); }
template <class T = void> struct less { bool operator()(const T& a, const T& b) const { return a < b; } };
template <class T = void> struct greater { bool operator()(const T& a, const T& b) const { return b < a; } };
template <class T = void> struct equal_to { bool operator()(const T& a, const T& b) const { return a == b; } };
template <class T = void> struct plus { T operator()(const T& a, const T& b) const { return a + b; } };
template <class T = void> struct less_equal { bool operator()(const T& a, const T& b) const { return a <= b; } };
template <class T = void> struct greater_equal { bool operator()(const T& a, const T& b) const { return a >= b; } };
template <class S> class function;
template <class R, class... A> class function<R(A...)> {
 public:
  void* o_; R (*inv_)(void*, A...);
  typedef R result_type;
  template <class F> static R call_(void* o, A... a) { return (*(F*)o)(std::forward<A>(a)...); }
  function() : o_(nullptr), inv_(nullptr) {} function(nullptr_t) : o_(nullptr), inv_(nullptr) {}
  function(const function& f) : o_(f.o_), inv_(f.inv_) {} function(function&& f) noexcept : o_(f.o_), inv_(f.inv_) { f.o_ = nullptr; f.inv_ = nullptr; }
  template <class F, class = typename enable_if<!is_same<typename decay<F>::type, function>::value>::type> function(F f) : o_(new F(std::move(f))), inv_(&call_<F>) {}
  function& operator=(const function& f) { o_ = f.o_; inv_ = f.inv_; return *this; } function& operator=(function&& f) { if (this != &f) { o_ = f.o_; inv_ = f.inv_; f.o_ = nullptr; f.inv_ = nullptr; } return *this; } function& operator=(nullptr_t) { o_ = nullptr; inv_ = nullptr; return *this; }
  template <class F, class = typename enable_if<!is_same<typename decay<F>::type, function>::value>::type> function& operator=(F f) { o_ = new F(std::move(f)); inv_ = &call_<F>; return *this; }
  explicit operator bool() const { return inv_ != nullptr; }
  R operator()(A... a) const { if (!inv_) throw bad_function_call(); return inv_(o_, std::forward<A>(a)...); }
  void swap(function& f) { function t(f); f = *this; *this = t; }
};
template <class R, class... A> bool operator==(const function<R(A...)>& f, nullptr_t) { return !f; } template <class R, class... A> bool operator!=(const function<R(A...)>& f, nullptr_t) { return (bool)f; }

// ------------------------------------------------------------ memory
template <class T> struct default_delete { void operator()(T* p) const { delete p; } };
template <class T, class D = default_delete<T>> class unique_ptr {
  T* p_;
 public:
  typedef T element_type; typedef T* pointer; typedef D deleter_type;
  constexpr unique_ptr() : p_(nullptr) {} constexpr unique_ptr(nullptr_t) : p_(nullptr) {} explicit unique_ptr(T* p) : p_(p) {} unique_ptr(T* p, const D&) : p_(p) {}
  unique_ptr(unique_ptr&& o) noexcept : p_(o.p_) { o.p_ = nullptr; } template <class U, class E> unique_ptr(unique_ptr<U, E>&& o) noexcept : p_(o.release()) {}
  unique_ptr(const unique_ptr&) = delete; unique_ptr& operator=(const unique_ptr&) = delete;
  ~unique_ptr() { if (p_) { D()(p_); } p_ = nullptr; }
  unique_ptr& operator=(unique_ptr&& o) noexcept { reset(o.release()); return *this; } template <class U, class E> unique_ptr& operator=(unique_ptr<U, E>&& o) noexcept { reset(o.release()); return *this; } unique_ptr& operator=(nullptr_t) { reset(); return *this; }
  T* get() const { return p_; } T& operator*() const { return *p_; } T* operator->() const { return p_; } explicit operator bool() const { return p_ != nullptr; }
  T* release() { T* t = p_; p_ = nullptr; return t; } void reset(T* p = nullptr) { T* o = p_; p_ = p; if (o) D()(o); } void swap(unique_ptr& o) { T* t = p_; p_ = o.p_; o.p_ = t; }
};
template <class T, class D> bool operator==(const unique_ptr<T, D>& a, nullptr_t) { return a.get() == nullptr; } template <class T, class D> bool operator!=(const unique_ptr<T, D>& a, nullptr_t) { return a.get() != nullptr; } template <class T, class D> bool operator==(nullptr_t, const unique_ptr<T, D>& a) { return a.get() == nullptr; } template <class T, class D> bool operator!=(nullptr_t, const unique_ptr<T, D>& a) { return a.get() != nullptr; }
template <class T, class D, class U, class E> bool operator==(const unique_ptr<T, D>& a, const unique_ptr<U, E>& b) { return a.get() == b.get(); } template <class T, class D, class U, class E> bool operator!=(const unique_ptr<T, D>& a, const unique_ptr<U, E>& b) { return a.get() != b.get(); }
#if __cplusplus >= 201402L
template <class T, class... A> unique_ptr<T> make_unique(A&&... a) { return unique_ptr<T>(new T(std::forward<A>(a)...)); }
#endif
// shared ownership: reference counts are not modelled; __v_alive() is the oracle for weak_ptr
template <class T> class shared_ptr {
 public:
  T* p_;
  typedef T element_type;
  constexpr shared_ptr() : p_(nullptr) {} constexpr shared_ptr(nullptr_t) : p_(nullptr) {} explicit shared_ptr(T* p) : p_(p) {} template <class U> explicit shared_ptr(U* p) : p_(p) {}
  shared_ptr(const shared_ptr& o) : p_(o.p_) {} shared_ptr(shared_ptr&& o) noexcept : p_(o.p_) { o.p_ = nullptr; } template <class U> shared_ptr(const shared_ptr<U>& o) : p_(o.p_) {} template <class U> shared_ptr(shared_ptr<U>&& o) : p_(o.p_) { o.p_ = nullptr; }
  template <class U, class D> shared_ptr(unique_ptr<U, D>&& o) : p_(o.release()) {}
  ~shared_ptr() {}
  shared_ptr& operator=(const shared_ptr& o) { p_ = o.p_; return *this; } shared_ptr& operator=(shared_ptr&& o) noexcept { T* t = o.p_; o.p_ = nullptr; p_ = t; return *this; } template <class U> shared_ptr& operator=(const shared_ptr<U>& o) { p_ = o.p_; return *this; }
  T* get() const { return p_; } T& operator*() const { return *p_; } T* operator->() const { return p_; } explicit operator bool() const { return p_ != nullptr; } void reset() { p_ = nullptr; } template <class U> void reset(U* p) { p_ = p; } long use_count() const { return p_ ? 1 + (long)(__v_fresh_u64()) : 0; }
};
template <class T, class U> bool operator==(const shared_ptr<T>& a, const shared_ptr<U>& b) { return a.get() == b.get(); } template <class T, class U> bool operator!=(const shared_ptr<T>& a, const shared_ptr<U>& b) { return a.get() != b.get(); }
template <class T> bool operator==(const shared_ptr<T>& a, nullptr_t) { return !a.get(); } template <class T> bool operator!=(const shared_ptr<T>& a, nullptr_t) { return a.get(); } template <class T> bool operator==(nullptr_t, const shared_ptr<T>& a) { return !a.get(); } template <class T> bool operator!=(nullptr_t, const shared_ptr<T>& a) { return a.get(); }
template <class T, class... A> shared_ptr<T> make_shared(A&&... a) { return shared_ptr<T>(new T(std::forward<A>(a)...)); }
template <class T, class U> shared_ptr<T> static_pointer_cast(const shared_ptr<U>& u) { shared_ptr<T> r; r.p_ = static_cast<T*>(u.get()); return r; }
template <class T> class weak_ptr {
 public:
  T* p_;
  constexpr weak_ptr() : p_(nullptr) {} weak_ptr(const weak_ptr& o) : p_(o.p_) {} weak_ptr(weak_ptr&& o) noexcept : p_(o.p_) { o.p_ = nullptr; } template <class U> weak_ptr(const weak_ptr<U>& o) : p_(o.p_) {} template <class U> weak_ptr(const shared_ptr<U>& o) : p_(o.get()) {}
  weak_ptr& operator=(const weak_ptr& o) { p_ = o.p_; return *this; } weak_ptr& operator=(weak_ptr&& o) noexcept { T* t = o.p_; o.p_ = nullptr; p_ = t; return *this; } template <class U> weak_ptr& operator=(const shared_ptr<U>& o) { p_ = o.get(); return *this; }
  shared_ptr<T> lock() const { shared_ptr<T> r; if (p_ != nullptr && __v_alive(p_)) r.p_ = p_; return r; }
  // a false answer may be out of date by the time it is used
  bool expired() const { if (p_ == nullptr) return true; if (__v_alive(p_)) return false; return __v_fresh_bool(); }
  void reset() { p_ = nullptr; } long use_count() const { return expired() ? 0 : 1; }
  template <class U> bool owner_before(const weak_ptr<U>& o) const { return __v_ref(p_) < __v_ref(o.p_); } template <class U> bool owner_before(const shared_ptr<U>& o) const { return __v_ref(p_) < __v_ref(o.p_); }
};

// ------------------------------------------------------------ map, unordered_map, set (sequences with distinct keys)
template <bool S> struct __ltif { template <class K> static bool lt(const K& a, const K& b) { return a < b; } };
template <> struct __ltif<false> { template <class K> static bool lt(const K&, const K&) { return false; } };
template <class K, class V, bool Sorted> class __vmap {
 public:
  void* h_;
  typedef pair<const K, V> value_type; typedef K key_type; typedef V mapped_type; typedef size_t size_type; typedef ptrdiff_t difference_type; typedef value_type& reference; typedef const value_type& const_reference;
  typedef __vit<__vmap, value_type> iterator; typedef __vit<__vmap, const value_type> const_iterator; typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  union Hold { value_type v; char c; Hold() {} ~Hold() {} };
  const value_type* __at(ptrdiff_t i) const { return (const value_type*)__v_vec_at(this, i, sizeof(value_type)); }
  __vmap() { __v_vec_init(this, sizeof(value_type)); } __vmap(const __vmap& o) { __v_vec_copy(this, &o, sizeof(value_type)); } __vmap(__vmap&& o) noexcept { __v_vec_copy(this, &o, sizeof(value_type)); __v_vec_init(&o, sizeof(value_type)); }
  __vmap(initializer_list<value_type> il) { __v_vec_init(this, sizeof(value_type)); const value_type* p = il.begin(); for (size_t i = 0; i < il.size(); ++i) insert(p[i]); }
  template <class I> __vmap(I a, I b) { __v_vec_init(this, sizeof(value_type)); insert(a, b); }
  ~__vmap() {}
  __vmap& operator=(const __vmap& o) { if (this != &o) __v_vec_copy(this, &o, sizeof(value_type)); return *this; } __vmap& operator=(__vmap&& o) noexcept { if (this != &o) { __v_vec_copy(this, &o, sizeof(value_type)); __v_vec_init(&o, sizeof(value_type)); } return *this; }
  size_t size() const { return __v_vec_len(this, sizeof(value_type)); } bool empty() const { return size() == 0; } void clear() { __v_vec_init(this, sizeof(value_type)); } void reserve(size_t) {} void rehash(size_t) {}
  iterator begin() { return iterator(this, 0); } iterator end() { return iterator(this, size()); } const_iterator begin() const { return const_iterator(this, 0); } const_iterator end() const { return const_iterator(this, size()); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); } const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  size_t __idx(const K& k) const { size_t n = size(); for (size_t i = 0; i < n; ++i) if (__at(i)->first == k) return i; return n; }
  iterator find(const K& k) { return iterator(this, __idx(k)); } const_iterator find(const K& k) const { return const_iterator(this, __idx(k)); } size_t count(const K& k) const { return __idx(k) != size() ? 1 : 0; } bool contains(const K& k) const { return __idx(k) != size(); }
  V& at(const K& k) { size_t i = __idx(k); if (i == size()) __throw_out_of_range(); return const_cast<value_type*>(__at(i))->second; } const V& at(const K& k) const { size_t i = __idx(k); if (i == size()) __throw_out_of_range(); return __at(i)->second; }
  // position of a new key: its place in the order (sorted) or arbitrary (hashed)
  size_t __pos(const K& k) const { size_t n = size(); if (n == 0) return 0; if (Sorted) { size_t i = 0; for (; i < n; ++i) if (__ltif<Sorted>::lt(k, __at(i)->first)) break; return i; } size_t p = __v_fresh_u64(); __v_assume(p <= n); return p; }
  template <class... X> pair<iterator, bool> emplace(X&&... x) { Hold h; new (&h.v) value_type(std::forward<X>(x)...); size_t i = __idx(h.v.first); if (i != size()) return pair<iterator, bool>(iterator(this, i), false); size_t p = __pos(h.v.first); __v_vec_insert(this, p, &h.v, sizeof(value_type)); return pair<iterator, bool>(iterator(this, p), true); }
  pair<iterator, bool> insert(const value_type& x) { return emplace(x); } pair<iterator, bool> insert(value_type&& x) { return emplace(std::move(x)); }
  template <class P, class = typename enable_if<is_convertible<P&&, value_type>::value>::type> pair<iterator, bool> insert(P&& x) { return emplace(std::forward<P>(x)); }
  template <class I> void insert(I a, I b) { for (; a != b; ++a) emplace(*a); }
  template <class... X> pair<iterator, bool> try_emplace(const K& k, X&&... x) { size_t i = __idx(k); if (i != size()) return pair<iterator, bool>(iterator(this, i), false); return emplace(k, V(std::forward<X>(x)...)); }
  V& operator[](const K& k) { size_t i = __idx(k); if (i == size()) i = emplace(k, V()).first.i; return const_cast<value_type*>(__at(i))->second; }
  iterator erase(const_iterator p) { __v_vec_erase(this, p.i, p.i + 1, sizeof(value_type)); return iterator(this, p.i); } iterator erase(iterator p) { __v_vec_erase(this, p.i, p.i + 1, sizeof(value_type)); return iterator(this, p.i); }
  size_t erase(const K& k) { size_t i = __idx(k); if (i == size()) return 0; __v_vec_erase(this, i, i + 1, sizeof(value_type)); return 1; }
  void swap(__vmap& o) { __vmap t(o); __v_vec_copy(&o, this, sizeof(value_type)); __v_vec_copy(this, &t, sizeof(value_type)); }
  iterator lower_bound(const K& k) { size_t n = size(), i = 0; for (; i < n; ++i) if (!(__at(i)->first < k)) break; return iterator(this, i); } const_iterator lower_bound(const K& k) const { size_t n = size(), i = 0; for (; i < n; ++i) if (!(__at(i)->first < k)) break; return const_iterator(this, i); }
};
template <class K, class C = less<K>> class __vless {};
template <class K, class V, class C = less<K>, class A = allocator<pair<const K, V>>> class map : public __vmap<K, V, true> { public: typedef __vmap<K, V, true> B; using B::B; map() {} map(initializer_list<typename B::value_type> il) : B(il) {} };
template <class K, class V, class H = hash<K>, class E = equal_to<K>, class A = allocator<pair<const K, V>>> class unordered_map : public __vmap<K, V, false> { public: typedef __vmap<K, V, false> B; using B::B; unordered_map() {} };
template <class K, class V> bool operator==(const __vmap<K, V, true>& a, const __vmap<K, V, true>& b) { return __v_vec_eq(&a, &b, sizeof(pair<const K, V>)); }
template <class K, class V> bool operator!=(const __vmap<K, V, true>& a, const __vmap<K, V, true>& b) { return !(a == b); }
template <class K, class C = less<K>> class set {
 public: vector<K> v; typedef K value_type; typedef typename vector<K>::const_iterator iterator; typedef iterator const_iterator;
  set() {} set(initializer_list<K> il) { const K* p = il.begin(); for (size_t i = 0; i < il.size(); ++i) insert(p[i]); }
  size_t __idx(const K& k) const { size_t n = v.size(); for (size_t i = 0; i < n; ++i) if (v[i] == k) return i; return n; }
  pair<iterator, bool> insert(const K& k) { size_t i = __idx(k); if (i != v.size()) return pair<iterator, bool>(iterator(&v, i), false); v.push_back(k); return pair<iterator, bool>(iterator(&v, i), true); }
  size_t count(const K& k) const { return __idx(k) != v.size(); } iterator find(const K& k) const { return iterator(&v, __idx(k)); } iterator begin() const { return v.begin(); } iterator end() const { return v.end(); } size_t size() const { return v.size(); } bool empty() const { return v.empty(); } void clear() { v.clear(); }
};
template <class K, class H = hash<K>> class unordered_set : public set<K> {};

// ------------------------------------------------------------ atomics
enum memory_order { memory_order_relaxed, memory_order_consume, memory_order_acquire, memory_order_release, memory_order_acq_rel, memory_order_seq_cst };
template <class T> struct __atom_ev { static void ev(const void*, int, T, T) {} static void other(const void*, T&) {} };
// other threads may have changed the value before any atomic access
template <> struct __atom_ev<double> { static void ev(const void* p, int k, double a, double b) { __v_atomic_event(p, k, a, b); } static void other(const void*, double& v) { if (__v_interference()) v = __v_fresh_double(); } };
template <class T> struct atomic {
  T v_;
  atomic() noexcept = default; constexpr atomic(T v) noexcept : v_(v) {} atomic(const atomic&) = delete; atomic& operator=(const atomic&) = delete;
  void __oth() const { __atom_ev<T>::other(this, const_cast<atomic*>(this)->v_); }
  T load(memory_order = memory_order_seq_cst) const { __oth(); return v_; } operator T() const { return load(); }
  void store(T x, memory_order = memory_order_seq_cst) { __oth(); __atom_ev<T>::ev(this, 1, v_, x); v_ = x; } T operator=(T x) { store(x); return x; }
  T exchange(T x, memory_order = memory_order_seq_cst) { __oth(); T o = v_; __atom_ev<T>::ev(this, 1, o, x); v_ = x; return o; }
  // compares representations, as the hardware does
  bool __cas(T& e, T d) { __oth(); if (__same(v_, e)) { __atom_ev<T>::ev(this, 2, v_, d); v_ = d; return true; } e = v_; return false; }
  static bool __same(double a, double b) { return __v_d_eq_bits(a, b); } template <class U> static bool __same(U a, U b) { return a == b; }
  bool compare_exchange_strong(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { return __cas(e, d); }
  bool compare_exchange_weak(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { if (__v_fresh_bool()) { __oth(); e = v_; return false; } return __cas(e, d); }
  T fetch_add(T x, memory_order = memory_order_seq_cst) { __oth(); T o = v_; __atom_ev<T>::ev(this, 2, o, o + x); v_ = o + x; return o; } T fetch_sub(T x, memory_order = memory_order_seq_cst) { __oth(); T o = v_; __atom_ev<T>::ev(this, 2, o, o - x); v_ = o - x; return o; }
  T operator++() { return fetch_add(1) + 1; } T operator++(int) { return fetch_add(1); } T operator+=(T x) { return fetch_add(x) + x; } T operator-=(T x) { return fetch_sub(x) - x; } bool is_lock_free() const { return true; }
};

// ------------------------------------------------------------ mutexes, futures
struct mutex { long m_; constexpr mutex() : m_(0) {} mutex(const mutex&) = delete; mutex& operator=(const mutex&) = delete; void lock() { __v_lock(this); } void unlock() { __v_unlock(this); } bool try_lock() { if (__v_fresh_bool()) { __v_lock(this); return true; } return false; } };
struct recursive_mutex : mutex {}; struct shared_mutex : mutex { void lock_shared() { lock(); } void unlock_shared() { unlock(); } };
struct adopt_lock_t {}; struct defer_lock_t {}; struct try_to_lock_t {}; static const adopt_lock_t adopt_lock = adopt_lock_t(); static const defer_lock_t defer_lock = defer_lock_t();
template <class M> struct lock_guard { M& m; typedef M mutex_type; explicit lock_guard(M& x) : m(x) { m.lock(); } lock_guard(M& x, adopt_lock_t) : m(x) {} ~lock_guard() { m.unlock(); } lock_guard(const lock_guard&) = delete; };
template <class M> struct unique_lock { M* m; bool o; explicit unique_lock(M& x) : m(&x), o(true) { m->lock(); } unique_lock(M& x, defer_lock_t) : m(&x), o(false) {} unique_lock(M& x, adopt_lock_t) : m(&x), o(true) {} ~unique_lock() { if (o) m->unlock(); } void lock() { m->lock(); o = true; } void unlock() { m->unlock(); o = false; } bool owns_lock() const { return o; } };
template <class M> struct scoped_lock : lock_guard<M> { explicit scoped_lock(M& x) : lock_guard<M>(x) {} };
enum class launch { async = 1, deferred = 2 };
inline launch operator|(launch a, launch b) { return (launch)((int)a | (int)b); }
// tasks run to completion when they are created (one legal schedule; see DESIGN)
template <class T> class future { public: T v_; bool ok_; future() : v_(), ok_(false) {} explicit future(T v) : v_(v), ok_(true) {} future(future&& o) noexcept : v_(std::move(o.v_)), ok_(o.ok_) { o.ok_ = false; } future& operator=(future&& o) { v_ = std::move(o.v_); ok_ = o.ok_; o.ok_ = false; return *this; } future(const future&) = delete; T get() { __v_assert(ok_, "future::get on a valid future"); ok_ = false; return std::move(v_); } bool valid() const { return ok_; } void wait() const {} };
template <> class future<void> { public: bool ok_; future() : ok_(false) {} explicit future(bool b) : ok_(b) {} void get() { ok_ = false; } bool valid() const { return ok_; } void wait() const {} };
template <class F, class... A> future<typename __result<F, A...>::type> async(launch, F&& f, A&&... a) { return future<typename __result<F, A...>::type>(f(std::forward<A>(a)...)); }
template <class F, class... A, class = typename enable_if<!is_same<typename decay<F>::type, launch>::value>::type> future<typename __result<F, A...>::type> async(F&& f, A&&... a) { return future<typename __result<F, A...>::type>(f(std::forward<A>(a)...)); }
template <class T> class promise { public: T v_; void set_value(T v) { v_ = v; } future<T> get_future() { return future<T>(v_); } };
class thread { public: thread() {} template <class F, class... A> explicit thread(F&& f, A&&... a) { f(std::forward<A>(a)...); } void join() {} void detach() {} bool joinable() const { return true; } };

// ------------------------------------------------------------ chrono
template <long N, long D = 1> struct ratio { static constexpr long num = N; static constexpr long den = D; };
typedef ratio<1, 1000000000> nano; typedef ratio<1, 1000000> micro; typedef ratio<1, 1000> milli; typedef ratio<1, 1> __one;
namespace chrono {
template <class Rep, class Period = ratio<1>> struct duration {
  typedef Rep rep; typedef Period period; Rep r;
  constexpr duration() : r() {} template <class R2, class = typename enable_if<is_arithmetic<R2>::value>::type> constexpr explicit duration(const R2& x) : r(x) {}
  template <class R2, class P2> constexpr duration(const duration<R2, P2>& d) : r(d.r * (Rep)((P2::num * Period::den) / (P2::den * Period::num))) {}
  constexpr duration(const duration&) = default; duration& operator=(const duration&) = default;
  constexpr Rep count() const { return r; } static constexpr duration zero() { return duration(0); }
  static constexpr duration max() { return duration(numeric_limits<Rep>::max()); } static constexpr duration min() { return duration(numeric_limits<Rep>::min()); }
  duration& operator+=(const duration& d) { r += d.r; return *this; } duration& operator-=(const duration& d) { r -= d.r; return *this; } duration& operator*=(const Rep& x) { r *= x; return *this; } duration& operator/=(const Rep& x) { r /= x; return *this; }
  duration operator-() const { return duration(-r); } duration operator+() const { return *this; } duration& operator%=(const duration& d) { r %= d.r; return *this; }
};
typedef duration<long, nano> nanoseconds; typedef duration<long, micro> microseconds; typedef duration<long, milli> milliseconds; typedef duration<long> seconds; typedef duration<long, ratio<60>> minutes; typedef duration<long, ratio<3600>> hours;
template <class A, class B> struct __cd { typedef typename conditional<(A::period::den >= B::period::den), A, B>::type type; };
template <class To, class R, class P> To duration_cast(const duration<R, P>& d) { typedef typename To::period Q; constexpr long n = P::num * Q::den, m = P::den * Q::num; if (n >= m) return To((typename To::rep)(d.r * (n / m))); return To((typename To::rep)(d.r / (m / n))); }
#define __V_DOP(op) template <class R, class P, class S, class Q> typename __cd<duration<R, P>, duration<S, Q>>::type operator op(const duration<R, P>& a, const duration<S, Q>& b) { typedef typename __cd<duration<R, P>, duration<S, Q>>::type C; return C(C(a).r op C(b).r); }
__V_DOP(+) __V_DOP(-) __V_DOP(%)
#define __V_DCMP(op) template <class R, class P, class S, class Q> bool operator op(const duration<R, P>& a, const duration<S, Q>& b) { typedef typename __cd<duration<R, P>, duration<S, Q>>::type C; return C(a).r op C(b).r; }
__V_DCMP(<) __V_DCMP(>) __V_DCMP(<=) __V_DCMP(>=) __V_DCMP(==) __V_DCMP(!=)
template <class R, class P, class S, class = typename enable_if<is_arithmetic<S>::value>::type> duration<R, P> operator/(const duration<R, P>& a, const S& s) { return duration<R, P>(a.r / s); }
template <class R, class P, class S, class = typename enable_if<is_arithmetic<S>::value>::type> duration<R, P> operator*(const duration<R, P>& a, const S& s) { return duration<R, P>(a.r * s); }
template <class R, class P, class S, class = typename enable_if<is_arithmetic<S>::value>::type> duration<R, P> operator*(const S& s, const duration<R, P>& a) { return duration<R, P>(a.r * s); }
template <class R, class P, class S, class Q> long operator/(const duration<R, P>& a, const duration<S, Q>& b) { typedef typename __cd<duration<R, P>, duration<S, Q>>::type C; return C(a).r / C(b).r; }
template <class C, class D> struct time_point { typedef C clock; typedef D duration; D d; constexpr time_point() : d(0) {} constexpr explicit time_point(const D& x) : d(x) {} D time_since_epoch() const { return d; } template <class E> time_point& operator+=(const E& x) { d += D(x); return *this; } template <class E> time_point& operator-=(const E& x) { d -= D(x); return *this; } };
template <class C, class D> D operator-(const time_point<C, D>& a, const time_point<C, D>& b) { return a.d - b.d; }
template <class C, class D, class R, class P> time_point<C, D> operator+(const time_point<C, D>& a, const duration<R, P>& b) { return time_point<C, D>(a.d + D(b)); } template <class C, class D, class R, class P> time_point<C, D> operator-(const time_point<C, D>& a, const duration<R, P>& b) { return time_point<C, D>(a.d - D(b)); }
#define __V_TCMP(op) template <class C, class D> bool operator op(const time_point<C, D>& a, const time_point<C, D>& b) { return a.d op b.d; }
__V_TCMP(<) __V_TCMP(>) __V_TCMP(<=) __V_TCMP(>=) __V_TCMP(==) __V_TCMP(!=)
struct steady_clock { typedef nanoseconds duration; typedef long rep; typedef nano period; typedef chrono::time_point<steady_clock, nanoseconds> time_point; static time_point now() { return time_point(nanoseconds(__v_now(0))); } static constexpr bool is_steady = true; };
struct system_clock { typedef nanoseconds duration; typedef long rep; typedef nano period; typedef chrono::time_point<system_clock, nanoseconds> time_point; static time_point now() { return time_point(nanoseconds(__v_now(1))); } static time_t to_time_t(const time_point& t) { return t.d.r / 1000000000; } static constexpr bool is_steady = false; };
typedef steady_clock high_resolution_clock;
}

// ------------------------------------------------------------ streams
class locale { public: long id_; locale(); explicit locale(const char*) : id_(-1) {} locale(const locale& l) : id_(l.id_) {} locale& operator=(const locale& l) { id_ = l.id_; return *this; } ~locale() {} static const locale& classic(); bool operator==(const locale& o) const { return id_ == o.id_; } };
inline locale::locale() : id_(__v_any_i64("global locale")) {}
struct __classic { long id; };
inline const locale& locale::classic() { static const __classic c = {0}; return *(const locale*)&c; }
class ios_base { public: typedef int fmtflags; typedef int iostate; typedef int openmode; static const int in = 1, out = 2, app = 4, ate = 8, binary = 16, trunc = 32; static const int goodbit = 0, badbit = 1, eofbit = 2, failbit = 4; static const int dec = 1, hex = 2, oct = 4, fixed = 8, scientific = 16, boolalpha = 32; };
class ostream : public ios_base {
 public:
  string s_; long prec_; locale loc_;
  ostream() : prec_(6), loc_() {} virtual ~ostream() {}
  locale getloc() const { return loc_; } locale imbue(const locale& l) { locale o = loc_; loc_ = l; return o; } streamsize precision() const { return prec_; } streamsize precision(streamsize p) { long o = prec_; prec_ = p; return o; }
  ostream& operator<<(const char* x) { s_.append(x); return *this; } ostream& operator<<(char c) { s_.push_back(c); return *this; } ostream& operator<<(const string& x) { s_.append(x); return *this; }
  ostream& operator<<(double x) { string t; __v_fmt_double(&t, x, prec_, loc_.id_); s_.append(t); return *this; }
  ostream& __int(long n) { string t; if (loc_.id_ == 0) __v_fmt_int(&t, n); else __v_fn_str(&t, "integer in a locale", n, loc_.id_); s_.append(t); return *this; }
  ostream& operator<<(int n) { return __int(n); } ostream& operator<<(unsigned n) { return __int(n); } ostream& operator<<(long n) { return __int(n); } ostream& operator<<(unsigned long n) { return __int(n); } ostream& operator<<(long long n) { return __int(n); } ostream& operator<<(unsigned long long n) { return __int(n); } ostream& operator<<(bool b) { return __int(b); }
  ostream& operator<<(ostream& (*f)(ostream&)) { return f(*this); }
  ostream& put(char c) { s_.push_back(c); return *this; } ostream& write(const char* p, streamsize n) { s_.append(p, n); return *this; } ostream& flush() { return *this; } bool good() const { return true; } explicit operator bool() const { return true; } bool operator!() const { return false; }
};
inline ostream& endl(ostream& o) { return o << '\n'; } inline ostream& flush(ostream& o) { return o; }
class ostringstream : public ostream { public: ostringstream() {} explicit ostringstream(int) {} explicit ostringstream(const string& s, int = 0) { s_ = s; } string str() const { return s_; } void str(const string& x) { s_ = x; } };
class stringstream : public ostream { public: stringstream() {} explicit stringstream(const string& s, int = 0) { s_ = s; } string str() const { return s_; } void str(const string& x) { s_ = x; } };
class istream : public ios_base {};
extern ostream cout, cerr, clog;
}  // namespace std
inline void* operator new(size_t, void* p) noexcept { return p; }
void* operator new(size_t); void operator delete(void*) noexcept;
namespace std { using ::tm; }
