#pragma once
#include <iterator>
#include "../cuda_runtime.h"
namespace thrust {
template <class T> struct less { bool operator()(const T& a, const T& b) const { return a < b; } };
template <class T> struct greater { bool operator()(const T& a, const T& b) const { return a > b; } };
template <class T = void> struct plus { T operator()(const T& a, const T& b) const { return a + b; } };
template <class T = void> struct multiplies { T operator()(const T& a, const T& b) const { return a * b; } };
template <class T> struct maximum { T operator()(const T& a, const T& b) const { return a < b ? b : a; } };
template <class T> struct minimum { T operator()(const T& a, const T& b) const { return b < a ? b : a; } };

template <class T> struct device_reference {
  T* p;
  operator T() const { T v; if (cuemu::onDevice()) v = *p; else cuemu::hostRead(&v, p, sizeof v); return v; }
  device_reference& operator=(const T& v) { if (cuemu::onDevice()) *p = v; else cuemu::hostWrite(p, &v, sizeof v); return *this; }
  device_reference& operator=(const device_reference& o) { return *this = (T)o; }
};
template <class T> struct device_ptr {
  typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef device_reference<T> reference;
  T* p = nullptr;
  device_ptr() = default;
  explicit device_ptr(T* p) : p(p) {}
  T* get() const { return p; }
  device_reference<T> operator*() const { return {p}; }
  device_reference<T> operator[](std::ptrdiff_t i) const { return {p + i}; }
  device_ptr operator+(std::ptrdiff_t i) const { return device_ptr(p + i); }
  device_ptr operator-(std::ptrdiff_t i) const { return device_ptr(p - i); }
  std::ptrdiff_t operator-(const device_ptr& o) const { return p - o.p; }
  device_ptr& operator++() { ++p; return *this; }
  bool operator==(const device_ptr& o) const { return p == o.p; }
  bool operator!=(const device_ptr& o) const { return p != o.p; }
};
template <class T> device_ptr<T> device_pointer_cast(T* p) { return device_ptr<T>(p); }
template <class T> device_ptr<T> device_pointer_cast(device_ptr<T> p) { return p; }
template <class T> T* raw_pointer_cast(device_ptr<T> p) { return p.p; }
template <class T> T* raw_pointer_cast(T* p) { return p; }

template <class T> struct counting_iterator {
  typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef T reference;
  T v;
  explicit counting_iterator(T v = T()) : v(v) {}
  T operator*() const { return v; }
  T operator[](std::ptrdiff_t i) const { return v + (T)i; }
  counting_iterator operator+(std::ptrdiff_t i) const { return counting_iterator(v + (T)i); }
  std::ptrdiff_t operator-(const counting_iterator& o) const { return (std::ptrdiff_t)(v - o.v); }
};
template <class T> counting_iterator<T> make_counting_iterator(T v) { return counting_iterator<T>(v); }

// element i of an iterator, as device code sees it
template <class T> T& at(T* p, std::ptrdiff_t i) { return p[i]; }
template <class T> T& at(const device_ptr<T>& p, std::ptrdiff_t i) { return p.p[i]; }
template <class T> T at(const counting_iterator<T>& p, std::ptrdiff_t i) { return p.v + (T)i; }

template <class F, class It> struct transform_iterator {
  typedef decltype(std::declval<F>()(at(std::declval<It>(), 0))) reference;
  typedef std::decay_t<reference> value_type;
  typedef std::random_access_iterator_tag iterator_category; typedef std::ptrdiff_t difference_type; typedef value_type* pointer;
  It it; F f;
  transform_iterator(It it, F f) : it(it), f(f) {}
  reference operator*() const { return f(at(it, 0)); }
  transform_iterator operator+(std::ptrdiff_t i) const { return transform_iterator(it + i, f); }
  std::ptrdiff_t operator-(const transform_iterator& o) const { return it - o.it; }
};
template <class It, class F> transform_iterator<F, It> make_transform_iterator(It it, F f) { return transform_iterator<F, It>(it, f); }
template <class F, class It> typename transform_iterator<F, It>::reference at(const transform_iterator<F, It>& p, std::ptrdiff_t i) { return p.f(at(p.it, i)); }

template <class E, class I> struct permutation_iterator {
  typedef decltype(at(std::declval<E>(), 0)) reference; typedef std::decay_t<reference> value_type;
  typedef std::random_access_iterator_tag iterator_category; typedef std::ptrdiff_t difference_type; typedef value_type* pointer;
  E e; I i;
  permutation_iterator(E e, I i) : e(e), i(i) {}
  permutation_iterator operator+(std::ptrdiff_t n) const { return permutation_iterator(e, i + n); }
  std::ptrdiff_t operator-(const permutation_iterator& o) const { return i - o.i; }
};
template <class E, class I> permutation_iterator<E, I> make_permutation_iterator(E e, I i) { return permutation_iterator<E, I>(e, i); }
template <class E, class I> typename permutation_iterator<E, I>::reference at(const permutation_iterator<E, I>& p, std::ptrdiff_t n) { return at(p.e, (std::ptrdiff_t)at(p.i, n)); }

template <class It> using value_t = std::decay_t<decltype(at(std::declval<It>(), 0))>;

namespace cuda {
struct Policy { cudaStream_t st = nullptr; };
struct Par : Policy { Policy on(cudaStream_t s) const { return Policy{s}; } };
static const Par par{};
}  // namespace cuda
using cuda::Policy;

template <class A, class B> B copy_n(Policy p, A a, std::ptrdiff_t n, B out) {
  cuemu::serial(p.st, [=] { for (std::ptrdiff_t i = 0; i < n; i++) { cuemu::asThread(i); at(out, i) = at(a, i); } cuemu::asOne(); });
  return out + n;
}
template <class A, class B> B copy(Policy p, A a, A e, B out) { return copy_n(p, a, e - a, out); }
template <class A> void sequence(Policy p, A a, A e, value_t<A> init = 0) {
  std::ptrdiff_t n = e - a;
  cuemu::serial(p.st, [=] { for (std::ptrdiff_t i = 0; i < n; i++) { cuemu::asThread(i); at(a, i) = init + (value_t<A>)i; } cuemu::asOne(); });
}
template <class A, class T> void fill(Policy p, A a, A e, const T& v) {
  std::ptrdiff_t n = e - a;
  cuemu::serial(p.st, [=] { for (std::ptrdiff_t i = 0; i < n; i++) { cuemu::asThread(i); at(a, i) = v; } cuemu::asOne(); });
}
template <class A, class B, class F> B transform(Policy p, A a, A e, B out, F f) {
  std::ptrdiff_t n = e - a;
  cuemu::serial(p.st, [=] { for (std::ptrdiff_t i = 0; i < n; i++) { cuemu::asThread(i); at(out, i) = f(at(a, i)); } cuemu::asOne(); });
  return out + n;
}
template <class A, class F> A for_each_n(Policy p, A a, std::ptrdiff_t n, F f) {
  cuemu::serial(p.st, [=] { for (std::ptrdiff_t i = 0; i < n; i++) { cuemu::asThread(i); f(at(a, i)); } cuemu::asOne(); });
  return a + n;
}
template <class A, class F> void for_each(Policy p, A a, A e, F f) { for_each_n(p, a, e - a, f); }
template <class A, class B, class F> B inclusive_scan(Policy p, A a, A e, B out, F f) {
  std::ptrdiff_t n = e - a;
  cuemu::serial(p.st, [=] {
    if (n <= 0) return;
    value_t<A> s = at(a, 0);
    at(out, 0) = s;
    for (std::ptrdiff_t i = 1; i < n; i++) { s = f(s, at(a, i)); at(out, i) = s; }
  });
  return out + n;
}
template <class A, class B> B inclusive_scan(Policy p, A a, A e, B out) { return inclusive_scan(p, a, e, out, plus<value_t<A>>()); }
template <class K, class V, class C> void sortPairs(Policy p, K k, K e, V v, C less, bool stable) {
  std::ptrdiff_t n = e - k;
  cuemu::serial(p.st, [=] {
    typedef value_t<K> KT; typedef value_t<V> VT;
    if (n <= 0) return;
    KT* ks = (KT*)cuemu::scratch(n * sizeof(KT));
    VT* vs = (VT*)cuemu::scratch(n * sizeof(VT));
    for (std::ptrdiff_t i = 0; i < n; i++) { ks[i] = at(k, i); vs[i] = at(v, i); }
    bool down = !stable && cuemu::mode.tiesDown;
    // insertion into place: n is small
    for (std::ptrdiff_t i = 1; i < n; i++) {
      KT a = ks[i]; VT b = vs[i];
      std::ptrdiff_t j = i;
      while (j > 0 && (less(a, ks[j - 1]) || (down && !less(ks[j - 1], a)))) { ks[j] = ks[j - 1]; vs[j] = vs[j - 1]; j--; }
      ks[j] = a; vs[j] = b;
    }
    for (std::ptrdiff_t i = 0; i < n; i++) { at(k, i) = ks[i]; at(v, i) = vs[i]; }
  });
}
template <class K, class V, class C> void sort_by_key(Policy p, K k, K e, V v, C c) { sortPairs(p, k, e, v, c, false); }
template <class K, class V, class C> void stable_sort_by_key(Policy p, K k, K e, V v, C c) { sortPairs(p, k, e, v, c, true); }
template <class K, class V> void sort_by_key(Policy p, K k, K e, V v) { sortPairs(p, k, e, v, less<value_t<K>>(), false); }
// results for the host: the work before it in the stream is waited for
template <class T, class F> T resultOf(Policy p, F f) {
  T* r = nullptr;
  cudaMalloc((void**)&r, sizeof(T));
  cuemu::serial(p.st, [=] { *r = f(); });
  cudaStreamSynchronize(p.st);
  T v;
  cuemu::hostRead(&v, r, sizeof v);
  cudaFree(r);
  return v;
}
template <class A, class B, class T> T inner_product(Policy p, A a, A e, B b, T init) {
  std::ptrdiff_t n = e - a;
  return resultOf<T>(p, [=] { T s = init; for (std::ptrdiff_t i = 0; i < n; i++) s = s + at(a, i) * at(b, i); return s; });
}
template <class A, class T, class F> T reduce(Policy p, A a, A e, T init, F f) {
  std::ptrdiff_t n = e - a;
  return resultOf<T>(p, [=] { T s = init; for (std::ptrdiff_t i = 0; i < n; i++) s = f(s, at(a, i)); return s; });
}
template <class A, class T> T reduce(Policy p, A a, A e, T init) { return reduce(p, a, e, init, plus<T>()); }

template <class T> struct device_vector {
  T* p = nullptr; size_t n = 0;
  explicit device_vector(size_t n = 0) : n(n) { if (n) cudaMalloc((void**)&p, n * sizeof(T)); }
  device_vector(const device_vector&) = delete;
  ~device_vector() { if (p) cudaFree(p); }
  device_ptr<T> data() const { return device_ptr<T>(p); }
  device_ptr<T> begin() const { return device_ptr<T>(p); }
  device_ptr<T> end() const { return device_ptr<T>(p + n); }
  size_t size() const { return n; }
};
}  // namespace thrust
