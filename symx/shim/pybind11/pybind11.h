// Stand-in for the pybind11 headers, used only to lower /repo/ext/_hmmc.cpp
// to LLVM IR for symbolic execution.  It keeps pybind11's types and
// signatures but routes every interaction with Python/numpy to __symx_*
// externals, which the IR interpreter models.
#pragma once
#include <Python.h>   // a stub of our own: Py_ssize_t only
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define SYMX_INL __attribute__((always_inline)) inline

struct SymxRep {            // one numpy array, as the interpreter lays it out
  char* data;
  Py_ssize_t ndim;
  Py_ssize_t shape[4];
  Py_ssize_t strides[4];    // bytes
  Py_ssize_t itemsize;
};

extern "C" {
  void __symx_gil(int held);
  void __symx_pyapi(SymxRep*);                       // refcount traffic etc.
  SymxRep* __symx_array_new(int kind, Py_ssize_t itemsize,
                            Py_ssize_t ndim, Py_ssize_t const* shape);
  SymxRep* __symx_array_convert(SymxRep*, int flags, int kind);
  SymxRep* __symx_array_reshape(SymxRep*, Py_ssize_t ndim,
                                Py_ssize_t const* shape);
  char* __symx_at(SymxRep*, Py_ssize_t n, Py_ssize_t i, Py_ssize_t j,
                  Py_ssize_t k);
  void __symx_check_ndim(SymxRep*, Py_ssize_t n);
  SymxRep* __symx_arg_array(int idx, int flags, int kind);
  double __symx_arg_double(int idx);
  Py_ssize_t __symx_arg_int(int idx);
  void __symx_out_double(double);
  void __symx_out_int(Py_ssize_t);
  void __symx_out_array(SymxRep*);
  void __symx_out_none();
  void __symx_register(char const* name, void (*wrapper)(void*), void* fn);
  void __symx_throw_py(int kind);
}

namespace pybind11 {

using ssize_t = Py_ssize_t;
using size_t = std::size_t;

template <class T> struct symx_kind;
template <> struct symx_kind<double> { static const int v = 0; };
template <> struct symx_kind<float> { static const int v = 4; };
template <> struct symx_kind<long> { static const int v = 1; };
template <> struct symx_kind<long long> { static const int v = 1; };
template <> struct symx_kind<int> { static const int v = 2; };
template <> struct symx_kind<bool> { static const int v = 3; };

struct handle {
  SymxRep* m_ptr;
  SYMX_INL handle() : m_ptr(nullptr) {}
  SYMX_INL handle(SymxRep* p) : m_ptr(p) {}
  SYMX_INL SymxRep* ptr() const { return m_ptr; }
  SYMX_INL explicit operator bool() const { return m_ptr != nullptr; }
};

struct object : handle {
  SYMX_INL object() {}
  SYMX_INL explicit object(SymxRep* p) : handle(p) {}
  SYMX_INL object(object const& o) : handle(o.m_ptr) {
    if (m_ptr) __symx_pyapi(m_ptr);
  }
  SYMX_INL object(object&& o) noexcept : handle(o.m_ptr) { o.m_ptr = nullptr; }
  SYMX_INL object& operator=(object const& o) {
    if (m_ptr) __symx_pyapi(m_ptr);
    m_ptr = o.m_ptr;
    if (m_ptr) __symx_pyapi(m_ptr);
    return *this;
  }
  SYMX_INL object& operator=(object&& o) noexcept {
    if (m_ptr && m_ptr != o.m_ptr) __symx_pyapi(m_ptr);
    m_ptr = o.m_ptr; o.m_ptr = nullptr;
    return *this;
  }
  SYMX_INL ~object() { if (m_ptr) __symx_pyapi(m_ptr); }
};

struct gil_scoped_release {
  SYMX_INL gil_scoped_release() { __symx_gil(0); }
  SYMX_INL explicit gil_scoped_release(bool) { __symx_gil(0); }
  gil_scoped_release(gil_scoped_release const&) = delete;
  SYMX_INL ~gil_scoped_release() { __symx_gil(1); }
};
struct gil_scoped_acquire {
  SYMX_INL gil_scoped_acquire() { __symx_gil(1); }
  gil_scoped_acquire(gil_scoped_acquire const&) = delete;
  SYMX_INL ~gil_scoped_acquire() { __symx_gil(0); }
};

struct builtin_exception : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct value_error : std::runtime_error {
  using std::runtime_error::runtime_error;
  value_error() : std::runtime_error("") {}
};
struct index_error : std::runtime_error {
  using std::runtime_error::runtime_error;
  index_error() : std::runtime_error("") {}
};
struct type_error : std::runtime_error {
  using std::runtime_error::runtime_error;
  type_error() : std::runtime_error("") {}
};

struct arg {
  char const* name;
  constexpr explicit arg(char const* n) : name(n) {}
  arg& noconvert(bool = true) { return *this; }
};
template <class... T> struct call_guard {};

namespace detail {
template <class T> struct caster;
SYMX_INL void emit(double d) { __symx_out_double(d); }
SYMX_INL void emit(float d) { __symx_out_double(d); }
SYMX_INL void emit(long i) { __symx_out_int(i); }
SYMX_INL void emit(int i) { __symx_out_int(i); }
SYMX_INL void emit(bool i) { __symx_out_int(i); }
SYMX_INL void emit(object const& o) { __symx_out_array(o.m_ptr); }
template <class Tup, std::size_t I, std::size_t N> struct emit_tuple {
  static SYMX_INL void go(Tup const& t) {
    emit(std::get<I>(t));
    emit_tuple<Tup, I + 1, N>::go(t);
  }
};
template <class Tup, std::size_t N> struct emit_tuple<Tup, N, N> {
  static SYMX_INL void go(Tup const&) {}
};
template <class... T> SYMX_INL void emit(std::tuple<T...> const& t) {
  emit_tuple<std::tuple<T...>, 0, sizeof...(T)>::go(t);
}
template <class A, class B> SYMX_INL void emit(std::pair<A, B> const& t) {
  emit(t.first); emit(t.second);
}
template <> struct caster<double> {
  static SYMX_INL double load(int i) { return __symx_arg_double(i); }
};
template <> struct caster<long> {
  static SYMX_INL long load(int i) { return __symx_arg_int(i); }
};
template <> struct caster<int> {
  static SYMX_INL int load(int i) { return (int)__symx_arg_int(i); }
};
template <> struct caster<bool> {
  static SYMX_INL bool load(int i) { return __symx_arg_int(i) != 0; }
};

template <std::size_t...> struct iseq {};
template <std::size_t N, std::size_t... S> struct mkseq : mkseq<N - 1, N - 1, S...> {};
template <std::size_t... S> struct mkseq<0, S...> { typedef iseq<S...> type; };
template <class T> struct bare {
  typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type;
};

template <class R, class F, class... A> struct invoke {
  template <std::size_t... S> static void go(F f, iseq<S...>) {
    emit(f(caster<typename bare<A>::type>::load((int)S)...));
  }
};
template <class F, class... A> struct invoke<void, F, A...> {
  template <std::size_t... S> static void go(F f, iseq<S...>) {
    f(caster<typename bare<A>::type>::load((int)S)...);
    __symx_out_none();
  }
};
template <class R, class... A> void wrap_fn(void* p) {
  typedef R (*F)(A...);
  invoke<R, F, A...>::go(reinterpret_cast<F>(p), typename mkseq<sizeof...(A)>::type{});
}
template <class L, class R, class... A> void wrap_lambda(void*) {
  // captureless lambdas only
  typedef R (*F)(A...);
  invoke<R, F, A...>::go(static_cast<F>(*reinterpret_cast<L*>(&L::operator())), typename mkseq<sizeof...(A)>::type{});
}
}  // namespace detail

struct module_ {
  template <class R, class... A, class... X>
  module_& def(char const* name, R (*f)(A...), X const&...) {
    __symx_register(name, &detail::wrap_fn<R, A...>, reinterpret_cast<void*>(f));
    return *this;
  }
  template <class L, class R, class... A>
  void def_l(char const* name, L l, R (L::*)(A...) const) {
    R (*f)(A...) = l;
    def(name, f);
  }
  template <class L, class... X>
  typename std::enable_if<std::is_class<L>::value, module_&>::type
  def(char const* name, L l, X const&...) {
    def_l(name, l, &L::operator());
    return *this;
  }
  char const* m_doc;
  char const*& doc() { return m_doc; }
};
using module = module_;

}  // namespace pybind11

#define PYBIND11_MODULE(name, var)                        \
  extern "C" void __symx_module_init(pybind11::module_& var)
