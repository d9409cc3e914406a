#pragma once
#include "pybind11.h"

namespace pybind11 {

namespace detail {
struct shape_container {
  ssize_t n; ssize_t v[4];
  SYMX_INL shape_container(std::initializer_list<ssize_t> l) : n(0) {
    for (auto it = l.begin(); it != l.end(); ++it) v[n++] = *it;
  }
  template <class C, class = decltype(std::declval<C>().begin())>
  SYMX_INL shape_container(C const& c) : n(0) {
    for (auto it = c.begin(); it != c.end(); ++it) v[n++] = (ssize_t)*it;
  }
  template <class I, class = typename std::iterator_traits<I>::iterator_category>
  SYMX_INL shape_container(I b, I e) : n(0) {
    for (auto it = b; it != e; ++it) v[n++] = (ssize_t)*it;
  }
};
}  // namespace detail

template <class T, ssize_t Dims> struct unchecked_reference {
  SymxRep* r;
  template <class... I> SYMX_INL T const& operator()(I... i) const {
    return at_(ssize_t(i)...);
  }
  SYMX_INL T const& operator[](ssize_t i) const { return at_(i); }
  template <class... I> SYMX_INL T const* data(I... i) const { return &at_(ssize_t(i)...); }
  SYMX_INL ssize_t shape(ssize_t i) const { return r->shape[i]; }
  SYMX_INL ssize_t ndim() const { return r->ndim; }
  SYMX_INL ssize_t itemsize() const { return sizeof(T); }
  SYMX_INL ssize_t size() const {
    ssize_t s = 1;
    for (ssize_t i = 0; i < r->ndim; ++i) s *= r->shape[i];
    return s;
  }
  SYMX_INL ssize_t nbytes() const { return size() * itemsize(); }
  SYMX_INL T const& at_() const { return *(T const*)r->data; }
  SYMX_INL T const& at_(ssize_t i) const { return *(T const*)__symx_at(r, 1, i, 0, 0); }
  SYMX_INL T const& at_(ssize_t i, ssize_t j) const { return *(T const*)__symx_at(r, 2, i, j, 0); }
  SYMX_INL T const& at_(ssize_t i, ssize_t j, ssize_t k) const { return *(T const*)__symx_at(r, 3, i, j, k); }
};
template <class T, ssize_t Dims>
struct unchecked_mutable_reference : unchecked_reference<T, Dims> {
  typedef unchecked_reference<T, Dims> B;
  template <class... I> SYMX_INL T& operator()(I... i) const {
    return const_cast<T&>(B::at_(ssize_t(i)...));
  }
  SYMX_INL T& operator[](ssize_t i) const { return const_cast<T&>(B::at_(i)); }
  template <class... I> SYMX_INL T* mutable_data(I... i) const {
    return const_cast<T*>(&B::at_(ssize_t(i)...));
  }
};

struct buffer_info {
  void* ptr; ssize_t itemsize, size, ndim;
  std::vector<ssize_t> shape, strides;
};

class array : public object {
 public:
  enum { c_style = 1, f_style = 2, forcecast = 16 };
  using ShapeContainer = detail::shape_container;
  using StridesContainer = detail::shape_container;
  SYMX_INL array() {}
  SYMX_INL explicit array(SymxRep* p) : object(p) {}
  SYMX_INL ssize_t size() const {
    ssize_t s = 1;
    for (ssize_t i = 0; i < m_ptr->ndim; ++i) s *= m_ptr->shape[i];
    return s;
  }
  SYMX_INL ssize_t ndim() const { return m_ptr->ndim; }
  SYMX_INL ssize_t itemsize() const { return m_ptr->itemsize; }
  SYMX_INL ssize_t nbytes() const { return size() * itemsize(); }
  SYMX_INL ssize_t const* shape() const { return m_ptr->shape; }
  SYMX_INL ssize_t shape(ssize_t i) const { return m_ptr->shape[i]; }
  SYMX_INL ssize_t const* strides() const { return m_ptr->strides; }
  SYMX_INL ssize_t strides(ssize_t i) const { return m_ptr->strides[i]; }
  SYMX_INL array reshape(ShapeContainer c) const {
    return array(__symx_array_reshape(m_ptr, c.n, c.v));
  }
  SYMX_INL bool writeable() const { return true; }
};

template <class T, int Flags = array::forcecast> class array_t : public array {
 public:
  typedef T value_type;
  SYMX_INL array_t() {
    ssize_t z = 0;
    m_ptr = __symx_array_new(symx_kind<T>::v, sizeof(T), 1, &z);
  }
  SYMX_INL explicit array_t(SymxRep* p) : array(p) {}
  array_t(array_t const&) = default;
  array_t(array_t&&) = default;
  array_t& operator=(array_t const&) = default;
  array_t& operator=(array_t&&) = default;
  SYMX_INL array_t(ShapeContainer c)
      : array(__symx_array_new(symx_kind<T>::v, sizeof(T), c.n, c.v)) {}
  SYMX_INL explicit array_t(ssize_t n)
      : array(__symx_array_new(symx_kind<T>::v, sizeof(T), 1, &n)) {}
  SYMX_INL array_t(array const& o)
      : array(__symx_array_convert(o.m_ptr, Flags, symx_kind<T>::v)) {}
  template <int F2>
  SYMX_INL array_t(array_t<T, F2> const& o)
      : array(__symx_array_convert(o.m_ptr, Flags, symx_kind<T>::v)) {}
  SYMX_INL static array_t ensure(array const& o) { return array_t(o); }

  SYMX_INL T const* data() const { return (T const*)m_ptr->data; }
  SYMX_INL T* mutable_data() { return (T*)m_ptr->data; }
  template <class... I> SYMX_INL T const* data(I... i) const {
    unchecked_reference<T, sizeof...(I)> u; u.r = m_ptr; return &u(i...);
  }
  template <class... I> SYMX_INL T* mutable_data(I... i) {
    return const_cast<T*>(static_cast<array_t const*>(this)->data(i...));
  }
  template <class... I> SYMX_INL T const& at(I... i) const {
    check_(0, i...); return *data(i...);
  }
  template <class... I> SYMX_INL T& mutable_at(I... i) {
    check_(0, i...); return *mutable_data(i...);
  }
  template <ssize_t D = -1> SYMX_INL unchecked_reference<T, D> unchecked() const {
    if (D >= 0) __symx_check_ndim(m_ptr, D);
    unchecked_reference<T, D> u; u.r = m_ptr; return u;
  }
  template <ssize_t D = -1>
  SYMX_INL unchecked_mutable_reference<T, D> mutable_unchecked() {
    if (D >= 0) __symx_check_ndim(m_ptr, D);
    unchecked_mutable_reference<T, D> u; u.r = m_ptr; return u;
  }
  SYMX_INL array_t reshape(ShapeContainer c) const {
    return array_t(__symx_array_reshape(m_ptr, c.n, c.v));
  }
  SYMX_INL buffer_info request() const {
    buffer_info b;
    b.ptr = m_ptr->data; b.itemsize = sizeof(T); b.ndim = m_ptr->ndim;
    b.size = this->size();
    for (ssize_t i = 0; i < m_ptr->ndim; ++i) {
      b.shape.push_back(m_ptr->shape[i]);
      b.strides.push_back(m_ptr->strides[i]);
    }
    return b;
  }
 private:
  void check_(ssize_t) const {}
  template <class H, class... I> void check_(ssize_t d, H h, I... i) const {
    if ((ssize_t)h < 0 || (ssize_t)h >= m_ptr->shape[d]) __symx_throw_py(1);
    check_(d + 1, i...);
  }
};

namespace detail {
template <class T, int F> struct caster<array_t<T, F>> {
  static SYMX_INL array_t<T, F> load(int i) {
    return array_t<T, F>(__symx_arg_array(i, F, symx_kind<T>::v));
  }
};
template <> struct caster<array> {
  static SYMX_INL array load(int i) { return array(__symx_arg_array(i, 0, 0)); }
};
}  // namespace detail

}  // namespace pybind11
