// Stand-in for pybind11 that records a module definition and makes its methods callable.
#pragma once
#include "../vp_pyrec.h"
#include <array>
#include <tuple>
#include <type_traits>
#include <utility>
namespace pybind11 {
using vp_py::Value;
namespace detail {
template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template <class T, class = void> struct conv;
template <> struct conv<bool> {
  static Value to(bool x) { Value v; v.k = Value::boolean; v.b = x; return v; }
  static bool from(const Value& v) { if (v.k == Value::boolean) return v.b; throw vp_py::TypeError("bool"); }
};
template <class T> struct conv<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  static Value to(T x) { Value v; v.k = Value::integer; v.i = x; return v; }
  static T from(const Value& v) { if (v.k == Value::integer) return (T)v.i; if (v.k == Value::boolean) return v.b; throw vp_py::TypeError("int"); }
};
template <class T> struct conv<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static Value to(T x) { Value v; v.k = Value::real; v.d = x; return v; }
  static T from(const Value& v) { if (v.k == Value::real) return v.d; if (v.k == Value::integer) return v.i; if (v.k == Value::boolean) return v.b; throw vp_py::TypeError("float"); }
};
template <class T> struct conv<T, std::enable_if_t<std::is_convertible_v<T, std::string> && !std::is_arithmetic_v<T>>> {
  static Value to(const T& x) { Value v; v.k = Value::text; v.s = x; return v; }
  static std::string from(const Value& v) { if (v.k == Value::text) return v.s; throw vp_py::TypeError("str"); }
};
template <class T> struct conv<T, std::void_t<typename T::PlainMatrix, typename T::Scalar>> {
  using P = typename T::PlainMatrix;
  static Value to(const T& x) { Value v; v.k = Value::array; v.m = x; return v; }
  static P from(const Value& v) {
    if (v.k != Value::array) throw vp_py::TypeError("array");
    if (P::ColsAtCompileTime == 1 && v.m.cols() != 1) throw vp_py::TypeError("shape");
    return v.m;
  }
};
template <class T> struct conv<std::vector<T>> {
  static Value to(const std::vector<T>& x) { Value v; v.k = Value::array; v.m.resize(x.size(), 1); for (std::size_t i = 0; i < x.size(); i++) v.m(i) = x[i]; return v; }
  static std::vector<T> from(const Value& v) { if (v.k != Value::array || v.m.cols() != 1) throw vp_py::TypeError("list"); std::vector<T> r; for (long i = 0; i < v.m.size(); i++) r.push_back((T)v.m(i)); return r; }
};
template <class R, class F, class... A, std::size_t... I> Value apply(F&& f, const std::vector<Value>& a, std::tuple<A...>*, std::index_sequence<I...>) {
  if constexpr (std::is_void_v<R>) { f(conv<bare<A>>::from(a[I])...); return Value(); }
  else return conv<bare<R>>::to(f(conv<bare<A>>::from(a[I])...));
}
template <class F> struct sig : sig<decltype(&F::operator())> {};
template <class C, class R, class... A> struct sig<R (C::*)(A...) const> { using Ret = R; using Args = std::tuple<A...>; };
template <class C, class R, class... A> struct sig<R (C::*)(A...)> { using Ret = R; using Args = std::tuple<A...>; };
template <class R, class... A> struct sig<R (*)(A...)> { using Ret = R; using Args = std::tuple<A...>; };
template <class T> struct tail;
template <class H, class... A> struct tail<std::tuple<H, A...>> { using type = std::tuple<A...>; };
}  // namespace detail
struct arg_v { std::string name; Value v; };
struct arg {
  const char* name;
  explicit constexpr arg(const char* n) : name(n) {}
  template <class T> arg_v operator=(T&& x) const { return {name, detail::conv<detail::bare<std::decay_t<T>>>::to(std::forward<T>(x))}; }
  arg& noconvert(bool = true) { return *this; }
};
inline namespace literals { constexpr arg operator"" _a(const char* n, std::size_t) { return arg(n); } }
template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return {}; }
template <class... A> struct call_guard {};
struct gil_scoped_release {};
enum class return_value_policy { automatic, copy, reference, reference_internal, move, take_ownership };
template <class... A> struct keep_alive {};
struct any_ref { template <class T> any_ref& operator=(T&&) { return *this; } };
struct module_ {
  std::shared_ptr<vp_py::Module> rec;
  any_ref doc() { return {}; }
  any_ref attr(const char*) { return {}; }
  template <class... X> module_& def(X&&...) { return *this; }
};
using module = module_;
namespace detail {
inline void extra(vp_py::Method& m, std::size_t& n, const arg& a) { if (n < m.params.size()) { m.params[n].name = a.name; m.params[n].named = true; } n++; }
inline void extra(vp_py::Method& m, std::size_t& n, const arg_v& a) { if (n < m.params.size()) { m.params[n].name = a.name; m.params[n].named = m.params[n].hasdef = true; m.params[n].def = a.v; } n++; }
template <class X> void extra(vp_py::Method&, std::size_t&, const X&) {}
template <class X> constexpr int is_arg = std::is_same_v<bare<X>, arg> || std::is_same_v<bare<X>, arg_v> ? 1 : 0;
}  // namespace detail
template <class T, class... Opt> struct class_ {
  std::shared_ptr<vp_py::Class> rec = std::make_shared<vp_py::Class>();
  template <class M, class... X> class_(M& m, const char* name, X&&...) {
    rec->name = name;
    m.rec->classes.push_back(rec);
  }
  template <class... A, class... X> class_& def(init_t<A...>, const X&...) {
    if constexpr (sizeof...(A) == 0) { rec->init0 = true; rec->make = [] { return std::shared_ptr<void>(std::make_shared<T>()); }; }
    return *this;
  }
  template <class R, class C, class... A, class... X> class_& def(const char* name, R (C::*f)(A...), const X&... x) {
    return add<std::tuple<A...>>(name, [f](void* o, const std::vector<Value>& a) {
      return detail::apply<R>([&](auto&&... y) -> R { return (static_cast<T*>(o)->*f)(y...); }, a, (std::tuple<A...>*)nullptr, std::index_sequence_for<A...>()); }, x...);
  }
  template <class R, class C, class... A, class... X> class_& def(const char* name, R (C::*f)(A...) const, const X&... x) {
    return add<std::tuple<A...>>(name, [f](void* o, const std::vector<Value>& a) {
      return detail::apply<R>([&](auto&&... y) -> R { return (static_cast<T*>(o)->*f)(y...); }, a, (std::tuple<A...>*)nullptr, std::index_sequence_for<A...>()); }, x...);
  }
  template <class F, class... X, class S = detail::sig<F>> class_& def(const char* name, F f, const X&... x) {
    using A = typename detail::tail<typename S::Args>::type;
    return fun<typename S::Ret>(name, f, (A*)nullptr, x...);
  }
  template <class... X> class_& def_readonly(X&&...) { return *this; }
  template <class... X> class_& def_readwrite(X&&...) { return *this; }
  template <class... X> class_& def_property(X&&...) { return *this; }
  template <class... X> class_& def_property_readonly(X&&...) { return *this; }
  template <class... X> class_& def_static(X&&...) { return *this; }

 private:
  template <class R, class F, class... A, class... X> class_& fun(const char* name, F f, std::tuple<A...>*, const X&... x) {
    return add<std::tuple<A...>>(name, [f](void* o, const std::vector<Value>& a) {
      return detail::apply<R>([&](auto&&... y) -> R { return f(*static_cast<T*>(o), y...); }, a, (std::tuple<A...>*)nullptr, std::index_sequence_for<A...>()); }, x...);
  }
  template <class A, class L, class... X> class_& add(const char* name, L call, const X&... x) {
    constexpr int n = (0 + ... + detail::is_arg<X>);
    static_assert(n == 0 || n == (int)std::tuple_size_v<A>, "the number of argument annotations does not match the number of function arguments");
    vp_py::Method m;
    m.name = name;
    m.params.resize(std::tuple_size_v<A>);
    std::size_t k = 0;
    (detail::extra(m, k, x), ...);
    m.call = call;
    rec->methods.push_back(m);
    return *this;
  }
};
}  // namespace pybind11
#define PYBIND11_MODULE(NAME_, VAR_, ...)                                                  \
  static void pybind11_init_##NAME_(::pybind11::module_&);                                 \
  extern "C" __attribute__((visibility("default"))) void* PyInit_##NAME_() {               \
    static ::pybind11::module_ m{std::make_shared<vp_py::Module>()};                       \
    if (m.rec->name.empty()) { m.rec->name = #NAME_; pybind11_init_##NAME_(m); }           \
    return m.rec.get();                                                                    \
  }                                                                                        \
  void pybind11_init_##NAME_(::pybind11::module_& VAR_)
