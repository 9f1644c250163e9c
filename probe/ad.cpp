#include "common.hpp"
// One wrapper per operation on differentiation numbers (overloads are resolved
// by the front end, so the analysis does not depend on how they are declared).
using namespace bezman::utils::computational_differentiation;

#define INPLACE(name, op)                                                 \
  template <typename A, typename S>                                       \
  void name##_ia(A& m, const A& b, const S&) { m op b; }                  \
  template <typename A, typename S>                                       \
  void name##_is(A& m, const A&, const S& s) { m op s; }                  \
  template <typename A, typename S>                                       \
  void name##_self(A& m, const A&, const S&) { m op m; }
#define BIN(name, op)                                                     \
  template <typename A, typename S>                                       \
  A name##_aa(const A& a, const A& b, const S&) { return a op b; }        \
  template <typename A, typename S>                                       \
  A name##_as(const A& a, const A&, const S& s) { return a op s; }        \
  template <typename A, typename S>                                       \
  A name##_sa(const A& a, const A&, const S& s) { return s op a; }
BIN(add, +)
BIN(sub, -)
BIN(mul, *)
BIN(div, /)
INPLACE(add, +=)
INPLACE(sub, -=)
INPLACE(mul, *=)
INPLACE(div, /=)
#define CMP(name, op)                                                     \
  template <typename A, typename S>                                       \
  bool name##_aa(const A& a, const A& b, const S&) { return a op b; }     \
  template <typename A, typename S>                                       \
  bool name##_as(const A& a, const A&, const S& s) { return a op s; }     \
  template <typename A, typename S>                                       \
  bool name##_sa(const A& a, const A&, const S& s) { return s op a; }
CMP(lt, <)
CMP(le, <=)
CMP(gt, >)
CMP(ge, >=)
CMP(eq, ==)
CMP(ne, !=)
#define FUN(name, expr)                                                   \
  template <typename A, typename S>                                       \
  A name##_f(const A& a, const A& b, const S& s) {                        \
    (void)b;                                                              \
    (void)s;                                                              \
    return expr;                                                          \
  }
FUN(neg, -a)
FUN(exp, exp(a))
FUN(abs, abs(a))
FUN(pows, pow(a, s))
FUN(powa, pow(a, b))
FUN(sqrt, sqrt(a))
FUN(log, log(a))
FUN(log10, log10(a))
FUN(cos, cos(a))
FUN(sin, sin(a))
FUN(tan, tan(a))
FUN(acos, acos(a))
FUN(asin, asin(a))
FUN(atan, atan(a))
FUN(copy, A(a))

template <typename A, typename S>
void assign_v(A& m, const A& b, const S&) { m = b; }
template <typename A, typename S>
S value_v(const A& a, const A&, const S&) { return a.GetValue(); }
template <typename A, typename S>
auto derivs_v(const A& a, const A&, const S&) { return a.GetDerivatives(); }
template <typename A, typename S>
unsigned count_v(const A& a, const A&, const S&) { return a.GetNumberOfDerivatives(); }
template <typename A, typename S>
void activate_v(A& m, const std::size_t& i, const S&) { m.SetActiveComponent(i); }
template <typename A, typename S>
A default_v(const A&, const A&, const S&) { return A{}; }

template <typename A, typename S>
void Name() {
#define N3(x) \
  (void)&x##_aa<A, S>; (void)&x##_as<A, S>; (void)&x##_sa<A, S>;
#define NI(x) \
  (void)&x##_ia<A, S>; (void)&x##_is<A, S>; (void)&x##_self<A, S>;
#define NF(x) (void)&x##_f<A, S>;
#define NV(x) (void)&x##_v<A, S>;
  N3(add) N3(sub) N3(mul) N3(div) NI(add) NI(sub) NI(mul) NI(div)
  N3(lt) N3(le) N3(gt) N3(ge) N3(eq) N3(ne)
  NF(neg) NF(exp) NF(abs) NF(pows) NF(powa) NF(sqrt) NF(log) NF(log10) NF(cos)
  NF(sin) NF(tan) NF(acos) NF(asin) NF(atan) NF(copy)
  NV(assign) NV(value) NV(derivs) NV(count) NV(activate) NV(default)
}
using Dyn = AlgoDiffType<double>;
using Sta = AlgoDiffType<double, 3>;
using In = AlgoDiffType<double, 2>;
using Nes = AlgoDiffType<In, 2>;
using DNes = AlgoDiffType<In>;
template void Name<Dyn, double>();
template void Name<Sta, double>();
template void Name<Nes, In>();

// construction
template <typename S>
AlgoDiffType<S> make_dyn(const S& v, const std::size_t& n) { return AlgoDiffType<S>(v, n); }
template <typename S>
AlgoDiffType<S> make_dyn_active(const S& v, const std::size_t& n, const std::size_t& i) {
  return AlgoDiffType<S>(v, n, i);
}
template <typename S>
AlgoDiffType<S, 3> make_sta(const S& v) { return AlgoDiffType<S, 3>(v); }
template <typename S>
AlgoDiffType<S, 3> make_sta_active(const S& v, const std::size_t& i) {
  return AlgoDiffType<S, 3>(v, i);
}
template <typename S>
void assign_sta(AlgoDiffType<S, 3>& m, const S& v) { m = v; }
template Dyn make_dyn<double>(const double&, const std::size_t&);
template Dyn make_dyn_active<double>(const double&, const std::size_t&, const std::size_t&);
template Sta make_sta<double>(const double&);
template Sta make_sta_active<double>(const double&, const std::size_t&);
template void assign_sta<double>(Sta&, const double&);
template DNes make_dyn<In>(const In&, const std::size_t&);
template DNes make_dyn_active<In>(const In&, const std::size_t&, const std::size_t&);
template AlgoDiffType<In, 3> make_sta<In>(const In&);
template AlgoDiffType<In, 3> make_sta_active<In>(const In&, const std::size_t&);
template void assign_sta<In>(AlgoDiffType<In, 3>&, const In&);
