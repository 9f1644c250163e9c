#include "common.hpp"

template <std::size_t P, typename PT, std::size_t... I>
void Common(B<P, PT>& a, const B<P, PT>& b, const B<P, double>& s,
            const PT& pt, const std::array<std::size_t, P>& o,
            const Point<P, double>& x, std::index_sequence<I...>) {
  (void)b.ControlPoint(((void)I, std::size_t{1})...);
  a.ControlPoint(((void)I, std::size_t{1})...) = pt;
  (void)b.ControlPoint(o);
  a.ControlPoint(o) = pt;
  (void)b.GetNumberOfControlPoints();
  (void)b.LocalToGlobalIndex(0);
  (void)b.GlobalToLocalIndex(o);
  (void)b.GetDegrees();
  (void)a.GetDegrees();
  (void)b.GetControlPoints();
  (void)a.GetControlPoints();
  a.UpdateDegrees(o);
  a.OrderElevateAlongParametricDimension(0);
  (void)b.DerivativeWRTParametricDimension(o);
  (void)b.Evaluate(x);
  (void)b.Evaluate(x[I]...);
  (void)b.ForwardEvaluate(x);
  (void)b.ForwardEvaluate(x[I]...);
  (void)b.EvaluateDerivative(x, o);
  (void)b.BasisFunctions(x);
  (void)b.BasisFunctions(x[I]...);
  (void)b.BasisFunctionsDerivatives(x, o);
  (void)b.BasisFunctionContributions(x);
  (void)b.BasisFunctionContributions(x[I]...);
  (void)b.BasisFunctionsDerivativeContributions(x, o);
  (void)(b + b);
  (void)(b - b);
  a += b;
  a -= b;
  (void)(a == b);
  (void)(s * b);
  (void)b.ExtractDimension(0);
  (void)b.RaisePower(3);
  a *= 2.;
  (void)(b * 2.);
  (void)(2. * b);
  (void)b.FitsIntoUnitCube();
  a += pt;
  (void)(b + pt);
  (void)(pt + b);
  a -= pt;
  (void)(b - pt);
  (void)(pt - b);
  (void)(-b);
  (void)b.MaximumCorner();
  (void)b.MinimumCorner();
  a.TransposeAndScale(pt, pt);
  a.FitIntoUnitCube();
  (void)b.SplitAtPosition(.5, 0);
  (void)b.SplitAtPosition(std::vector<double>{}, 0);
  B<P, PT> c1{};
  B<P, PT> c2{o};
  B<P, PT> c3{o, std::vector<PT>{}};
  B<P, PT> c4{b};
  c1 = c2;
  c1 = B<P, PT>{o};
}

#define COMMON(P, PT)                                                         \
  template void Common<P, PT>(B<P, PT>&, const B<P, PT>&, const B<P, double>&, \
                              const PT&, const std::array<std::size_t, P>&,   \
                              const Point<P, double>&,                        \
                              std::make_index_sequence<P>);
#define ALLDIM(P) COMMON(P, double) COMMON(P, PP<2>) COMMON(P, PP<3>)
ALLDIM(1)
ALLDIM(2)
ALLDIM(3)
COMMON(1, PP<1>)
COMMON(2, PP<4>)

// the dimension is not named
std::vector<B<2, double>> SplitDefault(const B<2, double>& b, const double& x) {
  return b.SplitAtPosition(x);
}
std::vector<B<2, double>> SplitsDefault(const B<2, double>& b,
                                        const std::vector<double>& x) {
  return b.SplitAtPosition(x);
}

// copies, moves, assignments
template <typename T>
struct Copies {
  static T copied(const T& a) { return T(a); }
  static T moved(T& a) { return T(std::move(a)); }
  static void assigned(T& m, const T& a) { m = a; }
  static void moveassigned(T& m, T& a) { m = std::move(a); }
  static void itself(T& m) {
    T& r = m;
    m = r;
  }
  static T chained(T& m, const T& a) { return m = a; }
  static bool equal(const T& a, const T& b) { return a == b; }
};
#define COPIES(P)                       \
  template struct Copies<B<P, double>>; \
  template struct Copies<B<P, PP<2>>>;  \
  template struct Copies<B<P, PP<3>>>;
COPIES(1)
COPIES(2)
COPIES(3)
template struct Copies<B<1, PP<1>>>;
template struct Copies<B<2, PP<4>>>;
