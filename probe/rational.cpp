#include "common.hpp"

template <std::size_t P, typename PT, std::size_t... I>
void CommonR(R<P, PT>& a, const R<P, PT>& b, const B<P, PT>& poly,
             const B<P, double>& s, const PT& pt,
             const std::array<std::size_t, P>& o, const Point<P, double>& x,
             const R<P, double>& rs, std::index_sequence<I...>) {
  (void)(b * rs);
  (void)(rs * b);
  (void)(b * b);
  (void)(R<P, PT>{poly} + b);
  (void)(b - R<P, PT>{poly});
  B<P, PT> p1{o, std::vector<PT>{}};
  B<P, double> p2{o, std::vector<double>{}};
  (void)b.ControlPoint(((void)I, std::size_t{1})...);
  (void)b.ControlPoint(o);
  (void)b.WeightedControlPoint(((void)I, std::size_t{1})...);
  (void)b.WeightedControlPoint(o);
  a.WeightedControlPoint(((void)I, std::size_t{1})...) = pt;
  a.WeightedControlPoint(o) = pt;
  (void)b.Weight(((void)I, std::size_t{1})...);
  (void)b.Weight(o);
  a.Weight(((void)I, std::size_t{1})...) = 1.;
  a.Weight(o) = 1.;
  (void)b.GetDegrees();
  (void)b.GetNumberOfControlPoints();
  (void)b.GetWeightedControlPoints();
  (void)a.GetWeightedControlPoints();
  (void)b.GetWeights();
  (void)a.GetWeights();
  (void)b.GetWeightFunctionSpline();
  (void)b.GetNumeratorSpline();
  (void)b.LocalToGlobalIndex(0);
  (void)b.GlobalToLocalIndex(o);
  a.UpdateDegrees(o);
  (void)b.Evaluate(x);
  (void)b.Evaluate(x[I]...);
  (void)b.ForwardEvaluate(x);
  (void)b.ForwardEvaluate(x[I]...);
  (void)b.EvaluateDerivative(x, o);
  (void)b.BasisFunctions(x);
  (void)b.BasisFunctions(x[I]...);
  (void)b.UnweightedBasisFunctions(x);
  (void)b.UnweightedBasisFunctions(x[I]...);
  (void)b.BasisFunctionContributions(x);
  (void)b.BasisFunctionContributions(x[I]...);
  (void)b.BasisFunctionsDerivatives(x, o);
  a.OrderElevateAlongParametricDimension(0);
  (void)b.SplitAtPosition(.5, 0);
  (void)b.SplitAtPosition(std::vector<double>{}, 0);
  (void)b.DerivativeWRTParametricDimension(o);
  a *= 2.;
  (void)(b * 2.);
  (void)(2. * b);
  a += pt;
  (void)(b + pt);
  (void)(pt + b);
  a -= pt;
  (void)(b - pt);
  (void)(-b);
  (void)(b + b);
  (void)(b - b);
  a += b;
  a -= b;
  (void)b.ExtractDimension(0);
  (void)b.FitsIntoUnitCube();
  (void)b.MaximumCorner();
  (void)b.MinimumCorner();
  R<P, PT> c1{};
  R<P, PT> c2{o};
  R<P, PT> c3{o, std::vector<PT>{}, std::vector<double>{}};
  R<P, PT> c4{b};
  R<P, PT> c5{poly};
  R<P, PT> c6{poly, s};
  c1 = c2;
  c1 = R<P, PT>{o};
}

#define COMMONR(P, PT)                                                    \
  template void CommonR<P, PT>(R<P, PT>&, const R<P, PT>&, const B<P, PT>&, \
                               const B<P, double>&, const PT&,              \
                               const std::array<std::size_t, P>&,           \
                               const Point<P, double>&, const R<P, double>&, \
                               std::make_index_sequence<P>);
#define ALLDIM(P) COMMONR(P, double) COMMONR(P, PP<2>) COMMONR(P, PP<3>)
ALLDIM(1)
ALLDIM(2)
ALLDIM(3)
COMMONR(1, PP<1>)
COMMONR(2, PP<4>)

// the dimension is not named
std::vector<R<2, double>> SplitDefault(const R<2, double>& b, const double& x) {
  return b.SplitAtPosition(x);
}
std::vector<R<2, double>> SplitsDefault(const R<2, double>& b,
                                        const std::vector<double>& x) {
  return b.SplitAtPosition(x);
}

// copies, moves, assignments
template <typename T>
struct Copies {
  static T copied(const T& a) { return T(a); }
  static T moved(T& a) { return T(std::move(a)); }
  static void assigned(T& m, const T& a) { m = a; }
  static void moveassigned(T& m, T& a) { m = std::move(a); }
  static void itself(T& m) {
    T& r = m;
    m = r;
  }
  static T chained(T& m, const T& a) { return m = a; }
};
#define COPIES(P)                       \
  template struct Copies<R<P, double>>; \
  template struct Copies<R<P, PP<2>>>;  \
  template struct Copies<R<P, PP<3>>>;
COPIES(1)
COPIES(2)
COPIES(3)
template struct Copies<R<1, PP<1>>>;
template struct Copies<R<2, PP<4>>>;
