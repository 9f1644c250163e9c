#include "common.hpp"
using namespace bezman::utils;
using namespace bezman::utils::computational_differentiation;

template <typename A, typename S>
void Ad(A& m, const A& a, const A& b, const S& s) {
  (void)(a + b);
  (void)(a - b);
  (void)(a * b);
  (void)(a / b);
  (void)(a + s);
  (void)(a - s);
  (void)(a * s);
  (void)(a / s);
  (void)(s + a);
  (void)(s - a);
  (void)(s * a);
  (void)(s / a);
  (void)(-a);
  m += a;
  m -= a;
  m *= a;
  m /= a;
  m += s;
  m -= s;
  m *= s;
  m /= s;
  (void)exp(a);
  (void)abs(a);
  (void)pow(a, s);
  (void)pow(a, b);
  (void)sqrt(a);
  (void)log(a);
  (void)log10(a);
  (void)cos(a);
  (void)sin(a);
  (void)tan(a);
  (void)acos(a);
  (void)asin(a);
  (void)atan(a);
  (void)(a < b);
  (void)(a <= b);
  (void)(a > b);
  (void)(a >= b);
  (void)(a == b);
  (void)(a != b);
  (void)(a < s);
  (void)(a <= s);
  (void)(a > s);
  (void)(a >= s);
  (void)(a == s);
  (void)(a != s);
  (void)(s < a);
  (void)(s <= a);
  (void)(s > a);
  (void)(s >= a);
  (void)(s == a);
  (void)(s != a);
  (void)a.GetValue();
  (void)a.GetDerivatives();
  (void)a.GetNumberOfDerivatives();
  m.SetActiveComponent(0);
  std::cout << a;
  A c(a);
  A d{};
  m = a;
  m = A(a);
}
using Dyn = AlgoDiffType<double>;
using Sta = AlgoDiffType<double, 3>;
using Nes = AlgoDiffType<AlgoDiffType<double, 2>, 2>;
template void Ad<Dyn, double>(Dyn&, const Dyn&, const Dyn&, const double&);
template void Ad<Sta, double>(Sta&, const Sta&, const Sta&, const double&);
template void Ad<Nes, AlgoDiffType<double, 2>>(Nes&, const Nes&, const Nes&,
                                               const AlgoDiffType<double, 2>&);
void AdCtor() {
  Dyn a(1., 4);
  Dyn b(1., 4, 2);
  Sta c(1.);
  Sta d(1., 2);
  d = 2.;
}

template <std::size_t D>
void Pt(PP<D>& m, const PP<D>& a, const PP<D>& b, const double& s) {
  (void)(a + b);
  (void)(a - b);
  (void)(-a);
  (void)(a * s);
  (void)(s * a);
  (void)(a / s);
  (void)(s / a);
  (void)(a * b);
  m += a;
  m -= a;
  m *= s;
  m /= s;
  (void)a.SquaredEuclidianNorm();
  (void)a.EuclidianNorm();
  (void)a.toString();
  std::cout << a;
}
template void Pt<1>(PP<1>&, const PP<1>&, const PP<1>&, const double&);
template void Pt<2>(PP<2>&, const PP<2>&, const PP<2>&, const double&);
template void Pt<3>(PP<3>&, const PP<3>&, const PP<3>&, const double&);

template <typename T>
void Enc(const std::vector<T>& v, const std::string& s) {
  (void)Base64::Encode(v);
  (void)Base64::Decode<T>(s);
}
template void Enc<double>(const std::vector<double>&, const std::string&);
template void Enc<float>(const std::vector<float>&, const std::string&);
template void Enc<unsigned char>(const std::vector<unsigned char>&, const std::string&);
template void Enc<short>(const std::vector<short>&, const std::string&);
template void Enc<int>(const std::vector<int>&, const std::string&);
template void Enc<PP<3>>(const std::vector<PP<3>>&, const std::string&);

template <typename T>
void Alg(const std::vector<T>& v, const T& b) {
  (void)algorithms::IndexListSort(v);
}
template void Alg<double>(const std::vector<double>&, const double&);
template void Alg<int>(const std::vector<int>&, const int&);
template <typename T>
void Ip(const T& a, const T& b) {
  (void)algorithms::IntPower(a, b);
}
template void Ip<int>(const int&, const int&);
template void Ip<unsigned long>(const unsigned long&, const unsigned long&);
template void Ip<long>(const long&, const long&);

void Log(const std::string& s) {
  Logger::SetOutputLevel(511u);
  Logger::SetOutputLevel({Logger::OutputLevel::all, Logger::OutputLevel::errors});
  Logger::Warning(s);
  Logger::Error(s);
  Logger::UserInfo(s);
  Logger::Logging(s);
  Logger::ExtendedInformation(s);
  Logger::TerminatingError(s);
  Logger::TerminatingError<std::logic_error>(s);
}
std::size_t Cho(unsigned n, unsigned i) {
  return FastBinomialCoefficient::choose(n, i);
}
// splines over differentiation numbers
template <typename A>
void AdSpline(const BezierSpline<2, Point<2, A>, A>& s, const A& x,
              const Point<2, A>& p) {
  (void)s.Evaluate(p);
  (void)s.ForwardEvaluate(p);
  (void)s.BasisFunctions(p);
  (void)(s + s);
  (void)(s - s);
  (void)(-s);
  (void)(s * x);
}
template void AdSpline<Sta>(const BezierSpline<2, Point<2, Sta>, Sta>&, const Sta&,
                            const Point<2, Sta>&);
