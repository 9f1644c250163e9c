#include "common.hpp"
using namespace bezman::utils::computational_differentiation;
using Sta = AlgoDiffType<double, 2>;

template <typename Pt, typename S>
struct Ops {
  static Pt add(const Pt& a, const Pt& b) { return a + b; }
  static Pt sub(const Pt& a, const Pt& b) { return a - b; }
  static Pt neg(const Pt& a) { return -a; }
  static Pt mulr(const Pt& a, const S& s) { return a * s; }
  static Pt mull(const S& s, const Pt& a) { return s * a; }
  static Pt div(const Pt& a, const S& s) { return a / s; }
  static void addeq(Pt& m, const Pt& b) { m += b; }
  static void subeq(Pt& m, const Pt& b) { m -= b; }
  static void muleq(Pt& m, const S& s) { m *= s; }
  static void diveq(Pt& m, const S& s) { m /= s; }
  static S dot(const Pt& a, const Pt& b) { return a * b; }
  static S sqn(const Pt& a) { return a.SquaredEuclidianNorm(); }
  static Pt chain(const Pt& a, const Pt& b, const S& s) {
    Pt r{a};
    ((r += b) *= s) -= a;
    return r;
  }
};
template <typename Pt>
struct OpsD : Ops<Pt, double> {
  static Pt over(const double& s, const Pt& a) { return s / a; }
  static double nrm(const Pt& a) { return a.EuclidianNorm(); }
};
template struct OpsD<PP<1>>;
template struct OpsD<PP<2>>;
template struct OpsD<PP<3>>;
template struct OpsD<PP<4>>;
template struct OpsD<PP<7>>;
template struct Ops<PP<1>, double>;
template struct Ops<PP<2>, double>;
template struct Ops<PP<3>, double>;
template struct Ops<PP<4>, double>;
template struct Ops<PP<7>, double>;
template struct Ops<Point<2, Sta>, Sta>;

PP<1> make1(const double& a) { return PP<1>{a}; }
PP<2> make2(const double& a, const double& b) { return PP<2>{a, b}; }
PP<3> make3(const double& a, const double& b, const double& c) {
  return PP<3>{a, b, c};
}
double mixdot(const Point<3, float>& a, const PP<3>& b) { return a * b; }

template <typename T>
struct Sorts {
  static std::vector<std::size_t> sorted(const std::vector<T>& v) {
    return utils::algorithms::IndexListSort(v);
  }
};
template struct Sorts<double>;
template struct Sorts<int>;
template <typename T>
struct Powers {
  static T ipow(const T& b, const T& p) { return utils::algorithms::IntPower(b, p); }
};
template struct Powers<int>;
template struct Powers<unsigned>;
template struct Powers<long>;
template struct Powers<unsigned long>;

// copies, moves, assignments
template <typename T>
struct Copies {
  static T copied(const T& a) { return T(a); }
  static T moved(T& a) { return T(std::move(a)); }
  static void assigned(T& m, const T& a) { m = a; }
  static void moveassigned(T& m, T& a) { m = std::move(a); }
  static void itself(T& m) {
    T& r = m;
    m = r;
  }
  static T chained(T& m, const T& a) { return m = a; }
  static bool equal(const T& a, const T& b) { return a == b; }
};
template struct Copies<PP<1>>;
template struct Copies<PP<2>>;
template struct Copies<PP<3>>;
template struct Copies<PP<4>>;
template struct Copies<PP<7>>;
template struct Copies<Point<2, Sta>>;
