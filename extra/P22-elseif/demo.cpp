#include "bezman/src/bezier_spline.hpp"
using namespace bezman;
int main() {
  using P = Point<2, double>;
  BezierSpline<1, P, double> s(std::array<std::size_t, 1>{1}, {P{0., -.5}, P{1., .5}});
  return s.FitsIntoUnitCube() ? 1 : 0;
}
