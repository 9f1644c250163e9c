#include "bezman/src/bezier_spline.hpp"
#include <cmath>
using namespace bezman;
int main() {
  BezierSpline<1, double, double> s(std::array<std::size_t, 1>{2}, {1., 2., 5.});
  s.FitIntoUnitCube();
  return std::abs(s.Evaluate(0.)) < 1e-12 && std::abs(s.Evaluate(1.) - 1.) < 1e-12 ? 0 : 1;
}
