#include "bezman/src/bezier_spline.hpp"
#include <cmath>
using namespace bezman;
int main() {
  BezierSpline<3, double, double> s(std::array<std::size_t, 3>{1, 2, 1});
  for (std::size_t i = 0; i < s.GetNumberOfControlPoints(); i++) s.GetControlPoints()[i] = std::sin(1. * i * i);
  auto e = s;
  e.OrderElevateAlongParametricDimension(1);
  return std::abs(s.Evaluate(.2, .3, .4) - e.Evaluate(.2, .3, .4)) < 1e-9 ? 0 : 1;
}
