#pragma once
// Probe: names every public operation of the library once per type
// combination, so that the front end instantiates it.  Nothing here is run.
#include <utility>

#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "bezman/src/utils/algorithms/int_power.hpp"
#include "bezman/src/utils/algorithms/sort.hpp"
#include "bezman/src/utils/base64.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"

using namespace bezman;

template <std::size_t D>
using PP = Point<D, double>;
template <std::size_t P, typename PT>
using B = BezierSpline<P, PT, double>;
template <std::size_t P, typename PT>
using R = RationalBezierSpline<P, PT, double>;

