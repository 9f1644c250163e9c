#include "common.hpp"

// accessors through which results are read
template <typename S>
void SeeP(const S& s) {
  (void)S{s.GetDegrees(), s.GetControlPoints()};
}
template <typename S>
void SeeR(const S& s) {
  SeeP(s.GetNumeratorSpline());
  SeeP(s.GetWeightFunctionSpline());
  (void)S{s.GetNumeratorSpline(), s.GetWeightFunctionSpline()};
}

// outer: P parametric dimensions, values PT; inner: Q parametric dimensions
template <std::size_t P, typename PT, std::size_t Q, typename IPT>
void Comp(const B<P, PT>& outer, const R<P, PT>& router, const B<Q, IPT>& inner,
          const R<Q, IPT>& rinner, const std::vector<B<Q, IPT>>& group,
          const std::vector<R<Q, IPT>>& rgroup) {
  SeeP(outer);
  SeeR(router);
  SeeP(inner);
  SeeR(rinner);
  SeeP(outer.Compose(inner));
  SeeR(outer.Compose(rinner));
  SeeP(outer.ComposeSensitivity(inner)[0]);
  SeeR(outer.ComposeSensitivity(rinner)[0]);
  (void)outer.Compose(group);
  (void)outer.Compose(rgroup);
  (void)router.Compose(inner);
  (void)router.Compose(rinner);
  (void)router.ComposeSensitivity(inner);
  (void)router.ComposeSensitivity(rinner);
}
#define COMP(P, PT, Q, IPT)                                            \
  template void Comp<P, PT, Q, IPT>(                                   \
      const B<P, PT>&, const R<P, PT>&, const B<Q, IPT>&,              \
      const R<Q, IPT>&, const std::vector<B<Q, IPT>>&, const std::vector<R<Q, IPT>>&);
COMP(1, double, 1, double)
COMP(1, PP<2>, 1, double)
COMP(1, PP<2>, 2, double)
COMP(1, PP<2>, 1, PP<1>)
COMP(2, double, 1, PP<2>)
COMP(2, PP<2>, 2, PP<2>)
COMP(2, PP<3>, 3, PP<2>)
COMP(3, PP<3>, 1, PP<3>)
COMP(3, PP<3>, 3, PP<3>)

// products and sums of different value types
template <std::size_t P, std::size_t D>
void Mixed(const B<P, PP<D>>& v, const B<P, double>& s, const R<P, PP<D>>& rv,
           const R<P, double>& rs) {
  (void)B<P, PP<D>>{v.GetDegrees(), v.GetControlPoints()};
  (void)B<P, double>{s.GetDegrees(), s.GetControlPoints()};
  (void)s.RaisePower(3);
  (void)(v * v);
  (void)(s * v);
  (void)(v * s);
  (void)(s * s);
  (void)(rv * rv);
  (void)(rs * rv);
  (void)(rv * rs);
  (void)(rs * rs);
  (void)(v + v);
  (void)(v - v);
  (void)(rv + rv);
  (void)(rv - rv);
}
#define MIXED(P, D)                                                   \
  template void Mixed<P, D>(const B<P, PP<D>>&, const B<P, double>&, \
                            const R<P, PP<D>>&, const R<P, double>&);
MIXED(1, 2)
MIXED(2, 2)
MIXED(3, 3)
// default scalar type
template class bezman::BezierSpline<2, PP<3>>;
template class bezman::RationalBezierSpline<2, PP<3>>;
