"""Compile-time witnesses: client programs, generated per type combination, that
use every public operation once and state its documented result type; the type
checker decides.  Nothing is executed."""
import os
import frame
from witness import compile_tu, groups

TECHNIQUE = 'type-level witnesses: generated client code decided by the type checker (clang, and gcc in the thorough tier)'
NOTE = ('Sound for the enumerated type combinations: an operation that no longer instantiates, or whose result type '
        'differs, stops its witness from type-checking. One to three parametric dimensions, scalar, 2D and 3D points, '
        'double and the two kinds of differentiation numbers. Trusts the compiler.')

HEADERS = [
    'bezier_spline.hpp', 'rational_bezier_spline.hpp', 'point.hpp', 'utils/base64.hpp', 'utils/logger.hpp',
    'utils/fastbinomialcoefficient.hpp', 'utils/binomialcoefficientlookuptablecreator.hpp',
    'utils/algorithms/bernstein_polynomial.hpp', 'utils/algorithms/recursive_combine.hpp',
    'utils/algorithms/int_power.hpp', 'utils/algorithms/sort.hpp',
    'utils/computational_differentiation/algo_diff_type.hpp', 'utils/type_traits/is_bezier_spline.hpp',
    'utils/type_traits/is_point.hpp', 'utils/type_traits/is_rational_bezier_spline.hpp']

PRE = '''
#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "bezman/src/utils/algorithms/int_power.hpp"
#include "bezman/src/utils/algorithms/sort.hpp"
#include "bezman/src/utils/base64.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include <type_traits>
using namespace bezman;
using bezman::utils::computational_differentiation::AlgoDiffType;
using sz = std::size_t;
template <class T> using bare_ = std::remove_cv_t<std::remove_reference_t<T>>;
template <class T> using vec = std::vector<T>;
template <class T, sz n> using arr = std::array<T, n>;
#define HAS_TYPE(e, ...) static_assert(std::is_same_v<bare_<decltype(e)>, __VA_ARGS__>, "result type")
'''


class TU:
    def __init__(self, case, name):
        self.case, self.name, self.items, self.decl = case, name, [], PRE

    def use(self, what, code, ty=None, params=''):
        """one operation: its use, and its result type"""
        self.items.append((what, code, ty, params or self.params))

    def run(self, cxx='clang++', flags=()):
        text = self.decl
        lines = text.count('\n')
        at = {}
        for i, (what, code, ty, params) in enumerate(self.items):
            body = '(void)(%s);' % code if ty is not None else code
            if ty and ty != 'void':
                body += ' HAS_TYPE((%s), %s);' % (code, ty)
            text += 'void witness_%d(%s) { %s }\n' % (i, params, body.replace('\n', ' '))
            lines += 1
            at[lines] = i
        rc, ds, out = compile_tu(text, 'p29', tuple(flags) + tuple(cxx.split()[1:]), cxx.split()[0], 800)
        bad = {}
        stray = []
        for e, notes in groups(ds):
            hit = None
            for d in [e] + notes:
                if not d.lib and d.line in at and d.where.startswith('p29'):
                    hit = at[d.line]
                    break
            lib = [d for d in [e] + notes if d.lib]
            w = lib[0].where if lib else e.where
            if hit is None:
                stray.append((w, e.msg))
            else:
                bad.setdefault(hit, (w, e.msg))
        rule = 'type-checks and yields the documented type' + ('' if cxx == 'clang++' else ' (%s)' % cxx)
        for w, m in stray[:5]:
            self.case.add(rule, self.name, w, 'violated', m[:200])
        if rc and not bad and not stray:
            self.case.add(rule, self.name, self.file, 'undecided', 'compiler failed: ' + out[-200:])
            return
        for i, (what, code, ty, _) in enumerate(self.items):
            con = '%s: %s' % (self.name, what)
            if i in bad:
                self.case.add(rule, con, bad[i][0], 'violated', '%s: %s' % (code[:90], bad[i][1][:200]))
            else:
                self.case.add(rule, con, self.file, 'holds', code[:90] + (' -> ' + ty if ty else ''))


CONFIGS = ('-DENABLE_LOGGING', '-DNDEBUG', '-DENABLE_LOGGING -DNDEBUG')


def header(case, h):
    for cxx in ('clang++', 'g++') + tuple('clang++ ' + x for x in CONFIGS):
        # twice: include guards
        rc, ds, out = compile_tu('#include "bezman/src/%s"\n#include "bezman/src/%s"\n' % (h, h), 'p29h',
                                 tuple(cxx.split()[1:]), cxx.split()[0])
        es = [d for d in ds if d.kind in ('error', 'fatal error')]
        con = 'src/%s included first and twice (%s)' % (h, cxx)
        if es:
            case.add('header compiles on its own', con, es[0].where, 'violated', es[0].msg[:200])
        elif rc:
            case.add('header compiles on its own', con, 'src/' + h, 'undecided', out[-200:])
        else:
            case.add('header compiles on its own', con, 'src/' + h, 'holds', 'no diagnostics')


def Bt(P, V, S):
    return 'BezierSpline<%d, %s, %s>' % (P, V, S)


def Rt(P, V, S):
    return 'RationalBezierSpline<%d, %s, %s>' % (P, V, S)


def scalar(V, S):
    return V == S


def poly(case, P, V, S, cxx='clang++'):
    T = Bt(P, V, S)
    t = TU(case, T)
    t.file = 'src/bezier_spline.hpp'
    t.params = ('%s &a, const %s &b, const %s &s, const %s &pt, const arr<sz, %d> &o, const Point<%d, %s> &x, '
                'const %s &c, const vec<%s> &pts, const vec<%s> &at' % (T, T, Bt(P, S, S), V, P, P, S, S, V, S))
    u = t.use
    idx = ', '.join(['sz{1}'] * P)
    xs = ', '.join('x[%d]' % i for i in range(P))
    u('default constructor', '%s q{}; (void)q;' % T)
    u('constructor from degrees', '%s q{o}; (void)q;' % T)
    u('constructor from degrees and control points', '%s q{o, pts}; (void)q;' % T)
    u('copy', '%s q{b}; q = b; a = %s{o};' % (T, T))
    u('container of splines', 'vec<%s> v; v.push_back(b); v.push_back(%s{o}); v = vec<%s>(v.begin(), v.end());' % (T, T, T))
    u('member types', 'static_assert(std::is_same_v<typename %s::ScalarType_, %s> && '
      'std::is_same_v<typename %s::PhysicalPointType_, %s> && '
      '%s::kParametricDimensions == %d);' % (T, S, T, V, T, P))
    u('ControlPoint(indices) const', 'b.ControlPoint(%s)' % idx, V)
    u('ControlPoint(indices)', 'a.ControlPoint(%s) = pt;' % idx)
    u('ControlPoint(array) const', 'b.ControlPoint(o)', V)
    u('ControlPoint(array)', 'a.ControlPoint(o) = pt;')
    u('GetNumberOfControlPoints', 'b.GetNumberOfControlPoints()', 'sz')
    u('LocalToGlobalIndex', 'b.LocalToGlobalIndex(0)', 'arr<sz, %d>' % P)
    u('GlobalToLocalIndex', 'b.GlobalToLocalIndex(o)', 'sz')
    u('GetDegrees const', 'b.GetDegrees()', 'arr<sz, %d>' % P)
    u('GetDegrees', 'a.GetDegrees()', 'arr<sz, %d>' % P)
    u('GetControlPoints const', 'b.GetControlPoints()', 'vec<%s>' % V)
    u('GetControlPoints', 'a.GetControlPoints() = pts;')
    u('UpdateDegrees', 'a.UpdateDegrees(o)', 'void')
    u('OrderElevateAlongParametricDimension', 'a.OrderElevateAlongParametricDimension(0)', T)
    u('OrderElevateAlongParametricDimension, chained',
      'a.OrderElevateAlongParametricDimension(0).OrderElevateAlongParametricDimension(0)', T)
    u('DerivativeWRTParametricDimension', 'b.DerivativeWRTParametricDimension(o)', T)
    for n in 'Evaluate', 'ForwardEvaluate':
        u(n + '(point)', 'b.%s(x)' % n, V)
        u(n + '(coordinates)', 'b.%s(%s)' % (n, xs), V)
    if S == 'double':
        u('Evaluate(literals)', 'b.Evaluate(%s)' % ', '.join(['.5'] * P), V)
    u('EvaluateDerivative', 'b.EvaluateDerivative(x, o)', V)
    u('BasisFunctions(point)', 'b.BasisFunctions(x)', 'vec<%s>' % S)
    u('BasisFunctions(coordinates)', 'b.BasisFunctions(%s)' % xs, 'vec<%s>' % S)
    u('BasisFunctionsDerivatives', 'b.BasisFunctionsDerivatives(x, o)', 'vec<%s>' % S)
    cs = 'arr<vec<%s>, %d>' % (S, P)
    u('BasisFunctionContributions(point)', 'b.BasisFunctionContributions(x)', cs)
    u('BasisFunctionContributions(coordinates)', 'b.BasisFunctionContributions(%s)' % xs, cs)
    u('BasisFunctionsDerivativeContributions', 'b.BasisFunctionsDerivativeContributions(x, o)', cs)
    u('spline + spline', 'b + b', T)
    u('spline - spline', 'b - b', T)
    u('spline += spline', 'a += b', T)
    u('spline -= spline', 'a -= b', T)
    u('spline == spline', 'b == b', 'bool')
    u('spline * spline', 'b * b', Bt(P, S, S))
    u('scalar spline * spline', 's * b', T)
    u('spline * scalar spline', 'b * s', T)
    if not scalar(V, S):
        u('ExtractDimension', 'b.ExtractDimension(0)', Bt(P, S, S))
    if scalar(V, S):
        u('RaisePower', 'b.RaisePower(2)', T)
    u('spline *= scalar', 'a *= c', T)
    u('spline * scalar', 'b * c', T)
    u('scalar * spline', 'c * b', T)
    u('FitsIntoUnitCube', 'b.FitsIntoUnitCube()', 'bool')
    u('spline += point', 'a += pt', T)
    u('spline + point', 'b + pt', T)
    u('point + spline', 'pt + b', T)
    u('spline -= point', 'a -= pt', T)
    u('spline - point', 'b - pt', T)
    u('point - spline', 'pt - b', T)
    u('- spline', '-b', T)
    u('MaximumCorner', 'b.MaximumCorner()', V)
    u('MinimumCorner', 'b.MinimumCorner()', V)
    u('TransposeAndScale', 'a.TransposeAndScale(pt, pt)', T)
    u('FitIntoUnitCube', 'a.FitIntoUnitCube()', T)
    u('chained in-place operations', '((a += b) -= b) *= c', T)
    u('chained in-place shifts', '((a += pt) -= pt).FitIntoUnitCube()', T)
    u('SplitAtPosition', 'b.SplitAtPosition(c, 0)', 'vec<%s>' % T)
    u('SplitAtPosition, default dimension', 'b.SplitAtPosition(c)', 'vec<%s>' % T)
    u('SplitAtPosition(list)', 'b.SplitAtPosition(at, 0)', 'vec<%s>' % T)
    u('SplitAtPosition(list), default dimension', 'b.SplitAtPosition(at)', 'vec<%s>' % T)
    t.run(cxx)


def rational(case, P, V, S, cxx='clang++'):
    T, N, W = Rt(P, V, S), Bt(P, V, S), Bt(P, S, S)
    t = TU(case, T)
    t.file = 'src/rational_bezier_spline.hpp'
    t.params = ('%s &a, const %s &b, const %s &n, const %s &w, const %s &s, const %s &pt, const arr<sz, %d> &o, '
                'const Point<%d, %s> &x, const %s &c, const vec<%s> &pts, const vec<%s> &at' % (
                    T, T, N, W, Rt(P, S, S), V, P, P, S, S, V, S))
    u = t.use
    idx = ', '.join(['sz{1}'] * P)
    xs = ', '.join('x[%d]' % i for i in range(P))
    u('default constructor', '%s q{}; (void)q;' % T)
    u('constructor from degrees', '%s q{o}; (void)q;' % T)
    u('constructor from degrees, control points and weights', '%s q{o, pts, at}; (void)q;' % T)
    u('constructor from a polynomial spline', '%s q{n}; q = n; (void)q;' % T)
    u('constructor from numerator and weight function', '%s q{n, w}; (void)q;' % T)
    u('copy', '%s q{b}; q = b; a = %s{o};' % (T, T))
    u('container of splines', 'vec<%s> v; v.push_back(b); v.push_back(%s{o}); v = vec<%s>(v.begin(), v.end());' % (T, T, T))
    u('member types', 'static_assert(std::is_same_v<typename %s::ScalarType_, %s> && '
      'std::is_same_v<typename %s::PhysicalPointType_, %s> && '
      '%s::kParametricDimensions == %d);' % (T, S, T, V, T, P))
    u('GetDegrees', 'b.GetDegrees()', 'arr<sz, %d>' % P)
    u('GetNumberOfControlPoints', 'b.GetNumberOfControlPoints()', 'sz')
    u('GetWeightedControlPoints const', 'b.GetWeightedControlPoints()', 'vec<%s>' % V)
    u('GetWeightedControlPoints', 'a.GetWeightedControlPoints() = pts;')
    u('GetWeights const', 'b.GetWeights()', 'vec<%s>' % S)
    u('GetWeights', 'a.GetWeights() = at;')
    u('GetWeightFunctionSpline', 'b.GetWeightFunctionSpline()', W)
    u('GetNumeratorSpline', 'b.GetNumeratorSpline()', N)
    u('UpdateDegrees', 'a.UpdateDegrees(o)', 'void')
    for g, nm in ((idx, 'indices'), ('o', 'array')):
        u('ControlPoint(%s)' % nm, 'b.ControlPoint(%s)' % g, V)
        u('WeightedControlPoint(%s) const' % nm, 'b.WeightedControlPoint(%s)' % g, V)
        u('WeightedControlPoint(%s)' % nm, 'a.WeightedControlPoint(%s) = pt;' % g)
        u('Weight(%s) const' % nm, 'b.Weight(%s)' % g, S)
        u('Weight(%s)' % nm, 'a.Weight(%s) = c;' % g)
    u('LocalToGlobalIndex', 'b.LocalToGlobalIndex(0)', 'arr<sz, %d>' % P)
    u('GlobalToLocalIndex', 'b.GlobalToLocalIndex(o)', 'sz')
    for n in 'Evaluate', 'ForwardEvaluate':
        u(n + '(point)', 'b.%s(x)' % n, V)
        u(n + '(coordinates)', 'b.%s(%s)' % (n, xs), V)
    for n, r in (('BasisFunctions', 'vec<%s>' % S), ('UnweightedBasisFunctions', 'vec<%s>' % S),
                 ('BasisFunctionContributions', 'arr<vec<%s>, %d>' % (S, P))):
        u(n + '(point)', 'b.%s(x)' % n, r)
        u(n + '(coordinates)', 'b.%s(%s)' % (n, xs), r)
    u('EvaluateDerivative', 'b.EvaluateDerivative(x, o)', V)
    u('BasisFunctionsDerivatives', 'b.BasisFunctionsDerivatives(x, o)', 'vec<%s>' % S)
    u('OrderElevateAlongParametricDimension', 'a.OrderElevateAlongParametricDimension(0)', T)
    u('OrderElevateAlongParametricDimension, chained',
      'a.OrderElevateAlongParametricDimension(0).OrderElevateAlongParametricDimension(0)', T)
    u('SplitAtPosition', 'b.SplitAtPosition(c, 0)', 'vec<%s>' % T)
    u('SplitAtPosition, default dimension', 'b.SplitAtPosition(c)', 'vec<%s>' % T)
    u('SplitAtPosition(list)', 'b.SplitAtPosition(at, 0)', 'vec<%s>' % T)
    u('SplitAtPosition(list), default dimension', 'b.SplitAtPosition(at)', 'vec<%s>' % T)
    u('DerivativeWRTParametricDimension', 'b.DerivativeWRTParametricDimension(o)', T)
    u('spline *= scalar', 'a *= c', T)
    u('spline * scalar', 'b * c', T)
    u('scalar * spline', 'c * b', T)
    u('spline += point', 'a += pt', T)
    u('spline + point', 'b + pt', T)
    u('point + spline', 'pt + b', T)
    u('spline - point', 'b - pt', T)
    u('spline -= point', 'a -= pt', T)
    u('- spline', '-b', T)
    u('spline + spline', 'b + b', T)
    u('spline - spline', 'b - b', T)
    u('spline += spline', 'a += b', T)
    u('spline -= spline', 'a -= b', T)
    u('spline + polynomial as rational', 'b + %s{n}' % T, T)
    u('spline * spline', 'b * b', Rt(P, S, S))
    u('scalar spline * spline', 's * b', T)
    u('spline * scalar spline', 'b * s', T)
    u('ExtractDimension', 'b.ExtractDimension(0)', Bt(P, S, S)) if not scalar(V, S) else None
    u('FitsIntoUnitCube', 'b.FitsIntoUnitCube()', 'bool')
    u('MaximumCorner', 'b.MaximumCorner()', V)
    u('MinimumCorner', 'b.MinimumCorner()', V)
    u('chained in-place operations', '(((a += b) -= b) *= c) += pt', T)
    t.run(cxx)


def pt(D, S):
    return 'Point<%d, %s>' % (D, S)


def compose(case, P, V, Q, S, cxx='clang++'):
    """outer with P parametric dimensions, inner with Q"""
    I = S if P == 1 else pt(P, S)
    inn = [I, pt(1, S)] if P == 1 else [I]
    t = TU(case, 'composition of %s with %d-parametric functions' % (Bt(P, V, S), Q))
    t.file = 'src/bezier_spline.hpp'
    o, ro = Bt(P, V, S), Rt(P, V, S)
    for I in inn:
        i, ri = Bt(Q, I, S), Rt(Q, I, S)
        t.params = ('const %s &o, const %s &ro, const %s &i, const %s &ri, const vec<%s> &g, const vec<%s> &rg' % (
            o, ro, i, ri, i, ri))
        u = t.use
        of = ' of ' + I
        pr, rr = Bt(Q, V, S), Rt(Q, V, S)
        u('polynomial(polynomial)' + of, 'o.Compose(i)', pr)
        u('polynomial(rational)' + of, 'o.Compose(ri)', rr)
        u('rational(polynomial)' + of, 'ro.Compose(i)', rr)
        u('rational(rational)' + of, 'ro.Compose(ri)', rr)
        u('polynomial(group of polynomials)' + of, 'o.Compose(g)', 'vec<%s>' % pr)
        u('polynomial(group of rationals)' + of, 'o.Compose(rg)', 'vec<%s>' % rr)
        u('sensitivity of polynomial(polynomial)' + of, 'o.ComposeSensitivity(i)', 'vec<%s>' % Bt(Q, S, S))
        u('sensitivity of polynomial(rational)' + of, 'o.ComposeSensitivity(ri)', 'vec<%s>' % Rt(Q, S, S))
        u('sensitivity of rational(polynomial)' + of, 'ro.ComposeSensitivity(i)', 'vec<%s>' % Rt(Q, S, S))
        u('sensitivity of rational(rational)' + of, 'ro.ComposeSensitivity(ri)', 'vec<%s>' % Rt(Q, S, S))
    t.run(cxx)


def point(case, S, cxx='clang++'):
    t = TU(case, 'Point over ' + S)
    t.file = 'src/point.hpp'
    for D in (1, 2, 3, 4):
        T = pt(D, S)
        t.params = '%s &a, const %s &b, const %s &c, std::ostream &os' % (T, T, S)
        u = t.use
        n = ' in %dD' % D
        u('default constructor' + n, '%s q{}; (void)q;' % T)
        u('constructor from coordinates' + n, '%s q{%s}; (void)q;' % (T, ', '.join(['c'] * D)))
        u('copy' + n, '%s q{b}; q = b; (void)q;' % T)
        u('a + b' + n, 'b + b', T)
        u('a += b' + n, 'a += b', T)
        u('a - b' + n, 'b - b', T)
        u('a -= b' + n, 'a -= b', T)
        u('-a' + n, '-b', T)
        u('a *= c' + n, 'a *= c', T)
        u('a * c' + n, 'b * c', T)
        u('c * a' + n, 'c * b', T)
        u('a /= c' + n, 'a /= c', T)
        u('a / c' + n, 'b / c', T)
        u('2. / a' + n, '2. / b', T)
        u('a * b' + n, 'b * b', S)
        u('SquaredEuclidianNorm' + n, 'b.SquaredEuclidianNorm()', S)
        if S in ('double', 'float'):
            u('EuclidianNorm' + n, 'b.EuclidianNorm()', S)
            u('a * 2.' + n, 'b * 2.', T)
            u('2. * a' + n, '2. * b', T)
        u('output' + n, 'os << b', 'std::ostream') if S != 'int' else None
        u('toString' + n, 'b.toString()', 'std::string')
        u('comparison' + n, 'b == b', 'bool')
        u('coordinates' + n, 'b[0]', S)
        u('assigning coordinates' + n, 'a[0] = c;')
        u('member types' + n, 'static_assert(std::is_same_v<typename %s::ScalarType_, %s> && %s::kSpatialDimension == %d);' % (T, S, T, D))
    t.run(cxx)


def ad(case, inner, n, cxx='clang++'):
    T = 'AlgoDiffType<%s, %d>' % (inner, n)
    t = TU(case, T)
    t.file = 'src/utils/computational_differentiation/algo_diff_type.hpp'
    t.params = '%s &a, const %s &b, const %s &c, std::ostream &os' % (T, T, inner)
    u = t.use
    u('default constructor', '%s q{}; (void)q;' % T)
    if n:
        u('constructor from a value', '%s q(c); (void)q;' % T)
        u('constructor with active component', '%s q(c, sz{0}); (void)q;' % T)
        u('conversion from a value', '%s q = c; q = c; (void)q;' % T)
    else:
        u('constructor from a value', '%s q(c, sz{2}); (void)q;' % T)
        u('constructor with active component', '%s q(c, sz{2}, sz{0}); (void)q;' % T)
    u('copy and move', '%s q{b}; q = b; %s r{std::move(q)}; (void)r;' % (T, T))
    u('SetActiveComponent', 'a.SetActiveComponent(0)', 'void')
    u('GetValue', 'b.GetValue()', inner)
    u('GetDerivatives', 'b.GetDerivatives()', ('arr<%s, %d>' % (inner, n)) if n else 'vec<%s>' % inner)
    u('GetNumberOfDerivatives', 'static_assert(std::is_convertible_v<decltype(b.GetNumberOfDerivatives()), sz>); (void)b.GetNumberOfDerivatives();')
    for o in '+-*/':
        u('number %s number' % o, 'b %s b' % o, T)
        u('number %s scalar' % o, 'b %s c' % o, T)
        u('scalar %s number' % o, 'c %s b' % o, T)
        u('number %s= number' % o, 'a %s= b' % o, T)
        u('number %s= scalar' % o, 'a %s= c' % o, T)
    u('- number', '-b', T)
    for o in ('<', '<=', '>', '>=', '==', '!='):
        u('number %s number' % o, 'b %s b' % o, 'bool')
        u('number %s scalar' % o, 'b %s c' % o, 'bool')
        u('scalar %s number' % o, 'c %s b' % o, 'bool')
    for f in ('exp', 'log', 'log10', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'abs'):
        u(f, '%s(b)' % f, T)
    u('pow(number, scalar)', 'pow(b, c)', T)
    u('pow(number, number)', 'pow(b, b)', T)
    u('output', 'os << b', 'std::ostream')
    t.run(cxx)


def utils(case, cxx='clang++'):
    t = TU(case, 'utilities')
    t.file = 'src/utils'
    t.params = 'const vec<double> &d, const vec<int> &n, const std::string &s'
    u = t.use
    u('Logger::TerminatingError', 'utils::Logger::TerminatingError(s)', 'void')
    for m in ('Logging', 'UserInfo', 'Warning', 'Error', 'ExtendedInformation'):
        u('Logger::' + m, 'utils::Logger::%s(s)' % m, 'void')
    u('Base64::Encode', 'utils::Base64::Encode(d)', 'std::string')
    u('Base64::Encode of integers', 'utils::Base64::Encode(n)', 'std::string')
    u('Base64::Decode', 'utils::Base64::Decode<double>(s)', 'vec<double>')
    for b in ('int', 'double', 'AlgoDiffType<double, 2>'):
        u('type traits of ' + b, 'static_assert(utils::type_traits::isPoint_v<Point<3, %s>> && !utils::type_traits::isPoint_v<%s>);' % (b, b))
    for P in (1, 2, 3):
        for V in ('double', 'Point<3, double>'):
            u('type traits of splines %d %s' % (P, V), (
                'static_assert(utils::type_traits::isBezierSpline_v<{b}> && !utils::type_traits::isBezierSpline_v<{r}> && '
                '!utils::type_traits::isBezierSpline_v<{v}> && '
                'utils::type_traits::isRationalBezierSpline_v<{r}> && !utils::type_traits::isRationalBezierSpline_v<{b}> && '
                '!utils::type_traits::isRationalBezierSpline_v<{v}>);').format(b=Bt(P, V, 'double'), r=Rt(P, V, 'double'), v=V))
    t.run(cxx)


A, A2 = 'AlgoDiffType<double>', 'AlgoDiffType<double, 2>'


def cases(ctx):
    out = []
    comps = ['clang++'] if ctx.tier == 'quick' else ['clang++', 'g++']

    def add(nm, f, *a):
        for x in comps:
            out.append((nm + ('' if x == 'clang++' else ' ' + x), lambda c, x=x: f(c, *a, cxx=x)))
    for x in CONFIGS:
        # the same uses in the other build configurations
        x = 'clang++ ' + x
        for f, a in ((utils, ()), (poly, (2, pt(3, 'double'), 'double')), (rational, (2, pt(3, 'double'), 'double')),
                     (compose, (2, pt(3, 'double'), 2, 'double')), (point, ('double',)), (ad, ('double', 0)),
                     (ad, ('double', 3))):
            out.append(('%s%s %s' % (f.__name__, ''.join(' ' + str(y) for y in a), x),
                        lambda c, f=f, a=a, x=x: f(c, *a, cxx=x)))
    for h in HEADERS:
        out.append(('header ' + h, lambda c, h=h: header(c, h)))
    for P in (1, 2, 3):
        for S in ('double', A2):
            for V in (S, pt(2, S), pt(3, S)):
                add('%s' % Bt(P, V, S), poly, P, V, S)
                add('%s' % Rt(P, V, S), rational, P, V, S)
    for P in (1, 2, 3):
        for Q in (1, 2, 3):
            for S in ('double', A2):
                for V in (S, pt(2, S), pt(3, S)):
                    add('compose %s %d' % (Bt(P, V, S), Q), compose, P, V, Q, S)
    for S in ('double', 'float', A, A2):
        add('points over ' + S, point, S)
    for i, n in (('double', 0), ('double', 2), ('double', 3), ('float', 2), (A2, 2), (A2, 3), ('AlgoDiffType<double, 3>', 0)):
        add('number %s %d' % (i, n), ad, i, n)
    add('utilities', utils)
    return out
