// C10: piecewise linear tables.
#include "pbt.hpp"
#include "config.h"
#include <opm/core/utility/linearInterpolation.hpp>
#include <opm/core/utility/NonuniformTableLinear.hpp>
#include <opm/core/utility/UniformTableLinear.hpp>
#include <opm/core/utility/buildUniformMonotoneTable.hpp>

using pbt::Gen; using pbt::Ctx;
typedef std::vector<double> V;
typedef long double L;

namespace {

void show(Ctx& c, const char* n, const V& v) { c.desc() << n << " ="; for (double d : v) c.desc() << " " << pbt::fmt("%.17g", d); c.desc() << "\n"; }

V genX(Gen& g, int n)
{
    V x(n); const double mag = g.oneof({ 1., 1., 1e-6, 1e7 }); x[0] = mag * g.real(-3, 3);
    for (int k = 1; k < n; ++k) x[k] = x[k - 1] + mag * (g.p(1, 5) ? g.logreal(1e-4, 1) : g.real(0.05, 1));
    return x;
}
V genY(Gen& g, int n, int kind)    // 0 any, 1 strictly increasing, 2 strictly decreasing, 3 non-decreasing
{
    V y(n); const double mag = g.oneof({ 1., 1., 1e-9, 1e5 }); y[0] = mag * g.real(-2, 2);
    for (int k = 1; k < n; ++k) {
        if (kind == 0) y[k] = g.p(1, 4) ? y[k - 1] : mag * g.real(-2, 2);
        else { const double d = mag * (g.p(1, 5) ? g.logreal(1e-3, 1) : g.real(0.05, 1)); y[k] = y[k - 1] + (kind == 1 ? d : kind == 2 ? -d : g.b() ? d : 0); }
    }
    return y;
}
// The intervals in which x may be looked up (two at a node), in an increasing or decreasing table.
std::vector<int> intervals(const V& x, double p)
{
    const int n = (int) x.size(); std::vector<int> r; const bool up = x[n - 1] > x[0];
    for (int k = 0; k + 1 < n; ++k) {
        const bool lo = k == 0 || (up ? x[k] <= p : x[k] >= p), hi = k + 2 == n || (up ? p <= x[k + 1] : p >= x[k + 1]);
        if (lo && hi) r.push_back(k);
    }
    return r;
}
L lin(const V& x, const V& y, int k, L p) { return (L) y[k] + ((L) y[k + 1] - y[k]) / ((L) x[k + 1] - x[k]) * (p - x[k]); }
double scaleOf(const V& x, const V& y, int k, double p)
{
    const double s = std::fabs((p - x[k]) / (x[k + 1] - x[k])), e = (std::fabs(p) + std::fabs(x[k]) + std::fabs(x[k + 1])) / std::fabs(x[k + 1] - x[k]);
    return (std::fabs(y[k]) + std::fabs(y[k + 1])) * (1 + s) + 0.1 * std::fabs(y[k + 1] - y[k]) * e;
}
double arg(Gen& g, Ctx& c, const V& x)
{
    const int n = (int) x.size(); const double lo = std::min(x[0], x[n - 1]), hi = std::max(x[0], x[n - 1]);
    switch (g.i(0, 4)) {
    case 0: c.label("at a node"); return x[g.i(0, n - 1)];
    case 1: { const int k = g.i(0, n - 2); return x[k] + g.real(0, 1) * (x[k + 1] - x[k]); }
    case 2: c.label("below the range"); return lo - g.logreal(1e-3, 3) * (hi - lo);
    case 3: c.label("above the range"); return hi + g.logreal(1e-3, 3) * (hi - lo);
    default: { const double v = x[g.i(0, n - 1)]; c.label("next to a node"); return g.b() ? std::nextafter(v, 1e300) : std::nextafter(v, -1e300); }
    }
}
void evalCheck(Ctx& c, const V& x, const V& y, double p, double v, double d, const char* what)
{
    double best = 1e300, bestd = 1e300;
    for (int k : intervals(x, p)) {
        best = std::min(best, (double) std::fabs((double) (lin(x, y, k, p) - v)) / std::max(scaleOf(x, y, k, p), 1e-300));
        const L s = ((L) y[k + 1] - y[k]) / ((L) x[k + 1] - x[k]);
        bestd = std::min(bestd, std::fabs((double) (s - d)) / std::max((std::fabs(y[k]) + std::fabs(y[k + 1])) / std::fabs(x[k + 1] - x[k]), 1e-300));
    }
    c.check(best < 1e-12, "value", "%s at %.17g is %.17g, relative error %g", what, p, v, best);
    c.check(bestd < 1e-12, "derivative", "%s: slope at %.17g is %.17g, relative error %g", what, p, d, bestd);
}

void nonuniform(Gen& g, Ctx& c)
{
    const int n = g.i(2, g.b() ? 4 : 12); V x = genX(g, n); const int kind = g.i(0, 2); V y = genY(g, n, kind);
    c.desc() << n << " points, kind " << kind << "\n"; show(c, "x", x); show(c, "y", y); c.nontrivial(n >= 3); c.label("two points", n == 2);
    Opm::NonuniformTableLinear<double> t(x, y); const Opm::NonuniformTableLinear<double> same(x, y); c.check(t == same, "equal", "equal tables compare unequal");
    { V y2 = y; y2[g.i(0, n - 1)] += 1e6; c.check(!(t == Opm::NonuniformTableLinear<double>(x, y2)), "equal", "different tables compare equal"); V x2 = x; x2[n - 1] += x2[n - 1] - x2[0]; c.check(!(t == Opm::NonuniformTableLinear<double>(x2, y)), "equal", "tables with different arguments compare equal"); }
    const int steps = g.i(2, 8);
    for (int s = 0; s < steps; ++s) {
        switch (g.i(0, 5)) {
        case 0: case 1: case 2: { const double p = arg(g, c, x); const double v = t(p), d = t.derivative(p); c.desc() << "f(" << p << ") = " << v << "\n"; evalCheck(c, x, y, p, v, d, "table"); break; }
        case 3: if (kind) {
            const double q = arg(g, c, y), p = t.inverse(q); c.desc() << "inverse(" << q << ") = " << p << "\n"; double best = 1e300;
            for (int k : intervals(y, q)) best = std::min(best, std::fabs((double) (lin(y, x, k, q) - p)) / std::max(scaleOf(y, x, k, q), 1e-300));
            c.check(best < 1e-12, "inverse", "inverse(%.17g) = %.17g, relative error %g", q, p, best); c.label(kind == 1 ? "inverse of an increasing table" : "inverse of a decreasing table"); }
            break;
        case 4: {
            const double a = g.real(-5, 5), b = a + g.real(0.5, 4); c.desc() << "rescale to " << a << ", " << b << "\n"; t.rescaleDomain(std::make_pair(a, b)); const double o = x[0], w = x[n - 1] - x[0];
            for (int k = 0; k < n; ++k) x[k] = (x[k] - o) * (b - a) / w + a;
            for (int k = 1; k < n; ++k) if (x[k] - x[k - 1] < 1e-7 * (b - a)) return;
            c.label("rescaled"); break; }
        default: { const double p = arg(g, c, x); const int n1 = g.b(); V xx = x, yy = y; if (n1) { std::reverse(xx.begin(), xx.end()); std::reverse(yy.begin(), yy.end()); } int k = -9;
            const double v = Opm::linearInterpolation(xx, yy, p), v2 = Opm::linearInterpolation(xx, yy, p, k), d = Opm::linearInterpolationDerivative(xx, yy, p); c.label("decreasing arguments", n1); evalCheck(c, xx, yy, p, v, d, "linearInterpolation"); c.check(v == v2, "index", "the overload with an index gives another value"); const std::vector<int> in = intervals(xx, p); c.check(std::find(in.begin(), in.end(), k) != in.end() && k == Opm::tableIndex(xx, p), "index", "interval %d of %.17g", k, p); break; }
        }
        const std::pair<double, double> dom = t.domain(); c.close(dom.first, x[0], 1e-13, std::fabs(x[0]) + x[n - 1] - x[0], "domain", "left end"); c.close(dom.second, x[n - 1], 1e-13, std::fabs(x[0]) + x[n - 1] - x[0], "domain", "right end");
    }
}

void uniform(Gen& g, Ctx& c)
{
    const int n = g.i(2, g.b() ? 4 : 20); const double mag = g.oneof({ 1., 1., 1e-6, 1e7 }); double a = mag * g.real(-3, 3), b = a + mag * g.real(0.1, 4); const V y = genY(g, n, 0); const bool ptr = g.b();
    c.desc() << "[" << pbt::fmt("%.17g, %.17g", a, b) << "]\n"; show(c, "y", y); c.nontrivial(n >= 3);
    Opm::UniformTableLinear<double> t = ptr ? Opm::UniformTableLinear<double>(a, b, &y[0], n) : Opm::UniformTableLinear<double>(a, b, y);
    c.check(t == Opm::UniformTableLinear<double>(a, b, y), "equal", "equal tables compare unequal"); { V y2 = y; y2[g.i(0, n - 1)] += 1e6; c.check(!(t == Opm::UniformTableLinear<double>(a, b, y2)), "equal", "different tables compare equal"); c.check(!(t == Opm::UniformTableLinear<double>(a, b + (b - a), y)), "equal", "tables over different intervals compare equal"); }
    if (g.b()) { const double na = g.real(-5, 5), nb = na + g.real(0.5, 4); t.rescaleDomain(std::make_pair(na, nb)); a = na; b = nb; c.label("rescaled"); c.check(t == Opm::UniformTableLinear<double>(a, b, y), "equal", "rescaled table differs from one built on that interval"); }
    c.check(t.domain() == std::make_pair(a, b), "domain", "domain is not [%.17g, %.17g]", a, b);
    V x(n); for (int k = 0; k < n; ++k) x[k] = (double) (a + ((L) b - a) * k / (n - 1)); x[n - 1] = b;
    const int m = g.i(1, 8); const double ymax = [&] { double s = 0; for (double v : y) s = std::max(s, std::fabs(v)); return s; }(), h = (b - a) / (n - 1), sc = ymax * (1 + 0.1 * (std::fabs(a) + std::fabs(b)) / h);
    for (int s = 0; s < m; ++s) {
        const double p = arg(g, c, x), v = t(p), d = t.derivative(p);
        if (p <= a || p >= b) { c.close(v, p <= a ? y[0] : y[n - 1], 1e-13, sc, "closest", "value %.17g outside [%.17g, %.17g]", p, a, b); if (p < a || p > b) { c.check(d == 0, "closest", "slope %g outside the range", d); continue; } }
        double be = 1e300, bd = 1e300; const double ulp = 8 * 2.3e-16 * (std::fabs(a) + std::fabs(b));
        for (int k = 0; k + 1 < n; ++k) if (p >= x[k] - ulp && p <= x[k + 1] + ulp) { be = std::min(be, std::fabs((double) (lin(x, y, k, p) - v)) / std::max(sc, 1e-300)); bd = std::min(bd, std::fabs((y[k + 1] - y[k]) / h - d) * h / std::max(ymax, 1e-300)); }
        c.check(be < 1e-12, "value", "f(%.17g) = %.17g, relative error %g", p, v, be); c.check(bd < 1e-11, "derivative", "f'(%.17g) = %.17g, relative error %g", p, d, bd);
    }
    { std::ostringstream o; o.precision(17); o << t; std::istringstream is(o.str()); double px, py; int k = 0; while (is >> px >> py) { c.check(k < n, "printed", "too many lines"); c.close(px, x[k], 1e-12, std::fabs(a) + std::fabs(b), "printed", "argument %d", k); c.check(py == y[k], "printed", "value %d is %.17g", k, py); ++k; } c.check(k == n, "printed", "%d lines for %d values", k, n); }
    const int pol = g.i(0, 2), right = g.b(); bool th = false; typedef Opm::UniformTableLinear<double> T;
    try { if (right) t.setRightPolicy((T::RangePolicy) pol); else t.setLeftPolicy((T::RangePolicy) pol); } catch (const std::exception&) { th = true; }
    c.check(th == (pol != T::ClosestValue), "policy", "range policy %d %s", pol, th ? "refused" : "accepted though not implemented");
}

void resample(Gen& g, Ctx& c)
{
    const int n = g.i(2, 8), m = g.i(2, 30), kind = g.i(1, 3); const V x = genX(g, n), y = genY(g, n, kind); show(c, "x", x); show(c, "y", y); c.desc() << m << " samples\n"; c.nontrivial(n >= 3 && m >= 3);
    Opm::UniformTableLinear<double> t; Opm::buildUniformMonotoneTable(x, y, m, t); const Opm::MonotCubicInterpolator f(x, y);
    const double w = x[n - 1] - x[0], ext = std::fabs(y[n - 1] - y[0]), sc = std::fabs(y[0]) + std::fabs(y[n - 1]);
    double steep = 0; for (int k = 0; k + 1 < n; ++k) steep = std::max(steep, 3 * std::fabs((y[k + 1] - y[k]) / (x[k + 1] - x[k])));
    c.check(t.domain() == std::make_pair(x[0], x[n - 1]), "domain", "the resampled table covers another interval");
    double prev = 0;
    for (int k = 0; k < m; ++k) {
        const double p = std::min(x[n - 1], x[0] + w * k / (m - 1)), v = t(p), tol = 1e-12 * (sc + steep * (std::fabs(x[0]) + std::fabs(x[n - 1])) * 10);
        c.check(std::fabs(v - f(p)) <= tol, "sample", "sample %d is %.17g, the cubic gives %.17g", k, v, f(p));
        if (k) c.check((kind == 2 ? prev - v : v - prev) >= -tol, "monotone", "resampled table is not monotone at sample %d", k);
        prev = v;
    }
    c.close(t(x[0]), y[0], 1e-12, sc, "ends", "left end"); c.close(t(x[n - 1]), y[n - 1], 1e-12, sc + ext, "ends", "right end");
}

void bad(Gen& g, Ctx& c)
{
    const int n = g.i(2, 6), kind = g.i(0, 2); V x = genX(g, n), y = genY(g, n, 0); bool th = false; c.nontrivial();
    try {
        switch (kind) {
        case 0: { const int k = g.i(1, n - 1); x[k] = x[k - 1] - g.real(0.01, 1) * (std::fabs(x[k - 1]) + 1e-3); show(c, "x", x); Opm::NonuniformTableLinear<double> t(x, y); break; }
        case 1: { const double a = g.real(-1, 1), b = g.b() ? a : a - g.real(0.1, 1); c.desc() << "[" << a << ", " << b << "]\n"; if (g.b()) Opm::UniformTableLinear<double> t(a, b, y); else Opm::UniformTableLinear<double> t(a, b, &y[0], n); break; }
        default: { const V z(g.i(0, 1), 2.0); c.desc() << z.size() << " values\n"; if (g.b() || z.empty()) Opm::UniformTableLinear<double> t(0, 1, z); else Opm::UniformTableLinear<double> t(0, 1, &z[0], (int) z.size()); break; }
        }
    } catch (const std::exception&) { th = true; }
    c.check(th, "accepted", "a table with %s was accepted", kind == 0 ? "decreasing arguments" : kind == 1 ? "an empty interval" : "fewer than two values");
}

} // namespace

pbt::Spec pbt::spec()
{
    return { "C10", "nonuniform: tables of 2-12 points over four magnitudes; evaluation, slope, inverse (strictly monotone values, both directions), rescaling in any order, and the free interpolation functions on increasing and decreasing arguments, at nodes, their floating point neighbours, inside and outside the range, against a direct long double evaluation; uniform: same with the closest-value policy, printing, policies; resample: resampled monotone cubic; bad: malformed tables must be refused. Non-trivial: at least three points.",
        { "arguments strictly increasing; inverse only for strictly monotone values", "relative spacing of neighbouring arguments at least 1e-7" },
        600000, 20000000, { { "nonuniform", 5, nonuniform }, { "uniform", 3, uniform }, { "resample", 2, resample }, { "bad", 1, bad } } };
}
