// C11: monotone cubic interpolation.
#include "pbt.hpp"
#include "config.h"
#include <fstream>
#include <memory>
#include <opm/core/utility/MonotCubicInterpolator.hpp>

using pbt::Gen; using pbt::Ctx;
typedef std::map<double, double> M;
typedef long double L;
typedef Opm::MonotCubicInterpolator I;

namespace {

template <class F> bool throws(F f) { try { f(); } catch (const char*) { return true; } catch (const std::exception&) { return true; } return false; }

void show(Ctx& c, const M& m) { for (auto& p : m) c.desc() << pbt::fmt("(%.17g, %.17g) ", p.first, p.second); c.desc() << "\n"; }

double genX(Gen& g, double mag) { return mag * (g.b() ? g.i(-8, 8) : g.real(-8, 8)); }
void genData(Gen& g, int n, std::vector<double>& x, std::vector<double>& y)
{
    const int kind = g.i(0, 4); const double mx = g.oneof({ 1., 1., 1e-5, 1e6 }), my = g.oneof({ 1., 1., 1e-3, 1e6 }); x.resize(n); y.resize(n); x[0] = mx * g.real(-3, 3); y[0] = my * g.real(-2, 2);
    for (int k = 1; k < n; ++k) {
        x[k] = x[k - 1] + mx * (g.p(1, 4) ? g.logreal(1e-4, 10) : g.real(0.1, 1)); const double d = my * (g.p(1, 4) ? g.logreal(1e-3, 10) : g.real(0.1, 1));
        const int s = kind == 0 ? 1 : kind == 1 ? -1 : kind == 2 ? g.i(0, 1) : kind == 3 ? -g.i(0, 1) : g.i(-1, 1);
        y[k] = y[k - 1] + s * d;
    }
}
struct Flags { bool mono, smono, inc, dec, sinc, sdec; };
Flags flags(const M& m)
{
    bool up = false, down = false, eq = false; auto a = m.begin(), b = a; ++b;
    for (; b != m.end(); ++a, ++b) { up = up || b->second > a->second; down = down || b->second < a->second; eq = eq || b->second == a->second; }
    Flags f; f.mono = !(up && down); f.smono = f.mono && !eq; f.inc = !down; f.dec = !up; f.sinc = f.smono && up; f.sdec = f.smono && down; return f;
}
// The derivatives the object reports, and the checks that apply to the data and them.
void compare(Gen& g, Ctx& c, I& f, const M& m)
{
    const int n = (int) m.size(); c.check(f.getSize() == n, "size", "%d data points, expected %d", f.getSize(), n);
    const std::vector<double> xs = f.get_xVector(), fs = f.get_fVector(); std::vector<double> x, y; for (auto& p : m) { x.push_back(p.first); y.push_back(p.second); }
    c.check(xs == x && fs == y, "data", "the data held differ from what was put in"); if (!n) return;
    double ymax = 0; for (double v : y) ymax = std::max(ymax, std::fabs(v));
    c.check(f.getMinimumX() == std::make_pair(x[0], y[0]) && f.getMaximumX() == std::make_pair(x[n - 1], y[n - 1]), "extremes", "extreme arguments differ");
    const double far = std::fabs(x[0]) + std::fabs(x[n - 1]) + 1; c.check(f(x[0] - far) == y[0] && f(x[n - 1] + far) == y[n - 1], "extrapolation", "not constant outside the range"); c.check(f.evaluate(std::nextafter(x[0], -1e300)) == y[0] && f.evaluate(std::nextafter(x[n - 1], 1e300)) == y[n - 1], "extrapolation", "not constant just outside the range");
    for (int k = 0; k < n; ++k) c.check(f(x[k]) == y[k], "node", "f(%.17g) = %.17g, data say %.17g", x[k], f(x[k]), y[k]);
    c.check(throws([&] { f(NAN); }) && throws([&] { f(INFINITY); }), "nan", "evaluation at nan or inf did not fail");
    if (n < 2) return;
    const Flags w = flags(m);
    const int order = g.i(0, 2); bool got[6]; for (int k = 0; k < 6; ++k) switch ((k + 2 * order) % 6) { case 0: got[0] = f.isMonotone(); break; case 1: got[1] = f.isStrictlyMonotone(); break; case 2: got[2] = f.isMonotoneIncreasing(); break; case 3: got[3] = f.isMonotoneDecreasing(); break; case 4: got[4] = f.isStrictlyIncreasing(); break; default: got[5] = f.isStrictlyDecreasing(); }
    c.check(got[0] == w.mono, "monotone", "isMonotone() = %d", got[0]); c.check(got[1] == w.smono, "monotone", "isStrictlyMonotone() = %d", got[1]);
    c.check(got[2] == w.inc && got[3] == w.dec, "monotone", "isMonotoneIncreasing/Decreasing() = %d %d, expected %d %d", got[2], got[3], w.inc, w.dec); c.check(got[4] == w.sinc && got[5] == w.sdec, "monotone", "isStrictlyIncreasing/Decreasing() = %d %d, expected %d %d", got[4], got[5], w.sinc, w.sdec);
    const std::pair<double, double> hi = f.getMaximumF(), lo = f.getMinimumF(); c.check(hi.second == *std::max_element(y.begin(), y.end()) && m.count(hi.first) && m.find(hi.first)->second == hi.second, "maximum", "maximum (%g, %g)", hi.first, hi.second); c.check(lo.second == *std::min_element(y.begin(), y.end()) && m.count(lo.first) && m.find(lo.first)->second == lo.second, "minimum", "minimum (%g, %g)", lo.first, lo.second);
    { const std::pair<double, double> q = f.getMissingX(); double best = 0; for (int k = 0; k + 1 < n; ++k) best = std::max(best, std::fabs(y[k + 1] - y[k])); bool ok = q.second == best, at = false; for (int k = 0; k + 1 < n; ++k) at = at || (std::fabs(y[k + 1] - y[k]) == best && std::fabs(q.first - 0.5 * (x[k] + x[k + 1])) <= 1e-15 * far); c.check(ok && at, "missing", "getMissingX() is (%.17g, %.17g), largest jump %.17g", q.first, q.second, best); }
    // derivatives as reported
    std::istringstream is(f.toString()); std::string l; std::vector<double> d; bool der = false; int rows = 0; while (std::getline(is, l)) { if (l[0] == 'D') { der = true; continue; } double a, b; c.check(std::sscanf(l.c_str(), "%lf %lf", &a, &b) == 2, "table", "line '%s'", l.c_str()); const int k = der ? (int) d.size() : rows; c.check(k < n && a == x[k] && (der || b == y[k]), "table", "printed row '%s'", l.c_str()); if (der) d.push_back(b); else ++rows; }
    c.check((int) d.size() == n && rows == n, "derivatives", "%d derivatives for %d points", (int) d.size(), n);
    std::vector<L> s(n - 1), sd(n); for (int k = 0; k + 1 < n; ++k) s[k] = ((L) y[k + 1] - y[k]) / ((L) x[k + 1] - x[k]);
    sd[0] = s[0]; sd[n - 1] = s[n - 2]; for (int k = 1; k + 1 < n; ++k) sd[k] = (s[k - 1] + s[k]) / 2;
    for (int k = 0; k < n; ++k) {
        double sc = 0; if (k) sc = std::max(sc, (std::fabs(y[k]) + std::fabs(y[k - 1])) / (x[k] - x[k - 1])); if (k + 1 < n) sc = std::max(sc, (std::fabs(y[k]) + std::fabs(y[k + 1])) / (x[k + 1] - x[k]));
        // Data that are not monotone, or whose plain derivatives already give a monotone curve, keep the plain derivatives.
        bool keep = true; if (w.mono) { keep = true; for (int j = 0; j + 1 < n; ++j) if (j >= k - 2 && j <= k + 1) { if (std::fabs((double) s[j]) < 1e-13 || (sd[j] * sd[j] + sd[j + 1] * sd[j + 1]) > (9 - 1e-9) * s[j] * s[j]) keep = false; } }
        if (keep) { c.close(d[k], (double) sd[k], 1e-12, sc, "derivative", "derivative at %.17g", x[k]); c.label("plain derivative"); }
        else { c.check(d[k] * (double) sd[k] >= 0 && std::fabs(d[k]) <= std::fabs((double) sd[k]) + 1e-12 * sc, "derivative", "derivative at %.17g is %.17g, the mean slope %.17g", x[k], d[k], (double) sd[k]); c.label("limited derivative"); }
    }
    // the curve: cubic with these end values and derivatives, hence C1; monotone where the data are
    for (int k = 0; k + 1 < n; ++k) {
        const L h = (L) x[k + 1] - x[k]; const double sc = std::fabs(y[k]) + std::fabs(y[k + 1]) + (std::fabs(d[k]) + std::fabs(d[k + 1])) * (double) h, ulp = 4e-16 * (std::fabs(x[k]) + std::fabs(x[k + 1])) / (double) h; double prev = y[k];
        const int ns = 6; std::vector<double> ts; for (int j = 0; j < ns; ++j) ts.push_back(g.b() ? (j + 1.0) / (ns + 1) : g.real(0, 1)); std::sort(ts.begin(), ts.end());
        for (int j = 0; j <= ns; ++j) {
            const double p = j == ns ? x[k + 1] : x[k] + ts[j] * (x[k + 1] - x[k]); if (p < x[k] || p > x[k + 1]) continue;
            const L t = ((L) p - x[k]) / h, t2 = t * t, t3 = t2 * t, v = (2 * t3 - 3 * t2 + 1) * y[k] + (t3 - 2 * t2 + t) * h * d[k] + (3 * t2 - 2 * t3) * y[k + 1] + (t3 - t2) * h * d[k + 1]; const double got = f(p), tol = (1e-13 + 8 * ulp) * sc;
            c.check(std::fabs(got - (double) v) <= tol, "curve", "f(%.17g) = %.17g, the Hermite cubic gives %.17g", p, got, (double) v);
            if (w.mono) c.check(w.inc ? got >= prev - 2 * tol : got <= prev + 2 * tol, "monotone curve", "data are monotone, the curve is not: f(%.17g) = %.17g after %.17g", p, got, prev); prev = got;
        }
        if (w.mono) {   // the sign of the derivative over the whole interval
            const L a = 3 * (d[k] + d[k + 1] - 2 * s[k]), b = 2 * (3 * s[k] - 2 * (L) d[k] - d[k + 1]), e = d[k], sg = w.inc ? 1 : -1; const L tol = 1e-11L * (fabsl(a) + fabsl(b) + fabsl(e) + fabsl(s[k])) + 1e-14L;
            L worst = std::min(sg * e, sg * (a + b + e)); if (a != 0) { const L t = -b / (2 * a); if (t > 0 && t < 1) worst = std::min(worst, sg * (a * t * t + b * t + e)); } c.check(worst >= -tol, "monotone curve", "the slope changes sign between %.17g and %.17g (%g)", x[k], x[k + 1], (double) worst);
        }
    }
    c.label(w.smono ? "strictly monotone" : w.mono ? "monotone" : "not monotone"); c.label("constant", w.inc && w.dec);
}

bool load(Gen& g, Ctx& c, I& f, M& m)
{
    const std::string name = pbt::scratch() + "/data.txt"; const bool cols = g.b(); const int xc = cols ? g.i(1, 3) : 1, fc = cols ? (xc % 3) + 1 : 2, ncol = std::max(xc, fc); M r; std::ostringstream o; const int n = g.size(0, 8);
    for (int k = 0; k < n; ++k) switch (g.i(0, 7)) {
    case 0: o << "# comment 1 2 3\n"; break;
    case 1: o << "\n"; break;
    case 2: { const int nc = g.i(1, ncol - 1); for (int j = 0; j < nc; ++j) o << g.i(0, 9) << " "; o << "\n"; c.label("short line"); break; }
    case 3: o << "text 1 2 3\n"; c.label("text line"); break;
    case 4: { const int nc = g.i(1, ncol - 1); for (int j = 0; j < nc; ++j) o << g.i(0, 9) << " "; o << "x y\n"; c.label("text line"); break; }
    default: { double row[4]; const int nc = g.i(ncol, 4); for (int j = 0; j < nc; ++j) { row[j] = g.b() ? g.i(-9, 9) : g.real(-9, 9); o << (j ? g.oneof({ ", ", ",", "  ", " ,", "\t" }) : g.b() ? "" : " ") << pbt::fmt("%.17g", row[j]); } if (g.p(1, 5)) o << " note"; o << "\n"; r[row[xc - 1]] = row[fc - 1]; }
    }
    std::string t = o.str(); if (g.b() && !t.empty()) t.resize(t.size() - 1);
    { std::ofstream fo(name.c_str()); fo << t; } c.desc() << "read columns " << xc << ", " << fc << " of\n" << t << "\n";
    const bool ok = cols ? f.read(name, xc, fc) : f.read(name); c.check(ok == !r.empty(), "read", "reading a file with %d rows %s", (int) r.size(), ok ? "succeeded" : "failed"); c.label("file");
    const bool th = throws([&] { if (cols) I h(name, xc, fc); else I h(name); }); c.check(th == r.empty(), "read", "construction from a file with %d rows %s", (int) r.size(), th ? "failed" : "succeeded");
    m = r; return ok;
}

void history(Gen& g, Ctx& c)
{
    M m; std::unique_ptr<I> f; std::vector<double> x, y; genData(g, g.b() ? g.i(2, 4) : g.i(2, 10), x, y);
    { std::vector<int> p = g.perm((int) x.size()); std::vector<double> a, b; for (int k : p) { a.push_back(x[k]); b.push_back(y[k]); m[x[k]] = y[k]; } f.reset(new I(a, b)); }
    show(c, m); c.nontrivial(m.size() >= 3); compare(g, c, *f, m); const int n = g.i(0, 6);
    for (int k = 0; k < n; ++k) {
        switch (g.i(0, 6)) {
        case 0: case 1: { const double px = g.b() && !m.empty() ? std::next(m.begin(), g.i(0, (int) m.size() - 1))->first : m.empty() ? g.real(-3, 3) : m.begin()->first + g.real(-0.3, 1.3) * (m.rbegin()->first - m.begin()->first + 1e-3), py = g.b() && !m.empty() ? std::next(m.begin(), g.i(0, (int) m.size() - 1))->second : g.real(-3, 3);
            bool near = false; for (auto& q : m) near = near || (q.first != px && std::fabs(q.first - px) < 1e-9 * (std::fabs(px) + std::fabs(q.first))); if (near) break;
            c.desc() << pbt::fmt("add (%.17g, %.17g)\n", px, py); f->addPair(px, py); m[px] = py; c.label("pair added"); c.check(throws([&] { f->addPair(NAN, 1); }) && throws([&] { f->addPair(1, INFINITY); }), "nan", "a pair with nan or inf was added"); break; }
        case 2: { const double s = g.oneof({ -1., 2., 0.25, -3.5, 0. }); c.desc() << "scale by " << s << "\n"; f->scaleData(s); for (auto& q : m) q.second *= s; c.label("scaled"); break; }
        case 3: { const double eps = g.b() ? 1e-14 : g.oneof({ 0.1, 1., 1e3 }); c.desc() << "chop " << eps << "\n"; const bool dflt = eps == 1e-14 && g.b(); if (dflt) f->chopFlatEndpoints(); else f->chopFlatEndpoints(eps);
            if (m.size() >= 3) { const M old = m; while (m.size() > 1 && std::fabs(m.begin()->second - std::next(m.begin())->second) < eps) m.erase(m.begin()); if (m.size() == 1) { m.clear(); const std::vector<double> a = f->get_xVector(), b = f->get_fVector(); c.check(!a.empty(), "chop", "no data left"); for (size_t j = 0; j < a.size(); ++j) { c.check(old.count(a[j]) && old.find(a[j])->second == b[j], "chop", "new data appeared"); m[a[j]] = b[j]; } c.label("all flat"); } else while (m.size() > 2 && std::fabs(m.rbegin()->second - std::next(m.rbegin())->second) < eps) m.erase(std::prev(m.end())); c.label("chopped", m.size() < old.size()); } break; }
        case 4: { const Flags w = m.size() > 1 ? flags(m) : Flags(); const double eps = 1e-14; c.desc() << "shrink\n"; const bool dflt = g.b(); if (dflt) f->shrinkFlatAreas(); else f->shrinkFlatAreas(eps);
            if (m.size() >= 2 && w.mono && !w.smono) { M r; size_t want = 0; double last = 0; for (auto& q : m) { if (!want || std::fabs(q.second - last) >= eps) { ++want; last = q.second; } } const std::vector<double> a = f->get_xVector(), b = f->get_fVector(); for (size_t j = 0; j < a.size(); ++j) { c.check(m.count(a[j]) && m[a[j]] == b[j], "shrink", "new data appeared"); if (j) c.check(b[j] != b[j - 1], "shrink", "flat area left"); r[a[j]] = b[j]; } c.check(a.size() == want, "shrink", "%d points left, expected %d", (int) a.size(), (int) want); m = r; c.label("shrunk"); } break; }
        case 5: { if (load(g, c, *f, m)) {} else { f.reset(new I); m.clear(); } break; }
        default: { I h(*f); f.reset(new I(h)); break; }
        }
        compare(g, c, *f, m);
        if (m.size() < 2) break;
    }
}
void bad(Gen& g, Ctx& c)
{
    const int n = g.i(0, 4), k = g.i(0, 4); c.desc() << n << " and " << k << " values\n"; c.nontrivial(); if (n == k) throw pbt::Discard();
    std::vector<double> x(n), y(k); for (int i = 0; i < n; ++i) x[i] = i; c.check(throws([&] { I f(x, y); }), "mismatch", "vectors of different length were accepted");
    I f; c.check(!f.read(pbt::scratch() + "/nosuch.txt"), "missing file", "a missing file was read"); c.check(throws([&] { I h(pbt::scratch() + "/nosuch.txt"); }), "missing file", "constructed from a missing file");
}

} // namespace

pbt::Spec pbt::spec()
{
    return { "C11", "history: 2-10 points (monotone up/down, with and without flat parts, not monotone; four magnitudes), then up to six edits (add/replace pair, scale incl. negative and zero, chop, shrink, read from file with comments, short and non-numeric lines, copy); after each, nodes, extrapolation, flags, extremes, reported derivatives, the Hermite cubic at 7 points per interval and the sign of its derivative over each interval are checked; bad: mismatched vectors, missing files. Non-trivial: at least three points.",
        { "flat areas differ from others by more than the tolerance used for shrinking", "monotonicity queries need two data points" },
        150000, 5000000, { { "history", 12, history }, { "bad", 1, bad } } };
}
