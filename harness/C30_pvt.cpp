// C30: fluid property tables: volumes, viscosities, dissolution ratios and their derivatives.
#include "common.hpp"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/props/BlackoilPhases.hpp>
#include <opm/core/props/BlackoilPropertiesBasic.hpp>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/props/pvt/BlackoilPvtProperties.hpp>
#include <opm/core/props/pvt/PvtPropertiesBasic.hpp>
#include <opm/core/props/pvt/PvtPropertiesIncompFromDeck.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <iostream>
#include <sstream>
typedef long double LD;
namespace {
struct Quiet { std::ostringstream o; std::streambuf *a, *b; Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
std::string num(double x) { return pbt::fmt("%.17g", x); }
const double bar = 1e5, cP = 1e-3;
typedef std::vector<double> V;

// piecewise linear through (x, y), first and last piece extended
LD lin(const V& x, const std::vector<LD>& y, LD p) { size_t k = 0; while (k + 2 < x.size() && p >= x[k + 1]) ++k; return y[k] + (y[k + 1] - y[k]) * (p - x[k]) / ((LD) x[k + 1] - x[k]); }

struct Table {                       // deck units are METRIC, stored in SI
    int kind = 0;                    // 0 constant, 1 dead, 2 live
    bool oil = true; int samples = 0;
    double ref[5];                   // constant: pressure, volume factor, compressibility, viscosity, viscosibility
    V p; std::vector<LD> b, mu;      // dead: 1/B and viscosity
    V R; std::vector<V> ux; std::vector<std::vector<LD> > uv, um;   // live: per record the second argument, 1/B (oil) or B (gas), viscosity
    std::vector<char> given;         // oil: record has undersaturated data
    std::vector<LD> sat(int item) const { std::vector<LD> v; for (size_t i = 0; i < R.size(); ++i) v.push_back(item ? um[i][0] : uv[i][0]); return v; }
    std::vector<LD> Rl() const { return std::vector<LD>(R.begin(), R.end()); }
    LD satR(LD q) const { return lin(p, Rl(), q); }
    LD slope(int i, int item, LD q) const { const std::vector<LD>& y = item ? um[i] : uv[i]; size_t k = 0; while (k + 2 < ux[i].size() && q >= ux[i][k + 1]) ++k; return (y[k + 1] - y[k]) / ((LD) ux[i][k + 1] - ux[i][k]); }
    LD oilRecord(int i, int item, LD q) const // undersaturated curve of record i at pressure q
    {
        const LD y0 = item ? um[i][0] : uv[i][0];
        if (given[i]) return lin(ux[i], item ? um[i] : uv[i], q);
        int a = i - 1, c = i + 1; while (a >= 0 && !given[a]) --a; while (!given[c]) ++c;
        const LD w = a >= 0 ? ((LD) R[i] - R[a]) / ((LD) R[c] - R[a]) : 1;
        auto sl = [&](LD t) { const LD s = slope(c, item, t); return a < 0 ? s : slope(a, item, t) + w * (s - slope(a, item, t)); };
        std::vector<LD> br(1, p[i]); for (int r : { a, c }) if (r >= 0) for (double t : ux[r]) if (t > p[i] + 1 && t < q) br.push_back(t);
        if (q <= p[i]) { LD first = 1e300L; for (int r : { a, c }) if (r >= 0) for (double t : ux[r]) if (t > p[i] + 1) first = std::min(first, (LD) t); return y0 + (q - p[i]) * sl(((LD) p[i] + first) / 2); }
        br.push_back(q); std::sort(br.begin(), br.end()); LD y = y0; for (size_t k = 0; k + 1 < br.size(); ++k) y += (br[k + 1] - br[k]) * sl((br[k] + br[k + 1]) / 2); return y;
    }
    LD gasRecord(int i, int item, LD r) const { const std::vector<LD>& y = item ? um[i] : uv[i]; if (y.size() == 1) return y[0]; std::vector<LD> yr(y.rbegin(), y.rend()); V xr(ux[i].rbegin(), ux[i].rend()); return lin(xr, yr, r); }
    // near: the point is too close to the saturation curve to tell the sides apart
    bool saturated(LD q, LD ratio, bool& near) const { const LD s = satR(q); near = std::fabs(s - ratio) <= 1e-12L * (std::fabs(s) + std::fabs((LD) R.back()) + std::fabs((LD) R[0])); return s < ratio; }
    LD under(int item, LD q, LD ratio) const
    {
        int k = 0; const int n = R.size();
        if (oil) { while (k + 2 < n && ratio >= R[k + 1]) ++k; const LD w = (ratio - R[k]) / ((LD) R[k + 1] - R[k]), y0 = oilRecord(k, item, q), y1 = oilRecord(k + 1, item, q); return y0 + w * (y1 - y0); }
        while (k + 2 < n && q >= p[k + 1]) ++k;
        const LD w = (q - p[k]) / ((LD) p[k + 1] - p[k]), y0 = gasRecord(k, item, ratio), y1 = gasRecord(k + 1, item, ratio); return y0 + w * (y1 - y0);
    }
    LD live(int item, LD q, LD ratio, bool satd) const { return satd ? lin(p, sat(item), q) : under(item, q, ratio); }
};
void pressures(Gen& g, V& p, int n, double lo) { double x = lo; p.clear(); for (int i = 0; i < n; ++i) { p.push_back(std::floor(x)); x += g.b() ? g.i(1, 50) * bar : g.real(0.1, 100) * bar; } }

Table constant(Gen& g, std::ostream& o, const char* kw, bool oil) { Table t; t.oil = oil; t.ref[0] = g.i(0, 400) * bar; t.ref[1] = g.real(0.8, 1.5); t.ref[2] = g.b() ? 0 : g.logreal(1e-6, 1e-3) / bar; t.ref[3] = g.logreal(0.1, 50) * cP; t.ref[4] = g.b() ? 0 : g.logreal(1e-6, 1e-3) / bar; o << kw << "\n " << num(t.ref[0] / bar) << ' ' << num(t.ref[1]) << ' ' << num(t.ref[2] * bar) << ' ' << num(t.ref[3] / cP) << ' ' << num(t.ref[4] * bar) << " /\n"; return t; }
Table dead(Gen& g, std::ostream& o, bool oil, int samples)
{
    Table t; t.kind = 1; t.oil = oil; t.samples = samples; const int n = g.p(1, 5) ? g.i(9, 14) : g.size(2, 8); pressures(g, t.p, n, g.b() ? bar : g.real(1, 200) * bar); double B = oil ? g.real(1, 2) : g.real(0.05, 1), m = g.logreal(oil ? 0.2 : 0.01, oil ? 20 : 0.1);
    o << (oil ? "PVDO\n" : "PVDG\n"); for (int i = 0; i < n; ++i) { t.b.push_back(1 / (LD) B); t.mu.push_back((LD) m * cP); o << ' ' << num(t.p[i] / bar) << ' ' << num(B) << ' ' << num(m) << (i + 1 < n ? "\n" : " /\n"); B *= g.p(1, 8) ? 1 : oil ? g.real(0.9, 0.999) : g.real(0.3, 0.95); m *= g.p(1, 8) ? 1 : g.real(1.001, 1.5); }
    return t;
}
Table liveOil(Gen& g, std::ostream& o, int bad)
{
    Table t; t.kind = 2; const int n = bad == 2 ? 1 : g.size(2, 6); pressures(g, t.p, n, g.b() ? bar : g.real(1, 100) * bar); double R = g.b() ? 0 : g.real(0.1, 20), B = g.real(1.0, 1.2), m = g.real(0.3, 5); const bool parallel = g.p(1, 4);
    o << "PVTO\n"; V steps; std::vector<double> fb, fm;
    for (int i = 0; i < n; ++i) {
        t.R.push_back(R); t.ux.push_back(V(1, t.p[i])); t.uv.push_back(std::vector<LD>(1, 1 / (LD) B)); t.um.push_back(std::vector<LD>(1, (LD) m * cP)); o << ' ' << num(R) << ' ' << num(t.p[i] / bar) << ' ' << num(B) << ' ' << num(m);
        const int k = bad == 1 && i + 1 == n ? 0 : i + 1 == n ? g.i(1, 4) : g.b() ? 0 : g.i(1, 4); double q = t.p[i], b = B, u = m; t.given.push_back(k > 0);
        for (int j = 0; j < k; ++j) { q += parallel ? 40 * bar : std::floor(g.real(1, 120) * bar); b *= g.real(0.95, 1); u *= g.real(1, 1.2); t.ux[i].push_back(q); t.uv[i].push_back(1 / (LD) b); t.um[i].push_back((LD) u * cP); o << "\n    " << num(q / bar) << ' ' << num(b) << ' ' << num(u); }
        o << " /\n"; R += g.b() ? g.i(1, 60) : g.real(0.5, 60); B *= g.real(1.01, 1.2); m *= g.real(0.6, 0.99);
    }
    o << "/\n"; return t;
}
Table liveGas(Gen& g, std::ostream& o, int bad)
{
    Table t; t.kind = 2; t.oil = false; const int n = bad == 2 ? 1 : g.size(2, 6), full = g.i(0, 2); pressures(g, t.p, n, g.b() ? bar : g.real(1, 200) * bar); double R = g.real(1e-6, 1e-4), B = g.real(0.01, 0.1), m = g.real(0.01, 0.03);
    o << "PVTG\n";
    for (int i = 0; i < n; ++i) {
        t.R.push_back(R); t.ux.push_back(V(1, R)); t.uv.push_back(std::vector<LD>(1, B)); t.um.push_back(std::vector<LD>(1, (LD) m * cP)); o << ' ' << num(t.p[i] / bar) << ' ' << num(R) << ' ' << num(B) << ' ' << num(m);
        const int k = full == 0 ? g.i(1, 3) : full == 1 ? 0 : g.i(0, 2); double r = R, b = B, u = m;
        for (int j = 0; j < k; ++j) { r = j + 1 == k ? (g.b() ? 0 : r * 0.3) : r * g.real(0.3, 0.9); b *= g.real(0.95, 1.05); u *= g.real(0.9, 1.1); t.ux[i].push_back(r); t.uv[i].push_back(b); t.um[i].push_back((LD) u * cP); o << "\n    " << num(r) << ' ' << num(b) << ' ' << num(u); }
        o << " /\n"; R *= g.real(1.05, 4); B *= g.real(0.4, 0.95); m *= g.real(1.01, 1.5);
    }
    o << "/\n"; return t;
}

void read(Opm::EclipseGridParser& P, const std::string& text) { std::istringstream is(text); P.read(is); }
struct Deck { std::string text; int np, pos[3]; bool used[3]; Table t[3]; double rho[3]; };   // water, oil, gas
Deck genDeck(Gen& g, int samples, int bad = 0)
{
    Deck d; std::ostringstream o; const int ph = g.i(0, 2); d.used[0] = ph != 1; d.used[1] = true; d.used[2] = ph != 0; if (bad && !d.used[2] && bad > 2) throw pbt::Discard(); d.np = 0; for (int q = 0; q < 3; ++q) { d.pos[q] = d.np; d.np += d.used[q]; }
    o << "METRIC\n" << (d.used[0] ? "WATER\n" : "") << "OIL\n" << (d.used[2] ? "GAS\n" : ""); for (double& r : d.rho) r = g.real(0.5, 1200); o << "DENSITY\n " << num(d.rho[1]) << ' ' << num(d.rho[0]) << ' ' << num(d.rho[2]) << " /\n";
    if (d.used[0]) { if (g.p(3, 4)) d.t[0] = constant(g, o, "PVTW", false); else { Table& t = d.t[0]; t.ref[0] = t.ref[2] = t.ref[4] = 0; t.ref[1] = 1; t.ref[3] = 0.5 * cP; } }
    const int ok = bad == 1 || bad == 2 ? 2 : g.i(0, 3); if (ok == 0) d.t[1] = constant(g, o, "PVCDO", true); else if (ok == 1 || !d.used[2]) { if (bad == 1 || bad == 2) throw pbt::Discard(); d.t[1] = dead(g, o, true, samples); } else d.t[1] = liveOil(g, o, bad);
    if (d.used[2]) { if (bad == 3 || g.b()) d.t[2] = liveGas(g, o, bad == 3 ? 2 : 0); else d.t[2] = dead(g, o, false, samples); }
    if (d.used[0]) o << "SWOF\n 0.1 0 1 0\n 1 1 0 0 /\n"; if (d.used[2]) o << "SGOF\n 0 0 1 0\n " << (d.used[0] ? "0.9" : "1") << " 1 0 0 /\n";
    d.text = o.str(); return d;
}

struct Want { LD B, mu, R; bool near; };
// expected B, mu, R of one phase; ratio: the other component's surface volume over its own
Want eval(const Table& t, LD p, LD ratio, bool other, int side)
{
    Want w = { 1, 0, 0, false };
    if (t.kind == 0) { const LD x = (LD) t.ref[2] * (p - t.ref[0]), y = -(LD) t.ref[4] * (p - t.ref[0]); w.B = t.ref[1] / (1 + x + x * x / 2); w.mu = t.ref[3] / (1 + y + y * y / 2); }
    else if (t.kind == 1) { w.B = 1 / lin(t.p, t.b, p); w.mu = lin(t.p, t.mu, p); }
    else { bool s = t.saturated(p, ratio, w.near); if (side >= 0) s = side; const LD v = t.live(0, p, ratio, s); w.B = t.oil ? 1 / v : v; w.mu = t.live(1, p, ratio, s); w.R = !other ? 0 : s ? t.satR(p) : ratio; }
    return w;
}
double pick(Gen& g, const Table& t)
{
    if (t.kind == 0) return g.b() ? t.ref[0] : g.real(0, 600) * bar;
    const double a = t.p[0]; double b = t.p.back(); if (t.kind == 2 && t.oil && g.b()) b = t.ux.back().back();
    return g.p(1, 3) ? t.p[g.i(0, (int) t.p.size() - 1)] : g.p(1, 10) && t.oil && t.kind == 2 ? t.ux[g.i(0, (int) t.ux.size() - 1)].back() : g.real(a, b);
}
double ratioFor(Gen& g, const Table& t, double p)
{
    const double s = (double) t.satR(p), top = p > t.p.back() ? t.R.back() : s;
    switch (g.i(0, 4)) { case 0: return 0; case 1: if (p <= t.p.back()) return s * g.real(1.001, 5) + 1e-9; return top; case 2: { const double r = t.R[g.i(0, (int) t.R.size() - 1)]; return r <= top ? r : top; } case 3: return g.real(t.oil ? 0 : std::min(top, 1e-9), top * 0.999); default: return top * g.real(0, 1); }
}

// values of B, mu, R and derivatives of a set of points
struct Point { double p; double z[3]; bool inside[3]; double ratio[3]; };
void values(Gen& g, Ctx& c)
{
    const int samples = 0; const Deck d = genDeck(g, samples); c.desc() << d.text; Quiet quiet; Opm::EclipseGridParser P; read(P, d.text); GridPtr G(create_grid_cart2d(1, 1, 1, 1)); Opm::parameter::ParameterGroup par; par.disableOutput(); par.insertParameter("pvt_tab_size", "0"); par.insertParameter("sat_tab_size", g.b() ? "0" : "10");
    const int np = d.np; Opm::BlackoilPropertiesFromDeck F(P, *G, par, false); Opm::BlackoilPvtProperties T; T.init(P, samples);
    c.check(T.numPhases() == np && F.numPhases() == np, "phases", "%d phases instead of %d", T.numPhases(), np); for (int q = 0; q < 3; ++q) { c.check((T.phaseUsed()[q] != 0) == d.used[q] && (!d.used[q] || T.phasePosition()[q] == d.pos[q]), "phases", "phase %d", q); if (d.used[q]) c.check(F.surfaceDensity()[d.pos[q]] == d.rho[q] && T.surfaceDensities()[d.pos[q]] == d.rho[q], "surface-density", "phase %d: %g instead of %g", q, F.surfaceDensity()[d.pos[q]], d.rho[q]); }
    int live = 0; for (int q = 0; q < 3; ++q) if (d.used[q] && d.t[q].kind == 2) ++live; c.nontrivial(d.t[1].kind || (d.used[2])); c.label("live-oil", d.t[1].kind == 2); c.label("live-gas", d.used[2] && d.t[2].kind == 2);
    const int n = g.i(1, 6); std::vector<Point> pt(n); V p, z; std::vector<int> cells(n, 0);
    for (Point& x : pt) {
        const int lead = live == 2 ? g.i(1, 2) : d.t[1].kind == 2 ? 1 : d.used[2] && d.t[2].kind == 2 ? 2 : d.used[2] ? g.i(1, 2) : g.i(0, 1);
        x.p = pick(g, d.t[lead]); x.z[0] = g.p(1, 3) ? 0 : g.real(0, 1); x.z[1] = x.z[2] = 0; double own = g.logreal(1e-3, 10);
        if (g.p(1, 12)) own = 0; // neither oil nor gas
        if (d.t[lead].kind == 2) { x.z[lead] = own; x.z[3 - lead] = own * ratioFor(g, d.t[lead], x.p); } else { x.z[1] = own; x.z[2] = own ? g.real(0, 1) : 0; }
        for (int q = 1; q < 3; ++q) { const Table& t = d.t[q]; x.inside[q] = d.used[q] && x.z[q] > 0; x.ratio[q] = x.z[q] > 0 ? x.z[3 - q] / x.z[q] : 0; if (d.used[q] && t.kind) { const double hi = t.kind == 2 && t.oil ? t.ux.back().back() : t.p.back(); if (x.p < t.p[0] || x.p > hi || (t.kind == 2 && x.p > t.p.back() && x.ratio[q] > t.R.back())) x.inside[q] = false; } } x.inside[0] = true;
        p.push_back(x.p); for (int q = 0; q < 3; ++q) if (d.used[q]) z.push_back(x.z[q]);
    }
    auto all = [&](const V& pp, V& B, V& dB, V& R, V& dR, V& mu) { B.assign(n * np, 7); dB = R = dR = mu = B; V B2 = B, R2 = B; T.B(n, &pp[0], &z[0], &B[0]); T.R(n, &pp[0], &z[0], &R[0]); T.mu(n, &pp[0], &z[0], &mu[0]); T.dBdp(n, &pp[0], &z[0], &B2[0], &dB[0]); T.dRdp(n, &pp[0], &z[0], &R2[0], &dR[0]); for (int i = 0; i < n * np; ++i) c.check(B[i] == B2[i] && R[i] == R2[i], "consistent", "entry %d: volume factors %.17g, %.17g, ratios %.17g, %.17g", i, B[i], B2[i], R[i], R2[i]); };
    V B, dB, R, dR, mu, A(n * np * np), dA(n * np * np), A2(n * np * np), m2(n * np), rho(n * np); all(p, B, dB, R, dR, mu);
    F.matrix(n, &p[0], &z[0], &cells[0], &A[0], 0); F.matrix(n, &p[0], &z[0], &cells[0], &A2[0], &dA[0]); F.viscosity(n, &p[0], &z[0], &cells[0], &m2[0], 0); F.density(n, &A[0], &rho[0]); c.check(A == A2, "consistent", "the matrix depends on whether derivatives are wanted");
    for (int i = 0; i < n; ++i) for (int q = 0; q < 3; ++q) {
        if (!d.used[q]) continue; const Point& x = pt[i]; const int k = np * i + d.pos[q]; const Table& t = d.t[q];
        c.check(std::isfinite(B[k]) && std::isfinite(mu[k]) && std::isfinite(R[k]), "finite", "phase %d at %g bar with z %g %g %g: B %g, mu %g, R %g", q, x.p / bar, x.z[0], x.z[1], x.z[2], B[k], mu[k], R[k]);
        c.check(m2[k] == mu[k], "consistent", "viscosity %.17g against %.17g", m2[k], mu[k]);
        if (t.kind != 2 ? q > 0 || t.kind == 0 : x.z[3 - q] == 0) c.check(R[k] == 0 && dR[k] == 0, "nothing-dissolved", "phase %d at %g bar with z %g %g %g: ratio %g, derivative %g", q, x.p / bar, x.z[0], x.z[1], x.z[2], R[k], dR[k]);
        if (q == 2 && t.kind == 2 && x.z[2] == 0) c.check(B[k] == 1 && dB[k] == 0, "no-gas", "live gas at %g bar without gas: volume factor %g, derivative %g", x.p / bar, B[k], dB[k]);
        if (!x.inside[q]) continue;
        Want w = eval(t, x.p, x.ratio[q], x.z[q ? 3 - q : 0] > 0, -1); const bool other = q && x.z[3 - q] > 0;
        auto ok = [&](const Want& v) { return std::fabs(B[k] - v.B) <= 1e-11L * std::fabs(v.B) && std::fabs(mu[k] - v.mu) <= 1e-11L * std::fabs(v.mu) && std::fabs(R[k] - v.R) <= 1e-11L * (std::fabs(v.R) + (t.kind == 2 ? t.R.back() : 0)); };
        if (!(ok(w) || (w.near && (ok(eval(t, x.p, x.ratio[q], other, 0)) || ok(eval(t, x.p, x.ratio[q], other, 1)))))) c.fail("value", "phase %d at %.17g Pa, ratio %.17g: B %.15g mu %.15g R %.15g instead of %.15Lg %.15Lg %.15Lg", q, x.p, x.ratio[q], B[k], mu[k], R[k], w.B, w.mu, w.R);
        if (t.kind == 2) { bool nr; c.label(t.saturated(x.p, x.ratio[q], nr) ? "saturated" : "undersaturated"); }
    }
    // matrix and density
    for (int i = 0; i < n; ++i) {
        const double* a = &A[i * np * np]; const int o = d.pos[1], v = d.pos[2];
        for (int r = 0; r < np; ++r) for (int q = 0; q < np; ++q) { const double b = B[i * np + q]; double want = r == q ? 1 / b : 0; if (d.used[2] && ((r == o && q == v) || (r == v && q == o))) want = R[i * np + q] / b; c.close(a[r + np * q], want, 1e-14, std::fabs(want), "matrix", "point %d: entry (%d,%d)", i, r, q); }
        for (int q = 0; q < np; ++q) { LD s = 0, m = 0; for (int r = 0; r < np; ++r) s += (LD) a[r + np * q] * F.surfaceDensity()[r], m += std::fabs((LD) a[r + np * q] * F.surfaceDensity()[r]); c.check(std::fabs(rho[np * i + q] - s) <= 1e-14L * m, "density", "point %d phase %d: %.15g instead of %.15Lg", i, q, rho[np * i + q], s); }
    }
    // derivatives: the reported values are piecewise smooth in p; compare with their differences where no kink is near
    for (int i = 0; i < n; ++i) {
        const Point& x = pt[i]; const double h = 500; bool smooth = true; V brk; for (int q = 1; q < 3; ++q) if (d.used[q] && !x.inside[q]) smooth = false;
        for (int q = 1; q < 3; ++q) if (d.used[q] && d.t[q].kind) { const Table& t = d.t[q]; brk.insert(brk.end(), t.p.begin(), t.p.end()); if (t.kind == 2 && t.oil) for (const V& u : t.ux) brk.insert(brk.end(), u.begin(), u.end()); if (t.kind == 2 && x.z[q] > 0) { bool n1, n2; if (t.saturated(x.p - 2 * h, x.ratio[q], n1) != t.saturated(x.p + 2 * h, x.ratio[q], n2) || n1 || n2) smooth = false; } }
        for (double b : brk) if (std::fabs(b - x.p) < 3 * h) smooth = false; if (!smooth) continue;
        V pa(p), pb(p), Ba, Bb, Ra, Rb, t1, t2, t3; pa[i] -= h; pb[i] += h; all(pa, Ba, t1, Ra, t2, t3); all(pb, Bb, t1, Rb, t2, t3); c.label("derivative");
        for (int q = 1; q < 3; ++q) {
            if (!d.used[q]) continue; const int k = np * i + d.pos[q]; if (!x.inside[q]) continue;
            const double e1 = (1 / Bb[k] - 1 / Ba[k]) / (2 * h), got = -dB[k] / (B[k] * B[k]), e2 = (Bb[k] - Ba[k]) / (2 * h), e3 = (Rb[k] - Ra[k]) / (2 * h);
            const bool inv = d.t[q].kind != 2 || d.t[q].oil; const double err = inv ? std::fabs(got - e1) : std::fabs(dB[k] - e2), sc = inv ? std::fabs(e1) : std::fabs(e2), v = inv ? 1 / B[k] : B[k];
            c.check(err <= 1e-8 * sc + 1e-14 * std::fabs(v) / h * 4, "derivative", "phase %d at %.17g Pa: dB/dp %.12g, from values %.12g", q, x.p, dB[k], inv ? -e1 * B[k] * B[k] : e2);
            c.check(std::fabs(dR[k] - e3) <= 1e-8 * std::fabs(e3) + 1e-14 * std::fabs(R[k]) / h * 4, "derivative", "phase %d at %.17g Pa: dR/dp %.12g, from values %.12g", q, x.p, dR[k], e3);
        }
        for (int r = 0; r < np; ++r) for (int q = 0; q < np; ++q) { const int k = np * np * i + r + np * q, s = np * i + q; const bool off = d.used[2] && ((r == d.pos[1] && q == d.pos[2]) || (r == d.pos[2] && q == d.pos[1])); const double b = B[s], ab = std::fabs(b), e = r == q ? -dB[s] / (b * b) : off ? (dR[s] - R[s] * dB[s] / b) / b : 0, sc = r == q ? std::fabs(e) : off ? (std::fabs(dR[s]) + std::fabs(R[s] * dB[s] / b)) / ab : 0; c.check(std::fabs(dA[k] - e) <= 1e-12 * sc, "matrix-derivative", "entry (%d,%d) at %.17g Pa: %.17g, from the other values %.17g", r, q, x.p, dA[k], e); }
    }
    if (d.used[0]) for (int i = 0; i < n; ++i) { const int k = np * i; const Table& t = d.t[0]; const LD X = (LD) t.ref[2] * (p[i] - t.ref[0]), D = 1 + X + X * X / 2, want = -t.ref[1] / (D * D) * (1 + X) * t.ref[2]; c.check(std::fabs(dB[k] - want) <= 1e-12L * std::fabs(want) && dR[k] == 0 && R[k] == 0, "derivative", "water: dB/dp %.15g instead of %.15Lg", dB[k], want); }
}

// tables sampled from monotone splines stay within the data and close to it
void spline(Gen& g, Ctx& c)
{
    Deck d = genDeck(g, g.i(20, 1000)); if (d.t[1].kind != 1 && !(d.used[2] && d.t[2].kind == 1)) throw pbt::Discard(); c.desc() << d.text; Quiet quiet; Opm::EclipseGridParser P; read(P, d.text); Opm::BlackoilPvtProperties T; const int samples = d.t[1].kind == 1 ? d.t[1].samples : d.t[2].samples; T.init(P, samples); c.desc() << samples << " samples"; c.nontrivial();
    for (int q = 1; q < 3; ++q) if (d.used[q] && d.t[q].kind == 1) {
        const Table& t = d.t[q]; const int np = d.np, pos = d.pos[q], m = t.p.size(); const double h = (t.p[m - 1] - t.p[0]) / (samples - 1); V z(np, 1.0), B(np), dB(np), mu(np), R(np), dR(np); double pad = 0;
        auto bounds = [&](const std::vector<LD>& y, double p, LD& lo, LD& hi) { int a = 0, b = m - 1; while (a + 1 < m && t.p[a + 1] <= p - h) ++a; while (b > 0 && t.p[b - 1] >= p + h) --b; lo = std::min(y[a], y[b]); hi = std::max(y[a], y[b]); };
        for (int k = 0; k < 10; ++k) {
            const int node = g.i(0, m - 1); const bool at = g.p(1, 3); const double p = at ? t.p[node] : g.real(t.p[0], t.p[m - 1]); T.dBdp(1, &p, &z[0], &B[0], &dB[0]); T.mu(1, &p, &z[0], &mu[0]); T.dRdp(1, &p, &z[0], &R[0], &dR[0]); LD lo, hi; c.check(R[pos] == 0 && dR[pos] == 0, "dissolution", "dead phase with ratio %g", R[pos]);
            bounds(t.b, p, lo, hi); c.check(1 / B[pos] >= lo * (1 - 1e-9L) && 1 / B[pos] <= hi * (1 + 1e-9L), "between", "1/B at %.10g bar is %.12g, data give [%.12Lg, %.12Lg]", p / bar, 1 / B[pos], lo, hi);
            bounds(t.mu, p, lo, hi); c.check(mu[pos] >= lo * (1 - 1e-9L) && mu[pos] <= hi * (1 + 1e-9L), "between", "viscosity at %.10g bar is %.12g, data give [%.12Lg, %.12Lg]", p / bar, mu[pos], lo, hi);
            if (at) for (int w = 0; w < 2; ++w) { const std::vector<LD>& y = w ? t.mu : t.b; LD s = 0; for (int r = 0; r + 1 < m; ++r) if (t.p[r] <= p + h && t.p[r + 1] >= p - h) s = std::max(s, std::fabs(y[r + 1] - y[r]) / ((LD) t.p[r + 1] - t.p[r])); const LD v = w ? (LD) mu[pos] : 1 / (LD) B[pos]; c.check(std::fabs(v - y[node]) <= 3.01L * s * h + 1e-9L * y[node], "node", "entry %d: %.12Lg instead of %.12Lg (sampling distance allows %.3Lg)", node, v, y[node], 3 * s * h); }
            const double dh = h * 1e-3, u = (p - t.p[0]) / h, fr = u - std::floor(u); if (fr > 0.01 && fr < 0.99 && p > t.p[0] + 2 * dh && p < t.p[m - 1] - 2 * dh) { V Ba(np), Bb(np); const double a = p - dh, b = p + dh; T.B(1, &a, &z[0], &Ba[0]); T.B(1, &b, &z[0], &Bb[0]); const double e = (1 / Bb[pos] - 1 / Ba[pos]) / (2 * dh), got = -dB[pos] / (B[pos] * B[pos]); c.check(std::fabs(e - got) <= 1e-6 * std::fabs(e) + 1e-13 / B[pos] / dh, "derivative", "d(1/B)/dp %.10g, from values %.10g", got, e); }
        }
        // beyond the data: closest value
        for (int side = 0; side < 2; ++side) { const double p = side ? t.p[m - 1] + g.real(0, 100) * bar : t.p[0] - g.real(0, 1) * t.p[0]; T.B(1, &p, &z[0], &B[0]); T.mu(1, &p, &z[0], &mu[0]); const int e = side ? m - 1 : 0; c.check(std::fabs(1 / B[pos] - t.b[e]) <= 1e-9L * t.b[e] && std::fabs(mu[pos] - t.mu[e]) <= 1e-9L * t.mu[e], "outside", "at %g bar: 1/B %.12g, viscosity %.12g; closest entry %.12Lg %.12Lg", p / bar, 1 / B[pos], mu[pos], t.b[e], t.mu[e]); }
        (void) pad;
    }
}

// tables that define no value are refused
void refuse(Gen& g, Ctx& c)
{
    const int bad = g.i(1, 8); Deck d = genDeck(g, 0, bad <= 3 ? bad : 0); std::string x = d.text; c.nontrivial(); const char* what = bad == 1 ? "last oil record without undersaturated data" : bad == 2 ? "single oil record" : "single gas record";
    auto drop = [&](const char* kw) { const size_t a = x.find(std::string(kw) + "\n"); if (a == std::string::npos) throw pbt::Discard(); size_t b = a + 1; while (b < x.size() && !(x[b - 1] == '\n' && std::isalpha((unsigned char) x[b]))) ++b; return std::make_pair(a, b); };
    auto twice = [&](const char* kw) { auto r = drop(kw); const std::string body = x.substr(r.first + std::strlen(kw) + 1, r.second - r.first - std::strlen(kw) - 1); x.insert(r.second, body); };
    if (bad == 4) { what = "no density"; auto r = drop("DENSITY"); x.erase(r.first, r.second - r.first); }
    if (bad == 5) { what = "two oil or gas tables"; twice(d.used[2] && g.b() ? (d.t[2].kind == 2 ? "PVTG" : "PVDG") : d.t[1].kind == 2 ? "PVTO" : d.t[1].kind == 1 ? "PVDO" : "PVCDO"); }
    if (bad == 6) { what = "no oil table"; auto r = drop(d.t[1].kind == 2 ? "PVTO" : d.t[1].kind == 1 ? "PVDO" : "PVCDO"); x.erase(r.first, r.second - r.first); }
    if (bad == 7) { what = "no gas table"; if (!d.used[2]) throw pbt::Discard(); auto r = drop(d.t[2].kind == 2 ? "PVTG" : "PVDG"); x.erase(r.first, r.second - r.first); }
    if (bad == 8) { what = "one phase, or no oil"; x.erase(x.find("OIL\n"), 4); }
    c.desc() << what << "\n" << x; c.label(pbt::fmt("bad%d", bad)); bool threw = false; Quiet quiet; try { Opm::EclipseGridParser P; read(P, x); Opm::BlackoilPvtProperties T; T.init(P, g.b() ? 0 : 100); } catch (const std::exception&) { threw = true; } c.check(threw, "refuse", "accepted: %s", what);
}

void simple(Gen& g, Ctx& c)
{
    Quiet quiet;
    if (g.b()) {
        const int np = g.i(1, 3), n = g.i(1, 4); Opm::parameter::ParameterGroup par; par.disableOutput(); par.insertParameter("num_phases", num(np)); V rho(np, 1000.0), mu(np, cP); for (int q = 0; q < np; ++q) { if (g.b()) { rho[q] = g.real(1, 1200); par.insertParameter(pbt::fmt("rho%d", q + 1), num(rho[q])); } if (g.b()) { const double m = g.logreal(0.01, 100); mu[q] = m * cP; par.insertParameter(pbt::fmt("mu%d", q + 1), num(m)); } }
        Opm::PvtPropertiesBasic T; const bool direct = g.b(); if (direct) T.init(np, rho, mu); else T.init(par); c.desc() << np << " phases rho " << show(rho) << " mu " << show(mu) << (direct ? "" : " from parameters"); c.nontrivial(np > 1); c.check(T.numPhases() == np, "phases", "%d phases", T.numPhases()); V p(n, 1e7), z(n * np, 1.0), m(n * np, 7), B(m), dB(m), R(m), dR(m), B2(m), R2(m); T.mu(n, &p[0], &z[0], &m[0]); T.dBdp(n, &p[0], &z[0], &B[0], &dB[0]); T.B(n, &p[0], &z[0], &B2[0]); T.dRdp(n, &p[0], &z[0], &R[0], &dR[0]); T.R(n, &p[0], &z[0], &R2[0]);
        for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) { const int k = np * i + q; c.check(std::fabs(m[k] - mu[q]) <= 1e-15 * mu[q] * 4 && T.surfaceDensities()[q] == rho[q] && B[k] == 1 && B2[k] == 1 && dB[k] == 0 && R[k] == 0 && R2[k] == 0 && dR[k] == 0, "basic", "phase %d: mu %g rho %g B %g %g R %g %g", q, m[k], T.surfaceDensities()[q], B[k], dB[k], R[k], dR[k]); }
        if (np == 2) {
            Opm::BlackoilPropertiesBasic F(par, 2, 3); V A(n * 4, 7), dA(A), r(n * 2), v(n * 2); std::vector<int> cells(n, 0); if (!direct) { F.matrix(n, &p[0], &z[0], &cells[0], &A[0], &dA[0]); F.density(n, &A[0], &r[0]); F.viscosity(n, &p[0], &z[0], &cells[0], &v[0], 0); for (int i = 0; i < n; ++i) for (int q = 0; q < 2; ++q) c.check(A[4 * i + 2 * q] == (q == 0) && A[4 * i + 1 + 2 * q] == (q == 1) && dA[4 * i + 2 * q] == 0 && dA[4 * i + 2 * q + 1] == 0 && r[2 * i + q] == rho[q] && v[2 * i + q] == m[2 * i + q] && F.surfaceDensity()[q] == rho[q], "basic", "phase %d", q);
                Opm::IncompPropertiesBasic I(par, 2, 3); for (int q = 0; q < 2; ++q) c.check(I.viscosity()[q] == m[q] && I.density()[q] == rho[q] && I.surfaceDensity()[q] == rho[q], "basic", "incompressible phase %d: mu %g rho %g", q, I.viscosity()[q], I.density()[q]); }
        }
    } else {
        std::ostringstream o; const double rw = g.real(1, 1200), ro = g.real(1, 1200); o << "METRIC\nWATER\nOIL\nDENSITY\n " << num(ro) << ' ' << num(rw) << " 1 /\n"; const Table w = constant(g, o, "PVTW", false), l = constant(g, o, "PVCDO", true); o << "SWOF\n 0.1 0 1 0\n 1 1 0 0 /\n"; c.desc() << o.str(); c.nontrivial(); Opm::EclipseGridParser P; read(P, o.str()); Opm::PvtPropertiesIncompFromDeck T; T.init(P); const double r[2] = { rw, ro };
        const Table* t[2] = { &w, &l }; for (int q = 0; q < 2; ++q) c.check(T.numPhases() == 2 && T.surfaceDensities()[q] == r[q] && std::fabs(T.reservoirDensities()[q] - r[q] / t[q]->ref[1]) <= 1e-14 * r[q] && std::fabs(T.viscosity()[q] - t[q]->ref[3]) <= 1e-14 * t[q]->ref[3], "incompressible", "phase %d: %g %g %g", q, T.surfaceDensities()[q], T.reservoirDensities()[q], T.viscosity()[q]);
    }
}
}
pbt::Spec pbt::spec()
{
    return { "C30", "values: decks with water/oil/gas, oil/gas or water/oil, constant-compressibility, dead and live (PVTO, PVTG, with and without undersaturated data per record) tables; at pressures and compositions at entries, inside, saturated and undersaturated: volume factors, viscosities, dissolution ratios against an independent long double evaluation, matrix and density assembly, and derivatives against differences of the reported values away from kinks; also cells with neither oil nor gas. spline: sampled dead tables lie between their data, near their entries, derivative consistent, closest value outside. refuse: unusable tables. simple: constant properties from parameters and incompressible decks. Non-trivial: a deck with a tabulated phase.",
             { "pressures at least 10 kPa apart; volume factors within physical ranges", "within 1e-12 of the saturation curve either branch is accepted (the tables jump there)", "live oil in cells without oil and values outside the tables are only required to be finite" },
             100000, 2000000, { { "values", 8, values }, { "spline", 2, spline }, { "refuse", 1, refuse }, { "simple", 1, simple } } };
}
