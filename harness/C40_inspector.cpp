// C40: queries about a corner-point deck agree with the deck's numbers.
#include "cpgen.hpp"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/io/eclipse/EclipseGridInspector.hpp>
#include <fstream>
#include <iostream>
#include <tr1/array>

namespace {
typedef std::vector<double> D;
struct Quiet {
    std::ostringstream sink; std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
inline size_t zix(const int* n, int i, int j, int k, int a) { return 2 * i + (a & 1) + (size_t) 2 * n[0] * (2 * j + (a >> 1 & 1) + (size_t) 2 * n[1] * (2 * k + (a >> 2))); }

struct Deck { int n[3]; D coord, zcorn; int unit = 0, dims = 0; bool si = true; std::string text; double f = 1; };   // dims: 0 SPECGRID, 1 DIMENS, 2 both, 3 neither

Deck genDeck(Gen& g, Ctx& c, int form)      // form 0: rectilinear pillars, 1: parallelogram columns, 2: any pillars
{
    Deck d; for (int k = 0; k < 3; ++k) d.n[k] = g.size(1, g.p(1, 6) ? 9 : 4);
    const int* n = d.n; const int np = (n[0] + 1) * (n[1] + 1), nc = n[0] * n[1] * n[2];
    D x(n[0] + 1), y(n[1] + 1); const bool lefth = g.p(1, 5);
    x[0] = g.p(1, 3) ? g.real(1e3, 5e5) : g.real(-10, 10); for (int i = 0; i < n[0]; ++i) x[i + 1] = x[i] + g.real(0.5, 100);
    y[0] = g.p(1, 3) ? g.real(1e3, 5e5) : g.real(-10, 10); for (int i = 0; i < n[1]; ++i) y[i + 1] = y[i] + (lefth ? -1 : 1) * g.real(0.5, 100);
    c.label("left-handed", lefth);
    const double sx = form == 1 ? g.real(-0.7, 0.7) : 0, sy = form == 1 ? g.real(-0.7, 0.7) : 0;
    for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i) {
        const double px = x[i] + sx * (y[j] - y[0]) + (form == 2 ? g.real(-1, 1) : 0), py = y[j] + sy * (x[i] - x[0]) + (form == 2 ? g.real(-1, 1) : 0);
        d.coord.push_back(px); d.coord.push_back(py); d.coord.push_back(g.b() ? 0 : 1000);
        d.coord.push_back(form == 2 ? px + g.real(-30, 30) : px); d.coord.push_back(form == 2 ? py + g.real(-30, 30) : py); d.coord.push_back(g.b() ? 3000 : 2000);
    }
    d.zcorn.assign(8 * (size_t) nc, 0); const double z0 = g.real(0, 3000), dz = g.real(0.1, 30); const int zm = g.i(0, 2); const double gx = g.real(-5, 5), gy = g.real(-5, 5);
    for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) for (int a = 0; a < 8; ++a) {
        const int I = i + (a & 1), J = j + (a >> 1 & 1), Kk = k + (a >> 2);
        d.zcorn[zix(n, i, j, k, a)] = zm == 0 ? z0 + Kk * dz : zm == 1 ? z0 + Kk * dz + gx * I + gy * J : z0 + Kk * dz + dz * g.real(-0.45, 0.45);
    }
    (void) np; d.unit = g.p(1, 5) ? 2 : g.i(0, 1); d.si = g.p(3, 4); d.dims = g.i(0, 2); d.f = d.unit == 2 && d.si ? 0.3048 : 1;
    return d;
}
void write(Deck& d, bool coord = true, bool zcorn = true)
{
    std::ostringstream o; o.precision(17); if (d.unit == 1) o << "METRIC\n"; if (d.unit == 2) o << "FIELD\n";
    if (d.dims == 1 || d.dims == 2) o << "DIMENS\n " << d.n[0] << " " << d.n[1] << " " << d.n[2] << " /\n";
    if (d.dims == 0 || d.dims == 2) o << "SPECGRID\n " << d.n[0] << " " << d.n[1] << " " << d.n[2] << " 1 F /\n";
    auto put = [&](const char* k, const D& v) { o << k << "\n"; for (size_t q = 0; q < v.size(); ++q) o << v[q] << (q % 6 == 5 ? "\n" : " "); o << " /\n"; };
    if (coord) put("COORD", d.coord); if (zcorn) put("ZCORN", d.zcorn);
    d.text = o.str();
}
struct File { std::string name; File(const std::string& t) : name(pbt::scratch() + "/deck.grdecl") { std::ofstream f(name.c_str()); f << t; } };
template <class F> bool throws(F f) { try { f(); return false; } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { return true; } }

void queries(Gen& g, Ctx& c)
{
    const int form = g.i(0, 2); Deck d = genDeck(g, c, form); write(d); const int* n = d.n; const int nc = n[0] * n[1] * n[2];
    c.desc() << d.text; c.nontrivial(nc > 1); c.label(form == 0 ? "rectilinear pillars" : form == 1 ? "parallelogram columns" : "arbitrary pillars"); c.label(d.dims == 0 ? "SPECGRID" : d.dims == 1 ? "DIMENS" : "both sizes"); c.label("converted to SI", d.f != 1);
    File fl(d.text); Quiet q; Opm::EclipseGridParser p(fl.name, d.si);
    std::unique_ptr<Opm::EclipseGridInspector> in; try { in.reset(new Opm::EclipseGridInspector(p)); } catch (const std::exception& e) { c.fail("accepted", "the deck was refused: %s", e.what()); }
    const std::tr1::array<int, 3> gs = in->gridSize(); for (int k = 0; k < 3; ++k) c.check(gs[k] == n[k], "size", "direction %d: %d cells instead of %d", k, gs[k], n[k]);
    D co(d.coord), zc(d.zcorn); for (double& v : co) v *= d.f; for (double& v : zc) v *= d.f;
    double lim[6] = { 1e300, -1e300, 1e300, -1e300, 1e300, -1e300 };
    for (size_t q2 = 0; q2 < co.size() / 3; ++q2) for (int k = 0; k < 2; ++k) { lim[2 * k] = std::min(lim[2 * k], co[3 * q2 + k]); lim[2 * k + 1] = std::max(lim[2 * k + 1], co[3 * q2 + k]); }
    for (double v : zc) { lim[4] = std::min(lim[4], v); lim[5] = std::max(lim[5], v); }
    std::tr1::array<double, 6> got; try { got = in->getGridLimits(); } catch (const std::exception& e) { c.fail("limits", "no limits: %s", e.what()); }
    for (int k = 0; k < 6; ++k) c.close(got[k], lim[k], 1e-14, std::fabs(lim[k]), "limits", "limit %d: %.15g instead of %.15g", k, got[k], lim[k]);
    double total = 0, mag = 0;
    for (int e = 0; e < nc; ++e) {
        const int ijk[3] = { e % n[0], e / n[0] % n[1], e / n[0] / n[1] }; const std::tr1::array<int, 3> lc = in->cellIdxToLogicalCoords(e);
        for (int k = 0; k < 3; ++k) c.check(lc[k] == ijk[k], "cell-index", "cell %d: coordinate %d is %d instead of %d", e, k, lc[k], ijk[k]);
        const std::tr1::array<double, 8> z = in->cellZvals(ijk[0], ijk[1], ijk[2]); double w[8];
        for (int a = 0; a < 8; ++a) { w[a] = zc[zix(n, ijk[0], ijk[1], ijk[2], a)]; c.close(z[a], w[a], 1e-14, std::fabs(w[a]), "depths", "cell %d corner %d: depth %.15g instead of %.15g", e, a, z[a], w[a]); }
        const double* P[4]; for (int a = 0; a < 4; ++a) P[a] = &co[6 * (size_t) ((ijk[1] + (a >> 1)) * (n[0] + 1) + ijk[0] + (a & 1))];
        if (form != 2) {
            const double area = (P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[1][1] - P[0][1]) * (P[2][0] - P[0][0]), h = (w[4] + w[5] + w[6] + w[7] - w[0] - w[1] - w[2] - w[3]) / 4, want = std::fabs(area * h);
            const double v = in->cellVolumeVerticalPillars(ijk[0], ijk[1], ijk[2]); const double big = std::max(std::fabs(lim[0]), std::max(std::fabs(lim[1]), std::max(std::fabs(lim[2]), std::fabs(lim[3])))), ext = std::fabs(P[1][0] - P[0][0]) + std::fabs(P[2][1] - P[0][1]) + std::fabs(P[1][1] - P[0][1]) + std::fabs(P[2][0] - P[0][0]);
            const double tol = 1e-12 * want + 1e-14 * (big * ext * std::fabs(h) + std::fabs(area) * std::fabs(w[0]) * 8);
            c.check(std::fabs(std::fabs(v) - want) <= tol, "volume", "cell %d: volume %.15g instead of %.15g", e, v, want); c.check(area < 0 || v > -tol, "volume", "cell %d: volume %.15g is negative", e, v);
            c.check(in->cellVolumeVerticalPillars(e) == v, "by-index", "cell %d: volume by index %.15g, by coordinates %.15g", e, in->cellVolumeVerticalPillars(e), v); total += std::fabs(v); mag += tol;
        }
        if (form == 0) {
            std::pair<double, double> dip; try { dip = in->cellDips(ijk[0], ijk[1], ijk[2]); } catch (const std::exception& x) { c.fail("dips", "cell %d: no dips: %s", e, x.what()); }
            const std::pair<double, double> di = in->cellDips(e); c.check((di.first == dip.first || di.first != di.first) && (di.second == dip.second || di.second != di.second), "by-index", "cell %d: dips by index (%g %g), by coordinates (%g %g)", e, di.first, di.second, dip.first, dip.second);
            for (int k = 0; k < 2; ++k) {
                const double len = k ? P[2][1] - P[0][1] : P[1][0] - P[0][0]; double s = 0, sc = 0; int m = 0;
                for (int a = 0; a < 8; ++a) if (!(a & (1 << k))) { const int b = a | (1 << k); const double ed = a < 4 ? lim[4] : lim[5]; if (w[a] == ed || w[b] == ed) continue; s += (w[b] - w[a]) / len; sc += (std::fabs(w[b]) + std::fabs(w[a])) / std::fabs(len) * (1 + std::max(std::fabs(lim[2 * k]), std::fabs(lim[2 * k + 1])) / std::fabs(len)); ++m; }
                if (!m) continue;      // every edge lies on the top or bottom of the model
                const double v = k ? dip.second : dip.first; c.check(std::fabs(v - s / m) <= 1e-13 * sc, "dips", "cell %d: dip %d is %.12g instead of %.12g", e, k, v, s / m); c.label(m < 4 ? "edges on the outer surfaces left out" : "dip from four edges");
            }
        }
    }
    if (form != 2) { double want = 0; for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) { const double *A = &co[6 * (size_t) (j * (n[0] + 1) + i)], *B = A + 6, *C2 = A + 6 * (n[0] + 1); const double ar = std::fabs((B[0] - A[0]) * (C2[1] - A[1]) - (B[1] - A[1]) * (C2[0] - A[0])); for (int k = 0; k < n[2]; ++k) { double h = 0; for (int a = 0; a < 4; ++a) h += zc[zix(n, i, j, k, a + 4)] - zc[zix(n, i, j, k, a)]; want += ar * std::fabs(h) / 4; } } c.check(std::fabs(total - want) <= mag + 1e-12 * want, "total-volume", "%.15g instead of %.15g", total, want); }
    // outside the grid
    const int k = g.i(0, 2); int o[3] = { g.i(0, n[0] - 1), g.i(0, n[1] - 1), g.i(0, n[2] - 1) }; o[k] = g.b() ? -1 - g.i(0, 1) : n[k] + g.i(0, 1);
    c.check(throws([&] { in->cellVolumeVerticalPillars(o[0], o[1], o[2]); }), "out-of-range", "a volume for cell (%d %d %d)", o[0], o[1], o[2]);
    c.check(throws([&] { in->cellDips(o[0], o[1], o[2]); }), "out-of-range", "dips for cell (%d %d %d)", o[0], o[1], o[2]);
    c.check(throws([&] { in->cellZvals(o[0], o[1], o[2]); }), "out-of-range", "depths for cell (%d %d %d)", o[0], o[1], o[2]);
    c.check(throws([&] { in->cellVolumeVerticalPillars(nc + g.i(0, 2)); }), "out-of-range", "a volume for a cell past the last");
}

// Incomplete decks and fields of the wrong length are refused instead of answered.
void malformed(Gen& g, Ctx& c)
{
    Deck d = genDeck(g, c, 0); const int what = g.i(0, 4); if (what == 0) d.dims = 3;
    if (what == 3) { if (g.b()) d.zcorn.resize(d.zcorn.size() - 1 - g.i(0, 6)); else d.zcorn.push_back(1); }
    if (what == 4) { if (g.b()) d.coord.resize(d.coord.size() - 1 - g.i(0, 4)); else d.coord.push_back(1); }
    write(d, what != 1, what != 2); c.desc() << d.text; c.nontrivial(true); static const char* nm[] = { "no dimensions", "no COORD", "no ZCORN", "wrong ZCORN length", "wrong COORD length" }; c.label(nm[what]);
    File fl(d.text); Quiet q; Opm::EclipseGridParser p(fl.name, d.si);
    if (what < 3) { c.check(throws([&] { Opm::EclipseGridInspector in(p); }), "incomplete", "a deck with %s was accepted", nm[what]); return; }
    std::unique_ptr<Opm::EclipseGridInspector> in; try { in.reset(new Opm::EclipseGridInspector(p)); } catch (const std::exception&) { return; }
    c.check(throws([&] { in->cellVolumeVerticalPillars(0, 0, 0); }), "wrong-length", "a volume with %s", nm[what]);
    c.check(throws([&] { in->cellDips(0, 0, 0); }), "wrong-length", "dips with %s", nm[what]);
    c.check(throws([&] { in->getGridLimits(); }), "wrong-length", "limits with %s", nm[what]);
    if (what == 3) c.check(throws([&] { in->cellZvals(0, 0, 0); }), "wrong-length", "depths with %s", nm[what]);
}
}

pbt::Spec pbt::spec()
{
    return { "C40", "decks of up to 9 cells per direction, sizes given by SPECGRID, DIMENS or both, pillars on a rectilinear or skewed lattice or inclined at will, layered, sloping or random depths, METRIC or FIELD units with and without conversion, incomplete decks and fields of the wrong length; non-trivial: more than one cell, or a malformed deck",
        { "volumes are only asked for vertical pillars with parallelogram columns (where area times mean thickness is exact); the sign is only judged where axes are right-handed", "dips are only asked for rectilinear vertical pillars and cells with an edge off the model's top and bottom surfaces" }, 20000, 400000,
        { { "queries", 4, queries }, { "malformed", 1, malformed } } };
}
