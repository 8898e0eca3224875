// C38: sums over cells, faces and perforations computed by the reporting utilities.
#include "flowgen.hpp"
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/utility/miscUtilities.hpp>
#include <opm/core/utility/miscUtilitiesBlackoil.hpp>
#include <opm/core/utility/Units.hpp>
#include <iostream>
#include <sstream>

namespace {
struct Quiet { std::ostringstream o; std::streambuf *a, *b; Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };

// relative permeability of phase q in cell c, viscosities and matrices depend on the cell, the pressure and the composition
struct Base {
    int d, nc, np; std::vector<double> coef, dens, mu0, poro, perm;
    void make(Gen& g, int dim, int n, int p) { d = dim; nc = n; np = p; coef.resize(n); { const bool tight = g.p(1, 6); for (double& x : coef) x = tight ? g.logreal(1e-25, 2) : g.real(0.1, 2); } dens.resize(p); mu0.resize(p); for (double& x : dens) x = g.real(1, 1500); const double unit = g.p(1, 5) ? g.logreal(1e-12, 1e12) : 1; for (double& x : mu0) x = unit * g.logreal(1e-4, 10); poro.assign(n, 0); for (double& x : poro) x = g.p(1, 8) ? 0 : g.real(0.01, 1); perm.assign((size_t) n * d * d, 0); }
    double kr(int c, int q, const double* s) const { return coef[c] * s[q] * s[q] * (q + 1) / (1 + 0.1 * s[0]); }
    void relp(int n, const double* s, const int* cells, double* k) const { for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) k[np * i + q] = kr(cells[i], q, s + np * i); }
    double mu(int c, int q, double p, const double* z) const { double t = 1; for (int r = 0; r < np; ++r) t += 0.01 * (r + 1 + q) * z[r]; return mu0[q] * (1 + 1e-3 * p) * t * (1 + 0.1 * (c % 3)); }
    double A(int c, int row, int col, double p, const double* z) const { return row == col ? (1 + 0.2 * row + 1e-3 * p) * (1 + 0.05 * (c % 2)) + 0.01 * z[row] : 0.1 * (row + 2 * col) * (1 + 0.01 * z[0]); }
};
struct Inc : Opm::IncompPropertiesInterface {
    Base b;
    int numDimensions() const { return b.d; } int numCells() const { return b.nc; } const double* porosity() const { return &b.poro[0]; } const double* permeability() const { return &b.perm[0]; }
    int numPhases() const { return b.np; } const double* viscosity() const { return &b.mu0[0]; } const double* density() const { return &b.dens[0]; } const double* surfaceDensity() const { return &b.dens[0]; }
    void relperm(const int n, const double* s, const int* cells, double* k, double*) const { b.relp(n, s, cells, k); }
    void capPress(const int, const double*, const int*, double*, double*) const { std::abort(); }
    void satRange(const int, const int*, double*, double*) const { std::abort(); }
};
struct Bo : Opm::BlackoilPropertiesInterface {
    Base b;
    int numDimensions() const { return b.d; } int numCells() const { return b.nc; } const double* porosity() const { return &b.poro[0]; } const double* permeability() const { return &b.perm[0]; }
    int numPhases() const { return b.np; } const double* surfaceDensity() const { return &b.dens[0]; }
    void viscosity(const int n, const double* p, const double* z, const int* cells, double* m, double*) const { for (int i = 0; i < n; ++i) for (int q = 0; q < b.np; ++q) m[b.np * i + q] = b.mu(cells[i], q, p[i], z + b.np * i); }
    void matrix(const int n, const double* p, const double* z, const int* cells, double* A, double*) const { for (int i = 0; i < n; ++i) for (int r = 0; r < b.np; ++r) for (int q = 0; q < b.np; ++q) A[b.np * b.np * i + r + b.np * q] = b.A(cells[i], r, q, p[i], z + b.np * i); }
    void density(const int, const double*, double*) const { std::abort(); }
    void relperm(const int n, const double* s, const int* cells, double* k, double*) const { b.relp(n, s, cells, k); }
    void capPress(const int, const double*, const int*, double*, double*) const { std::abort(); }
    void satRange(const int, const int*, double*, double*) const { std::abort(); }
};
std::vector<double> sats(Gen& g, int n, int np)
{
    std::vector<double> s((size_t) n * np);
    for (int i = 0; i < n; ++i) { double t = 0; for (int q = 0; q < np; ++q) t += s[np * i + q] = g.p(1, 5) ? 0 : g.real(0.01, 1); if (t == 0) t = s[np * i + g.i(0, np - 1)] = 1; for (int q = 0; q < np; ++q) s[np * i + q] /= t; }
    return s;
}
std::vector<double> vals(Gen& g, int n, double lo, double hi) { std::vector<double> v(n); for (double& x : v) x = g.real(lo, hi); return v; }
std::vector<double> rates(Gen& g, int n) { std::vector<double> v(n); const int k = g.i(0, 5); const double s = k < 3 ? 1 : k < 5 ? 1e-4 : g.logreal(1e-30, 1e10); const bool mixed = g.p(1, 4); for (double& x : v) x = g.p(1, 4) ? 0 : s * g.real(-1, 1) * (mixed ? g.logreal(1e-25, 1) : 1.0); return v; }
std::vector<double> dirty(Gen& g) { return std::vector<double>(g.i(0, 2) * g.i(0, 5), 777.0); }      // outputs may hold anything
void close(Ctx& c, LD a, LD want, LD mag, const char* label, const char* what, int i) { c.check(std::fabs(a - want) <= 1e-13L * mag, label, "%s %d is %.17Lg instead of %.17Lg", what, i, a, want); }
WellsPtr genWells(Gen& g, const UnstructuredGrid& G, int np, int nw, bool pureFirst = false)
{
    WellsPtr W(create_wells(np, g.i(0, nw), g.i(0, 4)));
    for (int w = 0; w < nw; ++w) {
        const int n = g.p(1, 8) ? 0 : g.size(1, 5); std::vector<int> cells(n + 1); std::vector<double> WI(n + 1); for (int i = 0; i < n; ++i) { cells[i] = g.i(0, G.number_of_cells - 1); WI[i] = g.real(0.1, 1); }
        std::vector<double> f(np, 0.0); if (pureFirst || g.p(1, 3)) f[0] = 1; else { double t = 0; for (double& x : f) t += x = g.real(0.01, 1); for (double& x : f) x /= t; }
        if (!add_well(g.b() ? INJECTOR : PRODUCER, g.real(-10, 10), n, &f[0], n ? &cells[0] : 0, n ? &WI[0] : 0, "W", W.get())) throw pbt::Discard();
    }
    return W;
}

void volumes(Gen& g, Ctx& c)
{
    const AnyGrid a = genGrid(g); const UnstructuredGrid& G = *a.G; const int nc = G.number_of_cells; c.desc() << a.text;
    const std::vector<double> poro = vals(g, nc, 0, 1); std::vector<double> pv = dirty(g); Opm::computePorevolume(G, &poro[0], pv);
    c.check((int) pv.size() == nc, "size", "%d pore volumes for %d cells", (int) pv.size(), nc);
    for (int i = 0; i < nc; ++i) close(c, pv[i], (LD) poro[i] * G.cell_volumes[i], pv[i], "porevolume", "pore volume", i);
    Opm::parameter::ParameterGroup par; par.disableOutput(); const double pref = g.real(0, 300), cr = g.p(1, 5) ? 0 : g.logreal(1e-6, 1e-2); par.insertParameter("rock_compressibility_pref", pbt::fmt("%.17g", pref)); par.insertParameter("rock_compressibility", pbt::fmt("%.17g", cr));
    Quiet quiet; const Opm::RockCompressibility R(par); const std::vector<double> p = vals(g, nc, 0, 500e5); std::vector<double> pv2 = dirty(g), po = dirty(g); Opm::computePorevolume(G, &poro[0], R, p, pv2); Opm::computePorosity(G, &poro[0], R, p, po);
    c.check((int) pv2.size() == nc && (int) po.size() == nc, "size", "%d, %d values for %d cells", (int) pv2.size(), (int) po.size(), nc);
    for (int i = 0; i < nc; ++i) { const LD m = R.poroMult(p[i]); close(c, pv2[i], m * poro[i] * G.cell_volumes[i], pv2[i], "porevolume", "compressed pore volume", i); close(c, po[i], m * poro[i], po[i], "porosity", "porosity", i); }
    const int np = g.i(1, 4); const std::vector<double> s = sats(g, nc, np); std::vector<double> sv(np, 7.0), as(np, 7.0); Opm::computeSaturatedVol(pv, s, &sv[0]); Opm::computeAverageSat(pv, s, &as[0]); LD tot = 0; for (double x : pv) tot += x;
    for (int q = 0; q < np; ++q) { LD t = 0; for (int i = 0; i < nc; ++i) t += (LD) pv[i] * s[np * i + q]; close(c, sv[q], t, t, "saturated-volume", "saturated volume of phase", q); if (tot > 0) close(c, as[q], t / tot, t / tot, "average", "average saturation of phase", q); }
    if (nc > 1 && np > 1) { bool threw = false; std::vector<double> t(s.begin(), s.end() - 1); try { Opm::computeSaturatedVol(pv, t, &sv[0]); } catch (const std::exception&) { threw = true; } c.check(threw, "sizes", "saturations of the wrong size accepted"); }
    c.nontrivial(nc > 1);
    const std::vector<double> sw = vals(g, nc, 0, 1); std::vector<double> sb = dirty(g), back = dirty(g); Opm::toBothSat(sw, sb); Opm::toWaterSat(sb, back); c.check((int) sb.size() == 2 * nc && back == sw, "two-phase", "water saturations do not survive"); for (int i = 0; i < nc; ++i) c.check(sb[2 * i] == sw[i] && sb[2 * i + 1] == 1 - sw[i], "two-phase", "cell %d: %g and %g from %g", i, sb[2 * i], sb[2 * i + 1], sw[i]);
}

void mobilities(Gen& g, Ctx& c)
{
    const int np = g.i(2, 3), nc = g.size(1, 12); Inc I; Bo B; I.b.make(g, 3, nc, np); B.b = I.b; const Base& b = I.b;
    const bool bo = g.b(); const int n = g.p(1, 3) ? nc : g.size(1, 12); std::vector<int> cells(n); if (n == nc && g.b()) cells = g.perm(nc); else for (int& x : cells) x = g.i(0, nc - 1);
    const std::vector<double> s = sats(g, n, np), p = vals(g, n, 0, 100), z = vals(g, n * np, 0, 2); std::vector<double> m = dirty(g), tm = dirty(g), ff = dirty(g), tm2 = dirty(g), om = dirty(g);
    c.desc() << (bo ? "blackoil " : "incompressible ") << np << " phases, cells " << show(cells) << " of " << nc; c.label(bo ? "blackoil" : "incompressible"); c.nontrivial(n > 1); c.label("subset", n != nc);
    if (bo) { Opm::computePhaseMobilities(B, cells, p, z, s, m); Opm::computeTotalMobility(B, cells, p, z, s, tm); Opm::computeFractionalFlow(B, cells, p, z, s, ff); }
    else { Opm::computePhaseMobilities(I, cells, s, m); Opm::computeTotalMobility(I, cells, s, tm); Opm::computeFractionalFlow(I, cells, s, ff); Opm::computeTotalMobilityOmega(I, cells, s, tm2, om); c.check((int) tm2.size() == n && (int) om.size() == n, "size", "%d, %d values for %d cells", (int) tm2.size(), (int) om.size(), n); }
    c.check((int) m.size() == n * np && (int) tm.size() == n && (int) ff.size() == n * np, "size", "%d mobilities, %d totals, %d fractions for %d cells", (int) m.size(), (int) tm.size(), (int) ff.size(), n);
    for (int i = 0; i < n; ++i) {
        LD tot = 0, rho = 0; std::vector<LD> v(np); for (int q = 0; q < np; ++q) { v[q] = (LD) b.kr(cells[i], q, &s[np * i]) / (bo ? b.mu(cells[i], q, p[i], &z[np * i]) : b.mu0[q]); tot += v[q]; rho += v[q] * b.dens[q]; }
        for (int q = 0; q < np; ++q) { close(c, m[np * i + q], v[q], v[q], "phase-mobility", "mobility", np * i + q); close(c, ff[np * i + q], v[q] / tot, v[q] / tot, "fractional-flow", "fractional flow", np * i + q); }
        close(c, tm[i], tot, tot, "total-mobility", "total mobility", i);
        if (!bo) { close(c, tm2[i], tot, tot, "total-mobility", "total mobility", i); close(c, om[i], rho / tot, rho / tot, "omega", "density of flow", i); }
    }
    std::vector<double> A((size_t) n * np * np); for (double& x : A) x = g.real(-1, 2); std::vector<double> zz(n * np, 777.0); Opm::computeSurfacevol(n, np, &A[0], &s[0], &zz[0]);
    for (int i = 0; i < n; ++i) for (int r = 0; r < np; ++r) { LD t = 0, mg = 0; for (int q = 0; q < np; ++q) { const LD x = (LD) A[np * np * i + r + np * q] * s[np * i + q]; t += x; mg += std::fabs(x); } close(c, zz[np * i + r], t, mg, "surface-volume", "surface volume", np * i + r); }
}

void injprod(Gen& g, Ctx& c)
{
    const int np = g.i(2, 3), nc = g.size(1, 12); Inc I; Bo B; I.b.make(g, 3, nc, np); B.b = I.b; const Base& b = I.b; const bool bo = g.b();
    const std::vector<double> s = sats(g, nc, np), src = rates(g, nc); const double dt = g.logreal(1e-2, 1e6); std::vector<double> inj(np, 7.0), pro(np, 7.0);
    c.desc() << (bo ? "blackoil " : "incompressible ") << np << " phases, src " << show(src) << " dt " << dt; c.label(bo ? "blackoil" : "incompressible"); bool in = false, out = false; for (double x : src) { in = in || x > 0; out = out || x < 0; } c.nontrivial(in && out);
    Opm::BlackoilState st;
    if (bo) { GridPtr G(create_grid_cart2d(nc, 1, 1, 1)); st.init(*G, np); st.saturation() = s; st.pressure() = vals(g, nc, 0, 100); st.surfacevol() = vals(g, nc * np, 0, 2); Opm::computeInjectedProduced(B, st, src, dt, &inj[0], &pro[0]); }
    else Opm::computeInjectedProduced(I, s, src, dt, &inj[0], &pro[0]);
    std::vector<LD> wi(np, 0), wp(np, 0);
    for (int i = 0; i < nc; ++i) {
        if (src[i] > 0) wi[0] += (LD) src[i] * dt;
        if (src[i] < 0) {
            LD tot = 0; std::vector<LD> v(np); for (int q = 0; q < np; ++q) { v[q] = (LD) b.kr(i, q, &s[np * i]) / (bo ? b.mu(i, q, st.pressure()[i], &st.surfacevol()[np * i]) : b.mu0[q]); tot += v[q]; }
            for (int q = 0; q < np; ++q) { const LD res = v[q] / tot * -src[i] * dt; if (!bo) wp[q] += res; else for (int r = 0; r < np; ++r) wp[r] += res * b.A(i, r, q, st.pressure()[i], &st.surfacevol()[np * i]); }
        }
    }
    for (int q = 0; q < np; ++q) { close(c, inj[q], wi[q], wi[q], "injected", "injected volume of phase", q); close(c, pro[q], wp[q], wp[q], "produced", "produced volume of phase", q); }
    bool threw = false; Quiet quiet; std::vector<double> bad = src; bad.push_back(0); try { if (bo) Opm::computeInjectedProduced(B, st, bad, dt, &inj[0], &pro[0]); else if (nc * np % (nc + 1)) Opm::computeInjectedProduced(I, s, bad, dt, &inj[0], &pro[0]); else threw = true; } catch (const std::exception&) { threw = true; } c.check(threw, "sizes", "a source vector of the wrong size was accepted");
}

void sources(Gen& g, Ctx& c)
{
    const AnyGrid a = genGrid(g); const UnstructuredGrid& G = *a.G; const int nc = G.number_of_cells, d = G.dimensions; c.desc() << a.text; c.nontrivial(nc > 1);
    const std::vector<double> src = rates(g, nc), flux = rates(g, G.number_of_faces); const double fr = g.b() ? 1.0 : g.real(0, 1); WellsPtr W; if (g.p(3, 4)) W = genWells(g, G, 2, g.i(0, 4)); const std::vector<double> pr = rates(g, W ? W->well_connpos[W->number_of_wells] : 0);
    std::vector<LD> want(nc, 0), mag(nc, 0); auto add = [&](int i, LD x) { want[i] += x; mag[i] += std::fabs(x); };
    auto wells = [&](const Bo* B, const Opm::WellState* ws) { if (W) for (int w = 0; w < W->number_of_wells; ++w) for (int j = W->well_connpos[w]; j < W->well_connpos[w + 1]; ++j) { const int i = W->well_cells[j]; if (pr[j] <= 0) add(i, pr[j]); else if (W->type[w] == INJECTOR) add(i, (LD) pr[j] * W->comp_frac[2 * w] * (B ? B->b.A(i, 0, 0, ws->perfPress()[j], W->comp_frac + 2 * w) : 1.0)); } };
    Quiet quiet; std::vector<double> ts = dirty(g);
    if (g.p(2, 3)) {
        Opm::computeTransportSource(G, src, flux, fr, W.get(), pr, ts);
        for (int i = 0; i < nc; ++i) add(i, src[i] > 0 ? (LD) fr * src[i] : src[i]);
        for (int f = 0; f < G.number_of_faces; ++f) { const int x = G.face_cells[2 * f], y = G.face_cells[2 * f + 1]; if ((x < 0) == (y < 0)) continue; const LD q = x < 0 ? flux[f] : -flux[f]; add(x < 0 ? y : x, q > 0 ? fr * q : q); }
        wells(0, 0);
    } else {
        c.label("blackoil"); Bo B; B.b.make(g, d, nc, 2); Opm::WellState ws; if (W) { ws.perfRates() = pr; ws.perfPress() = vals(g, (int) pr.size(), 0, 100); } Opm::computeTransportSource(B, W.get(), ws, ts); wells(&B, &ws);
    }
    c.check((int) ts.size() == nc, "size", "%d sources for %d cells", (int) ts.size(), nc);
    for (int i = 0; i < nc; ++i) close(c, ts[i], want[i], mag[i], "transport-source", "source of cell", i);
}

void velocity(Gen& g, Ctx& c)
{
    const AnyGrid a = genGrid(g); const UnstructuredGrid& G = *a.G; const int nc = G.number_of_cells, d = G.dimensions; c.desc() << a.text; c.nontrivial(nc > 1);
    std::vector<double> flux = rates(g, G.number_of_faces), v = dirty(g); Opm::estimateCellVelocity(G, flux, v); c.check((int) v.size() == nc * d, "size", "%d components for %d cells", (int) v.size(), nc);
    for (int i = 0; i < nc; ++i) for (int k = 0; k < d; ++k) {
        LD t = 0, m = 0; for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) { const int f = G.cell_faces[h]; const LD s = G.face_cells[2 * f] == i ? flux[f] : -flux[f]; t += s * ((LD) G.face_centroids[d * f + k] - G.cell_centroids[d * i + k]); m += std::fabs(s) * (std::fabs((LD) G.face_centroids[d * f + k]) + std::fabs((LD) G.cell_centroids[d * i + k])); }
        close(c, v[d * i + k], t / G.cell_volumes[i], m / G.cell_volumes[i], "velocity", "velocity component", d * i + k);
    }
}

// a constant velocity is recovered from its face fluxes on cells with plane faces
void constant(Gen& g, Ctx& c)
{
    const AnyGrid a = genGrid(g, 3); const UnstructuredGrid& G = *a.G; const int nc = G.number_of_cells, d = G.dimensions; c.desc() << a.text; c.nontrivial(nc > 1); double u[3]; for (double& x : u) x = g.real(-1, 1);
    std::vector<double> flux(G.number_of_faces), v; for (int f = 0; f < G.number_of_faces; ++f) flux[f] = dotn(u, G.face_normals + d * f, d);
    Opm::estimateCellVelocity(G, flux, v);
    for (int i = 0; i < nc; ++i) { double cond = 0; for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) { const int f = G.cell_faces[h]; double r = 0; for (int k = 0; k < d; ++k) r += std::fabs(G.face_centroids[d * f + k]) + std::fabs(G.cell_centroids[d * i + k]); cond += G.face_areas[f] * r; } cond /= G.cell_volumes[i]; for (int k = 0; k < d; ++k) c.check(std::fabs(v[d * i + k] - u[k]) <= 1e-11 * std::max(1.0, cond), "constant", "cell %d: velocity component %d is %.15g instead of %.15g", i, k, v[d * i + k], u[k]); }
}

void wells(Gen& g, Ctx& c)
{
    const AnyGrid a = genGrid(g); const UnstructuredGrid& G = *a.G; const int nc = G.number_of_cells, d = G.dimensions, np = g.i(2, 3), nw = g.size(1, 5); WellsPtr W = genWells(g, G, np, nw); const int nperf = W->well_connpos[nw];
    c.desc() << a.text << " " << nw << " wells, " << nperf << " perforations, " << np << " phases"; c.nontrivial(nperf > 1 && nw > 1); c.label("three-phases", np == 3);
    const std::vector<double> pr = rates(g, nperf); std::vector<double> tot = dirty(g); Opm::computeFlowRatePerWell(*W, pr, tot); c.check((int) tot.size() == nw, "size", "%d rates for %d wells", (int) tot.size(), nw);
    for (int w = 0; w < nw; ++w) { LD t = 0, m = 0; for (int j = W->well_connpos[w]; j < W->well_connpos[w + 1]; ++j) { t += pr[j]; m += std::fabs(pr[j]); } close(c, tot[w], t, m, "well-rate", "rate of well", w); }
    const std::vector<double> ff = sats(g, nc, np); std::vector<double> ph = dirty(g); Opm::computePhaseFlowRatesPerWell(*W, pr, ff, ph); c.check((int) ph.size() == nw * np, "size", "%d phase rates for %d wells", (int) ph.size(), nw);
    for (int w = 0; w < nw; ++w) for (int q = 0; q < np; ++q) { LD t = 0, m = 0; for (int j = W->well_connpos[w]; j < W->well_connpos[w + 1]; ++j) { const LD x = (LD) pr[j] * ff[np * W->well_cells[j] + q]; t += x; m += std::fabs(x); } close(c, ph[w * np + q], t, m, "phase-rate", "phase rate", w * np + q); }
    const bool per = g.b() || !nperf; std::vector<double> s = vals(g, (per ? nc : nperf) * np, 0, 1); for (int i = 0; i < (per ? nc : nperf); ++i) if (g.p(1, 6)) for (int q = 0; q < np; ++q) s[np * i + q] = 0; const std::vector<double> rho = vals(g, np, 0, 1500); const double grav = g.b() ? 9.81 : 0; std::vector<double> wdp = dirty(g);
    Opm::computeWDP(*W, G, s, &rho[0], grav, per, wdp); c.check((int) wdp.size() == nperf, "size", "%d pressure differences for %d perforations", (int) wdp.size(), nperf);
    for (int w = 0; w < nw; ++w) for (int j = W->well_connpos[w]; j < W->well_connpos[w + 1]; ++j) { const int i = W->well_cells[j]; LD r = 0, t = 0; for (int q = 0; q < np; ++q) { const LD x = s[np * (per ? i : j) + q]; r += x * rho[q]; t += x; } if (t == 0) t = 1; const LD z = G.cell_centroids[d * i + d - 1], dz = z - W->depth_ref[w]; close(c, wdp[j], r / t * dz * grav, r / t * grav * (std::fabs(z) + std::fabs((LD) W->depth_ref[w])), "wdp", "pressure difference of perforation", j); }
}

void toSrc(Gen& g, Ctx& c)
{
    GridPtr G(create_grid_cart2d(g.size(1, 8), 1, 1, 1)); const int nc = G->number_of_cells, nw = g.i(0, 5), bad = nw && g.p(1, 4) ? g.i(0, nw - 1) : -1, how = g.i(0, 2), np = g.p(1, 10) ? 3 : 2; WellsPtr W(create_wells(np, 0, 0)); std::vector<LD> want(nc, 0), mag(nc, 0); std::ostringstream o; double dist[3] = { 1, 1, 1 };
    for (int w = 0; w < nw; ++w) {
        const bool inj = g.b(); std::vector<int> cells(2); cells[0] = g.i(0, nc - 1); cells[1] = g.i(0, nc - 1); double WI[2] = { 1, 1 }, f[3] = { g.b() ? 1.0 : g.real(0, 1), 0, 0 }; f[1] = 1 - f[0]; const double q = g.real(0, 1) * (inj ? 1 : -1), half[3] = { 0.5, 1, 1 };
        add_well(inj ? INJECTOR : PRODUCER, 0, w == bad && how == 0 ? 2 : 1, f, &cells[0], WI, "W", W.get()); const int before = g.i(0, 1); if (before) append_well_controls(BHP, 100, 0, w, W.get());
        append_well_controls(w == bad && how == 1 ? (g.b() ? BHP : SURFACE_RATE) : RESERVOIR_RATE, q, w == bad && how == 2 ? half : dist, w, W.get()); if (g.p(1, 3)) append_well_controls(BHP, 5, 0, w, W.get()); set_current_control(w, before, W.get());
        const LD x = inj ? (LD) q * f[0] : q; want[cells[0]] += x; mag[cells[0]] += std::fabs(x); o << " [cell " << cells[0] << " rate " << q << " frac " << f[0] << "]";
    }
    c.desc() << nc << " cells, wells" << o.str() << (bad >= 0 ? " one inadmissible" : ""); std::vector<double> src = dirty(g); Quiet quiet; bool threw = false; try { Opm::wellsToSrc(*W, nc, src); } catch (const std::exception&) { threw = true; }
    c.check(threw == (np != 2 || bad >= 0), "admissible", "wells %s", threw ? "refused" : "accepted"); if (threw) return; c.nontrivial(nw > 1);
    c.check((int) src.size() == nc, "size", "%d sources for %d cells", (int) src.size(), nc); for (int i = 0; i < nc; ++i) close(c, src[i], want[i], mag[i], "source", "source of cell", i);
}

void report(Gen& g, Ctx& c)
{
    const AnyGrid a = genGrid(g); const UnstructuredGrid& G = *a.G; const int nc = G.number_of_cells, d = G.dimensions, np = g.i(2, 3), nw = g.size(0, 5), nt = g.i(0, 3); const bool bo = g.b(); WellsPtr W = genWells(g, G, np, nw); const int nperf = W->well_connpos[nw]; Inc I; Bo B; I.b.make(g, d, nc, np); B.b = I.b; const Base& b = I.b;
    c.desc() << a.text << " " << nw << " wells, " << nperf << " perforations, " << np << " phases " << (bo ? "blackoil" : "incompressible"); c.nontrivial(nw > 1 && nt); c.label(bo ? "blackoil" : "incompressible"); c.label("three-phases", np == 3);
    Opm::WellReport R; Opm::Watercut wc; std::vector<std::vector<LD> > want, slack, cut; const LD day = 86400;
    for (int t = 0; t < nt; ++t) {
        const std::vector<double> s = sats(g, nc, np), p = vals(g, nc, 0, 100), z = vals(g, nc * np, 0, 2), bhp = vals(g, nw, 0, 500e5), pr = rates(g, nperf); const double time = g.real(0, 1e8);
        if (bo) R.push(B, *W, p, z, s, time, bhp, pr); else R.push(I, *W, s, time, bhp, pr);
        std::vector<LD> row(1, time / day), sl(1, 0);
        for (int w = 0; w < nw; ++w) {
            LD tot = 0, wat = 0, m = 0; for (int j = W->well_connpos[w]; j < W->well_connpos[w + 1]; ++j) { const int i = W->well_cells[j]; const LD q = pr[j] * day; tot += q; m += std::fabs(q); if (q > 0) wat += q * W->comp_frac[np * w]; else { LD v0 = 0, v = 0; for (int k = 0; k < np; ++k) { const LD x = (LD) b.kr(i, k, &s[np * i]) / (bo ? b.mu(i, k, p[i], &z[np * i]) : b.mu0[k]); v += x; if (!k) v0 = x; } wat += q * v0 / v; } }
            row.push_back(bhp[w] / 1e5L); sl.push_back(0); row.push_back(tot); sl.push_back(1e-13L * m); row.push_back(tot == 0 ? 0 : wat / tot); sl.push_back(m == 0 ? 0 : std::fabs(tot) < 1e-12L * m ? 1e300L : 1e-12L * m / std::fabs(tot) * (1 + std::fabs(wat / tot)));
        }
        want.push_back(row); slack.push_back(sl); const double fr = g.real(0, 1), pd = g.real(0, 1e6); wc.push(time, fr, pd); cut.push_back({ time / day, fr, pd });
    }
    auto match = [&](const std::string& text, const std::vector<std::vector<LD> >& v, const std::vector<std::vector<LD> >* sl, const char* label) {
        std::istringstream in(text); std::string line; size_t r = 0; for (; std::getline(in, line); ++r) { c.check(r < v.size(), label, "more than %d lines", (int) v.size()); std::istringstream li(line); std::vector<double> q; double x; while (li >> x) q.push_back(x); c.check(li.eof() && q.size() == v[r].size(), label, "line %d has %d numbers instead of %d: %s", (int) r, (int) q.size(), (int) v[r].size(), line.c_str()); for (size_t k = 0; k < q.size(); ++k) c.check(std::fabs(q[k] - v[r][k]) <= 6e-6L * std::fabs(v[r][k]) + (sl ? (*sl)[r][k] : 0), label, "line %d column %d is %.10g instead of %.10Lg", (int) r, (int) k, q[k], v[r][k]); }
        c.check(r == v.size(), label, "%d lines instead of %d", (int) r, (int) v.size()); };
    std::ostringstream o, o2; R.write(o); wc.write(o2); match(o.str(), want, &slack, "report"); match(o2.str(), cut, 0, "watercut");
}
}
pbt::Spec pbt::spec()
{
    return { "C38", "volumes: pore volumes, compressed pore volumes and porosities, saturated volumes, average saturations, two-phase conversions. mobilities: phase, total and fractional mobilities, flow densities, surface volumes for any list of cells. injprod: injected and produced totals. sources: transport sources of sources, boundary flow and wells. velocity: defining sum; constant: constant velocities recovered on plane-faced cells. wells: rates, phase rates and pressure differences per well. toSrc: wells as sources. report: written well reports and water cut curves, read back. All on random grids with 2-3 phase fluids whose functions depend on cell, pressure and composition; outputs start out holding unrelated data. Non-trivial: more than one cell (well).",
             { "at least one phase is mobile in every cell", "printed with six digits", "a well fraction with cancelling rates is only judged as far as the rates determine it" },
             200000, 4000000, { { "volumes", 2, volumes }, { "mobilities", 2, mobilities }, { "injprod", 2, injprod }, { "sources", 2, sources }, { "velocity", 1, velocity }, { "constant", 1, constant }, { "wells", 2, wells }, { "toSrc", 1, toSrc }, { "report", 3, report } } };
}
