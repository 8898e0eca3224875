// C36: initial states from parameters and decks: saturations by side of the contact, hydrostatic pressures, face pressures, surface volumes.
#include "cpgen.hpp"
#include <iostream>
#include <map>
#include <opm/core/simulator/initState.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/wells.h>

namespace {
typedef long double LD;
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
const double bar = 1e5, psi = 0.45359237 * 9.80665 / (0.0254 * 0.0254), foot = 0.3048;
std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
struct Range { std::vector<double> lo, hi; void get(int n, const int* cells, double* a, double* b, int np) const { for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) { const int c = cells[i]; a[np * i + q] = q == 0 ? lo[c] : 1 - hi[c]; b[np * i + q] = q == 0 ? hi[c] : 1 - lo[c]; } } };
struct Inc : Opm::IncompPropertiesInterface {
    int nc, np, d; Range r; double rho[3];
    int numDimensions() const { return d; } int numCells() const { return nc; } int numPhases() const { return np; } const double* porosity() const { return 0; } const double* permeability() const { return 0; }
    const double* viscosity() const { return rho; } const double* density() const { return rho; } const double* surfaceDensity() const { return rho + 1; }
    void relperm(const int, const double*, const int*, double*, double*) const {} void capPress(const int, const double*, const int*, double*, double*) const {}
    void satRange(const int n, const int* cells, double* a, double* b) const { r.get(n, cells, a, b, np); }
};
// density rho*exp(c*p) per phase when pure; the third column and the cross terms make the matrix depend on the composition
struct Bo : Opm::BlackoilPropertiesInterface {
    int nc, np, d; Range r; double rho[3], b0[3], c[3], x[3][3], kz; std::vector<int> region;
    int numDimensions() const { return d; } int numCells() const { return nc; } int numPhases() const { return np; } const double* porosity() const { return 0; } const double* permeability() const { return 0; }
    const double* surfaceDensity() const { return rho; }
    double b(int q, double p) const { return b0[q] * std::exp(c[q] * p); }
    void viscosity(const int, const double*, const double*, const int*, double*, double*) const {}
    void matrix(const int n, const double* p, const double* z, const int* cells, double* A, double*) const {
        for (int i = 0; i < n; ++i) { double s = 0; for (int q = 0; q < np; ++q) s += z[np * i + q]; const double k = cells ? 1 + 0.1 * region[cells[i]] : 1;
            for (int q = 0; q < np; ++q) for (int t = 0; t < np; ++t) A[np * np * i + t + np * q] = q == t ? k * b(q, p[i]) * (s > 0 ? 1 + kz * (1 - z[np * i + q] / s) : 1) : x[t][q] * b(q, p[i]) * (s > 0 ? z[np * i + t] / s : 0) * (p[i] * 1e-7); } }
    void density(const int n, const double* A, double* o) const { for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) { o[np * i + q] = 0; for (int t = 0; t < np; ++t) o[np * i + q] += A[np * np * i + t + np * q] * rho[t]; } }
    void relperm(const int, const double*, const int*, double*, double*) const {} void capPress(const int, const double*, const int*, double*, double*) const {}
    void satRange(const int n, const int* cells, double* a, double* e) const { r.get(n, cells, a, e, np); }
};
void genRange(Gen& g, int nc, Range& r) { const bool same = g.b(); for (int i = 0; i < nc; ++i) { r.lo.push_back(same && i ? r.lo[0] : g.p(1, 3) ? 0.0 : g.i(0, 40) / 100.0); r.hi.push_back(same && i ? r.hi[0] : g.p(1, 3) ? 1.0 : 0.45 + g.i(0, 50) / 100.0); } }
void genInc(Gen& g, const UnstructuredGrid& G, Inc& f, int np = 2) { f.nc = G.number_of_cells; f.np = np; f.d = G.dimensions; genRange(g, f.nc, f.r); for (double& r : f.rho) r = g.i(1, 1400); }
void genBo(Gen& g, const UnstructuredGrid& G, Bo& f, int np = 2) {
    f.nc = G.number_of_cells; f.np = np; f.d = G.dimensions; genRange(g, f.nc, f.r); const bool comp = g.i(0, 3); f.kz = g.b() ? 0 : g.real(-0.5, 0.5);
    for (int q = 0; q < 3; ++q) { f.rho[q] = g.i(1, 1200); f.b0[q] = g.b() ? 1.0 : g.real(0.7, 1.2); f.c[q] = comp ? g.logreal(1e-11, 4e-9) : 0; for (int t = 0; t < 3; ++t) f.x[q][t] = 0; }
    for (int i = 0; i < f.nc; ++i) f.region.push_back(0);
}
void setup(Gen& g, const UnstructuredGrid& G, Inc& f) { genInc(g, G, f); } void setup(Gen& g, const UnstructuredGrid& G, Bo& f) { genBo(g, G, f); }
double dens(const Inc& f, int q) { return f.rho[q]; } double dens(const Bo& f, int q) { return f.rho[q] * f.b0[q]; } double compr(const Inc&, int) { return 0; } double compr(const Bo& f, int q) { return f.c[q]; }
GridPtr genGrid(Gen& g, Ctx& c, int* dims) {
    GridPtr G;
    if (g.p(1, 3)) { CpModel m = genCp(g); m.build(); grdecl d = m.decl(); G.reset(create_grid_cornerpoint(&d, 0.0)); if (!G || !G->number_of_cells) throw pbt::Discard(); for (int k = 0; k < 3; ++k) dims[k] = m.n[k]; c.desc() << "corner point " << m.str(); c.label("corner point"); }
    else { CartSpec s = genCart(g, 60, 0, false, g.i(0, 2)); G = makeCart(s); if (!G) throw pbt::Discard(); for (int k = 0; k < 3; ++k) dims[k] = s.n[k]; c.desc() << s.str(); c.label("2D", s.dim == 2); if (g.p(1, 4)) { shuffleFaces(*G, g); c.desc() << " (faces shuffled)"; } }
    c.desc() << '\n'; return G;
}
double depth(const UnstructuredGrid& G, int c) { return G.cell_centroids[G.dimensions * c + G.dimensions - 1]; }
void extent(const UnstructuredGrid& G, double& a, double& b) { a = 1e300; b = -1e300; for (int c = 0; c < G.number_of_cells; ++c) { a = std::min(a, depth(G, c)); b = std::max(b, depth(G, c)); } }
double genDepth(Gen& g, const UnstructuredGrid& G) { double a, b; extent(G, a, b); const double w = b - a + 1; switch (g.i(0, 5)) { case 0: return std::floor(a - g.real(0, 2) * w); case 1: return std::ceil(b + g.real(0, 2) * w); case 2: return depth(G, g.i(0, G.number_of_cells - 1)); case 3: return a - g.real(0, 300); default: return g.real(a - 0.1 * w, b + 0.1 * w); } }

template <class State> void checkFaces(Ctx& c, const UnstructuredGrid& G, const State& S) {
    c.check((int) S.facepressure().size() == G.number_of_faces && (int) S.faceflux().size() == G.number_of_faces, "sizes", "face arrays have %d and %d entries", (int) S.facepressure().size(), (int) S.faceflux().size());
    const int d = G.dimensions;
    for (int f = 0; f < G.number_of_faces; ++f) {
        const int* fc = G.face_cells + 2 * f; LD w[2] = { 0, 0 }; if (fc[0] < 0 && fc[1] < 0) continue; LD e;
        if (fc[0] < 0 || fc[1] < 0) e = S.pressure()[fc[0] < 0 ? fc[1] : fc[0]];
        else { for (int j = 0; j < 2; ++j) for (int k = 0; k < d; ++k) { const LD q = (LD) G.face_centroids[d * f + k] - G.cell_centroids[d * fc[j] + k]; w[j] += q * q; } w[0] = std::sqrt(w[0]); w[1] = std::sqrt(w[1]); if (!(w[0] + w[1] > 0)) continue; e = (S.pressure()[fc[0]] * w[1] + S.pressure()[fc[1]] * w[0]) / (w[0] + w[1]); }
        const LD sc = std::max(fc[0] >= 0 ? std::fabs(S.pressure()[fc[0]]) : 0, fc[1] >= 0 ? std::fabs(S.pressure()[fc[1]]) : 0);
        c.check(std::fabs(S.facepressure()[f] - e) <= 1e-9L * sc, "face-pressure", "face %d between cells %d and %d: pressure %.17g instead of %.17Lg", f, fc[0], fc[1], S.facepressure()[f], e);
    }
}
template <class State> void checkSum(Ctx& c, const UnstructuredGrid& G, const State& S, int np) {
    c.check(S.numPhases() == np && (int) S.saturation().size() == np * G.number_of_cells && (int) S.pressure().size() == G.number_of_cells, "sizes", "%d phases, %d saturations, %d pressures", S.numPhases(), (int) S.saturation().size(), (int) S.pressure().size());
    for (int i = 0; i < G.number_of_cells; ++i) { LD t = 0; for (int q = 0; q < np; ++q) t += S.saturation()[np * i + q]; c.check(std::fabs(t - 1) < 1e-12L, "sum", "saturations of cell %d sum to %.17Lg", i, t); }
}
// first phase at its maximum on one side of the contact, at its minimum on the other
template <class State> void checkContact(Ctx& c, const UnstructuredGrid& G, const State& S, const Range& r, double woc, bool above) {
    int n[2] = { 0, 0 };
    for (int i = 0; i < G.number_of_cells; ++i) { const double z = depth(G, i), s = S.saturation()[2 * i]; const bool at = std::fabs(z - woc) <= 1e-12 * (1 + std::fabs(woc)); const bool wet = (z > woc) != above; ++n[wet];
        c.check(s == (wet ? r.hi[i] : r.lo[i]) || (at && (s == r.hi[i] || s == r.lo[i])), "contact", "cell %d at depth %.17g, contact %.17g: water saturation %g, range [%g, %g]", i, z, woc, s, r.lo[i], r.hi[i]); }
    c.label("both sides of the contact", n[0] && n[1]);
}
// pressure along the column: phase 'up' above the contact, 'down' below
struct Hydro { double rho[2], c[2], g, woc, zd, pd; // [0] above, [1] below
    LD leg(int q, LD p0, LD dz) const { if (c[q] == 0) return p0 + rho[q] * (LD) g * dz; return p0 - std::log1p(-c[q] * rho[q] * std::exp(c[q] * p0) * (LD) g * dz) / c[q]; }
    LD at(double z) const { const int a = zd > woc, b = z > woc; if (a == b) return leg(a, pd, (LD) z - zd); return leg(b, leg(a, pd, (LD) woc - zd), (LD) z - woc); } };
template <class State> void checkHydro(Ctx& c, const UnstructuredGrid& G, const State& S, const Hydro& h, bool compressible) {
    double a, b; extent(G, a, b); const double lo = std::min(a, h.zd), hi = std::max(b, h.zd); const LD H = hi - lo, step = H / 100;
    LD ex = std::fabs(h.pd); if (compressible) for (int q = 0; q < 2; ++q) ex = std::max(ex, std::fabs(h.leg(q, h.pd, lo - h.zd))), ex = std::max(ex, std::fabs(h.leg(q, h.pd, hi - h.zd)));
    LD tol = 0; if (compressible) for (int q = 0; q < 2; ++q) { const LD r = h.rho[q] * std::exp(h.c[q] * ex) * h.g; tol = std::max(tol, h.c[q] * r * r * H * step * 2 * std::exp(2 * h.c[q] * r * H)); }
    // a contact, or an end of the cells' range, a rounding error away from the datum or an end of the range makes two nodes of the table (nearly) coincide: the slope there is noise, and the monotone interpolant may be anywhere between the neighbouring nodes
    const double tiny = 1e-7 * (double) H; if (compressible && H > 0 && (std::fabs(h.woc - lo) < tiny || std::fabs(h.woc - hi) < tiny || std::fabs(h.woc - h.zd) < tiny || (a != h.zd && std::fabs(a - h.zd) < tiny) || (b != h.zd && std::fabs(b - h.zd) < tiny))) for (int q = 0; q < 2; ++q) tol = std::max(tol, 2 * step * h.rho[q] * std::exp(h.c[q] * ex) * h.g);
    const bool crossed = h.woc > lo && h.woc < hi; if (compressible && crossed) tol += 0.5L * step * std::fabs(h.rho[0] * std::exp(h.c[0] * ex) - h.rho[1] * std::exp(h.c[1] * ex)) * h.g; c.label("contact between cells and datum", crossed);
    for (int i = 0; i < G.number_of_cells; ++i) { const double z = depth(G, i); const LD e = h.at(z), sc = std::fabs(e) + std::fabs(h.pd) + (h.rho[0] + h.rho[1]) * h.g * (std::fabs(z) + std::fabs(h.zd) + (crossed ? std::fabs(h.woc) : 0)); // the contact's own pressure may be far away
        const LD far = compressible || h.woc > 1e29 ? 0 : (h.rho[0] + h.rho[1]) * h.g * std::fabs(h.woc);
        c.check(std::fabs(S.pressure()[i] - e) <= tol + 1e-11L * (sc + far), "hydrostatic", "cell %d at depth %.17g (cells span [%g, %g], datum %g at depth %g, contact %g): pressure %.17g instead of %.17Lg (tolerance %Lg)", i, z, a, b, h.pd, h.zd, h.woc, S.pressure()[i], e, tol); }
}

template <class State, class Props> void basic(Gen& g, Ctx& c, bool comp) {
    int dims[3] = { 1, 1, 1 }; GridPtr G = genGrid(g, c, dims); Props f; setup(g, *G, f); const double grav = g.p(1, 6) ? 0.0 : g.b() ? 9.80665 : g.real(0, 15);
    Opm::parameter::ParameterGroup P; P.disableOutput(); double pref = 100; if (g.b()) { pref = g.b() ? g.i(1, 500) : g.real(1, 500); P.insertParameter("ref_pressure", num(pref)); }
    const int mode = g.i(0, comp ? 2 : 4); double woc = 0, sat = 0; const bool hasWoc = mode == 2 || mode == 3 || (mode == 0 && g.b()), hasSat = mode == 4 || g.p(1, 4);
    if (hasWoc) { woc = genDepth(g, *G); P.insertParameter("water_oil_contact", num(woc)); }
    if (hasSat) { sat = g.p(1, 4) ? g.i(0, 1) : g.real(0, 1); P.insertParameter("init_saturation", num(sat)); }
    if (mode == 0) P.insertParameter("convection_testcase", "true"); else if (g.p(1, 3)) P.insertParameter("convection_testcase", "false");
    if (mode == 3) P.insertParameter("segregation_testcase", "true"); else if (g.p(1, 3)) P.insertParameter("segregation_testcase", "false");
    c.desc() << (comp ? "compressible, " : "incompressible, ") << "mode " << mode << ", pref " << pref << ", contact " << woc << ", saturation " << sat << ", gravity " << grav << ", densities " << f.rho[0] << " " << f.rho[1] << ", water range of cell 0 [" << f.r.lo[0] << ", " << f.r.hi[0] << "]";
    State S; { Quiet q; if (g.p(1, 5)) { S.init(*G, 2); S.pressure()[0] = 7; S.saturation()[0] = 3; } Opm::initStateBasic(*G, f, P, grav, S); }
    checkSum(c, *G, S, 2); checkFaces(c, *G, S); const int nc = G->number_of_cells; static const char* nm[] = { "left-right", "no contact", "contact", "segregation", "given saturation" }; c.nontrivial(nc > 1); c.label(nm[mode]);
    Hydro h; h.g = grav; h.pd = pref * bar; h.zd = depth(*G, 0); h.woc = 1e30; for (int q = 0; q < 2; ++q) { h.rho[q] = dens(f, 1 - q); h.c[q] = compr(f, 1 - q); }
    if (mode == 0) { for (int i = 0; i < nc; ++i) { const int gc = G->global_cell ? G->global_cell[i] : i; const bool left = gc % G->cartdims[0] < G->cartdims[0] / 2; c.check(S.saturation()[2 * i] == (left ? f.r.hi[i] : f.r.lo[i]), "left", "cell %d (logical %d): water saturation %g", i, gc, S.saturation()[2 * i]); c.check(std::fabs(S.pressure()[i] - pref * bar) <= 1e-13 * pref * bar, "pressure", "cell %d has pressure %.17g", i, S.pressure()[i]); } return; }
    if (mode == 2 || mode == 3) { h.zd = h.woc = woc; checkContact(c, *G, S, f.r, woc, mode == 3); if (mode == 3) { std::swap(h.rho[0], h.rho[1]); std::swap(h.c[0], h.c[1]); } }
    if (mode == 1 && (comp || !hasSat)) for (int i = 0; i < nc; ++i) c.check(S.saturation()[2 * i] == f.r.lo[i], "minimum", "cell %d: water saturation %g, minimum %g", i, S.saturation()[2 * i], f.r.lo[i]);
    if (!comp && (mode == 4 || (mode == 1 && hasSat))) for (int i = 0; i < nc; ++i) c.check(S.saturation()[2 * i] == sat, "saturation", "cell %d: water saturation %g", i, S.saturation()[2 * i]);
    if (!comp && (mode == 4 || (mode == 1 && hasSat))) h.rho[0] = h.rho[1] = f.rho[0] * sat + f.rho[1] * (1 - sat);
    checkHydro(c, *G, S, h, comp);
}

void basicInc(Gen& g, Ctx& c) { basic<Opm::TwophaseState, Inc>(g, c, false); }
void basicBo(Gen& g, Ctx& c) { basic<Opm::BlackoilState, Bo>(g, c, true); }

void init(const UnstructuredGrid& G, const Inc& f, const Opm::EclipseGridParser& P, double grav, Opm::TwophaseState& S, bool) { Opm::initStateFromDeck(G, f, P, grav, S); }
void init(const UnstructuredGrid& G, const Bo& f, const Opm::EclipseGridParser& P, double grav, Opm::BlackoilState& S, bool full) { if (full) Opm::initBlackoilStateFromDeck(G, f, P, grav, S); else Opm::initStateFromDeck(G, f, P, grav, S); }
void checkSurf(Ctx&, const Inc&, const UnstructuredGrid&, const Opm::TwophaseState&) {}
void checkSurf(Ctx& c, const Bo& f, const UnstructuredGrid& G, const Opm::BlackoilState& S) {
    const int np = f.np; c.check((int) S.surfacevol().size() == np * G.number_of_cells, "sizes", "%d surface volumes", (int) S.surfacevol().size());
    for (int i = 0; i < G.number_of_cells; ++i) { double A[9]; f.matrix(1, &S.pressure()[i], &S.saturation()[np * i], &i, A, 0);
        for (int r = 0; r < np; ++r) { LD e = 0, m = 0; for (int q = 0; q < np; ++q) { const LD t = (LD) A[r + np * q] * S.saturation()[np * i + q]; e += t; m += std::fabs(t); } c.check(std::fabs(S.surfacevol()[np * i + r] - e) <= 1e-12L * m, "surface-volume", "cell %d component %d: %.17g instead of %.17Lg", i, r, S.surfacevol()[np * i + r], e); } }
}
template <class State, class Props> void deckOf(Gen& g, Ctx& c, Props& f, const UnstructuredGrid& G, const int* dims, bool comp) {
    const int n = dims[0] * dims[1] * dims[2], nc = G.number_of_cells; const bool field = g.p(1, 3), w = f.np == 3 || g.i(0, 3), o = true, gas = f.np == 3 || !w, mismatch = g.p(1, 12), up = mismatch ? false : true;
    const bool W = mismatch ? (f.np == 3 ? false : true) : w, GS = mismatch ? true : gas; (void) up; const int nph = W + o + GS;
    std::ostringstream d; d << (field ? "FIELD\n" : "METRIC\n") << (W ? "WATER\n" : "") << "OIL\n" << (GS ? "GAS\n" : ""); const double len = field ? foot : 1, pu = field ? psi : bar;
    const bool equil = nph == 2 && W ? g.b() : g.p(1, 8), pres = !equil ? g.i(0, 9) : g.b(); bool swat = W ? g.i(0, 11) : g.p(1, 4), sgas = GS ? g.i(0, 11) : g.p(1, 4); if (equil && g.b()) swat = sgas = false;
    double zd = 0, pd = 0, woc = 0; std::vector<double> vp, vw, vg; const int regions = equil && g.p(1, 12) ? 2 * g.i(0, 1) : 1;
    if (equil) { zd = genDepth(g, G) / len; woc = g.p(1, 4) ? zd : genDepth(g, G) / len; pd = g.real(1, 400); d << "EQUIL\n " << num(zd) << ' ' << num(pd) << ' ' << num(woc); if (g.b()) d << " 0 " << num(zd - 100) << " 0 0 0 0"; d << " /\n"; }
    int last = 0; for (int i = 0; i < nc; ++i) last = std::max(last, G.global_cell ? G.global_cell[i] : i);   // one field may have too few values
    const std::string cutKey = !equil && g.p(1, 12) ? (g.b() ? "PRESSURE" : W && (!GS || g.b()) ? "SWAT" : "SGAS") : ""; const int cutTo = g.b() ? last : g.i(0, last);
    auto arr = [&](const char* k, std::vector<double>& v, int kind) { const bool cut = k == cutKey; d << k << '\n'; for (int i = 0; i < n; ++i) { if (cut && i == cutTo) break; v.push_back(kind == 0 ? g.i(1, 4000) / 8.0 : kind == 1 ? g.i(0, 512) / 1024.0 : g.i(0, 511) / 1024.0); d << num(v.back()) << (g.p(1, 8) ? "\n" : " "); } d << "/\n"; };
    const int ord = g.i(0, 2); for (int k = 0; k < 3; ++k) switch ((k + ord) % 3) { case 0: if (pres) arr("PRESSURE", vp, 0); break; case 1: if (swat) arr("SWAT", vw, 1); break; default: if (sgas) arr("SGAS", vg, 2); }
    const double grav = g.p(1, 6) ? 0.0 : 9.80665; c.desc() << d.str() << (comp ? "compressible" : "incompressible") << " fluid of " << f.np << " phases, gravity " << grav << ", densities " << f.rho[0] << " " << f.rho[1];
    const bool ok = nph == f.np && (equil ? nph == 2 && W && regions == 1 : pres && (!W || swat) && (!GS || sgas)) && cutKey.empty(); c.label("too few values", !cutKey.empty()); State S; bool thrown = false; Quiet quiet; Opm::EclipseGridParser P; { std::istringstream is(d.str()); P.read(is); }
    if (equil && regions != 1) { Opm::EQUIL* e = new Opm::EQUIL(P.getEQUIL()); Opm::EclipseGridParser::SpecialFieldPtr E(e); const Opm::EquilLine first = e->equil[0]; e->equil.assign(regions, first); P.setSpecialField("EQUIL", E); c.desc() << ", " << regions << " equilibration regions"; }
    const bool full = comp && g.b(); try { init(G, f, P, grav, S, full); } catch (const std::exception&) { thrown = true; }
    c.check(thrown == !ok, "admissible", "a deck %s was %s", ok ? "with all that is needed" : "without what is needed", thrown ? "rejected" : "accepted"); c.label("rejected", thrown); if (thrown) return;
    checkSum(c, G, S, f.np); checkFaces(c, G, S); c.nontrivial(nc > 1); c.label("inactive cells", nc < n); c.label(equil ? "equilibrium" : "given", true); c.label("three phases", nph == 3); c.label("oil and gas", nph == 2 && GS); if (full) { c.label("surface volumes"); checkSurf(c, f, G, S); }
    if (equil) { Hydro h; h.g = grav; h.pd = pd * pu; h.zd = zd * len; h.woc = woc * len; for (int q = 0; q < 2; ++q) { h.rho[q] = dens(f, 1 - q); h.c[q] = compr(f, 1 - q); } checkContact(c, G, S, f.r, woc * len, false); if (std::fabs(h.zd - h.woc) < 1e-9 * (1 + std::fabs(h.woc))) h.zd = h.woc; checkHydro(c, G, S, h, comp); return; }
    for (int i = 0; i < nc; ++i) { const int gc = G.global_cell ? G.global_cell[i] : i; c.close(S.pressure()[i], vp[gc] * pu, 1e-13, 0, "pressure", "cell %d (logical %d)", i, gc); int q = 0; const int nq = f.np; double rest = 1;
        if (W) { c.check(S.saturation()[nq * i] == vw[gc], "saturation", "cell %d (logical %d): water saturation %g instead of %g", i, gc, S.saturation()[nq * i], vw[gc]); rest -= vw[gc]; ++q; }
        if (GS) { c.check(S.saturation()[nq * i + q + 1] == vg[gc], "saturation", "cell %d (logical %d): gas saturation %g instead of %g", i, gc, S.saturation()[nq * i + q + 1], vg[gc]); rest -= vg[gc]; }
        c.check(std::fabs(S.saturation()[nq * i + q] - rest) < 1e-14, "saturation", "cell %d (logical %d): oil saturation %g instead of %g", i, gc, S.saturation()[nq * i + q], rest); }
}
void deck(Gen& g, Ctx& c) {
    int dims[3]; GridPtr G; do { G = genGrid(g, c, dims); } while (G->dimensions != 3); const int np = g.i(0, 3) ? 2 : 3;
    if (g.b()) { Inc f; genInc(g, *G, f, np); deckOf<Opm::TwophaseState>(g, c, f, *G, dims, false); }
    else { Bo f; genBo(g, *G, f, np); deckOf<Opm::BlackoilState>(g, c, f, *G, dims, true); }
}
void surfvol(Gen& g, Ctx& c) {
    int dims[3]; GridPtr G = genGrid(g, c, dims); const int np = g.i(2, 3), nc = G->number_of_cells; Bo f; genBo(g, *G, f, np); for (int q = 0; q < np; ++q) for (int t = 0; t < np; ++t) if (q != t && g.b()) f.x[q][t] = g.real(0, 2); for (int& r : f.region) r = g.i(0, 4);
    Opm::BlackoilState S; S.init(*G, np); for (int i = 0; i < nc; ++i) { double rest = 1; for (int q = 0; q + 1 < np; ++q) { const double s = g.p(1, 4) ? g.i(0, 1) * rest : g.real(0, rest); S.saturation()[np * i + q] = s; rest -= s; } S.saturation()[np * i + np - 1] = rest; S.pressure()[i] = g.real(1, 500) * bar; }
    const std::vector<double> p(S.pressure()), s(S.saturation()); Opm::initBlackoilSurfvol(*G, f, S); c.desc() << np << " phases"; c.nontrivial(nc > 1); c.label("three phases", np == 3); c.check(S.pressure() == p && S.saturation() == s, "unchanged", "pressure or saturation changed"); checkSurf(c, f, *G, S);
}
// wells start at their bottom hole target, at the pressure of their first perforation otherwise
template <class State> void wellsOf(Gen& g, Ctx& c, const UnstructuredGrid& G, const Wells* W)
{
    State S; S.init(G, 2); for (double& p : S.pressure()) p = g.real(1, 500) * bar; const std::vector<double> before(S.pressure()); Opm::WellState ws; const bool again = g.p(1, 4); if (again) { State T; T.init(G, 2); ws.init(W, T); }
    ws.init(W, S); c.check(S.pressure() == before, "unchanged", "the reservoir's pressure changed"); c.label("twice", again);
    const int nw = W ? W->number_of_wells : 0, n = W ? W->well_connpos[nw] : 0; c.check((int) ws.bhp().size() == nw && (int) ws.perfRates().size() == n && (int) ws.perfPress().size() == n, "sizes", "%d wells, %d rates, %d pressures for %d wells and %d perforations", (int) ws.bhp().size(), (int) ws.perfRates().size(), (int) ws.perfPress().size(), nw, n);
    for (int j = 0; j < n; ++j) c.check(ws.perfRates()[j] == 0, "rates", "perforation %d starts with rate %g", j, ws.perfRates()[j]);
    for (int w = 0; w < nw; ++w) {
        const WellControls* k = W->ctrls[w]; const int a = W->well_connpos[w], e = W->well_connpos[w + 1]; double want = 0; const bool bhp = k->current >= 0 && k->type[k->current] == BHP; if (bhp) want = k->target[k->current]; else if (a < e) want = S.pressure()[W->well_cells[a]];
        c.check(ws.bhp()[w] == want, "bhp", "well %d (%s, %d perforations) starts at %g instead of %g", w, bhp ? "pressure controlled" : k->current < 0 ? "shut" : "rate controlled", e - a, ws.bhp()[w], want);
    }
}
void wells(Gen& g, Ctx& c)
{
    int dims[3]; GridPtr G = genGrid(g, c, dims); const int np = g.i(1, 3), nw = g.size(1, 5), cap = g.i(0, 1); std::unique_ptr<Wells, void (*)(Wells*)> W(create_wells(np, cap ? nw : 0, 0), destroy_wells); std::ostringstream o;
    for (int w = 0; w < nw; ++w) {
        const int n = g.p(1, 4) ? 0 : g.i(1, 4); std::vector<int> cells(n + 1); std::vector<double> WI(n + 1, 1.0); for (int& x : cells) x = g.i(0, G->number_of_cells - 1); const double f[3] = { 1, 0, 0 }; if (!add_well(g.b() ? INJECTOR : PRODUCER, 0, n, f, n ? &cells[0] : 0, n ? &WI[0] : 0, "W", W.get())) throw pbt::Discard();
        const int nk = g.i(0, 3); o << " [" << n << " perforations:"; for (int k = 0; k < nk; ++k) { const int t = g.i(0, 2); const double v = g.real(1, 500) * bar; append_well_controls(t == 0 ? BHP : t == 1 ? RESERVOIR_RATE : SURFACE_RATE, v, t ? f : 0, w, W.get()); o << (t == 0 ? " bhp " : " rate ") << v; } const int cur = g.p(1, 5) || !nk ? -1 : g.i(0, nk - 1); set_current_control(w, cur, W.get()); o << " current " << cur << "]";
        c.label("no perforations", !n); c.label("shut", cur < 0);
    }
    c.desc() << nw << " wells" << o.str(); c.nontrivial(nw > 1); const bool none = g.p(1, 20); if (g.b()) wellsOf<Opm::TwophaseState>(g, c, *G, none ? 0 : W.get()); else wellsOf<Opm::BlackoilState>(g, c, *G, none ? 0 : W.get());
}
}
pbt::Spec pbt::spec()
{
    return { "C36", "basic/basicBo: initial states from parameters (left-right, no contact, contact, segregation, given saturation, in any combination that selects one) for incompressible and compressible two-phase fluids on tensor, layered, 2D and corner-point grids; deck: EQUIL or PRESSURE/SWAT/SGAS for water-oil, oil-gas and three phases, in METRIC or FIELD units, on grids with inactive cells; surfvol: z = A s for composition-dependent A. wells: starting bottom hole pressures of wells under pressure or rate control, shut, or without perforations. Saturations judged per cell against the side of the contact and the fluid's range, pressures against the closed-form hydrostatic solution from the datum through the contact, face pressures against distance weights. Non-trivial: more than one cell.",
             { "a cell centroid on the contact may belong to either side", "compressible pressures are integrated in steps of a hundredth of the depth range: the closed form is judged within the first-order error of that step plus half a step of the density jump at the contact", "A takes the saturations as composition, as documented" },
             60000, 2000000, { { "basic", 3, basicInc }, { "basicBo", 3, basicBo }, { "deck", 4, deck }, { "surfvol", 1, surfvol }, { "wells", 1, wells } } };
}
