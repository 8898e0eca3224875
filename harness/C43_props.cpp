// C43: fluid-and-rock property objects: their parts put together, point by point.
#include "common.hpp"
#include <iostream>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/props/BlackoilPropertiesBasic.hpp>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/props/phaseUsageFromDeck.hpp>
#include <opm/core/props/pvt/BlackoilPvtProperties.hpp>
#include <opm/core/props/rock/RockFromDeck.hpp>
#include <opm/core/props/satfunc/SatFuncGwseg.hpp>
#include <opm/core/props/satfunc/SatFuncSimple.hpp>
#include <opm/core/props/satfunc/SatFuncStone2.hpp>
#include <opm/core/props/satfunc/SaturationPropsFromDeck.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>

namespace {
typedef std::vector<double> V; typedef std::vector<int> VI;
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
void read(Opm::EclipseGridParser& P, const std::string& s) { std::istringstream i(s); P.read(i); }
const double mD = 9.869232667160130e-16, bar = 1e5, cP = 1e-3;

GridPtr subGrid(Gen& g, int& nd, VI& gc)
{
    int nc = g.i(1, 7); VI p; nd = nc; if (g.p(2, 3)) nd = nc + g.i(0, 6); GridPtr G(create_grid_cart3d(nc, 1, 1)); gc.resize(nc); for (int i = 0; i < nc; ++i) gc[i] = i;
    if (nd > nc || g.b()) { p = g.perm(nd); p.resize(nc); if (g.b()) std::sort(p.begin(), p.end()); gc = p; G->global_cell = (int*) std::malloc(nc * sizeof(int)); std::copy(p.begin(), p.end(), G->global_cell); } G->cartdims[0] = nd; return G;
}
void column(Gen& g, V& x, V& y, int n, double x0, double x1, double y0, double y1) { x.clear(); y.clear(); V h, k; double a = 0, b = 0; for (int i = 1; i < n; ++i) { h.push_back(g.real(0.2, 1)); k.push_back(g.real(0.2, 1)); a += h.back(); b += k.back(); } double s = 0, t = 0; for (int i = 0; i < n; ++i) { x.push_back(i + 1 == n ? x1 : x0 + (x1 - x0) * s / a); y.push_back(i + 1 == n ? y1 : y0 + (y1 - y0) * t / b); if (i + 1 < n) { s += h[i]; t += k[i]; } } }
void satTables(Gen& g, std::ostream& o, int regions, bool W, bool G)
{
    V swc(regions, 0.0); V x, y, z, q;
    if (W) { o << "SWOF\n"; for (int r = 0; r < regions; ++r) { swc[r] = g.i(0, 30) / 100.0; const int n = g.size(2, 6); column(g, x, y, n, swc[r], g.b() ? 1 : 1 - g.i(0, 20) / 100.0, 0, g.real(0.2, 1)); V u; column(g, u, z, n, 0, 1, 1, 0); const double p0 = g.real(-1, 5); column(g, u, q, n, 0, 1, p0, p0 - g.real(0.1, 3)); for (int i = 0; i < n; ++i) o << ' ' << num(x[i]) << ' ' << num(y[i]) << ' ' << num(z[i]) << ' ' << num(q[i]) << '\n'; o << "/\n"; } }
    if (G) { o << "SGOF\n"; for (int r = 0; r < regions; ++r) { const int n = g.size(2, 6); column(g, x, y, n, 0, 1 - swc[r], 0, g.real(0.2, 1)); V u; column(g, u, z, n, 0, 1, 1, 0); const double p0 = g.real(0, 1); column(g, u, q, n, 0, 1, p0, p0 + g.real(0.1, 3)); for (int i = 0; i < n; ++i) o << ' ' << num(x[i]) << ' ' << num(y[i]) << ' ' << num(z[i]) << ' ' << num(q[i]) << '\n'; o << "/\n"; } }
}
void pvtTables(Gen& g, std::ostream& o, bool W, bool G, bool incomp, double rho[3], double B[2], double mu[2])
{
    for (int q = 0; q < 3; ++q) rho[q] = g.real(0.5, 1200);
    o << "DENSITY\n " << num(rho[1]) << ' ' << num(rho[0]) << ' ' << num(rho[2]) << " /\n"; for (int q = 0; q < 2; ++q) { B[q] = g.real(0.8, 1.6); mu[q] = g.logreal(0.1, 20); }
    auto cst = [&](const char* k, int q) { o << k << "\n " << g.i(1, 300) << ' ' << num(B[q]) << ' ' << num(g.b() ? 0 : g.logreal(1e-6, 1e-4)) << ' ' << num(mu[q]) << ' ' << num(g.b() ? 0 : g.logreal(1e-6, 1e-4)) << " /\n"; };
    if (W) cst("PVTW", 0);
    const int kind = incomp ? 0 : g.i(0, G ? 2 : 1); double p = g.i(1, 40), b = g.real(1, 1.3), m = g.real(0.3, 5), r = g.real(0, 10);
    if (kind == 0) cst("PVCDO", 1);
    else if (kind == 1) { o << "PVDO\n"; const int n = g.size(2, 6); for (int i = 0; i < n; ++i) { o << ' ' << num(p) << ' ' << num(b) << ' ' << num(m) << (i + 1 < n ? "\n" : " /\n"); p += g.i(5, 90); b *= g.real(0.9, 0.99); m *= g.real(1.01, 1.3); } }
    else { o << "PVTO\n"; const int n = g.size(2, 4); for (int i = 0; i < n; ++i) { o << ' ' << num(r) << ' ' << num(p) << ' ' << num(b) << ' ' << num(m); if (i + 1 == n || g.b()) o << "\n   " << num(p + g.i(10, 100)) << ' ' << num(b * 0.97) << ' ' << num(m * 1.1); o << " /\n"; r += g.real(1, 50); p += g.i(5, 90); b *= g.real(1.01, 1.1); m *= g.real(0.7, 0.99); } o << "/\n"; }
    if (G) {
        p = g.i(1, 40); b = g.real(0.05, 0.5); m = g.real(0.01, 0.03); r = g.logreal(1e-6, 1e-4);
        if (g.b()) { o << "PVDG\n"; const int n = g.size(2, 6); for (int i = 0; i < n; ++i) { o << ' ' << num(p) << ' ' << num(b) << ' ' << num(m) << (i + 1 < n ? "\n" : " /\n"); p += g.i(5, 90); b *= g.real(0.4, 0.95); m *= g.real(1.01, 1.3); } }
        else { o << "PVTG\n"; const int n = g.size(2, 4); for (int i = 0; i < n; ++i) { o << ' ' << num(p) << ' ' << num(r) << ' ' << num(b) << ' ' << num(m) << "\n   0 " << num(b * 1.02) << ' ' << num(m * 0.98) << " /\n"; p += g.i(5, 90); r *= g.real(1.1, 3); b *= g.real(0.4, 0.95); m *= g.real(1.01, 1.3); } o << "/\n"; }
    }
}
struct DeckCase { std::string text; bool used[3], incomp, endscale; int np, nd, regions; GridPtr G; VI gc; double rho[3], B[2], mu[2]; V poro, perm; };
void genDeck(Gen& g, DeckCase& d, bool incomp)
{
    const int ph = incomp ? 0 : g.i(0, 2); d.incomp = incomp; d.used[0] = ph != 1; d.used[1] = true; d.used[2] = ph != 0; d.np = 1 + d.used[0] + d.used[2]; d.G = subGrid(g, d.nd, d.gc); std::ostringstream o; o << "METRIC\n"; VI order = g.perm(3); static const char* nm[3] = { "WATER", "OIL", "GAS" }; for (int q : order) if (d.used[q]) o << nm[q] << '\n';
    o << "PORO\n"; for (int i = 0; i < d.nd; ++i) { d.poro.push_back(g.i(0, 1000) / 1000.0); o << ' ' << num(d.poro.back()); } o << " /\nPERMX\n"; for (int i = 0; i < d.nd; ++i) { d.perm.push_back(g.i(1, 5000)); o << ' ' << num(d.perm.back()); } o << " /\n";
    pvtTables(g, o, d.used[0], d.used[2], incomp, d.rho, d.B, d.mu); d.regions = g.i(1, 3); if (d.regions > 1 || g.b()) { o << "SATNUM\n"; for (int i = 0; i < d.nd; ++i) o << ' ' << g.i(1, d.regions); o << " /\n"; } satTables(g, o, d.regions, d.used[0], d.used[2]);
    d.endscale = !d.used[2] && g.p(1, 4); if (d.endscale) { o << "ENDSCALE\n 'NODIR' 'REVERS' /\nSWL\n"; for (int i = 0; i < d.nd; ++i) o << ' ' << num(g.i(0, 30) / 100.0); o << " /\nSWCR\n"; for (int i = 0; i < d.nd; ++i) o << ' ' << num(0.3 + g.i(0, 10) / 100.0); o << " /\n"; }
    d.text = o.str();
}
std::unique_ptr<Opm::SaturationPropsInterface> satPart(const std::string& model, int samples, const Opm::EclipseGridParser& P, const UnstructuredGrid& G)
{
    std::unique_ptr<Opm::SaturationPropsInterface> r;
#define PART(T) { Opm::SaturationPropsFromDeck<Opm::T>* p = new Opm::SaturationPropsFromDeck<Opm::T>; r.reset(p); p->init(P, G, samples); }
    if (samples > 1) { if (model == "simple") PART(SatFuncSimpleUniform) else if (model == "stone2") PART(SatFuncStone2Uniform) else PART(SatFuncGwsegUniform) }
    else { if (model == "simple") PART(SatFuncSimpleNonuniform) else if (model == "stone2") PART(SatFuncStone2Nonuniform) else PART(SatFuncGwsegNonuniform) }
#undef PART
    return r;
}
// answers to the point-wise queries
struct Ans { V A, dA, mu, rho, kr, dkr, pc, dpc, lo, hi; };
bool same(double a, double b) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b)); }
void compare(Ctx& c, const char* label, const char* what, const V& a, const V& b, const VI& cells, int per) { c.check(a.size() == b.size(), label, "%s: %d values, not %d", what, (int) a.size(), (int) b.size()); for (size_t i = 0; i < a.size(); ++i) c.check(same(a[i], b[i]), label, "%s: point %d (cell %d), entry %d is %.17g instead of %.17g", what, (int) i / per, cells[i / per], (int) i % per, a[i], b[i]); }
void compare(Ctx& c, const char* label, const Ans& a, const Ans& b, const VI& ce, int np, bool fluid)
{
    if (fluid) { compare(c, label, "viscosity", a.mu, b.mu, ce, np); compare(c, label, "matrix", a.A, b.A, ce, np * np); compare(c, label, "matrix derivative", a.dA, b.dA, ce, np * np); compare(c, label, "density", a.rho, b.rho, ce, np); }
    compare(c, label, "relative permeability", a.kr, b.kr, ce, np); compare(c, label, "its derivative", a.dkr, b.dkr, ce, np * np); compare(c, label, "capillary pressure", a.pc, b.pc, ce, np); compare(c, label, "its derivative", a.dpc, b.dpc, ce, np * np); compare(c, label, "smallest saturation", a.lo, b.lo, ce, np); compare(c, label, "largest saturation", a.hi, b.hi, ce, np);
}
template <class F> void satAsk(const F& f, int n, int np, const V& s, const VI& ce, Ans& a, bool scaled = false) { a.kr.assign(n * np, -7); a.pc = a.lo = a.hi = a.kr; a.dkr.assign(n * np * np, -7); a.dpc = a.dkr; f.relperm(n, &s[0], &ce[0], &a.kr[0], scaled ? 0 : &a.dkr[0]); f.capPress(n, &s[0], &ce[0], &a.pc[0], &a.dpc[0]); f.satRange(n, &ce[0], &a.lo[0], &a.hi[0]); }
template <class F> void plain(Ctx& c, const F& f, int n, int np, const V& s, const VI& ce, const Ans& a) { V k(n * np, -7), p(k); f.relperm(n, &s[0], &ce[0], &k[0], 0); f.capPress(n, &s[0], &ce[0], &p[0], 0); compare(c, "plain", "relative permeability without derivatives", k, a.kr, ce, np); compare(c, "plain", "capillary pressure without derivatives", p, a.pc, ce, np); }
template <class F> void fluidAsk(const F& f, int n, int np, const V& p, const V& z, const VI& ce, Ans& a) { a.A.assign(n * np * np, -7); a.dA = a.A; a.mu.assign(n * np, -7); a.rho = a.mu; f.matrix(n, &p[0], &z[0], &ce[0], &a.A[0], &a.dA[0]); f.viscosity(n, &p[0], &z[0], &ce[0], &a.mu[0], 0); f.density(n, &a.A[0], &a.rho[0]); }
template <class T> std::vector<T> pickv(const std::vector<T>& v, const VI& which, int per) { std::vector<T> r; for (int i : which) r.insert(r.end(), v.begin() + i * per, v.begin() + (i + 1) * per); return r; }
Ans pick(const Ans& a, const VI& w, int np) { Ans r; r.kr = pickv(a.kr, w, np); r.pc = pickv(a.pc, w, np); r.lo = pickv(a.lo, w, np); r.hi = pickv(a.hi, w, np); r.dkr = pickv(a.dkr, w, np * np); r.dpc = pickv(a.dpc, w, np * np); if (!a.A.empty()) { r.A = pickv(a.A, w, np * np); r.dA = pickv(a.dA, w, np * np); r.mu = pickv(a.mu, w, np); r.rho = pickv(a.rho, w, np); } return r; }
template <class F> void refusesDerivative(Ctx& c, const F& f, int np) { V p(1, 100 * bar), z(np, 1.0), m(np), d(np); int cell = 0; bool threw = false; try { f.viscosity(1, &p[0], &z[0], &cell, &m[0], &d[0]); } catch (const std::exception&) { threw = true; } c.check(threw, "viscosity-derivative", "a viscosity derivative was promised but is not available"); }

void points(Gen& g, int n, int np, const bool used[3], int nc, V& p, V& z, V& s, VI& ce)
{
    for (int i = 0; i < n; ++i) { p.push_back(g.real(1, 500) * bar); ce.push_back(g.i(0, nc - 1)); const double w = used[0] ? (g.p(1, 5) ? g.i(0, 10) / 10.0 : g.real(0, 1)) : 0, x = used[2] ? (g.p(1, 4) ? 0 : g.real(0, 1 - w)) : 0; const double S[3] = { w, 1 - w - x, x }; for (int q = 0; q < 3; ++q) if (used[q]) { s.push_back(S[q]); z.push_back(g.p(1, 6) ? 0 : q == 2 ? g.real(0, 60) : g.logreal(1e-3, 2)); } (void) np; }
}

void deck(Gen& g, Ctx& c)
{
    DeckCase d; const bool incomp = g.p(1, 4); genDeck(g, d, incomp); static const char* models[3] = { "simple", "stone2", "gwseg" }; std::string model = "simple"; int pvtS = 200, satS = 200; const bool par = !incomp && g.i(0, 3), rock = incomp || g.i(0, 3); Opm::parameter::ParameterGroup q; q.disableOutput();
    if (par) { if (g.i(0, 3)) { model = models[g.i(0, 2)]; q.insertParameter("threephase_model", model); } if (g.i(0, 2)) { satS = g.p(1, 3) ? g.i(0, 1) : g.i(2, 300); q.insertParameter("sat_tab_size", num(satS)); } if (g.i(0, 2)) { pvtS = g.p(1, 3) ? 0 : g.i(2, 300); q.insertParameter("pvt_tab_size", num(pvtS)); } }
    const int bad = g.p(1, 5) ? g.i(1, 6) : 0; bool refuse = d.endscale && model != "simple"; std::string text = d.text;
    auto drop = [&](const char* k, const char* by) { const size_t a = text.find(std::string(k) + "\n"); if (a == std::string::npos) throw pbt::Discard(); text.replace(a, std::strlen(k), by); };
    if (bad == 1) { if (!par) throw pbt::Discard(); model = g.b() ? "stone1" : "Simple"; Opm::parameter::ParameterGroup r; r.disableOutput(); r.insertParameter("threephase_model", model); q = r; refuse = true; }
    if (bad == 2) { drop("OIL", ""); refuse = true; }
    if (bad == 3 && !d.used[2]) { drop("WATER", ""); refuse = true; }
    if (bad == 4) { if (!incomp) throw pbt::Discard(); drop("OIL", "OIL\nGAS"); refuse = true; }
    if (bad == 5) { if (!incomp) throw pbt::Discard(); const char* k[3] = { "PVTW", "PVCDO", "DENSITY" }; const char* e = k[g.i(0, 2)]; const size_t a = text.find(std::string(e) + "\n"), b = text.find("/\n", a); text.erase(a, b + 2 - a); refuse = true; }
    if (bad == 6) { if (d.regions < 2) throw pbt::Discard(); const size_t a = text.find("SATNUM\n"), b = text.find("/\n", a); text.replace(a, b - a, "SATNUM\n " + num(d.nd) + "*" + num(d.regions + 1)); refuse = true; }
    c.desc() << (incomp ? "incompressible" : par ? "from parameters " + model + ", " + num(satS) + " " + num(pvtS) + " samples" : "defaults") << (rock ? "" : ", no rock") << ", cells " << show(d.gc) << '\n' << text;
    Quiet quiet; Opm::EclipseGridParser P; read(P, text); std::unique_ptr<Opm::BlackoilPropertiesFromDeck> B; std::unique_ptr<Opm::IncompPropertiesFromDeck> I; bool threw = false; try { if (incomp) I.reset(new Opm::IncompPropertiesFromDeck(P, *d.G)); else if (par) { if (rock && g.b()) B.reset(new Opm::BlackoilPropertiesFromDeck(P, *d.G, q)); else B.reset(new Opm::BlackoilPropertiesFromDeck(P, *d.G, q, rock)); } else { if (rock && g.b()) B.reset(new Opm::BlackoilPropertiesFromDeck(P, *d.G)); else B.reset(new Opm::BlackoilPropertiesFromDeck(P, *d.G, rock)); } } catch (const std::exception&) { threw = true; }
    c.check(threw == refuse, "refuse", "%s input was %s", refuse ? "unusable" : "usable", threw ? "refused" : "accepted"); c.label("refused", threw); if (threw) { c.nontrivial(); return; }
    const int np = d.np, nc = d.gc.size(); c.nontrivial(nc > 1 && (d.regions > 1 || d.nd > nc)); c.label("incompressible", incomp); c.label("inactive cells", d.nd > nc); c.label("three phases", np == 3); c.label(model.c_str()); c.label("end-point scaling", d.endscale);
    { const Opm::PhaseUsage u = Opm::phaseUsageFromDeck(P); int k = 0; c.check(u.num_phases == np, "usage", "%d phases", u.num_phases); for (int r = 0; r < 3; ++r) { c.check(!!u.phase_used[r] == d.used[r], "usage", "phase %d", r); if (d.used[r]) c.check(u.phase_pos[r] == k++, "usage", "phase %d at %d", r, u.phase_pos[r]); } }
    c.check((I ? I->numPhases() : B->numPhases()) == np, "phases", "%d phases instead of %d", I ? I->numPhases() : B->numPhases(), np);
    if (rock) {
        const int nd = I ? I->numDimensions() : B->numDimensions(), n = I ? I->numCells() : B->numCells(); c.check(nd == 3 && n == nc, "size", "%d cells in %d dimensions", n, nd); const double *po = I ? I->porosity() : B->porosity(), *K = I ? I->permeability() : B->permeability();
        for (int i = 0; i < nc; ++i) { c.check(po[i] == d.poro[d.gc[i]], "porosity", "cell %d: %.17g instead of %.17g", i, po[i], d.poro[d.gc[i]]); for (int a = 0; a < 9; ++a) { const double w = a % 4 ? 0 : d.perm[d.gc[i]] * mD; c.check(std::fabs(K[9 * i + a] - w) <= 1e-13 * w, "permeability", "cell %d entry %d: %.17g instead of %.17g", i, a, K[9 * i + a], w); } }
    }
    { int k = 0; for (int r = 0; r < 3; ++r) if (d.used[r]) { const double x = I ? I->surfaceDensity()[k] : B->surfaceDensity()[k]; c.check(x == d.rho[r], "surface-density", "phase %d: %.17g instead of %.17g", r, x, d.rho[r]); if (I) { c.check(same(I->density()[k], d.rho[r] / d.B[r]), "reservoir-density", "phase %d: %.17g instead of %.17g", r, I->density()[k], d.rho[r] / d.B[r]); c.check(same(I->viscosity()[k], d.mu[r] * cP), "viscosity", "phase %d: %.17g instead of %.17g", r, I->viscosity()[k], d.mu[r] * cP); } ++k; } }
    const int n = g.i(1, 8); V p, z, s; VI ce; points(g, n, np, d.used, nc, p, z, s, ce); Ans a, want; auto ask = [&](int m, const V& p, const V& z, const V& s, const VI& ce, Ans& a) { if (I) satAsk(*I, m, np, s, ce, a, d.endscale); else { satAsk(*B, m, np, s, ce, a, d.endscale); fluidAsk(*B, m, np, p, z, ce, a); } }; ask(n, p, z, s, ce, a);
    // the parts
    std::unique_ptr<Opm::SaturationPropsInterface> S = satPart(model, incomp ? 200 : satS, P, *d.G); satAsk(*S, n, np, s, ce, want, d.endscale); compare(c, "saturation-part", a, want, ce, np, false);
    if (!incomp) {
        Opm::BlackoilPvtProperties T; T.init(P, pvtS); V b(n * np), db(b), r(b), dr(b), mu(b), b2(b), r2(b); T.dBdp(n, &p[0], &z[0], &b[0], &db[0]); T.dRdp(n, &p[0], &z[0], &r[0], &dr[0]); T.mu(n, &p[0], &z[0], &mu[0]); compare(c, "viscosity-part", "viscosity", a.mu, mu, ce, np); const int o = d.used[0], gs = o + 1;
        for (int i = 0; i < n; ++i) for (int col = 0; col < np; ++col) { double dens = 0; for (int row = 0; row < np; ++row) { const int e = np * i + col; const bool cross = d.used[2] && row != col && row >= o && col >= o; const double R = row == col ? 1 : cross ? r[e] : 0, dR = cross ? dr[e] : 0, A = R / b[e], dA = (dR - A * db[e]) / b[e]; const int k = np * np * i + np * col + row; c.check(same(a.A[k], A), "matrix", "point %d: A(%d,%d) is %.17g instead of %.17g", i, row, col, a.A[k], A); c.check(a.dA[k] == dA || (dA != dA) || std::fabs(a.dA[k] - dA) <= 1e-11 * (std::fabs(dR) + std::fabs(A * db[e])) / std::fabs(b[e]), "matrix-derivative", "point %d: dA(%d,%d)/dp is %.17g instead of %.17g", i, row, col, a.dA[k], dA); int ph = 0, cnt = -1; for (int q = 0; q < 3; ++q) if (d.used[q] && ++cnt == row) ph = q; dens += A * d.rho[ph]; } (void) gs; c.check(same(a.rho[np * i + col], dens), "density", "point %d: density of phase %d is %.17g instead of %.17g", i, col, a.rho[np * i + col], dens); }
        V A(n * np * np, -7); B->matrix(n, &p[0], &z[0], &ce[0], &A[0], 0); compare(c, "plain", "matrix without derivatives", A, a.A, ce, np * np); refusesDerivative(c, *B, np);
    }
    if (I) plain(c, *I, n, np, s, ce, a); else plain(c, *B, n, np, s, ce, a);
    // any selection of the points, in any order, gives the same answers point by point
    for (int t = 0; t < 2; ++t) { VI w; if (t) w.push_back(g.i(0, n - 1)); else { const int m = g.i(1, 10); for (int i = 0; i < m; ++i) w.push_back(g.i(0, n - 1)); } Ans x; const VI cw = pickv(ce, w, 1); ask(w.size(), pickv(p, w, 1), pickv(z, w, np), pickv(s, w, np), cw, x); compare(c, "pointwise", x, pick(a, w, np), cw, np, !incomp); }
    // the pressure properties do not depend on the cell; a second object answers alike
    { Ans x; VI other(ce); if (!incomp) { for (int& k : other) k = g.i(0, nc - 1); V A(n * np * np), mu(n * np); B->matrix(n, &p[0], &z[0], &other[0], &A[0], 0); B->viscosity(n, &p[0], &z[0], &other[0], &mu[0], 0); compare(c, "cell-free", "matrix", A, a.A, ce, np * np); compare(c, "cell-free", "viscosity", mu, a.mu, ce, np); } ask(n, p, z, s, ce, x); compare(c, "repeat", x, a, ce, np, !incomp); }
}

void basic(Gen& g, Ctx& c)
{
    const int nd = g.i(2, 3), nc = g.i(1, 8), np = g.i(1, 2), ctor = g.i(0, 2); const int func = np == 1 ? g.i(0, 2) : g.i(1, 2); static const char* fn[3] = { "Constant", "Linear", "Quadratic" }; double poro = 1, perm = 100 * mD; V rho(np, 1000.0), mu(np, cP); int f = func; std::unique_ptr<Opm::BlackoilPropertiesBasic> B; std::unique_ptr<Opm::IncompPropertiesBasic> I; Quiet quiet;
    if (ctor < 2) {
        Opm::parameter::ParameterGroup q; q.disableOutput(); std::ostringstream o; auto put = [&](const std::string& k, const std::string& v) { q.insertParameter(k, v); o << k << '=' << v << ' '; };
        if (np != 2 || g.b()) put("num_phases", num(np)); if (func != 1 || g.b()) put("relperm_func", fn[func]); if (g.b()) { poro = g.real(0, 1); put("porosity", num(poro)); } if (g.b()) { const double x = g.logreal(1e-3, 1e4); perm = x * mD; put("permeability", num(x)); } for (int k = 0; k < np; ++k) { if (g.b()) { rho[k] = g.real(1, 1500); put(pbt::fmt("rho%d", k + 1), num(rho[k])); } if (g.b()) { const double x = g.logreal(0.01, 100); mu[k] = x * cP; put(pbt::fmt("mu%d", k + 1), num(x)); } }
        const int bad = g.p(1, 5) ? g.i(1, 3) : 0; if (bad == 1) put("num_phases", num(g.b() ? 3 : 0)); if (bad == 2) put("relperm_func", "Cubic"); if (bad == 3) { put("num_phases", "2"); put("relperm_func", "Constant"); }
        c.desc() << (ctor ? "incompressible" : "black oil") << ", " << nc << " cells, " << o.str(); bool threw = false; try { if (ctor) I.reset(new Opm::IncompPropertiesBasic(q, nd, nc)); else B.reset(new Opm::BlackoilPropertiesBasic(q, nd, nc)); } catch (const std::exception&) { threw = true; } c.check(threw == (bad != 0), "refuse", "%s parameters were %s", bad ? "unusable" : "usable", threw ? "refused" : "accepted"); c.label("refused", threw); if (threw) { c.nontrivial(); return; }
    } else {
        poro = g.real(0, 1); perm = g.logreal(1e-18, 1e-10); for (int k = 0; k < np; ++k) { rho[k] = g.real(1, 1500); mu[k] = g.logreal(1e-5, 0.1); } const Opm::SaturationPropsBasic::RelPermFunc e[3] = { Opm::SaturationPropsBasic::Constant, Opm::SaturationPropsBasic::Linear, Opm::SaturationPropsBasic::Quadratic }; f = g.i(0, 2);
        c.desc() << "incompressible, " << nc << " cells, " << np << " phases, " << fn[f]; I.reset(new Opm::IncompPropertiesBasic(np, e[f], rho, mu, poro, perm, nd, nc));
    }
    c.nontrivial(np > 1 || nc > 1); c.label(fn[f]); c.label("incompressible", !!I); c.label("one phase", np == 1);
    const int D = I ? I->numDimensions() : B->numDimensions(), C = I ? I->numCells() : B->numCells(), N = I ? I->numPhases() : B->numPhases(); c.check(D == nd && C == nc && N == np, "size", "%d phases, %d cells in %d dimensions", N, C, D); const double *po = I ? I->porosity() : B->porosity(), *K = I ? I->permeability() : B->permeability();
    for (int i = 0; i < nc; ++i) { c.check(po[i] == poro, "porosity", "cell %d: %.17g instead of %.17g", i, po[i], poro); for (int a = 0; a < nd; ++a) for (int b = 0; b < nd; ++b) c.check(same(K[nd * nd * i + nd * a + b], a == b ? perm : 0.0), "permeability", "cell %d: K(%d,%d) = %.17g instead of %.17g", i, a, b, K[nd * nd * i + nd * a + b], a == b ? perm : 0.0); }
    for (int k = 0; k < np; ++k) { const double x = I ? I->surfaceDensity()[k] : B->surfaceDensity()[k]; c.check(x == rho[k], "density", "phase %d: %g instead of %g", k, x, rho[k]); if (I) c.check(I->density()[k] == rho[k] && same(I->viscosity()[k], mu[k]), "density", "phase %d: density %g, viscosity %g instead of %g, %g", k, I->density()[k], I->viscosity()[k], rho[k], mu[k]); }
    const int n = g.i(1, 6); V s, p, z; VI ce; for (int i = 0; i < n; ++i) { const double w = np == 1 ? 1 : g.p(1, 4) ? g.i(0, 1) : g.real(0, 1); s.push_back(w); if (np == 2) s.push_back(1 - w); p.push_back(g.real(1, 500) * bar); for (int k = 0; k < np; ++k) z.push_back(g.real(0, 2)); ce.push_back(g.i(0, nc - 1)); }
    Ans a; if (I) { satAsk(*I, n, np, s, ce, a); plain(c, *I, n, np, s, ce, a); } else { satAsk(*B, n, np, s, ce, a); plain(c, *B, n, np, s, ce, a); fluidAsk(*B, n, np, p, z, ce, a); refusesDerivative(c, *B, np); V A(n * np * np, -7); B->matrix(n, &p[0], &z[0], &ce[0], &A[0], 0); compare(c, "plain", "matrix without derivatives", A, a.A, ce, np * np); }
    for (int i = 0; i < n; ++i) for (int k = 0; k < np; ++k) {
        const int e = np * i + k; const double x = s[e], v = f == 0 ? 1 : f == 1 ? x : x * x, dv = f == 0 ? 0 : f == 1 ? 1 : 2 * x; c.check(same(a.kr[e], v) && a.pc[e] == 0 && a.lo[e] == 0 && a.hi[e] == 1, "saturation-functions", "phase %d at %.17g: relperm %.17g instead of %.17g, capillary %g, range [%g, %g]", k, x, a.kr[e], v, a.pc[e], a.lo[e], a.hi[e]);
        for (int j = 0; j < np; ++j) { const int m = np * np * i + k + np * j; c.check(same(a.dkr[m], j == k ? dv : 0.0) && a.dpc[m] == 0, "saturation-derivatives", "phase %d by %d at %.17g: %.17g, %g", k, j, x, a.dkr[m], a.dpc[m]); if (B) c.check(a.A[m] == (j == k) && a.dA[m] == 0, "matrix", "A(%d,%d) = %g, derivative %g", k, j, a.A[m], a.dA[m]); }
        if (B) c.check(same(a.mu[e], mu[k]) && same(a.rho[e], rho[k]), "fluid", "phase %d: viscosity %.17g, density %.17g instead of %.17g, %.17g", k, a.mu[e], a.rho[e], mu[k], rho[k]);
    }
}
}
pbt::Spec pbt::spec()
{
    return { "C43", "deck: property objects built from a generated deck (two or three phases, all table kinds, saturation regions, end-point scaling, grids whose cells are some of the deck's in any order, both constructors, all parameters, with and without rock) against separately built rock, fluid-table and saturation parts, the phase matrix and density formulas, and against themselves asked for other selections of the same points, again, without derivatives and with other cells; one in five inputs is unusable and has to be refused. basic: homogeneous properties from parameters or arguments against closed forms with the documented defaults and units. Non-trivial: several cells with regions or inactive cells (deck), several phases or cells (basic), or a refused input.",
             { "answers are compared to 1e-12 relative, undefined values (both NaN) count as equal" }, 60000, 1500000, { { "deck", 4, deck }, { "basic", 1, basic } } };
}
