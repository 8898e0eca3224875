// C31: relative permeability and capillary pressure against an independent evaluation of the deck's tables.
#include "common.hpp"
#include <iostream>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/props/satfunc/SaturationPropsBasic.hpp>
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>

namespace {
typedef long double LD; typedef std::vector<double> V;
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
void read(Opm::EclipseGridParser& P, const std::string& s) { std::istringstream i(s); P.read(i); }
const char* PVT = "DENSITY\n 800 1000 1 /\nPVTW\n 0 1 0 0.5 0 /\nPVCDO\n 0 1 0 1 0 /\nPVDG\n 1 1 0.01\n 100 0.5 0.02 /\n";

// value with derivatives by the three saturations (water, oil, gas)
struct D { LD v, d[3]; D(LD x = 0, int k = -1) : v(x) { for (int i = 0; i < 3; ++i) d[i] = i == k; } };
D operator+(D a, const D& b) { a.v += b.v; for (int i = 0; i < 3; ++i) a.d[i] += b.d[i]; return a; }
D operator-(D a, const D& b) { a.v -= b.v; for (int i = 0; i < 3; ++i) a.d[i] -= b.d[i]; return a; }
D operator*(const D& a, const D& b) { D r(a.v * b.v); for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
D operator/(const D& a, const D& b) { D r(a.v / b.v); for (int i = 0; i < 3; ++i) r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v; return r; }

struct Tab {
    V x, y; LD top = 0, slope = 0;
    void set(const V& a, const V& b, int samples)
    {
        if (samples < 2) { x = a; y = b; }
        else { Opm::MonotCubicInterpolator f(a, b); x.clear(); y.clear(); for (int i = 0; i < samples; ++i) { const double w = double(i) / (samples - 1); x.push_back((1 - w) * a[0] + w * a.back()); y.push_back(f(x.back())); } }
        top = slope = 0; for (size_t i = 0; i < x.size(); ++i) { top = std::max<LD>(top, std::fabs(y[i])); if (i) slope = std::max<LD>(slope, std::fabs(((LD) y[i] - y[i - 1]) / ((LD) x[i] - x[i - 1]))); }
    }
    int seg(LD s) const { int k = 0; while (k + 2 < (int) x.size() && s > x[k + 1]) ++k; return k; }
    D operator()(const D& s, bool& smooth) const
    {
        const int k = seg(s.v); for (size_t i = 0; i < x.size(); ++i) if (std::fabs(s.v - x[i]) < 1e-10L) smooth = false;
        const LD m = ((LD) y[k + 1] - y[k]) / ((LD) x[k + 1] - x[k]); D r(y[k] + m * (s.v - x[k])); for (int i = 0; i < 3; ++i) r.d[i] = m * s.d[i]; return r;
    }
    LD at(LD s) const { bool b; return (*this)(D(s), b).v; }
};

// one region: raw columns and the tables in use
struct Region {
    V sw, krw, krow, pcow, sg, krg, krog, pcog; Tab w, ow, pw, gg, og, pg;
    void use(int samples, bool W, bool G) { if (W) { w.set(sw, krw, samples); ow.set(sw, krow, samples); pw.set(sw, pcow, samples); } if (G) { gg.set(sg, krg, samples); og.set(sg, krog, samples); pg.set(sg, pcog, samples); } }
    // critical saturations and relative permeabilities there
    double swcr() const { for (size_t i = 1; i < sw.size(); ++i) if (krw[i] > 0) return sw[i - 1]; return sw.back(); }
    double sorw() const { for (size_t i = sw.size() - 1; i >= 1; --i) if (krow[i - 1] > 0) return sw[i]; return sw[0]; } // 1 - sowcr
    double yAt(const V& y, double s) const { for (size_t i = 0; i < sw.size(); ++i) if (sw[i] == s) return y[i]; return -1; }
};
V col(Gen& g, const V& x, double from, double to, bool rise, int flat0, int flat1) // monotone, constant on the first/last intervals
{
    const int n = x.size(); V w(n - 1); for (int i = 0; i < n - 1; ++i) w[i] = i < flat0 || i >= n - 1 - flat1 ? 0 : g.p(1, 6) && i && i + 2 < n ? 0 : g.real(0.05, 1); double s = 0; for (double q : w) s += q; V y(n, rise ? from : to); if (s == 0) { w[std::min(flat0, n - 2)] = s = 1; }
    double a = 0; for (int i = 0; i < n; ++i) { const double t = i + 1 == n ? 1 : a / s; bool last = true; for (int k = i; k < n - 1; ++k) last = last && w[k] == 0; y[i] = a == 0 ? from : last ? to : from + (to - from) * t; if (i < n - 1) a += w[i]; } return y;
}
Region genRegion(Gen& g, bool W, bool G, bool stoneOk)
{
    Region r; double swco = 0, som = 1; const auto grid = [&](double lo, double hi, int n) { V x(1, lo), h(n - 1); double s = 0; for (double& q : h) s += q = g.b() ? 1 : g.real(0.1, 1); double a = 0; for (int i = 0; i + 1 < n - 1 + 1 && i < n - 1; ++i) { a += h[i]; x.push_back(i == n - 2 ? hi : lo + (hi - lo) * a / s); } return x; };
    if (W) {
        swco = g.p(1, 3) ? 0 : g.i(0, 40) / 100.0; const double swmax = g.b() ? 1 : 1 - g.i(0, 30) / 100.0; som = g.p(1, 3) ? g.real(0.3, 1) : 1; const int n = g.size(2, 8); r.sw = grid(swco, swmax, n);
        r.krw = col(g, r.sw, 0, g.b() ? 1 : g.real(0.1, 1), true, g.p(1, 2) ? 0 : g.i(0, n - 2), g.p(1, 5) && n > 2); r.krow = col(g, r.sw, som, 0, false, g.p(1, 5) && n > 2, g.p(1, 2) ? 0 : g.i(0, n - 2)); const double p0 = g.real(-1, 5); r.pcow = g.p(1, 3) ? V(n, 0.0) : col(g, r.sw, p0, p0 - g.real(0.01, 4), false, 0, 0);
    }
    if (G) {
        const int n = g.size(2, 8); r.sg = grid(0, 1 - swco, n); if (!W) som = g.p(1, 3) ? g.real(0.3, 1) : 1; else if (g.p(1, 6) && stoneOk) som = g.real(0.3, 1);
        r.krg = col(g, r.sg, 0, g.b() ? 1 : g.real(0.1, 1), true, g.p(1, 2) ? 0 : g.i(0, n - 2), g.p(1, 5) && n > 2); r.krog = col(g, r.sg, som, 0, false, g.p(1, 5) && n > 2, g.p(1, 2) ? 0 : g.i(0, n - 2)); const double p0 = g.real(0, 1); r.pcog = g.p(1, 3) ? V(n, 0.0) : col(g, r.sg, p0, p0 + g.real(0.01, 4), true, 0, 0);
    }
    return r;
}
void write(std::ostream& o, const std::vector<Region>& R, bool W, bool G)
{
    if (W) { o << "SWOF\n"; for (const Region& r : R) { for (size_t i = 0; i < r.sw.size(); ++i) o << ' ' << num(r.sw[i]) << ' ' << num(r.krw[i]) << ' ' << num(r.krow[i]) << ' ' << num(r.pcow[i]) << '\n'; o << "/\n"; } }
    if (G) { o << "SGOF\n"; for (const Region& r : R) { for (size_t i = 0; i < r.sg.size(); ++i) o << ' ' << num(r.sg[i]) << ' ' << num(r.krg[i]) << ' ' << num(r.krog[i]) << ' ' << num(r.pcog[i]) << '\n'; o << "/\n"; } }
}
void toSI(Region& r) { for (double& p : r.pcow) p *= 1e5; for (double& p : r.pcog) p *= 1e5; }
enum Model { Simple, Stone2, Gwseg };
// grid whose cells are some of the deck's
GridPtr subGrid(Gen& g, int& deckCells, std::vector<int>& gc)
{
    const int nc = g.i(1, 6); GridPtr G(create_grid_cart3d(nc, 1, 1)); deckCells = nc; gc.resize(nc); for (int i = 0; i < nc; ++i) gc[i] = i; 
    if (g.p(2, 3)) { deckCells = nc + g.i(0, 5); std::vector<int> p = g.perm(deckCells); p.resize(nc); if (g.b()) std::sort(p.begin(), p.end()); gc = p; G->global_cell = (int*) std::malloc(nc * sizeof(int)); std::copy(p.begin(), p.end(), G->global_cell); }
    return G;
}
std::vector<int> genSatnum(Gen& g, std::ostream& o, int n, int& nreg)
{
    std::vector<int> s(n, 1); nreg = g.p(1, 3) ? 1 : g.i(2, 3); if (nreg > 1 || g.p(1, 4)) { o << "SATNUM\n"; for (int& q : s) { q = g.i(1, nreg); o << ' ' << q; } o << " /\n"; } if (g.p(1, 5)) ++nreg; return s;
}

void tables(Gen& g, Ctx& c)
{
    const int ph = g.i(0, 2); const bool W = ph != 1, G3 = ph != 0; const int np = 1 + W + G3; int pos[3] = { 0, W, W + 1 }; const Model model = (Model) g.i(0, 2); const bool incomp = ph == 0 && g.p(1, 4); const int samples = incomp ? 200 : g.p(1, 3) ? 0 : g.p(1, 3) ? 200 : g.i(2, 30);
    int nd; std::vector<int> gc; GridPtr G = subGrid(g, nd, gc); const int nc = gc.size(); std::ostringstream o; o << "METRIC\n" << (W ? "WATER\n" : "") << "OIL\n" << (G3 ? "GAS\n" : "") << PVT; int nreg; const std::vector<int> sn = genSatnum(g, o, nd, nreg); std::vector<Region> R(nreg); for (Region& r : R) r = genRegion(g, W, G3, true); write(o, R, W, G3);
    static const char* mn[3] = { "simple", "stone2", "gwseg" }; c.desc() << (incomp ? "incompressible" : mn[model]) << ", " << samples << " samples, cells " << show(gc) << '\n' << o.str(); for (Region& r : R) { toSI(r); r.use(samples, W, G3); }
    Quiet quiet; Opm::EclipseGridParser P; read(P, o.str()); std::unique_ptr<Opm::BlackoilPropertiesFromDeck> B; std::unique_ptr<Opm::IncompPropertiesFromDeck> I;
    if (incomp) I.reset(new Opm::IncompPropertiesFromDeck(P, *G)); else { Opm::parameter::ParameterGroup par; par.disableOutput(); if (model || g.b()) par.insertParameter("threephase_model", mn[model]); if (samples != 200 || g.b()) par.insertParameter("sat_tab_size", num(samples)); B.reset(new Opm::BlackoilPropertiesFromDeck(P, *G, par, false)); }
    auto relperm = [&](int n, const double* s, const int* ce, double* kr, double* d) { if (I) I->relperm(n, s, ce, kr, d); else B->relperm(n, s, ce, kr, d); }; auto capPress = [&](int n, const double* s, const int* ce, double* pc, double* d) { if (I) I->capPress(n, s, ce, pc, d); else B->capPress(n, s, ce, pc, d); };
    c.nontrivial(nreg > 1 || R[0].sw.size() > 2 || R[0].sg.size() > 2); c.label(mn[model], np == 3); c.label("sampled", samples > 1); c.label("regions", nreg > 1); c.label("incompressible", incomp);
    { V lo(nc * np), hi(nc * np); std::vector<int> ce(nc); for (int& i : ce) i = g.i(0, nc - 1); if (I) I->satRange(nc, &ce[0], &lo[0], &hi[0]); else B->satRange(nc, &ce[0], &lo[0], &hi[0]);
      for (int i = 0; i < nc; ++i) { const Region& r = R[sn[gc[ce[i]]] - 1]; const double a = W ? r.sw[0] : 0, b = W ? r.sw.back() : 1; const double L[3] = { a, 1 - b, 0 }, H[3] = { b, 1 - a, G3 ? r.sg.back() : 0 }; for (int q = 0; q < 3; ++q) if ((q || W) && (q < 2 || G3)) { const int k = np * i + pos[q]; c.check(std::fabs(lo[k] - L[q]) < 1e-14 && std::fabs(hi[k] - H[q]) < 1e-14, "range", "cell %d phase %d: [%.17g, %.17g] instead of [%.17g, %.17g]", i, q, lo[k], hi[k], L[q], H[q]); } } }
    const int n = g.i(1, 8); V s(n * np); std::vector<int> ce(n); std::vector<std::array<double, 3> > S(n);
    for (int i = 0; i < n; ++i) {
        ce[i] = g.i(0, nc - 1); const Region& r = R[sn[gc[ce[i]]] - 1]; const double a = W ? r.sw[0] : 0, b = W ? r.sw.back() : 1; double x = a, y = 0; // water and gas
        if (W) x = g.p(1, 3) ? r.sw[g.i(0, (int) r.sw.size() - 1)] : g.p(1, 6) ? a : g.p(1, 8) ? std::min(b, a + g.logreal(1e-9, 1e-3)) : g.real(a, b);
        if (G3) { const double top = std::max(0.0, std::min(b - x, r.sg.back())); y = g.p(1, 3) ? 0 : g.p(1, 8) ? g.logreal(1e-9, 1e-3) : g.p(1, 3) ? r.sg[g.i(0, (int) r.sg.size() - 1)] : g.real(0, top); if (y > top) y = top; }
        S[i] = { { x, 1 - x - y, y } }; for (int q = 0; q < 3; ++q) if ((q || W) && (q < 2 || G3)) s[np * i + pos[q]] = S[i][q];
    }
    V kr(n * np, -7), k2(kr), pc(kr), p2(kr), dk(n * np * np, -7), dp(dk); relperm(n, &s[0], &ce[0], &kr[0], 0); relperm(n, &s[0], &ce[0], &k2[0], &dk[0]); capPress(n, &s[0], &ce[0], &pc[0], 0); capPress(n, &s[0], &ce[0], &p2[0], &dp[0]);
    c.check(kr == k2 && pc == p2, "consistent", "values depend on whether derivatives are wanted");
    for (int i = 0; i < n; ++i) {
        const Region& r = R[sn[gc[ce[i]]] - 1]; bool smooth = true, pcs[3] = { true, true, true }; const D w(S[i][0], 0), ol(S[i][1], 1), gs(S[i][2], 2); D k[3], p[3]; const LD sl = r.w.slope + r.ow.slope + r.gg.slope + r.og.slope; LD amp = 1;
        if (np == 3 && model == Simple) { k[0] = r.w(w, smooth); k[2] = r.gg(gs, smooth); k[1] = r.ow(w + gs, smooth); }
        else if (np == 3 && model == Stone2) { const LD cw = r.ow.y[0]; amp = 1 + 1 / cw; k[0] = r.w(w, smooth); k[2] = r.gg(gs, smooth); const D a = r.ow(w + gs, smooth) / D(cw) + k[0], b = r.og(gs, smooth) / D(cw) + k[2]; k[1] = D(cw) * (a * b - k[0] - k[2]); if (std::fabs(k[1].v) < 1e-12L) smooth = false; if (k[1].v < 0) { k[1] = D(0); c.label("clamped"); } }
        else if (np == 3) {
            const LD co = r.sw[0]; const D t = w + gs - D(co); const bool tiny = t.v < 1e-6L; if (std::fabs(t.v - 1e-6L) < 1e-9L) smooth = false; if (w.v <= co) smooth = smooth && false; amp = 1 + sl + 1e-3L / std::max<LD>(std::fabs(t.v), 1e-6L);
            const D xw = (w - D(co)) / (tiny ? D(1e-6L) : t), xg = D(1) - xw; k[0] = xw * r.w(w + gs, smooth); k[2] = xg * r.gg(t, smooth); k[1] = xw * r.ow(w + gs, smooth) + xg * r.og(t, smooth); c.label("no mobile phase", tiny);
        } else if (W) { k[0] = r.w(w, smooth); k[1] = r.ow(w, smooth); } else { k[2] = r.gg(gs, smooth); k[1] = r.og(gs, smooth); }
        if (W) p[0] = r.pw(w, pcs[0]); if (G3) p[2] = r.pg(gs, pcs[2]);
        for (int q = 0; q < 3; ++q) if ((q || W) && (q < 2 || G3)) {
            const int e = np * i + pos[q]; c.check(std::fabs(kr[e] - k[q].v) <= 1e-12L * amp * (1 + sl), "relperm", "cell %d at %.17g %.17g %.17g: phase %d has %.17g instead of %.17Lg", ce[i], S[i][0], S[i][1], S[i][2], q, kr[e], k[q].v);
            c.check(kr[e] >= -1e-14 * (1 + (double) sl) && (kr[e] <= 1 + 1e-14 * (1 + (double) sl) || (model == Stone2 && q == 1)), "bounds", "cell %d at %.17g %.17g %.17g: phase %d has %.17g", ce[i], S[i][0], S[i][1], S[i][2], q, kr[e]);
            const Tab& t = q ? r.pg : r.pw; c.check(q == 1 ? pc[e] == 0 : std::fabs(pc[e] - p[q].v) <= 1e-13L * (t.top + t.slope), "capillary", "cell %d at %.17g %.17g %.17g: phase %d has %.17g instead of %.17Lg", ce[i], S[i][0], S[i][1], S[i][2], q, pc[e], p[q].v);
            for (int j = 0; j < 3; ++j) if ((j || W) && (j < 2 || G3)) { const int m = np * np * i + pos[q] + np * pos[j]; c.check(std::isfinite(dk[m]) && std::isfinite(dp[m]), "finite", "cell %d at %.17g %.17g %.17g: derivative of phase %d by %d is %g (relperm), %g (capillary)", ce[i], S[i][0], S[i][1], S[i][2], q, j, dk[m], dp[m]); if (pcs[q]) c.check(q != j || q == 1 ? dp[m] == 0 : std::fabs(dp[m] - p[q].d[q]) <= 1e-10L * t.slope, "capillary-derivative", "cell %d at %.17g %.17g %.17g: phase %d by %d is %.17g instead of %.17Lg", ce[i], S[i][0], S[i][1], S[i][2], q, j, dp[m], p[q].d[j]); }
            if (!smooth) continue;
            // directions that keep the sum of the saturations
            for (int to = 0; to < 3; to += 2) if (to ? G3 : W) { const double got = dk[np * np * i + pos[q] + np * pos[to]] - dk[np * np * i + pos[q] + np * pos[1]]; const LD want = k[q].d[to] - k[q].d[1]; const LD dd = np == 3 && model == Gwseg ? std::max<LD>(std::fabs(S[i][0] + S[i][2] - r.sw[0]), 1e-6L) : 1; c.check(std::fabs(got - want) <= 1e-10L * (1 + sl) * amp + 1e-13L / dd / dd * (1 + sl), "derivative", "cell %d at %.17g %.17g %.17g: phase %d, %s against oil: %.17g instead of %.17Lg", ce[i], S[i][0], S[i][1], S[i][2], q, to ? "gas" : "water", got, want); c.label("derivative"); }
        }
    }
}

// ---- end-point scaling
LD piece(const V& from, const V& to, LD x) { if (x <= from[0]) return to[0]; for (size_t i = 1; i < from.size(); ++i) if (x <= from[i] && from[i] > from[i - 1]) return to[i - 1] + (x - from[i - 1]) * ((LD) to[i] - to[i - 1]) / ((LD) from[i] - from[i - 1]); return to.back(); }
// scaled relative permeability; x: saturation of the phase, t: its table in that saturation, tc/tr/tm: critical, displacing and maximum saturation of
// the table, yr, ym: values there; sc..: the cell's; Y..: prescribed values (negative: not given); loose: two answers possible
struct Scale { double tc, tr, tm, yr, ym, sc, sr, sm, Yr, Ym; bool any, three; };
LD scaled(const Scale& z, const std::function<LD(LD)>& tab, LD x, LD& alt)
{
    LD u = x; if (z.any) u = z.three ? piece({ z.sc, z.sr, z.sm }, { z.tc, z.tr, z.tm }, x) : piece({ z.sc, z.sm }, { z.tc, z.tm }, x); const LD k = tab(u); alt = -1;
    if (z.Yr < 0) return z.Ym < 0 ? k : k * (z.Ym / z.ym);
    const LD sr = z.three ? z.sr : z.sc + (z.tr - (LD) z.tc) * (z.sm - (LD) z.sc) / (z.tm - (LD) z.tc);
    if (x <= z.sc) return 0; if (sr > z.sm - 1e-6) { const LD m = z.Ym < 0 ? k : k * (z.Ym / z.ym), r = k * (z.Yr / z.yr); if (z.three) { alt = z.Ym < 0 ? r : m; return r; } return m; }
    if (x <= sr) return k * (z.Yr / z.yr); if (x >= z.sm) return z.Ym < 0 ? z.ym : z.Ym; const LD Ym = z.Ym < 0 ? z.ym : z.Ym;
    return std::fabs(z.ym - z.yr) > 1e-6 ? z.Yr + (k - z.yr) * (Ym - z.Yr) / ((LD) z.ym - z.yr) : z.Yr + (Ym - z.Yr) * (x - sr) / (z.sm - sr);
}
void endpoints(Gen& g, Ctx& c)
{
    const bool incomp = g.p(1, 3); const int samples = incomp ? 200 : g.p(3, 5) ? 0 : g.i(2, 50); int nd; std::vector<int> gc; GridPtr G = subGrid(g, nd, gc); const int nc = gc.size(); for (int i = 0; i < nc; ++i) G->cell_centroids[3 * i + 2] = g.real(900, 2100);
    std::ostringstream o; o << "METRIC\nWATER\nOIL\n" << PVT; int nreg; const std::vector<int> sn = genSatnum(g, o, nd, nreg); std::vector<Region> R(nreg); for (Region& r : R) { r = genRegion(g, true, false, false); if (r.swcr() >= r.sorw() - 1e-9 || r.yAt(r.krw, r.sorw()) < 1e-3 || r.yAt(r.krow, r.swcr()) < 1e-3) throw pbt::Discard(); } write(o, R, true, false);
    const bool three = g.b(); o << "ENDSCALE\n" << (g.b() ? " /\n" : g.b() ? " NODIR REVERS 1 20 /\n" : " NODIR /\n"); if (three || g.b()) o << "SCALECRS\n " << (three ? g.b() ? "YES" : "Y" : "NO") << " /\n";
    // per-cell parameters: 0 SWL 1 SWCR 2 SWU 3 SOWCR 4 KRW 5 KRO 6 KRWR 7 KRORW
    static const char* nm[8] = { "SWL", "SWCR", "SWU", "SOWCR", "KRW", "KRO", "KRWR", "KRORW" }; bool key[8], tab[8]; const bool vd[2] = { g.p(1, 3), g.p(1, 3) }; for (int k = 0; k < 8; ++k) { key[k] = g.p(2, 5); tab[k] = vd[k / 4] && g.b(); }
    for (int f = 0; f < 2; ++f) if (vd[f]) { bool any = false; for (int k = 4 * f; k < 4 * f + 4; ++k) any = any || tab[k]; if (!any) tab[4 * f + g.i(0, 3)] = true; }
    std::vector<V> val(8, V(nd)); std::vector<std::array<double, 8> > cell(nc), dflt(nreg); for (int k = 0; k < nreg; ++k) { const Region& r = R[k]; dflt[k] = { { r.sw[0], r.swcr(), r.sw.back(), 1 - r.sorw(), r.krw.back(), r.krow[0], r.yAt(r.krw, r.sorw()), r.yAt(r.krow, r.swcr()) } }; }
    auto draw = [&](double* v) { v[0] = g.real(0, 0.2); v[1] = v[0] + g.real(0, 0.2); v[3] = g.p(1, 3) ? 0.1 : g.real(0, 0.3); v[2] = g.p(1, 4) ? 1 - v[3] : 1 - v[3] * g.real(0, 1); v[4] = g.real(0.3, 1); v[6] = g.p(1, 6) ? v[4] : v[4] * g.real(0.2, 1); v[5] = g.real(0.3, 1); v[7] = g.p(1, 6) ? v[5] : v[5] * g.real(0.2, 1); if (g.p(1, 6)) v[1] = v[0]; };
    for (int i = 0; i < nd; ++i) { double v[8]; draw(v); for (int k = 0; k < 8; ++k) val[k][i] = v[k]; }
    for (int k = 0; k < 8; ++k) if (key[k]) { o << nm[k] << '\n'; for (double x : val[k]) o << ' ' << num(x); o << " /\n"; }
    std::vector<std::vector<V> > T[2]; // region, column, row
    for (int f = 0; f < 2; ++f) if (vd[f]) {
        o << (f ? "ENKRVD\n" : "ENPTVD\n"); static const int cols[2][9] = { { 0, 1, 2, -1, -1, -1, 3, -1, -2 }, { 4, -1, 5, 6, -1, -1, 7, -2, -2 } };
        T[f].resize(nreg, std::vector<V>(5)); for (int t = 0; t < nreg; ++t) { const int rows = g.i(2, 4); double z = g.real(900, 1300); bool skip[4]; for (bool& b : skip) b = g.p(1, 6); for (int q = 0; q < rows; ++q) { double v[8]; draw(v); T[f][t][0].push_back(z); o << ' ' << num(z); z += g.real(50, 500); for (int k = 0; cols[f][k] > -2; ++k) { const int m = cols[f][k]; if (m < 0 || !tab[m] || skip[m % 4]) o << " 1*"; else { o << ' ' << num(v[m]); T[f][t][1 + m % 4].push_back(v[m]); } } o << '\n'; } o << " /\n"; }
        o << "/\n";
    }
    bool have[8] = {}; for (int k = 0; k < 8; ++k) { have[k] = key[k]; if (!key[k] && tab[k]) for (int t = 0; t < nreg; ++t) have[k] = have[k] || !T[k / 4][t][1 + k % 4].empty(); }
    for (int i = 0; i < nc; ++i) { const int r = sn[gc[i]] - 1; for (int k = 0; k < 8; ++k) { cell[i][k] = dflt[r][k]; if (key[k]) cell[i][k] = val[k][gc[i]]; else if (tab[k]) { const V& z = T[k / 4][r][0]; const V& y = T[k / 4][r][1 + k % 4]; const double d = G->cell_centroids[3 * i + 2]; if (!y.empty() && d >= z[0] && d <= z.back()) { cell[i][k] = (double) piece(z, y, d); } } } }
    c.desc() << (incomp ? "incompressible" : "black oil") << ", " << samples << " samples, cells " << show(gc) << " at depths "; for (int i = 0; i < nc; ++i) c.desc() << num(G->cell_centroids[3 * i + 2]) << ' '; c.desc() << '\n' << o.str(); for (Region& r : R) { toSI(r); r.use(samples, true, false); }
    Quiet quiet; Opm::EclipseGridParser P; read(P, o.str()); std::unique_ptr<Opm::BlackoilPropertiesFromDeck> B; std::unique_ptr<Opm::IncompPropertiesFromDeck> I;
    if (incomp) I.reset(new Opm::IncompPropertiesFromDeck(P, *G)); else { Opm::parameter::ParameterGroup par; par.disableOutput(); par.insertParameter("sat_tab_size", num(samples)); B.reset(new Opm::BlackoilPropertiesFromDeck(P, *G, par, false)); }
    bool any = false; for (bool b : have) any = any || b; c.nontrivial(any); c.label("three-point", three); c.label("depth tables", vd[0] || vd[1]); c.label("incompressible", incomp);
    for (int t = 0; t < 12; ++t) {
        const int i = g.i(0, nc - 1); const Region& r = R[sn[gc[i]] - 1]; const std::array<double, 8>& e = cell[i]; if (!(e[0] <= e[1] && e[1] < 1 - e[3] - 1e-3 && 1 - e[3] <= e[2] + 1e-12 && e[2] <= 1 + 1e-12)) { c.label("unordered end points"); continue; }
        Scale w = { r.swcr(), r.sorw(), r.sw.back(), dflt[sn[gc[i]] - 1][6], dflt[sn[gc[i]] - 1][4], e[1], 1 - e[3], e[2], have[6] ? e[6] : -1, have[4] ? e[4] : -1, have[1] || have[2] || (three && have[3]), three };
        Scale n = { 1 - r.sorw(), 1 - r.swcr(), 1 - r.sw[0], dflt[sn[gc[i]] - 1][7], dflt[sn[gc[i]] - 1][5], e[3], 1 - e[1], 1 - e[0], have[7] ? e[7] : -1, have[5] ? e[5] : -1, have[3] || have[0] || (three && have[1]), three };
        const double special[6] = { e[0], e[1], 1 - e[3], e[2], r.sw[0], r.sw.back() }; double lo = std::max(w.any ? 0 : r.sw[0], n.any ? 0 : r.sw[0]), hi = std::min(w.any ? 1 : r.sw.back(), n.any ? 1 : r.sw.back()); double x = g.p(1, 2) ? special[g.i(0, 5)] + g.pick(V{ 0, 1e-7, -1e-7 }) : g.real(lo, hi); x = std::min(hi, std::max(lo, x));
        double s[2] = { x, 1 - x }, kr[2] = { -7, -7 }, d[4]; if (I) I->relperm(1, s, &i, kr, 0); else B->relperm(1, s, &i, kr, 0);
        LD a1, a2; const LD W = scaled(w, [&](LD u) { return r.w.at(u); }, s[0], a1), N = scaled(n, [&](LD u) { return r.ow.at(1 - u); }, s[1], a2);
        // where the branches change, rounding decides: their values agree unless the table is sampled
        auto near = [&](const Scale& z, double y) { const double sr = z.three ? z.sr : z.sc + (z.tr - z.tc) * (z.sm - z.sc) / (z.tm - z.tc); const bool at = std::fabs(y - z.sc) < 1e-9 || std::fabs(y - sr) < 1e-9 || std::fabs(y - z.sm) < 1e-9 || std::fabs(sr - (z.sm - 1e-6)) < 1e-9, jump = std::min(std::fabs(sr - z.sm), std::fabs(sr - z.sc)) < 2e-6; return at && (samples > 1 || jump); };   // coinciding end points make the scaled curve jump
        const double big = 1e-11 * (1 + (double) (r.w.slope + r.ow.slope)) / 1e-3; auto agree = [&](double got, LD want, LD alt, bool nr) { return std::fabs(got - want) <= big || (alt >= 0 && std::fabs(got - alt) <= big) || (nr && std::isfinite(got)); };
        c.check(agree(kr[0], W, a1, near(w, s[0])), "water", "cell %d at %.17g: %.17g instead of %.17Lg (swcr %g 1-sowcr %g swu %g)", i, x, kr[0], W, e[1], 1 - e[3], e[2]); c.check(agree(kr[1], N, a2, near(n, s[1])), "oil", "cell %d at %.17g: %.17g instead of %.17Lg (sowcr %g 1-swcr %g 1-swl %g)", i, x, kr[1], N, e[3], 1 - e[1], 1 - e[0]);
        if (samples < 2) { // scaled end points carry the prescribed or the table's values
            auto ends = [&](const Scale& z, double y, double got, const char* nme) { if (y <= z.sc && (z.any || z.Yr >= 0)) c.check(std::fabs(got) <= big, "end-point", "%s at its critical saturation: %g", nme, got); if (z.any && z.sr < z.sm - 1e-5 && y >= z.sm) c.check(std::fabs(got - (z.Ym < 0 ? z.ym : z.Ym)) <= big, "end-point", "%s at its maximum: %g", nme, got); };
            ends(w, s[0], kr[0], "water"); ends(n, s[1], kr[1], "oil");
        }
        if (!t) { bool thrown = false; try { if (I) I->relperm(1, s, &i, kr, d); else B->relperm(1, s, &i, kr, d); } catch (const std::exception&) { thrown = true; } c.check(thrown || std::isfinite(d[0] + d[1] + d[2] + d[3]), "derivatives", "neither refused nor finite"); }
        (void) d;
    }
}

void refuse(Gen& g, Ctx& c)
{
    const int bad = g.i(0, 11); const bool G3 = bad == 2 || bad == 3 || bad == 5 || bad == 9, W = bad != 9 || g.b(); const bool gas = G3, wat = W; GridPtr G(create_grid_cart2d(2, 1, 1, 1)); std::ostringstream o; o << (wat ? "WATER\n" : "") << (bad == 8 ? "GAS\n" : "OIL\n") << (gas ? "GAS\n" : "") << PVT; std::vector<Region> R(g.i(1, 2)); for (Region& r : R) r = genRegion(g, wat, gas || bad == 8, true); Region& r = R[g.i(0, (int) R.size() - 1)];
    if (bad == 0) r.krw[0] = g.real(0.001, 0.1) * r.krw[1]; if (bad == 1) r.krow.back() = g.real(0.001, 0.9) * r.krow[0]; if (bad == 2) { const double to = r.sg.back() + (g.b() ? 0.01 : -0.01); if (to <= r.sg[r.sg.size() - 2] + 1e-6) throw pbt::Discard(); r.sg.back() = to; } if (bad == 0 && r.krw[0] == 0) throw pbt::Discard();
    if (bad == 3) { std::vector<Region> Q(R); Q.push_back(R[0]); write(o, Q, true, false); write(o, R, false, true); } else write(o, R, wat, gas || bad == 8);
    if (bad == 4 || bad == 9) { int n = R.size() + g.i(1, 2); o << "SATNUM\n " << (g.b() ? num(n) + " 1" : "1 " + num(n)) << " /\n"; } if (bad == 10) o << "SATNUM\n " << g.oneof({ "0 1", "1 0", "-1 1", "1 -3", "1", "" }) << " /\n"; if (bad == 11) o << "ENDSCALE\n /\n" << (g.b() ? "SWL\n 0.05 /\n" : "SWCR\n 0.05 /\n"); if (bad >= 5 && bad <= 7) o << "ENDSCALE\n " << (bad == 6 ? "DIRECT /\n" : bad == 7 ? "NODIR IRREVERS /\n" : "/\n");
    c.desc() << bad << '\n' << o.str(); c.nontrivial(); Quiet quiet; bool thrown = false; Opm::EclipseGridParser P; read(P, o.str()); Opm::parameter::ParameterGroup par; par.disableOutput(); par.insertParameter("sat_tab_size", g.b() ? "0" : "20"); if (bad > 1 && g.b() && bad < 5) par.insertParameter("threephase_model", g.b() ? "stone2" : "gwseg"); try { Opm::BlackoilPropertiesFromDeck B(P, *G, par, false); } catch (const std::exception&) { thrown = true; } c.check(thrown, "refuse", "an unusable deck (%d) was accepted", bad);
    Opm::EclipseGridParser Q; std::ostringstream q; std::vector<Region> ok(1, genRegion(g, true, false, true)); q << "WATER\nOIL\n" << PVT; write(q, ok, true, false); read(Q, q.str()); Opm::parameter::ParameterGroup p2; p2.disableOutput(); p2.insertParameter("threephase_model", "stone3"); thrown = false; try { Opm::BlackoilPropertiesFromDeck B(Q, *G, p2, false); } catch (const std::exception&) { thrown = true; } c.check(thrown, "refuse", "an unknown model was accepted");
}

void basic(Gen& g, Ctx& c)
{
    Opm::SaturationPropsBasic B; Opm::parameter::ParameterGroup q; q.disableOutput(); const int np = g.i(1, 2), f = np == 1 ? g.i(0, 2) : g.i(1, 2); static const char* nm[3] = { "Constant", "Linear", "Quadratic" }; if (np != 2 || g.b()) q.insertParameter("num_phases", num(np)); if (f != 1 || g.b()) q.insertParameter("relperm_func", nm[f]); B.init(q); c.desc() << np << ' ' << nm[f]; c.nontrivial(f == 2); c.check(B.numPhases() == np, "phases", "%d", B.numPhases());
    const int n = g.i(1, 8); V s(n * np), kr(n * np, -7), k2(kr), pc(kr), p2(kr), lo(kr), hi(kr), dk(n * np * np, -7), dp(dk); for (double& x : s) x = g.real(0, 1); B.relperm(n, &s[0], &kr[0], 0); B.relperm(n, &s[0], &k2[0], &dk[0]); B.capPress(n, &s[0], &pc[0], 0); B.capPress(n, &s[0], &p2[0], &dp[0]); B.satRange(n, &lo[0], &hi[0]);
    for (int i = 0; i < n * np; ++i) { const double w = f == 0 ? 1 : f == 1 ? s[i] : s[i] * s[i]; c.check(kr[i] == w && k2[i] == w && pc[i] == 0 && p2[i] == 0 && lo[i] == 0 && hi[i] == 1, "values", "entry %d: %g %g %g %g in [%g, %g]", i, kr[i], k2[i], pc[i], p2[i], lo[i], hi[i]); }
    for (int i = 0; i < n; ++i) for (int a = 0; a < np; ++a) for (int b = 0; b < np; ++b) { const int m = np * np * i + a + np * b; c.check(dp[m] == 0 && dk[m] == (a != b || f == 0 ? 0 : f == 1 ? 1 : 2 * s[np * i + a]), "derivatives", "point %d (%d,%d): %g %g", i, a, b, dk[m], dp[m]); }
    Opm::parameter::ParameterGroup r; r.disableOutput(); switch (g.i(0, 2)) { case 0: r.insertParameter("num_phases", g.b() ? "0" : "3"); break; case 1: r.insertParameter("relperm_func", "Cubic"); break; default: r.insertParameter("relperm_func", "Constant"); r.insertParameter("num_phases", "2"); } bool thrown = false; Quiet quiet; try { Opm::SaturationPropsBasic X; X.init(r); } catch (const std::exception&) { thrown = true; } c.check(thrown, "refuse", "inadmissible parameters were accepted");
}
}
pbt::Spec pbt::spec()
{
    return { "C31", "tables: decks with water/oil, oil/gas or three phases, several saturation regions on grids with inactive and reordered cells, all three-phase models, raw or sampled tables, black-oil and incompressible properties; at saturations on entries, at end points and inside the allowable range: relative permeability, capillary pressure and range against an independent evaluation in long double with forward derivatives, derivative matrices along every direction that keeps the sum of saturations. endpoints: SWL/SWCR/SWU/SOWCR/KRW/KRO/KRWR/KRORW per cell or by depth in any combination, two- and three-point scaling, against a reference. refuse: unusable decks. basic: parameter functions. Non-trivial: more than one region or more than two table rows; some scaling parameter given; the quadratic law.",
             { "saturations within the tables' range and summing to one", "derivatives at kinks are only required to be finite", "end points of a cell are ordered SWL <= SWCR < 1-SOWCR <= SWU", "where displacing and maximum saturation coincide in three-point scaling either of the two prescribed values governs", "capillary pressure is not scaled" },
             100000, 2000000, { { "tables", 6, tables }, { "endpoints", 6, endpoints }, { "refuse", 1, refuse }, { "basic", 1, basic } } };
}
