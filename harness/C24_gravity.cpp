// C24: gravity segregation in columns: three solvers of the same implicit column equations.
#include "transgen.hpp"
#include "bo2.hpp"
#include <iostream>
#include <opm/core/grid/ColumnExtract.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/transport/implicit/GravityColumnSolver.hpp>
#include <opm/core/transport/implicit/SimpleFluid2pWrappingProps.hpp>
#include <opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp>
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
#include <opm/core/pressure/tpfa/trans_tpfa.h>

namespace {
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
// gf: driving force (density difference times transmissibility) towards the next cell of the column for phase 0
struct Prob { AnyGrid a; Fluid fl; HalfTrans ht; std::vector<double> pv, s0, grav; std::vector<std::vector<int> > col; std::vector<std::vector<LD> > T; std::vector<std::vector<int> > face; double dt, tol, theta; int maxit; bool sorted; };
void columns(Prob& k)
{
    const UnstructuredGrid& G = *k.a.G; const int nx = G.cartdims[0], nxy = nx * G.cartdims[1]; std::map<int, std::vector<std::pair<int, int> > > m;
    for (int c = 0; c < G.number_of_cells; ++c) { const int q = G.global_cell ? G.global_cell[c] : c; m[q % nxy].push_back(std::make_pair(q / nxy, c)); }
    for (auto& e : m) {
        std::sort(e.second.begin(), e.second.end()); int last = -1;
        for (auto& x : e.second) {
            int f = -1; if (last >= 0) for (int h = G.cell_facepos[last]; h < G.cell_facepos[last + 1]; ++h) { const int q = G.cell_faces[h]; if (G.face_cells[2 * q] == x.second || G.face_cells[2 * q + 1] == x.second) f = q; }
            if (f < 0) { k.col.push_back(std::vector<int>()); k.T.push_back(std::vector<LD>()); k.face.push_back(std::vector<int>()); }
            else { k.T.back().push_back(1 / (1 / k.ht.t[halfFace(G, last, f)] + 1 / k.ht.t[halfFace(G, x.second, f)])); k.face.back().push_back(f); }
            k.col.back().push_back(x.second); last = x.second;
        }
    }
}
LD gz(const Prob& k, const double* a, const double* b) { LD s = 0; for (int q = 0; q < k.a.G->dimensions; ++q) s += (LD) k.grav[q] * ((LD) b[q] - a[q]); return s; }
// driving force from cell a to cell b over face f, for phase densities per cell (compressible) or constant
LD force(const Prob& k, int a, int b, int f, LD T, const std::vector<double>* rho)
{
    const UnstructuredGrid& G = *k.a.G; const int d = G.dimensions; const double *xa = G.cell_centroids + d * a, *xb = G.cell_centroids + d * b, *xf = G.face_centroids + d * f;
    if (!rho) return T * ((LD) k.fl.rho[0] - k.fl.rho[1]) * gz(k, xa, xb);
    return T * (((LD) (*rho)[2 * a] - (*rho)[2 * a + 1]) * gz(k, xa, xf) + ((LD) (*rho)[2 * b] - (*rho)[2 * b + 1]) * gz(k, xf, xb));
}
// size of the terms that make up the driving force: what cancels in it is rounding
LD forceTerms(const Prob& k, int a, int b, int f, LD T, const std::vector<double>* rho)
{
    const UnstructuredGrid& G = *k.a.G; const int d = G.dimensions; LD s = 0; for (int q = 0; q < d; ++q) s += std::fabs((LD) k.grav[q]) * (std::fabs((LD) G.cell_centroids[d * a + q]) + std::fabs((LD) G.cell_centroids[d * b + q]) + (rho ? 2 * std::fabs((LD) G.face_centroids[d * f + q]) : 0));
    return T * s * (rho ? std::max(std::fabs((LD) (*rho)[2 * a] - (*rho)[2 * a + 1]), std::fabs((LD) (*rho)[2 * b] - (*rho)[2 * b + 1])) : std::fabs((LD) k.fl.rho[0] - k.fl.rho[1]));
}
double slope(const Prob& k, int c, int p) { return k.fl.n[p][c] / (k.fl.hi[c] - k.fl.lo[c]) / k.fl.mu[p]; }
Prob gen(Gen& g, Ctx& c)
{
    Prob k; k.a = genGrid(g, g.p(1, 4) ? 4 : 1, 40, g.p(1, 12) ? 2 : 3); if (g.p(1, 4)) { shuffleFaces(*k.a.G, g); k.a.text += " (faces shuffled)"; c.label("faces shuffled"); } const UnstructuredGrid& G = *k.a.G; const int d = G.dimensions, nc = G.number_of_cells;
    k.fl = genFluid(g, G, true, true); for (int p = 0; p < 2; ++p) { if (g.p(1, 3)) for (int i = 0; i < nc; ++i) k.fl.n[p][i] = g.i(1, 3); }
    k.fl.own = g.b(); k.ht = halfTrans(G, &k.fl.K[0]); if (k.ht.worst > 1e6L) throw pbt::Discard(); for (LD t : k.ht.t) if (!(t > 0)) throw pbt::Discard();
    k.grav.assign(d, 0.0); const int gm = g.i(0, 3); k.grav[d - 1] = gm == 0 ? -9.81 : gm == 1 ? g.logreal(0.1, 10) : 9.81; if (gm == 3) for (double& x : k.grav) x = g.real(-10, 10);
    if (k.fl.rho[0] == k.fl.rho[1] && g.p(7, 8)) k.fl.rho[1] *= g.b() ? 0.5 : 1.5;
    genPorevol(g, nc, k.pv); columns(k); { size_t n = 0; for (auto& l : k.col) n = std::max(n, l.size()); if (n < 2 && g.p(14, 15)) throw pbt::Discard(); }
    k.s0.resize(2 * nc); const int sm = g.i(0, 4); const bool heavy = (k.fl.rho[0] > k.fl.rho[1]) == (k.grav[d - 1] > 0);
    std::vector<double> r = genSats(g, k.fl);
    for (size_t q = 0; q < k.col.size(); ++q) {
        const std::vector<int>& l = k.col[q]; const int n = l.size(), cut = g.i(0, n); const bool top = sm == 1 ? heavy : sm == 2 ? !heavy : g.b();
        for (int i = 0; i < n; ++i) { const int x = l[i]; double s = r[2 * x]; if (sm >= 1 && sm <= 3) s = ((i < cut) != top) ? k.fl.hi[x] : k.fl.lo[x]; if (sm >= 1 && sm <= 3 && i == cut && g.b()) s = g.real(k.fl.lo[x], k.fl.hi[x]); k.s0[2 * x] = s; k.s0[2 * x + 1] = 1 - s; }
    }
    for (size_t q = 0; q < k.col.size(); ++q) for (size_t i = 0; i + 1 < k.col[q].size(); ++i) if (std::fabs(force(k, k.col[q][i], k.col[q][i + 1], k.face[q][i], k.T[q][i], 0)) < 1e-7L * forceTerms(k, k.col[q][i], k.col[q][i + 1], k.face[q][i], k.T[q][i], 0)) { c.label("force is rounding"); throw pbt::Discard(); }
    LD m = 0; for (size_t q = 0; q < k.col.size(); ++q) for (size_t i = 0; i + 1 < k.col[q].size(); ++i) for (int e = 0; e < 2; ++e) { const int x = k.col[q][i + e]; m = std::max(m, std::fabs(force(k, k.col[q][i], k.col[q][i + 1], k.face[q][i], k.T[q][i], 0)) / k.pv[x] * std::max(slope(k, x, 0), slope(k, x, 1))); }
    k.theta = g.logreal(0.01, 100); k.dt = m > 0 ? (double) (k.theta / m) : 1.0; k.tol = g.pick(std::vector<double>{ 1e-9, 1e-9, 1e-6, 1e-11 }); k.maxit = g.pick(std::vector<int>{ 200, 200, 1000 });
    c.desc() << k.a.text << " K " << show(k.fl.K, 9) << " mu " << k.fl.mu[0] << " " << k.fl.mu[1] << " rho " << k.fl.rho[0] << " " << k.fl.rho[1] << " g " << show(k.grav) << " n " << show(k.fl.n[0], 6) << show(k.fl.n[1], 6) << " lo " << show(k.fl.lo, 4) << " hi " << show(k.fl.hi, 4) << " pv " << show(k.pv, 40) << " s " << show(k.s0, 80) << " dt " << k.dt << " theta " << k.theta << " tol " << k.tol;
    return k;
}
LD linkFlux(const Prob& k, const std::vector<double>& s, const std::vector<double>* vis, int a, int b, LD F)     // phase 0 from a to b
{
    const int u = F > 0 ? a : b, v = F > 0 ? b : a; const double *mu = k.fl.mu; double k0[2], k1[2]; k.fl.kr(u, s[2 * u], k0, 0); k.fl.kr(v, s[2 * v], k1, 0);
    const LD m0 = (LD) k0[0] / (vis ? (*vis)[2 * u] : mu[0]), m1 = (LD) k1[1] / (vis ? (*vis)[2 * v + 1] : mu[1]);
    return m0 + m1 > 0 ? F * m0 * m1 / (m0 + m1) : 0;
}
// every cell equation, column totals, bounds; tol: error allowed in a saturation of the returned state
void judge(Ctx& c, const Prob& k, const std::vector<double>& b, const std::vector<double>& a, LD restol, LD stol, const std::vector<double>* rho = 0, const std::vector<double>* vis = 0)
{
    const UnstructuredGrid& G = *k.a.G; bool moved = false; const int d = G.dimensions;
    c.check(a.size() == b.size(), "size", "%zu saturations instead of %zu", a.size(), b.size());
    for (size_t q = 0; q < k.col.size(); ++q) {
        const std::vector<int>& l = k.col[q]; const int n = l.size(); std::vector<LD> r(n, 0), al(n, 0), sz(n, 0); LD tot = 0, tal = 0, up = 0, ual = 0; bool mono = true; int dir = 0;
        for (int i = 0; i < n; ++i) { r[i] = (LD) a[2 * l[i]] - b[2 * l[i]]; sz[i] = 2; }
        for (int i = 0; i + 1 < n; ++i) {
            const LD F = force(k, l[i], l[i + 1], k.face[q][i], k.T[q][i], rho), f = linkFlux(k, a, vis, l[i], l[i + 1], F), g = linkFlux(k, b, vis, l[i], l[i + 1], F); (void) g;
            const double t0 = vis ? 2 : 1;
            for (int e = 0; e < 2; ++e) { const int x = l[i + e]; const LD w = k.dt / k.pv[x] * std::fabs(F) * t0 * std::max(std::max(slope(k, l[i], 0), slope(k, l[i], 1)), std::max(slope(k, l[i + 1], 0), slope(k, l[i + 1], 1))); r[i + e] += (e ? -1 : 1) * k.dt / k.pv[x] * f; al[i + e] += w * stol; sz[i + e] += w + k.dt / k.pv[x] * std::fabs(F) * (1 / k.fl.mu[0] + 1 / k.fl.mu[1]) * t0; }
            const LD R = forceTerms(k, l[i], l[i + 1], k.face[q][i], k.T[q][i], rho) * (1 / k.fl.mu[0] + 1 / k.fl.mu[1]) * t0 * k.dt * 1e-2L; for (int e = 0; e < 2; ++e) sz[i + e] += R / k.pv[l[i + e]];
            const int z = F > 0 ? 1 : F < 0 ? -1 : 0; if (z) { if (dir && z != dir) mono = false; dir = z; }
        }
        LD cum = 0;
        for (int i = 0; i < n; ++i) {
            const int x = l[i]; const LD ok = restol + al[i] + (1e-13L + 4e-16L * k.ht.worst) * sz[i];
            c.check(std::fabs(r[i]) <= ok, "equation", "cell %d goes from %.17g to %.17g, leaving %Lg in its balance (allowed %Lg)", x, b[2 * x], a[2 * x], r[i], ok);
            tot += k.pv[x] * ((LD) a[2 * x] - b[2 * x]); tal += k.pv[x] * ok;
            c.check(a[2 * x] >= k.fl.lo[x] - stol - 1e-15 && a[2 * x] <= k.fl.hi[x] + stol + 1e-15, "bounds", "cell %d ends with %.17g outside [%g, %g]", x, a[2 * x], k.fl.lo[x], k.fl.hi[x]);
            c.check(std::fabs(a[2 * x] + a[2 * x + 1] - 1) <= 2e-16, "sum", "cell %d ends with %.17g and %.17g", x, a[2 * x], a[2 * x + 1]);
            if (n == 1) c.check(std::fabs(a[2 * x] - b[2 * x]) <= 1e-15, "alone", "a cell without neighbours in its column goes from %.17g to %.17g", b[2 * x], a[2 * x]);
            moved = moved || std::fabs(a[2 * x] - b[2 * x]) > 1e-3;
            cum += k.pv[x] * ((LD) a[2 * x] - b[2 * x]); if (mono && i + 1 < n) c.check(dir == 0 ? std::fabs(cum) <= tal : dir * cum <= tal, "direction", "%Lg of the first phase moved against its weight past position %d of a column", -dir * cum, i);
        }
        (void) up; (void) ual; (void) d;
        c.check(std::fabs(tot) <= tal, "volume", "a column of %d cells gains %Lg of the first phase (allowed %Lg)", n, tot, tal);
    }
    c.label("moved", moved); c.nontrivial(moved);
}
// already segregated: nothing may move
bool settled(const Prob& k, const std::vector<double>& s)
{
    for (size_t q = 0; q < k.col.size(); ++q) for (size_t i = 0; i + 1 < k.col[q].size(); ++i) { const LD F = force(k, k.col[q][i], k.col[q][i + 1], k.face[q][i], k.T[q][i], 0); if (linkFlux(k, s, 0, k.col[q][i], k.col[q][i + 1], F) != 0) return false; }
    return true;
}
void rest(Ctx& c, const Prob& k, const std::vector<double>& b, const std::vector<double>& a, LD al)
{
    if (!settled(k, b)) return;
    c.label("settled"); for (size_t i = 0; i < a.size(); i += 2) c.check(std::fabs(a[i] - b[i]) <= al, "settled", "cell %d of a segregated state goes from %.17g to %.17g", (int) i / 2, b[i], a[i]);
}
void reorder(Gen& g, Ctx& c)
{
    Prob k = gen(g, c); const UnstructuredGrid& G = *k.a.G; Opm::TwophaseState st; st.init(G, 2); st.saturation() = k.s0;
    Opm::TransportSolverTwophaseReorder S(G, k.fl, &k.grav[0], k.tol, k.maxit); const int n = g.i(1, 3);
    for (int q = 0; q < n; ++q) {
        const std::vector<double> b = st.saturation(), p = st.pressure(), v = st.faceflux(), pv(k.pv);
        try { Quiet z; S.solveGravity(&k.pv[0], k.dt, st); }
        catch (const std::exception& e) { c.check(k.theta > 2, "gives-up", "the solver gave up on an easy problem: %s", e.what()); c.label("gave up"); if (q == 0) throw pbt::Discard(); return; }
        c.check(p == st.pressure() && v == st.faceflux() && pv == k.pv, "input", "pressures, fluxes or pore volumes changed");
        judge(c, k, b, st.saturation(), k.tol, 4 * k.tol); rest(c, k, b, st.saturation(), 1e-15);
    }
}
void compressible(Gen& g, Ctx& c)
{
    Prob k = gen(g, c); const UnstructuredGrid& G = *k.a.G; const int nc = G.number_of_cells; TwoBo bo; bo.gen(g, k.fl, g.p(3, 4));
    k.fl.lo.assign(nc, 0.0); k.fl.hi.assign(nc, 1.0);                        // this solver always works on [0,1]
    std::vector<double> p(nc), s(k.s0), z(2 * nc), rho(2 * nc), vis(2 * nc), flux(G.number_of_faces, 0.0), src(nc, 0.0); for (double& x : p) x = g.real(0, 2);
    double big = 0; for (int i = 0; i < nc; ++i) for (int q = 0; q < 2; ++q) { z[2 * i + q] = s[2 * i + q] * bo.b(q, p[i]); rho[2 * i + q] = k.fl.rho[q] * bo.b(q, p[i]); vis[2 * i + q] = bo.mu(q, p[i]); }
    LD m = 0, fm = 0; for (size_t q = 0; q < k.col.size(); ++q) for (size_t i = 0; i + 1 < k.col[q].size(); ++i) for (int e = 0; e < 2; ++e) { const int x = k.col[q][i + e]; const LD F = std::fabs(force(k, k.col[q][i], k.col[q][i + 1], k.face[q][i], k.T[q][i], &rho)); m = std::max(m, F / k.pv[x] * 1.3 * std::max(slope(k, x, 0), slope(k, x, 1))); fm = std::max(fm, F); }
    k.dt = m > 0 ? (double) (k.theta / m) : 1.0; (void) big; (void) fm;
    c.desc() << " b " << bo.b0[0] << " " << bo.b0[1] << " c " << bo.c[0] << " " << bo.c[1] << " p " << show(p, 40);
    Opm::TransportSolverCompressibleTwophaseReorder S(G, bo, k.tol, k.maxit); S.initGravity(&k.grav[0]);
    std::vector<double> pv0(k.pv); const bool rock = g.p(1, 3); if (rock) for (double& x : pv0) x *= g.real(0.8, 1); // pore volumes before: the step without flow only dilutes
    if (rock) { c.desc() << " pv0 " << show(pv0, 40); c.label("rock compressibility"); }
    { Quiet q; S.solve(&flux[0], &p[0], &pv0[0], &k.pv[0], &src[0], k.dt, s, z); }
    if (rock) for (int i = 0; i < nc; ++i) c.check(std::fabs(s[2 * i] - k.s0[2 * i] * pv0[i] / k.pv[i]) <= 4 * k.tol && s[2 * i] + s[2 * i + 1] == 1, "dilution", "cell %d: saturation %.17g with pore volume %.17g becomes %.17g with %.17g", i, k.s0[2 * i], pv0[i], s[2 * i], k.pv[i]);
    std::vector<std::vector<int> > col = k.col; for (auto& l : col) if (g.b()) std::reverse(l.begin(), l.end());
    const int n = g.i(1, 2);
    for (int q = 0; q < n; ++q) {
        const std::vector<double> b = s;
        try { Quiet w; S.solveGravity(col, k.dt, s, z); }
        catch (const std::exception& e) { c.check(k.theta > 2, "gives-up", "the solver gave up on an easy problem: %s", e.what()); c.label("gave up"); if (q == 0) throw pbt::Discard(); return; }
        judge(c, k, b, s, k.tol, 4 * k.tol, &rho, &vis);
        for (int i = 0; i < nc; ++i) for (int r = 0; r < 2; ++r) c.check(std::fabs(z[2 * i + r] - s[2 * i + r] * bo.b(r, p[i])) <= 1e-14 * bo.b(r, p[i]), "surface-volume", "cell %d: surface volume %.17g of phase %d, saturation %.17g, expansion %.17g", i, z[2 * i + r], r, s[2 * i + r], bo.b(r, p[i]));
    }
}
void newton(Gen& g, Ctx& c)
{
    Prob k = gen(g, c); const UnstructuredGrid& G = *k.a.G; std::vector<double> s(k.s0); typedef Opm::SimpleFluid2pWrappingProps TF; typedef Opm::SinglePointUpwindTwoPhase<TF> Model;
    TF tf(k.fl); const bool prev = g.b(); Model M(tf, G, k.pv, &k.grav[0], prev); c.desc() << (prev ? " from the old state" : " from 0.5");
    std::vector<double> ht(G.cell_facepos[G.number_of_cells]); tpfa_htrans_compute(k.a.G.get(), &k.fl.K[0], &ht[0]); M.initGravityTrans(G, ht);
    std::vector<std::vector<int> > col = k.col; for (auto& l : col) if (g.b()) std::reverse(l.begin(), l.end());
    Opm::GravityColumnSolver<Model> S(M, G, k.tol, 50); const int n = g.i(1, 2);
    for (int q = 0; q < n; ++q) {
        const std::vector<double> b = s;
        try { Quiet w; S.solve(col, k.dt, s); }
        catch (const std::exception& e) { c.check(k.theta > 0.3 || !prev, "gives-up", "the solver gave up on an easy problem: %s", e.what()); c.label("gave up"); if (q == 0) throw pbt::Discard(); return; }
        judge(c, k, b, s, k.tol, 4 * k.tol); rest(c, k, b, s, k.tol);
    }
}
}
pbt::Spec pbt::spec()
{
    return { "C24", "a saturation moves by more than 1e-3",
             { "Cells are grouped by logical column; half transmissibilities are positive and known to better than 1e-6", "The solvers may give up when step * force * mobility slope / pore volume exceeds 2 (Newton: 0.3, starting from the old state)", "Relative permeability curves are monotone and vanish at the ends of the saturation range" },
             80000, 1500000, { { "reorder", 3, reorder }, { "compressible", 2, compressible }, { "newton", 2, newton } } };
}
