// C27: compressible reordering two-phase transport, judged by the surface volume balance of every cell.
#include "transgen.hpp"
#include "bo2.hpp"
#include <iostream>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>

namespace {
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Prob { Topo t; Fluid fl; TwoBo bo; Flow w; std::vector<double> pv0, pv, p0, p, src, s0; double dt, tol; int maxit; };
double ff(const Prob& k, int c, double s) { double q[2]; k.fl.kr(c, s, q, 0); const double a = q[0] / k.bo.mu(0, k.p[c]), b = q[1] / k.bo.mu(1, k.p[c]); return a / (a + b); }
double slopeOf(const Prob& k, int c) { double m = 0, o = 0; for (int i = 0; i <= 400; ++i) { const double v = ff(k, c, i / 400.0); if (i) m = std::max(m, (v - o) * 400); o = v; } return 1.3 * m + 0.1; }
std::vector<char> inLoop(const UnstructuredGrid& G, const std::vector<double>& v)
{
    const int n = G.number_of_cells; std::vector<std::vector<int> > to(n); std::vector<char> r(n, 0);
    for (int f = 0; f < G.number_of_faces; ++f) { const int a = G.face_cells[2 * f], b = G.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; if (v[f] > 0) to[a].push_back(b); if (v[f] < 0) to[b].push_back(a); }
    for (int s = 0; s < n; ++s) { std::vector<char> seen(n, 0); std::vector<int> st(to[s]); while (!st.empty()) { const int a = st.back(); st.pop_back(); if (seen[a]) continue; seen[a] = 1; for (int b : to[a]) st.push_back(b); } r[s] = seen[s]; }
    return r;
}
void genStates(Gen& g, Prob& k, bool compressible)
{
    const int nc = k.t.G.number_of_cells; const int pm = g.i(0, 2);
    k.p.resize(nc); k.pv.resize(nc); if (k.p0.empty()) { k.p0.resize(nc); for (int i = 0; i < nc; ++i) k.p0[i] = pm == 0 && i ? k.p0[0] : g.real(0, 2); }
    for (int i = 0; i < nc; ++i) { k.p[i] = !compressible ? k.p0[i] : g.b() ? k.p0[i] : g.real(0, 2); k.pv[i] = !compressible || g.b() ? k.pv0[i] : k.pv0[i] * g.real(0.8, 1.25); }
}
Prob gen(Gen& g, Ctx& c, int maxc, bool compressible)
{
    Prob k; k.t = genTopo(g, maxc); const UnstructuredGrid& G = k.t.G; const int nc = G.number_of_cells; if (!G.number_of_faces) throw pbt::Discard();
    Fluid& f = k.fl; f.d = 3; f.nc = nc; f.K.assign((size_t) 9 * nc, 1.0); f.poro.assign(nc, 0.3); const double m = g.b() ? 1.0 : 1e-3; for (int p = 0; p < 2; ++p) { f.mu[p] = m * (g.b() ? 1.0 : g.logreal(0.1, 10)); f.rho[p] = 1000; }
    const int kr = g.i(0, 2); for (int p = 0; p < 2; ++p) { f.n[p].resize(nc); for (int i = 0; i < nc; ++i) f.n[p][i] = i && kr < 2 ? f.n[p][0] : kr == 0 ? 1.0 : 1.0 * g.i(1, 3); }
    f.lo.assign(nc, 0.0); f.hi.assign(nc, 1.0); if (g.p(1, 4)) { f.lo.assign(nc, g.real(0, 0.3)); f.hi.assign(nc, g.real(0.7, 1)); }
    k.bo.gen(g, f, compressible); k.w = genFlow(g, G); genPorevol(g, nc, k.pv0); genStates(g, k, compressible);
    k.src.resize(nc); for (int i = 0; i < nc; ++i) { k.src[i] = k.w.q[i] + k.w.bin[i]; if (k.src[i] > 0) k.src[i] *= k.bo.b(0, k.p[i]); }      // injection as surface volumes of the first phase
    if (compressible && g.b()) { const double a = g.real(0, 0.3); for (int i = 0; i < nc; ++i) if (g.b()) k.src[i] += a * k.w.unit * g.real(-1, 1); }
    k.s0 = genSats(g, f); k.dt = g.logreal(0.01, 30) / k.w.unit; k.tol = g.pick(std::vector<double>{ 1e-9, 1e-9, 1e-6, 1e-12 }); k.maxit = g.pick(std::vector<int>{ 200, 200, 1000 });
    c.desc() << k.t.str() << " flux " << show(k.w.v, 60) << " source " << show(k.src, 40) << " pv " << show(k.pv0, 40) << " to " << show(k.pv, 40) << " p " << show(k.p0, 40) << " to " << show(k.p, 40) << " s " << show(k.s0, 60) << " mu " << f.mu[0] << " " << f.mu[1] << " n " << show(f.n[0], 4) << show(f.n[1], 4) << " lo " << f.lo[0] << " hi " << f.hi[0] << " b " << k.bo.b0[0] << " " << k.bo.b0[1] << " c " << k.bo.c[0] << " " << k.bo.c[1] << " m " << k.bo.m[0] << " " << k.bo.m[1] << " dt " << k.dt << " tol " << k.tol;
    return k;
}
// z: surface volumes per pore volume before the step
void judge(Ctx& c, const Prob& k, const std::vector<double>& z, const std::vector<double>& b, const std::vector<double>& a, const std::vector<double>& za, std::vector<double>& err)
{
    const UnstructuredGrid& G = k.t.G; const int nc = G.number_of_cells; const std::vector<char> loop = inLoop(G, k.w.v); err.assign(nc, 0.0); std::vector<double> L(nc); for (int i = 0; i < nc; ++i) L[i] = slopeOf(k, i);
    LD gain = 0, al = 0; bool all = true, moved = false; c.check(a.size() == b.size() && za.size() == z.size(), "size", "%zu saturations, %zu surface volumes", a.size(), za.size());
    for (int i = 0; i < nc; ++i) {
        const double s = a[2 * i], bi = k.bo.b(0, k.p[i]), q = k.dt / k.pv0[i], Bz = z[2 * i] / bi, own = ff(k, i, s), comp = (k.pv[i] - k.pv0[i]) / k.pv0[i]; LD in = 0, out = 0, slack = 0, sz = std::fabs(k.src[i]) * std::max(1.0, 1 / bi);
        if (k.src[i] > 0) in -= k.src[i] / bi; else out -= k.src[i];
        for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) {
            const int f = G.cell_faces[h]; const bool first = G.face_cells[2 * f] == i; const int o = G.face_cells[2 * f + (first ? 1 : 0)]; if (o < 0) continue;
            const double v = first ? k.w.v[f] : -k.w.v[f], r = k.bo.b(0, k.p[o]) / bi; sz += std::fabs(v) * std::max(1.0, r);
            if (v < 0) { in += r * v * ff(k, o, a[2 * o]); slack += -v * r * (1e-14 + (loop[i] && loop[o] ? L[o] * 3e-7 : 0)); } else out += v;
        }
        const LD r = s - Bz + q * (out * own + in) + s * (LD) comp, at0 = -Bz + q * (out * ff(k, i, 0) + in), at1 = 1 - Bz + q * (out * ff(k, i, 1) + in) + comp, scale = 1 + Bz + q * sz, allow = k.tol + q * slack + 1e-14L * scale * (1 + L[i]);
        err[i] = (double) allow; moved = moved || std::fabs(s - b[2 * i]) > 1e-3;
        c.check(s >= -1e-15 && s <= 1 + 1e-15 && a[2 * i + 1] == 1 - s, "range", "cell %d ends with saturations %.17g and %.17g", i, s, a[2 * i + 1]);
        if (at0 <= 0 && at1 >= 0) c.check(std::fabs(r) <= 2 * allow, "balance", "cell %d: saturation %.17g -> %.17g leaves a balance error of %Lg (allowed %Lg, tolerance %g)%s", i, b[2 * i], s, r, 2 * allow, k.tol, loop[i] ? " in a loop" : "");
        else { all = false; c.label("no root"); c.check(std::fabs(r) <= std::min(std::fabs(at0), std::fabs(at1)) + 2 * allow, "no-root", "cell %d: no saturation balances it, and %.17g leaves %Lg although the ends leave %Lg and %Lg", i, s, r, at0, at1); }
        for (int p = 0; p < 2; ++p) { const double e = a[2 * i + p] * k.bo.b(p, k.p[i]); c.check(std::fabs(za[2 * i + p] - e) <= 1e-14 * k.bo.b(p, k.p[i]), "surface-volume", "cell %d: surface volume %.17g of phase %d, saturation %.17g, expansion %.17g", i, za[2 * i + p], p, a[2 * i + p], k.bo.b(p, k.p[i])); }
        gain += (LD) k.pv[i] * za[2 * i] - (LD) k.pv0[i] * z[2 * i] - k.dt * (k.src[i] > 0 ? (LD) k.src[i] : k.src[i] * (LD) own * bi); al += k.pv0[i] * bi * 2 * allow + 1e-14L * bi * k.pv[i];
    }
    if (all) c.check(std::fabs(gain) <= al, "total", "the total surface volume changed by %Lg more than was put in (allowed %Lg)", gain, al);
    c.label("all balanced", all); c.label("moved", moved); c.label("loop", std::count(loop.begin(), loop.end(), 1) > 0); if (moved && nc > 2) c.nontrivial();
}
bool tame(const Prob& k)
{
    const UnstructuredGrid& G = k.t.G; const std::vector<char> loop = inLoop(G, k.w.v);
    for (int i = 0; i < G.number_of_cells; ++i) if (loop[i]) { double out = std::max(0.0, -k.src[i]); for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) { const int f = G.cell_faces[h]; if (G.face_cells[2 * f] < 0 || G.face_cells[2 * f + 1] < 0) continue; const double v = G.face_cells[2 * f] == i ? k.w.v[f] : -k.w.v[f]; out += std::max(0.0, v); } if (k.dt / k.pv0[i] * out * slopeOf(k, i) > 1) return false; }
    return true;
}
bool step(Ctx& c, Opm::TransportSolverCompressibleTwophaseReorder& S, const Prob& k, std::vector<double>& s, std::vector<double>& z)
{
    const std::vector<double> v(k.w.v), pv0(k.pv0), pv(k.pv), src(k.src), p(k.p);
    try { Quiet q; S.solve(&k.w.v[0], &k.p[0], &k.pv0[0], &k.pv[0], &k.src[0], k.dt, s, z); }
    catch (const std::exception& e) { c.check(!tame(k), "gives-up", "the solver gave up on an easy problem: %s", e.what()); c.label("gave up"); return false; }
    c.check(v == k.w.v && pv0 == k.pv0 && pv == k.pv && src == k.src && p == k.p, "input", "an input array was changed"); return true;
}
std::vector<double> vol(const Prob& k, const std::vector<double>& s, const std::vector<double>& p) { std::vector<double> z(s.size()); for (size_t i = 0; i < p.size(); ++i) for (int q = 0; q < 2; ++q) z[2 * i + q] = s[2 * i + q] * k.bo.b(q, p[i]); return z; }
void law(Gen& g, Ctx& c)
{
    Prob k = gen(g, c, 30, true); const int nc = k.t.G.number_of_cells; Opm::TransportSolverCompressibleTwophaseReorder S(k.t.G, k.bo, k.tol, k.maxit); std::vector<double> s(k.s0), z = vol(k, s, k.p0); const int n = g.i(1, 3);
    for (int t = 0; t < n; ++t) {
        if (t) { k.p0 = k.p; k.pv0 = k.pv; genStates(g, k, true); if (g.b()) { k.w = genFlow(g, k.t.G); for (int i = 0; i < nc; ++i) { k.src[i] = k.w.q[i] + k.w.bin[i]; if (k.src[i] > 0) k.src[i] *= k.bo.b(0, k.p[i]); } k.dt = g.logreal(0.01, 30) / k.w.unit; } c.desc() << "; then flux " << show(k.w.v, 60) << " source " << show(k.src, 40) << " dt " << k.dt << " p " << show(k.p, 40) << " pv " << show(k.pv, 40); }
        const std::vector<double> b(s), zb(z); if (!step(c, S, k, s, z)) { if (t == 0) throw pbt::Discard(); break; }
        std::vector<double> e; judge(c, k, zb, b, s, z, e);
    }
}
// nothing compressible: the same as the incompressible solver
void incompressible(Gen& g, Ctx& c)
{
    Prob k = gen(g, c, 25, false); const int nc = k.t.G.number_of_cells; std::vector<double> s(k.s0), z = vol(k, s, k.p0), zb(z), e, src(k.src); for (int i = 0; i < nc; ++i) if (src[i] > 0) src[i] /= k.bo.b(0, k.p[i]);
    Opm::TransportSolverCompressibleTwophaseReorder S(k.t.G, k.bo, k.tol, k.maxit); Opm::TransportSolverTwophaseReorder T(k.t.G, k.fl, 0, k.tol, k.maxit);
    Opm::TwophaseState st; st.init(k.t.G, 2); st.saturation() = k.s0; st.faceflux() = k.w.v;
    try { Quiet q; T.solve(&k.pv0[0], &src[0], k.dt, st); } catch (const std::exception&) { throw pbt::Discard(); }
    if (!step(c, S, k, s, z)) throw pbt::Discard();
    judge(c, k, zb, k.s0, s, z, e); LD al = 0; for (int i = 0; i < nc; ++i) al += k.pv0[i] * 8 * (LD) e[i];
    for (int i = 0; i < nc; ++i) c.check(std::fabs(s[2 * i] - st.saturation()[2 * i]) <= al / k.pv0[i], "incompressible", "cell %d ends with %.17g, with the incompressible solver %.17g", i, s[2 * i], st.saturation()[2 * i]);
}
// miscible fluids are refused
struct Mix : TwoBo { int r = 0, at = 0; void matrix(const int n, const double* p, const double* z, const int* cells, double* A, double* dA) const { TwoBo::matrix(n, p, z, cells, A, dA); for (int i = 0; i < n; ++i) if (i >= at) A[4 * i + r] = 0.1; } };
void miscible(Gen& g, Ctx& c)
{
    Prob k = gen(g, c, 10, true); Mix m; static_cast<TwoBo&>(m) = k.bo; m.f = &k.fl; m.r = g.i(1, 2); std::vector<double> s(k.s0), z = vol(k, s, k.p0);
    Opm::TransportSolverCompressibleTwophaseReorder S(k.t.G, m, k.tol, k.maxit); bool threw = false; try { Quiet q; S.solve(&k.w.v[0], &k.p[0], &k.pv0[0], &k.pv[0], &k.src[0], k.dt, s, z); } catch (const std::exception&) { threw = true; }
    c.check(threw, "miscible", "a fluid whose components dissolve in the other phase was accepted"); c.nontrivial();
}
}
pbt::Spec pbt::spec()
{
    return { "C27", "more than two cells and a saturation that moves by more than 1e-3 (miscible: always)",
             { "Injection sources are surface volume rates of the first phase, production sources total reservoir rates; flow over the boundary is only what the sources say", "The solver may give up (exception) on loops with large steps; not when every cell of a loop has step * outflow * slope / pore volume <= 1", "Where no saturation in [0,1] balances a cell (inconsistent pressures and fluxes) the better end is expected", "Surface volumes before the step belong to the old pressures" },
             20000, 400000, { { "law", 5, law }, { "incompressible", 2, incompressible }, { "miscible", 1, miscible } } };
}
