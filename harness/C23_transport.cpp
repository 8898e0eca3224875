// C23: reordering two-phase transport without gravity, judged by the conservation law of every cell.
#include "transgen.hpp"
#include <iostream>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>

namespace {
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Prob { Topo t; Fluid fl; Flow w; std::vector<double> pv, src, s0; double dt, tol; int maxit; bool balanced; };
Fluid genTwo(Gen& g, int nc)
{
    Fluid f; f.d = 3; f.nc = nc; f.K.assign((size_t) 9 * nc, 1.0); f.poro.assign(nc, 0.3);
    const double m = g.b() ? 1.0 : 1e-3; for (int p = 0; p < 2; ++p) { f.mu[p] = m * (g.b() ? 1.0 : g.logreal(0.1, 10)); f.rho[p] = 1000; }
    const int kr = g.i(0, 2); for (int p = 0; p < 2; ++p) { f.n[p].resize(nc); for (int c = 0; c < nc; ++c) f.n[p][c] = c && kr < 2 ? f.n[p][0] : kr == 0 ? 1.0 : 1.0 * g.i(1, 3); }
    f.lo.assign(nc, 0.0); f.hi.assign(nc, 1.0);
    if (g.p(1, 3)) { const double a = g.real(0, 0.3), b = g.real(0.7, 1); f.lo.assign(nc, a); f.hi.assign(nc, b); if (g.p(1, 3)) for (int c = 0; c < nc; ++c) if (g.b()) { f.lo[c] = 0; f.hi[c] = 1; } }
    return f;
}
double ff(const Fluid& f, int c, double s) { const double t[2] = { s, 1 - s }; const double a = f.mob(c, t, 0), b = f.mob(c, t, 1); return a / (a + b); }
Prob gen(Gen& g, int maxc, bool balanced)
{
    Prob k; k.t = genTopo(g, maxc); const UnstructuredGrid& G = k.t.G; const int nc = G.number_of_cells;
    k.fl = genTwo(g, nc); k.w = genFlow(g, G); genPorevol(g, nc, k.pv);
    k.src.resize(nc); for (int c = 0; c < nc; ++c) k.src[c] = k.w.q[c];          // q balances interior and boundary flow together
    for (int c = 0; c < nc; ++c) k.src[c] += k.w.bin[c];                          // ... and the solver wants the boundary inflow as part of the source
    k.balanced = balanced; if (!balanced) { const double a = g.real(0, 0.3); for (int c = 0; c < nc; ++c) if (g.b()) k.src[c] += a * k.w.unit * g.real(-1, 1); }
    k.s0 = genSats(g, k.fl); k.dt = g.logreal(0.01, 30) / k.w.unit; k.tol = g.pick(std::vector<double>{ 1e-9, 1e-9, 1e-6, 1e-12 }); k.maxit = g.pick(std::vector<int>{ 200, 200, 1000 });
    return k;
}
void describe(const Prob& k, Ctx& c)
{
    c.desc() << k.t.str() << " flux " << show(k.w.v, 60) << " source " << show(k.src, 40) << " pv " << show(k.pv, 40) << " s " << show(k.s0, 60) << " mu " << k.fl.mu[0] << " " << k.fl.mu[1] << " n " << show(k.fl.n[0], 4) << show(k.fl.n[1], 4) << " lo " << show(k.fl.lo, 4) << " hi " << show(k.fl.hi, 4) << " dt " << k.dt << " tol " << k.tol;
}
// strongly connected cells (transitive closure; small grids)
std::vector<char> inLoop(const UnstructuredGrid& G, const std::vector<double>& v)
{
    const int n = G.number_of_cells; std::vector<std::vector<int> > to(n); std::vector<char> r(n, 0);
    for (int f = 0; f < G.number_of_faces; ++f) { const int a = G.face_cells[2 * f], b = G.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; if (v[f] > 0) to[a].push_back(b); if (v[f] < 0) to[b].push_back(a); }
    for (int s = 0; s < n; ++s) { std::vector<char> seen(n, 0); std::vector<int> st(to[s]); while (!st.empty()) { const int a = st.back(); st.pop_back(); if (seen[a]) continue; seen[a] = 1; for (int b : to[a]) st.push_back(b); } r[s] = seen[s]; }
    return r;
}
struct Judge { std::vector<double> r, allow; bool ok; };
// residual of every cell, and what the documented tolerances allow
void judge(Ctx& c, const Prob& k, const std::vector<double>& b, const std::vector<double>& a, std::vector<double>& err)
{
    const UnstructuredGrid& G = k.t.G; const int nc = G.number_of_cells; const std::vector<char> loop = inLoop(G, k.w.v); err.assign(nc, 0.0);
    std::vector<double> L(nc); for (int i = 0; i < nc; ++i) L[i] = fracSlope(k.fl, i);
    LD gain = 0, mag = 0;
    for (int i = 0; i < nc; ++i) {
        const double s = a[2 * i], s0 = b[2 * i], q = k.dt / k.pv[i]; LD r = 0, in = 0, out = 0, comp = k.src[i], slack = 0, at0 = 0, at1 = 0, sz = 0;
        const double own = ff(k.fl, i, s);
        if (k.src[i] > 0) in -= k.src[i]; else out -= k.src[i];
        for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) {
            const int f = G.cell_faces[h]; const bool first = G.face_cells[2 * f] == i; const int o = G.face_cells[2 * f + (first ? 1 : 0)]; if (o < 0) continue;
            const double v = first ? k.w.v[f] : -k.w.v[f]; comp -= v; sz += std::fabs(v);
            if (v < 0) { in += v * ff(k.fl, o, a[2 * o]); if (loop[i] && loop[o]) slack += -v * L[o] * 3e-7; slack += -v * 1e-14; } else out += v;
        }
        r = s - s0 + q * (out * own + in + s * comp); at0 = -s0 + q * (out * ff(k.fl, i, 0) + in); at1 = 1 - s0 + q * (out * ff(k.fl, i, 1) + in + comp);
        const LD scale = 1 + q * (sz + std::fabs(k.src[i])), allow = k.tol + q * slack + 1e-14L * scale * (1 + L[i]);
        err[i] = (double) allow; mag = std::max(mag, scale);
        c.check(s >= -1e-15 && s <= 1 + 1e-15 && a[2 * i + 1] == 1 - s, "range", "cell %d ends with saturations %.17g and %.17g", i, s, a[2 * i + 1]);
        const LD edge = allow;
        if (at0 < -edge && at1 > edge) c.check(std::fabs(r) <= allow, "balance", "cell %d: saturation %.17g -> %.17g leaves a balance error of %Lg (allowed %Lg, tolerance %g)%s", i, s0, s, r, allow, k.tol, loop[i] ? " in a loop" : "");
        else if (k.balanced || (at0 <= 0 && at1 >= 0)) c.check(std::fabs(r) <= 2 * allow, "balance", "cell %d: saturation %.17g -> %.17g leaves a balance error of %Lg (allowed %Lg, tolerance %g)%s", i, s0, s, r, allow, k.tol, loop[i] ? " in a loop" : "");
        else c.label("no root");
        if (k.balanced) c.check(s >= std::min(k.fl.lo[i], s0) - allow && s <= std::max(k.fl.hi[i], s0) + allow, "bounds", "cell %d ends with %.17g outside [%g, %g], starting from %g", i, s, k.fl.lo[i], k.fl.hi[i], s0);
        gain += (LD) k.pv[i] * (s - s0) - k.dt * ((k.src[i] > 0 ? k.src[i] : 0) + (k.src[i] < 0 ? k.src[i] * own : 0));
    }
    if (k.balanced) { LD al = 0; for (int i = 0; i < nc; ++i) al += k.pv[i] * 2 * err[i]; c.check(std::fabs(gain) <= al, "total", "the total amount changed by %Lg more than was put in (allowed %Lg)", gain, al); }
}
bool tame(const Prob& k)
{
    const UnstructuredGrid& G = k.t.G; const std::vector<char> loop = inLoop(G, k.w.v);
    for (int i = 0; i < G.number_of_cells; ++i) if (loop[i]) { double out = std::max(0.0, -k.src[i]); for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) { const int f = G.cell_faces[h]; if (G.face_cells[2 * f] < 0 || G.face_cells[2 * f + 1] < 0) continue; const double v = G.face_cells[2 * f] == i ? k.w.v[f] : -k.w.v[f]; out += std::max(0.0, v); } if (k.dt / k.pv[i] * out * fracSlope(k.fl, i) > 2) return false; }
    return true;
}
bool step(Ctx& c, Opm::TransportSolverTwophaseReorder& S, const Prob& k, Opm::TwophaseState& st)
{
    const std::vector<double> v(k.w.v), pv(k.pv), src(k.src), p(st.pressure());
    try { Quiet q; st.faceflux() = v; st.faceflux().reserve(1); S.solve(&k.pv[0], &k.src[0], k.dt, st); }
    catch (const std::exception& e) { c.check(!k.balanced || !tame(k), "gives-up", "the solver gave up on an easy problem: %s", e.what()); c.label("gave up"); return false; }
    c.check(st.faceflux() == v && pv == k.pv && src == k.src && p == st.pressure(), "input", "fluxes, pressures, pore volumes or sources were changed");
    c.check(st.saturation().size() == 2 * k.pv.size(), "size", "%zu saturations for %zu cells", st.saturation().size(), k.pv.size());
    return true;
}
void labels(const Prob& k, Ctx& c, const std::vector<double>& end)
{
    const std::vector<char> l = inLoop(k.t.G, k.w.v); c.label("loop", std::count(l.begin(), l.end(), 1) > 0); bool moved = false; for (size_t i = 0; i < end.size(); ++i) moved = moved || std::fabs(end[i] - k.s0[i]) > 1e-3;
    c.label("moved", moved); c.label("boundary", std::any_of(k.w.bin.begin(), k.w.bin.end(), [](double x) { return x != 0; })); c.nontrivial(moved && k.t.G.number_of_cells > 2);
}
void law(Gen& g, Ctx& c)
{
    Prob k = gen(g, 30, g.p(3, 4)); describe(k, c); if (k.t.G.number_of_faces == 0) throw pbt::Discard();
    Opm::TransportSolverTwophaseReorder S(k.t.G, k.fl, 0, k.tol, k.maxit); Opm::TwophaseState st; st.init(k.t.G, 2); st.saturation() = k.s0;
    const int steps = g.i(1, 3);
    for (int n = 0; n < steps; ++n) {
        if (n && g.b()) { k.w = genFlow(g, k.t.G); for (int i = 0; i < k.t.G.number_of_cells; ++i) k.src[i] = k.w.q[i] + k.w.bin[i]; k.balanced = true; k.dt = g.logreal(0.01, 30) / k.w.unit; c.desc() << "; then flux " << show(k.w.v, 60) << " source " << show(k.src, 40) << " dt " << k.dt; }
        const std::vector<double> before = st.saturation(); if (!step(c, S, k, st)) { if (n == 0) throw pbt::Discard(); break; }
        c.label("unbalanced", !k.balanced);
        {   // iteration counts are those of this call
            const std::vector<int> it = S.getReorderIterations(); c.check((int) it.size() == k.t.G.number_of_cells, "iterations", "%zu iteration counts", it.size());
            if (n) { Opm::TransportSolverTwophaseReorder F(k.t.G, k.fl, 0, k.tol, k.maxit); Opm::TwophaseState s2; s2.init(k.t.G, 2); s2.saturation() = before; if (step(c, F, k, s2)) { c.check(s2.saturation() == st.saturation(), "history", "a solver used before gives another result than a new one"); c.check(F.getReorderIterations() == it, "iterations", "a solver used before reports other iteration counts than a new one"); } }
        }
        std::vector<double> err; judge(c, k, before, st.saturation(), err); if (n == 0) labels(k, c, st.saturation());
    }
}
// another numbering of cells and faces, other face directions
void numbering(Gen& g, Ctx& c)
{
    Prob k = gen(g, 25, true); const UnstructuredGrid& G = k.t.G; const int nc = G.number_of_cells, nf = G.number_of_faces; if (!nf) throw pbt::Discard();
    const std::vector<int> pc = g.perm(nc), pf = g.perm(nf); std::vector<char> rev(nf); for (char& x : rev) x = g.b();
    describe(k, c); c.desc() << " cells to " << show(pc, 30) << " faces to " << show(pf, 60);
    Prob m = k; m.t = relabel(k.t, pc, pf, rev, g);
    for (int f = 0; f < nf; ++f) m.w.v[pf[f]] = rev[f] ? -k.w.v[f] : k.w.v[f];
    for (int i = 0; i < nc; ++i) { const int j = pc[i]; m.src[j] = k.src[i]; m.w.bin[j] = k.w.bin[i]; m.pv[j] = k.pv[i]; m.s0[2 * j] = k.s0[2 * i]; m.s0[2 * j + 1] = k.s0[2 * i + 1]; for (int p = 0; p < 2; ++p) m.fl.n[p][j] = k.fl.n[p][i]; m.fl.lo[j] = k.fl.lo[i]; m.fl.hi[j] = k.fl.hi[i]; }
    Opm::TwophaseState a, b; a.init(G, 2); b.init(m.t.G, 2); a.saturation() = k.s0; b.saturation() = m.s0;
    Opm::TransportSolverTwophaseReorder S(G, k.fl, 0, k.tol, k.maxit), T(m.t.G, m.fl, 0, m.tol, m.maxit);
    if (!step(c, S, k, a) || !step(c, T, m, b)) throw pbt::Discard();
    std::vector<double> e, e2; judge(c, k, k.s0, a.saturation(), e); judge(c, m, m.s0, b.saturation(), e2); labels(k, c, a.saturation());
    LD al = 0; for (int i = 0; i < nc; ++i) al += k.pv[i] * 4 * ((LD) e[i] + e2[pc[i]]);           // the step is a contraction in the pore-volume weighted 1-norm
    for (int i = 0; i < nc; ++i) c.check(std::fabs(a.saturation()[2 * i] - b.saturation()[2 * pc[i]]) <= al / k.pv[i], "numbering", "cell %d ends with %.17g, with another numbering %.17g", i, a.saturation()[2 * i], b.saturation()[2 * pc[i]]);
}
// states that must not move: uniform with pure circulation, or water everywhere with water injected
void rest(Gen& g, Ctx& c)
{
    Prob k = gen(g, 25, true); const UnstructuredGrid& G = k.t.G; const int nc = G.number_of_cells; if (!G.number_of_faces) throw pbt::Discard();
    const int m = g.i(0, 2); double s = g.real(0, 1);
    if (m == 0) for (int i = 0; i < nc; ++i) k.s0[2 * i] = k.fl.hi[i];
    else {
        if (m == 2) { for (int i = 0; i < nc; ++i) { k.s0[2 * i] = k.fl.lo[i]; } }      // no water anywhere and none injected: reverse all injection
        else { for (int p = 0; p < 2; ++p) for (int i = 1; i < nc; ++i) k.fl.n[p][i] = k.fl.n[p][0]; for (int i = 0; i < nc; ++i) { k.fl.lo[i] = k.fl.lo[0]; k.fl.hi[i] = k.fl.hi[0]; k.s0[2 * i] = s; } }
        for (int i = 0; i < nc; ++i) if (k.src[i] > 0) { k.src[i] = 0; k.balanced = false; }  // leaves cells that swell or shrink: restore balance by dropping the flow through them
        bool again = true; while (again) { again = false; for (int i = 0; i < nc; ++i) { double out = 0; for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) { const int f = G.cell_faces[h]; if (G.face_cells[2 * f] < 0 || G.face_cells[2 * f + 1] < 0) continue; out += G.face_cells[2 * f] == i ? k.w.v[f] : -k.w.v[f]; } if (out != k.src[i]) { if (out < 0) { k.src[i] = out; continue; } for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) { const int f = G.cell_faces[h]; if (G.face_cells[2 * f] < 0 || G.face_cells[2 * f + 1] < 0) continue; if ((G.face_cells[2 * f] == i ? k.w.v[f] : -k.w.v[f]) > 0) { k.w.v[f] = 0; again = true; } } if (!again) k.src[i] = 0; } } }
        k.balanced = true;
    }
    for (int i = 0; i < nc; ++i) k.s0[2 * i + 1] = 1 - k.s0[2 * i];
    describe(k, c); c.label(m == 0 ? "water" : m == 1 ? "uniform" : "no water"); bool any = false; for (double v : k.w.v) any = any || v != 0; c.nontrivial(any && nc > 2);
    Opm::TransportSolverTwophaseReorder S(G, k.fl, 0, k.tol, k.maxit); Opm::TwophaseState st; st.init(G, 2); st.saturation() = k.s0;
    if (!step(c, S, k, st)) throw pbt::Discard();
    std::vector<double> e; judge(c, k, k.s0, st.saturation(), e);
    for (int i = 0; i < nc; ++i) c.check(std::fabs(st.saturation()[2 * i] - k.s0[2 * i]) <= 1e-15 + k.tol + e[i], "rest", "cell %d moved from %.17g to %.17g", i, k.s0[2 * i], st.saturation()[2 * i]);
}
}
pbt::Spec pbt::spec()
{
    return { "C23", "more than two cells and a saturation that moves by more than 1e-3 (rest: flow present)",
             { "Flux fields are divergence-free to the last bit except in the 'unbalanced' cases, sources include boundary inflow as computeTransportSource() documents", "The solver may give up (exception) on loops with large steps; not when every cell of a loop has step * outflow * slope / pore volume <= 2", "Relative permeability curves are non-decreasing; saturations before the step lie in the phase's range" },
             40000, 800000, { { "law", 4, law }, { "numbering", 2, numbering }, { "rest", 1, rest } } };
}
