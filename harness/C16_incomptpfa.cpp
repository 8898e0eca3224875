// C16: incompressible two-point pressure solver.  The solution is unique, so it is judged by the
// equations that define it: mass balance per cell, Darcy's law per face, controls per well and face.
#include "incomp.hpp"
#include <iostream>
#include <opm/core/pressure/IncompTpfa.hpp>
#include <opm/core/pressure/tpfa/trans_tpfa.h>

namespace {
void solve(Gen& g, Ctx& c)
{
    Problem p = gen(g, c, g.p(2, 3)); const UnstructuredGrid& G = *p.a.G;
    DenseSolver lin; Opm::TwophaseState st; st.init(G, 2);
    Opm::IncompTpfa t(G, p.fl, lin, p.grav.empty() ? 0 : &p.grav[0], p.W.get(), p.src, p.bc.get());
    Opm::WellState ws;
    const int steps = g.size(1, 3);
    for (int k = 0; k < steps; ++k) {
        if (k) {                               // controls, rates and values may change between solves
            if (p.W) for (int w = 0; w < p.W->number_of_wells; ++w) if (g.b()) { if (g.b()) clear_well_controls(w, p.W.get()); const WellControls* q = p.W->ctrls[w]; if (q->num == 0) addControls(g, p, w); else set_current_control(w, g.i(-1, q->num - 1), p.W.get()); }
            if (p.bc) for (size_t j = 0; j < p.bc->nbc; ++j) if (g.b()) p.bc->value[j] *= g.real(0.5, 1.5);
            for (double& x : p.src) if (g.p(1, 4)) x = p.R * g.real(-1, 1);
            if (!anchored(p) && p.src.empty()) return;
            balance(p, g); c.label("repeated");
        }
        st.saturation() = genSats(g, p.fl);
        if (!p.grav.empty()) for (int i = 0; i < G.number_of_cells; ++i) if (!(p.fl.mob(i, &st.saturation()[2 * i], 0) + p.fl.mob(i, &st.saturation()[2 * i], 1) > 0)) throw pbt::Discard();
        for (double& x : st.pressure()) x = p.P * g.real(0, 1);
        if (k == 0) ws.init(p.W.get(), st);
        const std::vector<double> bhp0 = ws.bhp(), s0 = st.saturation();
        if (p.W && p.W->number_of_wells && g.p(1, 8)) {                       // controls that this solver cannot honour are refused, and nothing is left behind
            const int w = g.i(0, p.W->number_of_wells - 1), was = p.W->ctrls[w]->current; const double part[2] = { 1, 0 }, all[2] = { 1, 1 }; const int kind = g.i(0, 2);
            append_well_controls(kind ? SURFACE_RATE : RESERVOIR_RATE, p.R, kind == 1 ? all : part, w, p.W.get()); set_current_control(w, p.W->ctrls[w]->num - 1, p.W.get());
            const std::vector<double> x0 = st.pressure(), f0 = st.faceflux(), q0 = ws.perfRates(); bool th = false; c.desc() << " refused control " << kind << " of well " << w; c.label("refused control");
            std::ostringstream o; std::streambuf* old = std::cerr.rdbuf(o.rdbuf()); try { t.solve(1.0, st, ws); } catch (const std::exception&) { th = true; } std::cerr.rdbuf(old);
            c.check(th, "refused-control", "well %d of %d is controlled by a %s, which was accepted", w, p.W->number_of_wells, kind ? "surface rate" : "reservoir rate of one phase");
            c.check(st.pressure() == x0 && st.faceflux() == f0 && ws.bhp() == bhp0 && ws.perfRates() == q0, "refused-control", "a refused solve changed the state");
            set_current_control(w, was, p.W.get()); --p.W->ctrls[w]->num;
        }
        t.solve(g.real(0.1, 100), st, ws);
        c.check(!lin.singular, "solvable", "the linear system is singular");
        c.check(st.saturation() == s0, "saturation", "the pressure solve changed the saturation");
        judge(c, p, st, ws, bhp0);
    }
}

// Equilibrium: with hydrostatic boundary pressures nothing moves; without gravity a linear pressure is reproduced on Cartesian grids.
void exact(Gen& g, Ctx& c)
{
    const bool hydro = g.b();
    AnyGrid a = genGrid(g, hydro ? 7 : 1); const UnstructuredGrid& G = *a.G; const int d = G.dimensions, nc = G.number_of_cells;
    Fluid fl = genFluid(g, G, !hydro, true); fl.rho[1] = hydro ? fl.rho[0] : fl.rho[1];
    HalfTrans ht = halfTrans(G, &fl.K[0]); if (ht.worst > 1e8L) throw pbt::Discard();
    std::vector<double> grad(d), grav; double p0 = g.real(-1, 1); LD L = 0; for (int i = 0; i < d * G.number_of_nodes; ++i) L = std::max(L, std::fabs((LD) G.node_coordinates[i]));
    if (hydro) { grav.resize(d); for (double& x : grav) x = g.real(-1, 1) * 1e-3; for (int q = 0; q < d; ++q) grad[q] = fl.rho[0] * grav[q]; }
    else { for (double& x : grad) x = g.real(-1, 1); for (int i = 1; i < nc; ++i) std::copy(&fl.K[0], &fl.K[d * d], &fl.K[d * d * i]); if (G.dimensions == 3) for (int i = 0; i < nc; ++i) for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) if (ht.cond[h] > 1.0001) throw pbt::Discard(); }
    int n; const std::vector<int> comp = components(G, n); std::vector<int> bf = boundaryFaces(G); if (bf.empty()) throw pbt::Discard();
    BcPtr bc(flow_conditions_construct(0)); std::vector<char> done(n, 0); const bool few = hydro && g.b();
    for (int f : bf) { const int k = comp[std::max(G.face_cells[2 * f], G.face_cells[2 * f + 1])]; if (few && done[k] && g.p(2, 3)) continue; done[k] = 1; flow_conditions_append(BC_PRESSURE, f, p0 + dotn(&grad[0], G.face_centroids + d * f, d), bc.get()); }
    c.desc() << a.text << (hydro ? " hydrostatic" : " linear") << " gradient " << show(grad); c.nontrivial(nc > 1); c.label(hydro ? "hydrostatic" : "linear");
    DenseSolver lin; Opm::TwophaseState st; st.init(G, 2); const std::vector<double> sat = genSats(g, fl); for (int i = 0; i < nc; ++i) { const int k = hydro ? i : 0; st.saturation()[2 * i] = sat[2 * k]; st.saturation()[2 * i + 1] = sat[2 * k + 1]; }
    if (!hydro) { fl.n[0].assign(nc, fl.n[0][0]); fl.n[1].assign(nc, fl.n[1][0]); fl.lo.assign(nc, fl.lo[0]); fl.hi.assign(nc, fl.hi[0]); }
    Opm::WellState ws; std::vector<double> src;
    Opm::IncompTpfa t(G, fl, lin, hydro ? &grav[0] : 0, 0, src, bc.get());
    t.solve(1.0, st, ws);
    c.check(!lin.singular, "solvable", "the linear system is singular");
    double gm = std::fabs(p0); for (double x : grad) gm += std::fabs(x) * (double) L;
    for (int i = 0; i < nc; ++i) c.check(std::fabs(st.pressure()[i] - p0 - dotn(&grad[0], G.cell_centroids + d * i, d)) <= 1e-9 * gm, hydro ? "hydrostatic" : "linear-pressure", "cell %d: pressure %.15g instead of %.15g", i, st.pressure()[i], p0 + dotn(&grad[0], G.cell_centroids + d * i, d));
}

// Transmissibilities by themselves.
void trans(Gen& g, Ctx& c)
{
    AnyGrid a = genGrid(g); UnstructuredGrid& G = *a.G; Fluid fl = genFluid(g, G, false, false); HalfTrans ht = halfTrans(G, &fl.K[0]); if (ht.worst > 1e8L) throw pbt::Discard();
    std::vector<double> h(ht.t.size(), -1), T(G.number_of_faces, -1), mob(G.number_of_cells); for (double& x : mob) x = g.logreal(0.01, 100);
    c.desc() << a.text; c.nontrivial(G.number_of_cells > 1);
    tpfa_htrans_compute(&G, &fl.K[0], &h[0]);
    for (size_t i = 0; i < h.size(); ++i) c.check(std::fabs(h[i] - ht.t[i]) <= 1e-14L * ht.cond[i] * ht.t[i], "half-transmissibility", "half face %d: %.15g instead of %.15g", (int) i, h[i], (double) ht.t[i]);
    for (int eff = 0; eff < 2; ++eff) {
        std::fill(T.begin(), T.end(), -1); if (eff) tpfa_eff_trans_compute(&G, &mob[0], &h[0], &T[0]); else tpfa_trans_compute(&G, &h[0], &T[0]);
        for (int f = 0; f < G.number_of_faces; ++f) { LD r = 0; for (int q = 0; q < 2; ++q) { const int i = G.face_cells[2 * f + q]; if (i >= 0) r += 1 / ((eff ? mob[i] : 1) * (LD) h[halfFace(G, i, f)]); } if (r > 0) c.check(std::fabs(T[f] - 1 / r) <= 1e-14L / r, "transmissibility", "face %d: %.15g instead of %.15g", f, T[f], (double) (1 / r)); }
    }
}
}

pbt::Spec pbt::spec()
{
    return { "C16", "Cartesian, corner-point and polyhedral grids of at most 40 cells, full tensors, saturations, gravity, sources, boundary conditions, up to six wells with several controls, up to three solves with changed data; non-trivial: more than one cell",
        { "well depths are measured along the last axis", "flow rates cancel when no pressure is fixed", "a linear solver of high accuracy is supplied by the check" }, 60000, 1200000,
        { { "solve", 6, solve }, { "exact", 2, exact }, { "trans", 1, trans } } };
}
