// C17: incompressible solve with compressible rock.
#include "incomp.hpp"
#include <opm/core/pressure/IncompTpfa.hpp>
#include <opm/core/pressure/tpfa/ifs_tpfa.h>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <sstream>

namespace {
struct Rock {
    std::unique_ptr<Opm::RockCompressibility> r; std::vector<double> p, m; double pref = 0, c = 0; std::string text;
    LD mult(LD x) const
    {
        if (p.empty()) { const LD q = c * (x - pref); return 1 + q + q * q / 2; }
        size_t k = 1; while (k + 1 < p.size() && x > p[k]) ++k;
        return m[k - 1] + (m[k] - m[k - 1]) * (x - p[k - 1]) / ((LD) p[k] - p[k - 1]);
    }
    LD slope(LD x) const { if (p.empty()) return c; size_t k = 1; while (k + 1 < p.size() && x > p[k]) ++k; return (m[k] - m[k - 1]) / ((LD) p[k] - p[k - 1]); }
};
Rock genRock(Gen& g, double P)
{
    Rock r; const double bar = 1e5; std::ostringstream o; o.precision(17);
    if (g.p(2, 3)) {
        // pressures of a parameter group are in bars
        r.pref = g.real(0, 2) * P; r.c = g.p(1, 10) ? 0.0 : g.logreal(1e-3, 0.2) / P;
        Opm::parameter::ParameterGroup q; std::ostringstream a, b; a.precision(17); b.precision(17); a << r.pref / bar; b << r.c * bar;
        q.insertParameter("rock_compressibility_pref", a.str()); q.insertParameter("rock_compressibility", b.str()); q.disableOutput();
        r.r.reset(new Opm::RockCompressibility(q)); o << "ROCK " << r.pref << " " << r.c; r.text = o.str();
    } else {
        const int n = g.i(2, 5); r.p = g.increasing(n - 1, g.real(0.3, 0.8) * P, 0.2 * P, 1.5 * P); double m = g.real(0.8, 1.0); for (int k = 0; k < n; ++k) { r.m.push_back(m); m += g.real(0.001, 0.05); }
        for (double& x : r.p) x = std::floor(x / P * 1024) / 1024 * P;
        o << "METRIC\nROCKTAB\n"; for (int k = 0; k < n; ++k) o << r.p[k] / bar << " " << r.m[k] << " 1\n"; o << "/\n";
        std::istringstream in(o.str()); Opm::EclipseGridParser deck; std::stringbuf sink; std::streambuf* old = std::cout.rdbuf(&sink); deck.read(in); std::cout.rdbuf(old);
        r.r.reset(new Opm::RockCompressibility(deck)); r.text = o.str();
        for (double& x : r.p) x = x / bar * bar;
    }
    return r;
}

void newton(Gen& g, Ctx& c)
{
    Problem p = gen(g, c, g.p(2, 3)); const UnstructuredGrid& G = *p.a.G; const int nc = G.number_of_cells;
    Rock rk = genRock(g, p.P); const bool active = rk.r->isActive();
    c.check(active == (!rk.p.empty() || rk.c != 0), "active", "compressibility is reported as %sactive", active ? "" : "not ");
    if (!active && p.singular && g.b()) return;
    DenseSolver lin; Opm::TwophaseState st; st.init(G, 2);
    double vol = 0; for (int i = 0; i < nc; ++i) vol += p.fl.poro[i] * G.cell_volumes[i]; vol /= nc;
    const double restol = 1e-8 * p.R, dt0 = vol * (rk.p.empty() ? rk.c ? rk.c * p.P : 1 : 0.03) / p.R;
    Opm::IncompTpfa t(G, p.fl, rk.r.get(), lin, restol, 0.0, 60, p.grav.empty() ? 0 : &p.grav[0], p.W.get(), p.src, p.bc.get());
    Opm::WellState ws; c.desc() << " rock: " << rk.text; c.label(rk.p.empty() ? "constant" : "table"); c.label("inactive", !active);
    const int steps = g.size(1, 3);
    st.pressure().assign(nc, 0); const double pm = g.real(0.5, 3); const bool uni = g.b(); for (double& x : st.pressure()) x = p.P * (uni ? pm : g.real(0.5, 3));
    for (int k = 0; k < steps; ++k) {
        st.saturation() = genSats(g, p.fl);
        const double dt = dt0 * g.logreal(0.01, 100);
        const std::vector<double> old = st.pressure();
        if (k == 0) ws.init(p.W.get(), st);
        std::vector<double> bhp0 = ws.bhp();
        std::stringbuf sink; std::streambuf* o = std::cout.rdbuf(&sink); bool threw = false;
        try { t.solve(dt, st, ws); } catch (const std::exception&) { threw = true; }
        std::cout.rdbuf(o);
        c.check(!lin.singular, "solvable", "the linear system is singular");
        if (threw) { double big = 0; for (double x : st.pressure()) big = std::max(big, std::fabs(x - rk.pref)); c.label("not-converged"); if (rk.p.empty()) c.check(big * rk.c > 0.5, "converges", "no convergence though the pore volume changes by %g only", big * rk.c); return; }
        std::vector<LD> acc(2 * nc, 0); if (active) for (int i = 0; i < nc; ++i) { const LD v = (LD) p.fl.poro[i] * G.cell_volumes[i] / dt, sl = v * rk.slope(st.pressure()[i]); acc[2 * i] = v * (rk.mult(st.pressure()[i]) - rk.mult(old[i])); acc[2 * i + 1] = v * (std::fabs(rk.mult(st.pressure()[i])) + std::fabs(rk.mult(old[i]))) + std::fabs(sl) * p.P; }
        judge(c, p, st, ws, bhp0, &acc, active ? restol : 0);
        if (k) c.label("repeated");
    }
}

// The linearised system with the accumulation term pv*c*(p - p0)/dt, through the C interface.
void linear(Gen& g, Ctx& c)
{
    Problem p = gen(g, c, g.p(2, 3)); UnstructuredGrid& G = *p.a.G; const int nc = G.number_of_cells, d = G.dimensions;
    std::vector<double> h(p.ht.t.size()), T(G.number_of_faces), mob(nc), gp(h.size(), 0.0), pv(nc), rc(nc), p0(nc), wdp;
    Opm::TwophaseState st; st.init(G, 2); st.saturation() = genSats(g, p.fl); Opm::WellState ws; const std::vector<double>& s = st.saturation();
    tpfa_htrans_compute(&G, &p.fl.K[0], &h[0]);
    double v0 = 0; for (int i = 0; i < nc; ++i) { const double a = p.fl.mob(i, &s[2 * i], 0), b = p.fl.mob(i, &s[2 * i], 1); mob[i] = a + b; pv[i] = p.fl.poro[i] * G.cell_volumes[i]; v0 += pv[i]; rc[i] = g.p(1, 4) ? 0.0 : g.logreal(1e-3, 0.2) / p.P; p0[i] = p.P * g.real(0, 3);
        if (!p.grav.empty()) for (int k = G.cell_facepos[i]; k < G.cell_facepos[i + 1]; ++k) for (int q = 0; q < d; ++q) gp[k] += (a * p.fl.rho[0] + b * p.fl.rho[1]) / mob[i] * p.grav[q] * (G.face_centroids[d * G.cell_faces[k] + q] - G.cell_centroids[d * i + q]); }
    rc[g.i(0, nc - 1)] = 0.05 / p.P;
    const double dt = v0 / nc * 0.05 / p.R * g.logreal(0.01, 100);
    tpfa_eff_trans_compute(&G, &mob[0], &h[0], &T[0]);
    if (p.W) for (int w = 0; w < p.W->number_of_wells; ++w) for (int j = p.W->well_connpos[w]; j < p.W->well_connpos[w + 1]; ++j) { const int i = p.W->well_cells[j]; wdp.push_back(p.grav.empty() ? 0 : (s[2 * i] * p.fl.rho[0] + s[2 * i + 1] * p.fl.rho[1]) * p.grav[d - 1] * (G.cell_centroids[d * i + d - 1] - p.W->depth_ref[w])); }
    ifs_tpfa_forces F = { p.src.empty() ? 0 : &p.src[0], p.bc.get(), p.W.get(), &mob[0], wdp.empty() ? 0 : &wdp[0] };
    ifs_tpfa_data* D = ifs_tpfa_construct(&G, p.W.get());
    std::unique_ptr<ifs_tpfa_data, void (*)(ifs_tpfa_data*)> own(D, ifs_tpfa_destroy);
    if (g.b()) ifs_tpfa_assemble(&G, &F, &T[0], &gp[0], D);      // an earlier assembly leaves nothing behind
    c.check(ifs_tpfa_assemble_comprock(&G, &F, &T[0], &gp[0], &pv[0], &rc[0], dt, &p0[0], D), "assemble", "assembly failed");
    DenseSolver lin; lin.solve(D->A->m, D->A->nnz, D->A->ia, D->A->ja, D->A->sa, D->b, D->x);
    if (p.ncomp > 1 && lin.singular) throw pbt::Discard();
    c.check(!lin.singular, "solvable", "the linear system is singular");
    if (p.W) { ws.init(p.W.get(), st); }
    const std::vector<double> bhp0 = ws.bhp();
    ifs_tpfa_solution so = { &st.pressure()[0], &st.faceflux()[0], p.W ? &ws.bhp()[0] : 0, p.W ? &ws.perfRates()[0] : 0 };
    ifs_tpfa_press_flux(&G, &F, &T[0], D, &so);
    std::vector<LD> acc(2 * nc); for (int i = 0; i < nc; ++i) { const LD q = (LD) pv[i] * rc[i] / dt; acc[2 * i] = q * ((LD) st.pressure()[i] - p0[i]); acc[2 * i + 1] = q * (std::fabs(st.pressure()[i]) + p0[i]); }
    judge(c, p, st, ws, bhp0, &acc, 0);
}
}

pbt::Spec pbt::spec()
{
    return { "C17", "the flow problems of C16 with a constant rock compressibility or a pore volume table, up to three time steps (Newton), and the linearised system through the C interface; non-trivial: more than one cell",
        { "Newton may give up (an exception) when pore volume multipliers change by more than half or follow a table" }, 40000, 800000,
        { { "newton", 3, newton }, { "linear", 1, linear } } };
}
