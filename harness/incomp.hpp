// Flow problems for the incompressible two-point solver and the equations that define their solution.
#ifndef VERIF_INCOMP_HPP
#define VERIF_INCOMP_HPP
#include "flowgen.hpp"
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/WellState.hpp>

struct Problem {
    AnyGrid a; Fluid fl; HalfTrans ht;
    std::vector<double> grav, src;             // may be empty
    WellsPtr W; BcPtr bc;
    double P, R, WI0;                          // scales of pressure, rate, well index
    std::vector<int> comp; int ncomp = 0;
    bool singular = false;                     // fixed by nothing but flow rates
};
inline bool anchored(const Problem& p)
{
    std::vector<char> ok(p.ncomp, 0); const UnstructuredGrid& G = *p.a.G;
    if (p.bc) for (size_t k = 0; k < p.bc->nbc; ++k) if (p.bc->type[k] == BC_PRESSURE) for (size_t j = p.bc->cond_pos[k]; j < p.bc->cond_pos[k + 1]; ++j) { const int f = p.bc->face[j]; ok[p.comp[std::max(G.face_cells[2 * f], G.face_cells[2 * f + 1])]] = 1; }
    if (p.W) for (int w = 0; w < p.W->number_of_wells; ++w) { const WellControls* q = p.W->ctrls[w]; if (q->current >= 0 && q->type[q->current] == BHP) for (int i = p.W->well_connpos[w]; i < p.W->well_connpos[w + 1]; ++i) ok[p.comp[p.W->well_cells[i]]] = 1; }
    for (char x : ok) if (!x) return false;
    return true;
}
// without any fixed pressure the rates must cancel
inline void balance(Problem& p, Gen& g)
{
    p.singular = !anchored(p); if (!p.singular) return;
    if (p.ncomp != 1) throw pbt::Discard();
    bool rate = false; if (p.W) for (int w = 0; w < p.W->number_of_wells; ++w) rate = rate || p.W->ctrls[w]->current >= 0;
    if (p.a.G->number_of_cells == 1 && !rate) throw pbt::Discard();       // no equation at all
    double s = 0; for (double x : p.src) s += x;
    if (p.bc) for (size_t k = 0; k < p.bc->nbc; ++k) if (p.bc->type[k] == BC_FLUX_TOTVOL) s += p.bc->value[k];
    if (p.W) for (int w = 0; w < p.W->number_of_wells; ++w) { const WellControls* q = p.W->ctrls[w]; if (q->current >= 0) s += q->target[q->current]; }
    p.src[g.i(0, (int) p.src.size() - 1)] -= s;
}
inline void addControls(Gen& g, Problem& p, int w)
{
    const double one[2] = { 1, 1 }; const int n = g.i(1, 3);
    for (int k = 0; k < n; ++k) { if (g.b()) append_well_controls(BHP, p.P * g.real(0.5, 3), 0, w, p.W.get()); else append_well_controls(RESERVOIR_RATE, p.R * g.real(-3, 3), one, w, p.W.get()); }
    set_current_control(w, g.p(1, 6) ? -1 : g.i(0, n - 1), p.W.get());
}
inline Problem gen(Gen& g, Ctx& c, bool wells)
{
    Problem p; p.a = genGrid(g); const UnstructuredGrid& G = *p.a.G; const int d = G.dimensions, nc = G.number_of_cells;
    p.fl = genFluid(g, G, false, true); p.ht = halfTrans(G, &p.fl.K[0]);
    if (p.ht.worst > 1e8L) throw pbt::Discard();
    LD m = 0; for (LD t : p.ht.t) m += t; p.WI0 = (double) (m / p.ht.t.size());
    p.P = p.WI0 < 1e-6 ? 1e6 : 1.0; p.R = p.WI0 * p.P / p.fl.mu[0];
    p.comp = components(G, p.ncomp);
    const int gm = g.i(0, 2);
    if (gm) { p.grav.assign(d, 0); const double gs = p.P > 1 ? 9.81 : 1e-3; if (gm == 1) p.grav[d - 1] = gs; else for (double& x : p.grav) x = gs * g.real(-1, 1); }
    p.src.assign(nc, 0.0); const bool keepSrc = g.b();
    if (g.b()) for (double& x : p.src) if (g.p(1, 3)) x = p.R * g.real(-1, 1);
    std::vector<int> bf = boundaryFaces(G); const std::vector<int> pm = g.perm((int) bf.size()); size_t next = 0;
    if (g.p(2, 3)) {
        p.bc.reset(flow_conditions_construct(g.i(0, 4))); const int n = g.i(0, 5);
        for (int k = 0; k < n && next < bf.size(); ++k) {
            const int kind = g.i(0, 3);
            if (kind <= 1) { std::vector<int> f; const int q = g.i(1, 4); for (int j = 0; j < q && next < bf.size(); ++j) f.push_back(bf[pm[next++]]); flow_conditions_append_multi(BC_PRESSURE, f.size(), &f[0], p.P * g.real(0.5, 3), p.bc.get()); }
            else if (kind == 2) flow_conditions_append(BC_FLUX_TOTVOL, bf[pm[next++]], p.R * g.real(-1, 1), p.bc.get());
            else flow_conditions_append(BC_NOFLOW, bf[pm[next++]], p.R, p.bc.get());
        }
    }
    if (wells) {
        const int nw = g.p(1, 6) ? g.i(4, 6) : g.i(1, 3);
        p.W.reset(create_wells(2, g.i(0, nw), g.i(0, 3)));
        for (int w = 0; w < nw; ++w) {
            const int np = g.size(1, std::min(nc, 5)); const std::vector<int> pc = g.perm(nc); std::vector<int> cells(pc.begin(), pc.begin() + np); std::vector<double> WI(np); double frac[2] = { 1, 0 };
            if (np > 1 && g.p(1, 8)) cells[1] = cells[0];
            for (double& x : WI) x = p.WI0 * g.logreal(0.05, 20);
            const double depth = G.cell_centroids[d * cells[0] + d - 1] + (g.b() ? 0 : g.real(-5, 5));
            add_well(g.b() ? INJECTOR : PRODUCER, depth, np, frac, &cells[0], &WI[0], "W", p.W.get());
            addControls(g, p, w);
        }
    }
    // fix the pressure in every component most of the time
    if (!anchored(p) && (p.ncomp > 1 || g.p(3, 4))) {
        if (!p.bc) p.bc.reset(flow_conditions_construct(1));
        std::vector<char> done(p.ncomp, 0);
        for (; next < bf.size(); ++next) { const int f = bf[pm[next]], k = p.comp[std::max(G.face_cells[2 * f], G.face_cells[2 * f + 1])]; if (!done[k]) { done[k] = 1; flow_conditions_append(BC_PRESSURE, f, p.P * g.real(0.5, 3), p.bc.get()); } }
    }
    balance(p, g);
    bool any = false; for (double x : p.src) any = any || x != 0; if (!any && !keepSrc) p.src.clear();
    c.desc() << p.a.text << " K0=" << show(std::vector<double>(p.fl.K.begin(), p.fl.K.begin() + d * d)) << " g=" << show(p.grav) << " src=" << show(p.src) << " wells " << (p.W ? p.W->number_of_wells : 0) << " bc " << (p.bc ? (int) p.bc->nbc : 0);
    c.label(p.grav.empty() ? "no-gravity" : "gravity"); c.label("all-rates", p.singular); c.label("wells", p.W && p.W->number_of_wells); c.label("boundary-pressure", p.bc && !p.singular); c.label("several-components", p.ncomp > 1);
    c.nontrivial(nc > 1);
    return p;
}

// The defining equations of the solution.
inline void judge(Ctx& c, const Problem& p, const Opm::TwophaseState& st, const Opm::WellState& ws, const std::vector<double>& bhp0, const std::vector<LD>* acc = 0, LD restol = 0)
{
    const UnstructuredGrid& G = *p.a.G; const int d = G.dimensions, nc = G.number_of_cells, nf = G.number_of_faces;
    const std::vector<double>& s = st.saturation();
    std::vector<LD> mob(nc), om(nc);
    for (int i = 0; i < nc; ++i) { const LD a = p.fl.mob(i, &s[2 * i], 0), b = p.fl.mob(i, &s[2 * i], 1); mob[i] = a + b; om[i] = (a * p.fl.rho[0] + b * p.fl.rho[1]) / mob[i]; }
    const std::vector<double>& x = st.pressure(); const std::vector<double>& fx = st.faceflux();
    for (int i = 0; i < nc; ++i) c.check(std::isfinite(x[i]), "finite", "pressure of cell %d is %g", i, x[i]);
    std::vector<LD> net(nc, 0), mag(nc, 0), bal = net; std::vector<int> cond(nf, -1); std::vector<double> val(nf, 0);
    if (p.bc) for (size_t k = 0; k < p.bc->nbc; ++k) for (size_t j = p.bc->cond_pos[k]; j < p.bc->cond_pos[k + 1]; ++j) { cond[p.bc->face[j]] = p.bc->type[k]; val[p.bc->face[j]] = p.bc->value[k]; }
    for (int f = 0; f < nf; ++f) {
        LD rt = 0, cd = 1, dp = 0, mg = 0; LD pr[2] = { 0, 0 }; bool in[2];
        for (int q = 0; q < 2; ++q) {
            const int i = G.face_cells[2 * f + q]; in[q] = i >= 0; if (i < 0) continue;
            const int h = halfFace(G, i, f); rt += 1 / (mob[i] * p.ht.t[h]); cd = std::max(cd, p.ht.cond[h]);
            LD gr = 0, ga = 0; if (!p.grav.empty()) for (int a = 0; a < d; ++a) { const LD t = om[i] * p.grav[a] * ((LD) G.face_centroids[d * f + a] - G.cell_centroids[d * i + a]); gr += t; ga += std::fabs(t); }
            pr[q] = x[i] + gr; mg += std::fabs((LD) x[i]) + ga;
        }
        if (!in[0] && !in[1]) continue;
        const LD T = 1 / rt; LD want = 0, scale = 0; const char* what = "darcy";
        if (in[0] && in[1]) { dp = pr[0] - pr[1]; want = T * dp; scale = T * mg; }
        else if (cond[f] == BC_PRESSURE) { want = in[0] ? T * (pr[0] - val[f]) : T * (val[f] - pr[1]); scale = T * (mg + std::fabs(val[f])); what = "boundary-pressure"; }
        else if (cond[f] == BC_FLUX_TOTVOL) { want = in[0] ? -val[f] : val[f]; what = "boundary-flux"; }
        else what = "no-flow";
        c.check(std::fabs(fx[f] - want) <= 1e-13L * cd * scale + 1e-14L * std::fabs(want), what, "face %d (cells %d %d): flux %.15g instead of %.15g (scale %.3g)", f, G.face_cells[2 * f], G.face_cells[2 * f + 1], fx[f], (double) want, (double) scale);
        for (int q = 0; q < 2; ++q) if (in[q]) { const int i = G.face_cells[2 * f + q]; net[i] += q ? -(LD) fx[f] : (LD) fx[f]; mag[i] += scale * cd + std::fabs(fx[f]); }
    }
    for (int i = 0; i < nc; ++i) if (!p.src.empty()) { net[i] -= p.src[i]; mag[i] += std::fabs(p.src[i]); }
    if (p.W) for (int w = 0; w < p.W->number_of_wells; ++w) {
        const Wells& W = *p.W; const WellControls* q = W.ctrls[w]; LD sum = 0, sm = 0, sumT = 0;
        for (int j = W.well_connpos[w]; j < W.well_connpos[w + 1]; ++j) {
            const int i = W.well_cells[j]; const double r = ws.perfRates()[j];
            LD wdp = 0, wa = 0; if (!p.grav.empty()) { LD rho = s[2 * i] * (LD) p.fl.rho[0] + s[2 * i + 1] * (LD) p.fl.rho[1]; wdp = rho * p.grav[d - 1] * ((LD) G.cell_centroids[d * i + d - 1] - W.depth_ref[w]); wa = std::fabs(rho * p.grav[d - 1]) * (std::fabs(G.cell_centroids[d * i + d - 1]) + std::fabs(W.depth_ref[w])); }
            const LD T = mob[i] * W.WI[j], want = q->current < 0 ? 0 : T * (ws.bhp()[w] + wdp - x[i]), sc = q->current < 0 ? 0 : T * (std::fabs(ws.bhp()[w]) + wa + std::fabs(x[i]));
            c.check(std::fabs(r - want) <= 1e-13L * sc, q->current < 0 ? "shut-well" : "perforation-rate", "well %d perforation %d: rate %.15g instead of %.15g (scale %.3g)", w, j, r, (double) want, (double) sc);
            net[i] -= r; mag[i] += sc; sumT += T; sum += r; sm += sc;
        }
        if (q->current < 0) c.check(acc || ws.bhp()[w] == bhp0[w], "shut-well", "bottom-hole pressure of shut well %d changed", w);
        else if (q->type[q->current] == BHP) c.check(std::fabs(ws.bhp()[w] - q->target[q->current]) <= 1e-13 * std::fabs(q->target[q->current]) + (acc ? (double) (1.01L * restol / sumT) : 0), "well-pressure", "bottom-hole pressure of well %d: %.15g instead of %.15g", w, ws.bhp()[w], q->target[q->current]);
        else c.check(std::fabs(sum - q->target[q->current]) <= 1e-12L * (sm + std::fabs(q->target[q->current])) + 1.01L * restol, "well-rate", "rate of well %d: %.15g instead of %.15g (scale %.3g)", w, (double) sum, q->target[q->current], (double) sm);
    }
    if (acc) for (int i = 0; i < nc; ++i) { net[i] += (*acc)[2 * i]; mag[i] += (*acc)[2 * i + 1]; }
    LD tot = 0; for (LD m : mag) tot += m;
    for (int i = 0; i < nc; ++i) c.check(std::fabs(net[i]) <= 1e-12L * (p.singular ? tot : mag[i]) + 1.01L * restol, "mass-balance", "cell %d: outflow minus sources is %.3g (scale %.3g)", i, (double) net[i], (double) mag[i]);
}

#endif
