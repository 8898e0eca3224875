// C18: compressible two-point pressure solver, judged by an independent evaluation of its equations.
#include "flowgen.hpp"
#include <fstream>
#include <opm/core/pressure/CompressibleTpfa.hpp>
#include <opm/core/pressure/tpfa/cfs_tpfa_residual.h>
#include <opm/core/pressure/tpfa/compr_quant_general.h>
#include <opm/core/pressure/tpfa/compr_source.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>

namespace {
// exp close to 0, growing linearly above 2 and vanishing slowly below -2
double sexp(double x, double* d) { double v, e; if (x > 2) { e = std::exp(2.0); v = e * (x - 1); } else if (x < -2) { const double q = 1 / (-1 - x); v = std::exp(-2.0) * q; e = v * q; } else v = e = std::exp(x); if (d) *d = e; return v; }
// phases 0..np-1; expansion factors b = b0 exp(c p); the last component may dissolve in phase np-2
struct BoFluid : Opm::BlackoilPropertiesInterface {
    int d, nc, np; std::vector<double> K, poro; double b0[3], c[3], mu0[3], cmu[3], n[3], rs0, rs1, P, rhoS[3]; std::vector<double> kc, kn; double kz = 0; bool nans = false;      // factors of the volume matrix and increments of the exponents per cell, dependence on the composition
    int numDimensions() const { return d; } int numCells() const { return nc; }
    const double* porosity() const { return &poro[0]; } const double* permeability() const { return &K[0]; }
    int numPhases() const { return np; }
    const double* surfaceDensity() const { return rhoS; }
    double frac(const double* z) const { if (!z || kz == 0) return 0; double s = 0; for (int q = 0; q < np; ++q) s += z[q]; return z[np - 1] / s; }
    void A1(double p, double* A, double* dA, int cell = -1, const double* z = 0) const
    {
        if (nans && !(std::fabs(p) < 1e8 * P)) { std::fill(A, A + np * np, NAN); if (dA) std::fill(dA, dA + np * np, NAN); return; }
        if (!(std::fabs(p) < 1e8 * P)) throw std::runtime_error("pressure out of any range");       // a Newton iteration that diverged
        std::fill(A, A + np * np, 0.0); if (dA) std::fill(dA, dA + np * np, 0.0);
        for (int q = 0; q < np; ++q) { double e; A[q + np * q] = b0[q] * sexp(c[q] * p, &e); if (dA) dA[q + np * q] = b0[q] * c[q] * e; }
        const int o = np - 2, g = np - 1; double rs = rs0 + rs1 * p, drs = rs1; if (p < 0 && rs1 > 0) { const double q = 1 / (1 - rs1 * p / rs0); rs = rs0 * q; drs = rs1 * q * q; }
        A[g + np * o] = rs * A[o + np * o]; if (dA) dA[g + np * o] = drs * A[o + np * o] + rs * dA[o + np * o];
        const double f = (cell < 0 || kc.empty() ? 1 : kc[cell]) * (1 + kz * frac(z)); for (int q = 0; q < np * np; ++q) { A[q] *= f; if (dA) dA[q] *= f; }
    }
    void viscosity(const int m, const double* p, const double* z, const int*, double* mu, double* dmu) const { for (int i = 0; i < m; ++i) for (int q = 0; q < np; ++q) { double e; const double f = 1 + kz * frac(z ? z + np * i : 0); mu[np * i + q] = f * mu0[q] * sexp(cmu[q] * p[i], &e); if (dmu) dmu[np * i + q] = f * mu0[q] * cmu[q] * e; } }
    void matrix(const int m, const double* p, const double* z, const int* cells, double* A, double* dA) const { for (int i = 0; i < m; ++i) A1(p[i], A + np * np * i, dA ? dA + np * np * i : 0, cells[i], z ? z + np * i : 0); }
    void density(const int m, const double* A, double* rho) const { for (int i = 0; i < m; ++i) for (int q = 0; q < np; ++q) { rho[np * i + q] = 0; for (int k = 0; k < np; ++k) rho[np * i + q] += A[np * np * i + k + np * q] * rhoS[k]; } }
    void relperm(const int m, const double* s, const int* cells, double* kr, double* dkr) const { for (int i = 0; i < m; ++i) for (int q = 0; q < np; ++q) { const double e = kn.empty() ? 0 : kn[cells[i]]; kr[np * i + q] = (1 - 0.3 * e) * std::pow(std::max(0.0, s[np * i + q]), n[q] + e); } if (dkr) for (int i = 0; i < m * np * np; ++i) dkr[i] = 0; }
    void capPress(const int m, const double*, const int*, double* pc, double* dpc) const { std::fill(pc, pc + m * np, 0.0); if (dpc) std::fill(dpc, dpc + m * np * np, 0.0); }
    void satRange(const int m, const int*, double* lo, double* hi) const { std::fill(lo, lo + m * np, 0.0); std::fill(hi, hi + m * np, 1.0); }
    bool incompressible() const { for (int q = 0; q < np; ++q) if (c[q] != 0) return false; return rs1 == 0; }
};
BoFluid genBo(Gen& g, const UnstructuredGrid& G)
{
    BoFluid f; Fluid r = genFluid(g, G, false, false); f.d = r.d; f.nc = r.nc; f.K = r.K; f.poro = r.poro; f.np = g.p(1, 3) ? 3 : 2;
    const bool si = r.K[0] < 1e-6 || r.mu[0] < 0.05; f.P = si ? 1e6 : 1.0; const int cm = g.i(0, 3);
    for (int q = 0; q < f.np; ++q) {
        f.b0[q] = g.b() ? 1.0 : g.logreal(0.5, q == f.np - 1 ? 50.0 : 2.0); f.c[q] = cm == 0 ? 0.0 : g.p(1, 5) ? 0.0 : g.logreal(1e-4, cm == 3 ? 0.3 : 0.05) / f.P;
        f.mu0[q] = (si ? 1e-3 : 1.0) * g.logreal(0.1, 10.0); f.cmu[q] = g.b() ? 0 : g.real(-0.05, 0.05) / f.P; f.n[q] = g.i(1, 2); f.rhoS[q] = g.real(1, 1200);
    }
    f.nans = g.b(); if (g.b()) for (int i = 0; i < f.nc; ++i) f.kn.push_back(g.i(0, 1)); if (cm != 0 && g.b()) { for (int i = 0; i < f.nc; ++i) f.kc.push_back(g.real(0.95, 1.05)); f.kz = g.b() ? 0 : g.real(-0.05, 0.05); }
    f.rs0 = g.b() ? 0 : g.real(0, 20); f.rs1 = f.rs0 == 0 || cm == 0 ? 0 : g.real(0, 2) / f.P;
    return f;
}

struct Case {
    AnyGrid a; BoFluid fl; HalfTrans ht; std::vector<double> grav; WellsPtr W; double P, R, WI0, pv; bool singular = false;
    std::unique_ptr<Opm::RockCompressibility> rock; double pref = 0, cr = 0;
    std::vector<int> comp; int ncomp = 0;
    LD mult(double p) const { const LD q = cr * ((LD) p - pref); return 1 + q + q * q / 2; }
};
bool anchor(const Case& k, int w) { const WellControls* q = k.W->ctrls[w]; return q->current >= 0 && q->type[q->current] == BHP; }
Case gen(Gen& g, Ctx& c, bool twice = false)
{
    Case k; k.a = genGrid(g, 7, 30); const UnstructuredGrid& G = *k.a.G; const int d = G.dimensions, nc = G.number_of_cells;
    k.fl = genBo(g, G); k.ht = halfTrans(G, &k.fl.K[0]); if (k.ht.worst > 1e6L) throw pbt::Discard(); for (LD t : k.ht.t) if (!(t > 0)) throw pbt::Discard();
    LD m = 0; for (LD t : k.ht.t) m += t; k.WI0 = (double) (m / k.ht.t.size()); k.P = k.fl.P; k.R = k.WI0 * k.P / k.fl.mu0[0];
    k.comp = components(G, k.ncomp);
    k.pv = 0; for (int i = 0; i < nc; ++i) k.pv += k.fl.poro[i] * G.cell_volumes[i]; k.pv /= nc;
    if (g.b()) { k.grav.assign(d, 0.0); k.grav[d - 1] = (g.p(1, 4) ? -1 : 1) * (k.P > 1 ? 9.81 : 1e-4); }
    if (g.p(1, 3)) {
        k.pref = g.real(0, 2) * k.P; k.cr = g.p(1, 5) ? 0.0 : g.logreal(1e-3, 0.1) / k.P; std::ostringstream a, b; a.precision(17); b.precision(17); a << k.pref / 1e5; b << k.cr * 1e5;
        Opm::parameter::ParameterGroup q; q.insertParameter("rock_compressibility_pref", a.str()); q.insertParameter("rock_compressibility", b.str()); q.disableOutput(); k.rock.reset(new Opm::RockCompressibility(q));
    }
    const bool incomp = k.fl.incompressible() && k.cr == 0; if (incomp) { k.fl.kc.clear(); k.fl.kz = 0; } c.label("volume factors differ between cells", !k.fl.kc.empty()); c.label("depends on composition", k.fl.kz != 0);
    if (g.p(4, 5) || (incomp && k.ncomp > 1)) {
        const int np = k.fl.np, nw = g.i(1, 3); k.W.reset(create_wells(np, 0, 0)); std::vector<double> ones(np, 1.0); bool any = false;
        for (int w = 0; w < nw; ++w) {
            const int nperf = g.size(1, std::min(nc, 4)); const std::vector<int> pc = g.perm(nc); std::vector<int> cells(pc.begin(), pc.begin() + nperf); std::vector<double> WI(nperf), frac(np, 0.0); const bool inj = g.b(); if (twice && nperf > 1 && g.p(1, 6)) cells[nperf - 1] = cells[0];
            for (double& x : WI) x = k.WI0 * g.logreal(0.1, 10); const int ph = g.i(0, np - 1); frac[ph] = 1;
            add_well(inj ? INJECTOR : PRODUCER, G.cell_centroids[d * cells[0] + d - 1] + (g.b() ? 0 : g.real(-3, 3)), nperf, &frac[0], &cells[0], &WI[0], "W", k.W.get());
            const int n = g.i(1, 2);
            for (int q = 0; q < n; ++q) {
                const int t = incomp ? g.i(0, 1) : g.i(0, 2); const double r = k.R * g.real(0, 1) * (inj ? 1 : -1);
                if (t == 0) append_well_controls(BHP, k.P * (inj ? g.real(2, 4) : g.real(0, 1.5)), 0, w, k.W.get());
                else if (t == 1) append_well_controls(RESERVOIR_RATE, r, &ones[0], w, k.W.get());
                else append_well_controls(SURFACE_RATE, r * k.fl.b0[ph], inj && g.b() ? &frac[0] : &ones[0], w, k.W.get());
            }
            set_current_control(w, g.p(1, 6) ? -1 : g.i(0, n - 1), k.W.get()); any = any || anchor(k, w);
        }
        if (incomp && !any) {
            // rates must cancel
            if (k.ncomp > 1) throw pbt::Discard();
            double s = 0; int last = -1; for (int w = 0; w < nw; ++w) { WellControls* q = k.W->ctrls[w]; if (q->current >= 0) { s += q->target[q->current]; last = w; } }
            if (last >= 0) k.W->ctrls[last]->target[k.W->ctrls[last]->current] -= s; k.singular = true;
        } else if (incomp && k.ncomp > 1) throw pbt::Discard();
    } else k.singular = incomp;
    c.desc() << k.a.text << " phases " << k.fl.np << " c=(" << k.fl.c[0] << " " << k.fl.c[1] << ") wells " << (k.W ? k.W->number_of_wells : 0) << (k.grav.empty() ? "" : " gravity") << " rock " << k.cr;
    c.label(k.fl.np == 3 ? "three-phases" : "two-phases"); c.label("gravity", !k.grav.empty()); c.label("rock", k.rock.get() != 0); c.label("singular", k.singular); c.label("wells", k.W.get() != 0); c.label("dissolved-gas", k.fl.rs0 > 0);
    c.nontrivial(nc > 1);
    return k;
}

typedef std::vector<LD> V;
V mv(int n, const double* A, const V& x) { V y(n, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) y[i] += (LD) A[i + n * j] * x[j]; return y; }
V solveA(int n, const double* A, const V& b) { V M(n * n), x; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M[i * n + j] = A[i + n * j]; luSolve(M, b, x); return x; }
LD sum(const V& x) { LD s = 0; for (LD t : x) s += t; return s; }
LD asum(const V& x) { LD s = 0; for (LD t : x) s += std::fabs(t); return s; }

void judge(Ctx& c, const Case& k, const Opm::BlackoilState& st, const Opm::WellState& ws, const std::vector<double>& p0, const std::vector<double>& bhp0, double dt, LD restol)
{
    const UnstructuredGrid& G = *k.a.G; const BoFluid& fl = k.fl; const int d = G.dimensions, nc = G.number_of_cells, nf = G.number_of_faces, np = fl.np;
    const std::vector<double>& p = st.pressure(); const std::vector<double>& s = st.saturation();
    const double grav = k.grav.empty() ? 0 : k.grav[d - 1];
    std::vector<double> A(nc * np * np), mob(nc * np), rho(nc * np), mu(np);
    for (int i = 0; i < nc; ++i) {
        c.check(std::isfinite(p[i]), "finite", "pressure of cell %d is %g", i, p[i]);
        const double* zi = &st.surfacevol()[np * i]; fl.A1(p[i], &A[np * np * i], 0, i, zi); fl.relperm(1, &s[np * i], &i, &mob[np * i], 0); fl.viscosity(1, &p[i], zi, &i, &mu[0], 0); for (int q = 0; q < np; ++q) mob[np * i + q] /= mu[q];
        fl.density(1, &A[np * np * i], &rho[np * i]);
    }
    V res(nc), mag(nc), fp(nf, 0), fh(nf, 0);
    for (int i = 0; i < nc; ++i) {
        const LD pv = (LD) fl.poro[i] * G.cell_volumes[i] * (k.cr ? k.mult(p[i]) : 1), pv0 = (LD) fl.poro[i] * G.cell_volumes[i] * (k.cr ? k.mult(p0[i]) : 1);
        V z(np); for (int q = 0; q < np; ++q) z[q] = st.surfacevol()[np * i + q]; const V u = solveA(np, &A[np * np * i], z);
        res[i] = pv - pv0 * sum(u); mag[i] = std::fabs(pv) + std::fabs(pv0) * asum(u);
        for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) { fp[G.cell_faces[h]] += k.ht.t[h] * p[i]; fh[G.cell_faces[h]] += k.ht.t[h]; }
    }
    for (int f = 0; f < nf; ++f) {
        const int* e = G.face_cells + 2 * f; if (e[0] < 0 && e[1] < 0) continue;
        LD cd = 1; for (int q = 0; q < 2; ++q) if (e[q] >= 0) cd = std::max(cd, k.ht.cond[halfFace(G, e[q], f)]);
        c.check(std::fabs(st.facepressure()[f] - fp[f] / fh[f]) <= 1e-13L * cd * (std::fabs(fp[f] / fh[f]) + k.P), "face-pressure", "face %d: %.15g instead of %.15g", f, st.facepressure()[f], (double) (fp[f] / fh[f]));
        if (e[0] < 0 || e[1] < 0) { const int i = std::max(e[0], e[1]); LD sc = 0; for (int q = 0; q < np; ++q) sc += mob[np * i + q] * std::fabs(rho[np * i + q]) * std::fabs(grav * (G.face_centroids[d * f + d - 1] - G.cell_centroids[d * i + d - 1])); sc *= k.ht.t[halfFace(G, i, f)]; c.check(std::fabs(st.faceflux()[f]) <= 1e-13L * sc, "no-flow", "boundary face %d has the flux %g (scale %Lg, pressure %g, mobilities %g %g)", f, st.faceflux()[f], sc, p[i], mob[np * i], mob[np * i + 1]); continue; }
        const LD T = 1 / (1 / k.ht.t[halfFace(G, e[0], f)] + 1 / k.ht.t[halfFace(G, e[1], f)]); LD tot = 0, sc = 0; V v(np); std::vector<double> Af(np * np);
        for (int q = 0; q < np; ++q) {
            LD gc = 0, ga = 0; for (int j = 0; j < 2; ++j) { const LD t = (LD) rho[np * e[j] + q] * grav * ((LD) G.face_centroids[d * f + d - 1] - G.cell_centroids[d * e[j] + d - 1]); gc += j ? -t : t; ga += std::fabs(t); }
            const LD dp = (LD) p[e[0]] - p[e[1]] + gc; const int up = dp < 0 ? e[1] : e[0];
            v[q] = T * mob[np * up + q] * dp; tot += v[q]; sc += T * std::max(mob[np * e[0] + q], mob[np * e[1] + q]) * (std::fabs(p[e[0]]) + std::fabs(p[e[1]]) + ga);
            for (int j = 0; j < np; ++j) Af[q + np * j] = A[np * np * up + q + np * j];       // rows of A go with the phase
        }
        c.check(std::fabs(st.faceflux()[f] - tot) <= 1e-12L * cd * sc, "darcy", "face %d (cells %d %d): flux %.15g instead of %.15g (scale %.3g)", f, e[0], e[1], st.faceflux()[f], (double) tot, (double) sc);
        const V w = mv(np, &Af[0], v);
        for (int j = 0; j < 2; ++j) { const V r = solveA(np, &A[np * np * e[j]], w); res[e[j]] += (j ? -1 : 1) * (LD) dt * sum(r); mag[e[j]] += dt * cd * (asum(r) + sc * (1 + asum(r) / (asum(v) + 1e-300L))); }
    }
    if (k.W) for (int w = 0; w < k.W->number_of_wells; ++w) {
        const Wells& W = *k.W; const WellControls* q = W.ctrls[w]; LD resv = 0, surf = 0, sm = 0, fwi = 0; const bool open = q->current >= 0;
        for (int j = W.well_connpos[w]; j < W.well_connpos[w + 1]; ++j) {
            const int i = W.well_cells[j]; std::vector<double> A0(np * np), r0(np); fl.A1(p0[i], &A0[0], 0, i, &st.surfacevol()[np * i]); fl.density(1, &A0[0], &r0[0]);
            LD wdp = 0; for (int x = 0; x < np; ++x) wdp += (LD) s[np * i + x] * r0[x] * grav * ((LD) G.cell_centroids[d * i + d - 1] - W.depth_ref[w]);
            const double pp = (double) (ws.bhp()[w] + wdp); const LD dp = pp - (LD) p[i], dm = std::fabs(pp) + std::fabs(p[i]) + std::fabs(wdp);
            c.check(std::fabs(ws.perfPress()[j] - pp) <= 1e-12L * dm, "perforation-pressure", "well %d perforation %d: %.15g instead of %.15g", w, j, ws.perfPress()[j], pp);
            std::vector<double> Aw(A.begin() + np * np * i, A.begin() + np * np * (i + 1)), mw(mob.begin() + np * i, mob.begin() + np * (i + 1));
            if (W.type[w] == INJECTOR) { fl.A1(pp, &Aw[0], 0, i, W.comp_frac + np * w); fl.relperm(1, W.comp_frac + np * w, &i, &mw[0], 0); fl.viscosity(1, &pp, W.comp_frac + np * w, &i, &mu[0], 0); for (int x = 0; x < np; ++x) mw[x] /= mu[x]; }
            V v(np); for (int x = 0; x < np; ++x) { v[x] = (LD) W.WI[j] * mw[x] * dp; sm += (LD) W.WI[j] * mw[x] * dm; fwi += (LD) W.WI[j] * mw[x]; }
            LD sc = 0; for (int x = 0; x < np; ++x) sc += (LD) W.WI[j] * mw[x] * dm;
            c.check(std::fabs(ws.perfRates()[j] - (open ? sum(v) : 0)) <= (open ? 1e-12L * sc : 0), open ? "perforation-rate" : "shut-well", "well %d perforation %d: rate %.15g instead of %.15g (scale %.3g)", w, j, ws.perfRates()[j], open ? (double) sum(v) : 0.0, (double) sc);
            if (!open) continue;
            c.label(dp < 0 ? "producing-perforation" : "injecting-perforation"); c.label("backflow-injector", W.type[w] == INJECTOR && dp < 0);
            const V a = mv(np, &Aw[0], v), r = solveA(np, &A[np * np * i], a); res[i] -= dt * sum(r); mag[i] += dt * (asum(r) + sc);
            for (int x = 0; x < np; ++x) { const LD f = q->type[q->current] == BHP ? 0 : q->distr[np * q->current + x]; resv += f * v[x]; surf += f * a[x]; sm += std::fabs(f * a[x]); }
        }
        if (!open) { c.check(ws.bhp()[w] == bhp0[w], "shut-well", "bottom-hole pressure of shut well %d changed", w); continue; }
        const double t = q->target[q->current];
        if (q->type[q->current] == BHP) c.check(std::fabs(ws.bhp()[w] - t) <= 1e-12 * std::fabs(t) + 1.01 * (double) (restol / dt / fwi), "well-pressure", "bottom-hole pressure of well %d: %.15g instead of %.15g", w, ws.bhp()[w], t);
        else { const LD r = q->type[q->current] == RESERVOIR_RATE ? resv : surf; c.check(std::fabs(r - t) <= 1e-11L * (sm + std::fabs(t)) + 1.01L * restol / dt, "well-rate", "rate of well %d: %.15g instead of %.15g (scale %.3g)", w, (double) r, t, (double) sm); c.label(q->type[q->current] == RESERVOIR_RATE ? "reservoir-rate" : "surface-rate"); }
    }
    for (int i = 0; i < nc; ++i) c.check(std::fabs(res[i]) <= 1.01L * restol + 1e-11L * mag[i], "volume-balance", "cell %d: residual %.3g (tolerance %.3g, scale %.3g)", i, (double) res[i], (double) restol, (double) mag[i]);
}

void solve(Gen& g, Ctx& c)
{
    Case k = gen(g, c); const UnstructuredGrid& G = *k.a.G; const int nc = G.number_of_cells, np = k.fl.np;
    // a nearly linear problem: constant viscosities, hardly compressible phases without dissolution, the same saturations everywhere
    const bool easy = g.p(1, 4) && k.cr == 0; if (easy) { for (int q = 0; q < np; ++q) { k.fl.c[q] = std::min(k.fl.c[q], 1e-4 / k.P); k.fl.cmu[q] = 0; } k.fl.rs0 = k.fl.rs1 = 0; k.fl.kc.clear(); k.fl.kn.clear(); k.fl.kz = 0; k.grav.clear(); c.label("nearly linear"); }
    Opm::BlackoilState st; st.init(G, np); st.surfacevol().resize(nc * np);
    const bool uni = g.b(); const double pu = k.P * g.real(1, 3); for (double& x : st.pressure()) x = uni ? pu : k.P * g.real(1, 3);
    DenseSolver lin; double cmin = 1e30; for (int q = 0; q < np; ++q) cmin = std::min(cmin, k.fl.c[q]);
    // without a prescribed pressure, what is injected must fit into what can be compressed
    bool anch = false; if (k.W) for (int w = 0; w < k.W->number_of_wells; ++w) anch = anch || anchor(k, w);
    const double ceff = std::min(1.0, (cmin + k.cr) * k.P); const bool free = k.singular || (anch && k.ncomp == 1); if (!free && ceff == 0) throw pbt::Discard();
    const double dt = k.pv / k.R * g.logreal(1e-3, 10) * (free ? 1 : 0.03 * ceff); const double restol = 1e-9 * std::max(k.pv, dt * k.R);
    const double ctol = g.p(1, 3) ? k.P * g.logreal(1e-9, 1e-2) : 0; const int maxit = easy || g.p(2, 3) ? 50 : g.i(1, 6); c.label("tolerance for the change", ctol > 0); c.label("few iterations allowed", maxit < 50);
    Opm::CompressibleTpfa t(G, k.fl, k.rock.get(), lin, restol, ctol, maxit, k.grav.empty() ? 0 : &k.grav[0], k.W.get());
    if (g.p(1, 10)) {      // wells for another number of phases
        const int other = g.b() ? np + 1 : np - 1; WellsPtr bad(create_wells(other, 0, 0)); std::vector<double> fr(other, 0.0); fr[0] = 1; const int cell = 0; const double WI = k.WI0; add_well(INJECTOR, 0, 1, &fr[0], &cell, &WI, "X", bad.get()); bool refused = false;
        try { Opm::CompressibleTpfa no(G, k.fl, k.rock.get(), lin, restol, ctol, maxit, 0, bad.get()); } catch (const std::exception&) { refused = true; } c.check(refused, "phases", "wells with %d phases were accepted for a fluid with %d", other, np);
    }
    Opm::WellState ws; const int steps = g.size(1, 2); bool canShut = k.fl.incompressible() && k.cr == 0 && k.W && k.ncomp == 1;
    for (int step = 0; step < steps; ++step) {
        for (int i = 0; i < nc; ++i) {
            double a = g.real(0.05, 1), b = np == 3 ? g.real(0, 1) * (1 - a) : 1 - a; double* s = &st.saturation()[np * i]; if (g.p(1, 6)) { a = 1; b = 0; } s[0] = a; s[1] = b; if (np == 3) s[2] = 1 - a - b;
            if (easy && i) std::copy(st.saturation().begin(), st.saturation().begin() + np, s);
            std::vector<double> A(np * np); k.fl.A1(st.pressure()[i], &A[0], 0, i); double e = k.singular || g.p(3, 4) ? 1.0 : 1 + cmin * k.P * g.real(-0.5, 0.5);
            for (int r = 0; r < np; ++r) { double z = 0; for (int q = 0; q < np; ++q) z += A[r + np * q] * s[q]; st.surfacevol()[np * i + r] = z * e; }
            e = 1 + k.fl.kz * k.fl.frac(&st.surfacevol()[np * i]); for (int r = 0; r < np; ++r) st.surfacevol()[np * i + r] *= e;
        }
        if (step == 0) ws.init(k.W.get(), st);
        else if (k.W && !free) for (int w = 0; w < k.W->number_of_wells; ++w) set_current_control(w, g.i(-1, k.W->ctrls[w]->num - 1), k.W.get());
        else if (canShut && g.p(3, 4)) {      // from a fixed pressure level to an arbitrary one and back
            const int nw = k.W->number_of_wells; int bw = -1, bq = -1; if (g.b()) for (int w = 0; w < nw; ++w) for (int q = 0; q < k.W->ctrls[w]->num; ++q) if (k.W->ctrls[w]->type[q] == BHP) { bw = w; bq = q; }
            for (int w = 0; w < nw; ++w) set_current_control(w, w == bw ? bq : -1, k.W.get()); c.label("controls changed in an incompressible system"); k.singular = bw < 0;
        }
        const std::vector<double> p0 = st.pressure(), bhp0 = ws.bhp(), z0 = st.surfacevol(), s0 = st.saturation();
        std::stringbuf sink; std::streambuf* o = std::cout.rdbuf(&sink); bool threw = false;
        try { t.solve(dt, st, ws); } catch (const std::exception&) { threw = true; }
        std::cout.rdbuf(o); const int calls = lin.calls; const bool small = calls > 0 && lin.last <= ctol;
        c.check(!threw || !small, "gives-up", "no convergence reported after a change of %g, the tolerance is %g", lin.last, ctol);
        c.check(calls <= maxit, "iterations", "%d iterations, %d allowed", calls, maxit);
        c.check(z0 == st.surfacevol() && s0 == st.saturation(), "untouched", "the pressure solve changed saturations or surface volumes");
        lin.calls = 0; c.check(!lin.first, "solvable", "the linear system is singular");
        if (threw || lin.singular) { c.label("not-converged"); c.check(maxit < 50 || !(k.fl.incompressible() && k.cr == 0 && k.grav.empty()) || k.W, "converges", "no convergence of a closed, incompressible system"); double big = 0; for (double x : st.pressure()) big = std::max(big, std::fabs(x)); for (double x : ws.bhp()) big = std::max(big, std::fabs(x)); c.check(!easy || !(big < 30 * k.P), "converges", "no convergence of a nearly linear problem\n%s", sink.str().c_str()); return; }
        bool wild = false; for (double x : st.pressure()) wild = wild || std::fabs(x) > 300 * k.P;
        for (double x : ws.bhp()) wild = wild || std::fabs(x) > 300 * k.P;
        for (double x : st.pressure()) c.check(std::isfinite(x), "finite", "pressure %g after a successful solve", x);
        if (wild) { c.label("extreme-pressure"); return; }
        { bool fixed = false; if (k.W) for (int w = 0; w < k.W->number_of_wells; ++w) fixed = fixed || anchor(k, w); const bool sing = k.fl.incompressible() && k.cr == 0 && !fixed; c.label("arbitrary pressure level", sing); c.check(t.singularPressure() == sing, "singular-pressure", "singularPressure() is %d for %s and %s well with prescribed pressure", (int) t.singularPressure(), k.fl.incompressible() && k.cr == 0 ? "incompressible phases" : "a compressible system", fixed ? "an open" : "no"); }
        if (small && lin.last > 0) { c.label("stopped by a small change"); return; }      // mobilities belong to the previous iterate
        c.label("converged");
        judge(c, k, st, ws, p0, bhp0, dt, restol);
    }
}

// The Jacobian is the derivative of the residual (fluid matrices of cells depend on pressure, everything upwinded does not).
void jacobian(Gen& g, Ctx& c)
{
    Case k = gen(g, c, true); UnstructuredGrid& G = *k.a.G; const int nc = G.number_of_cells, nf = G.number_of_faces, np = k.fl.np, nw = k.W ? k.W->number_of_wells : 0, n = nc + nw;
    std::vector<double> T(nf), gcap(nf * np), z(nc * np), p(n), pv(nc), wdp, Aw, mw, pv0(nc), rc(nc);
    for (double& x : T) x = k.WI0 * g.logreal(0.1, 10); const double gs = k.grav.empty() ? 0 : 0.1 * k.P; for (double& x : gcap) x = gs * g.real(-1, 1);
    for (double& x : p) x = k.P * g.real(1, 3); const double dt = k.pv / k.R * g.logreal(0.01, 10);
    const bool rock = g.b(); for (int i = 0; i < nc; ++i) { pv0[i] = k.pv * g.real(0.5, 2); rc[i] = rock ? g.real(0, 0.2) / k.P : 0; }
    std::vector<double> pr(nc, 2 * k.P); if (g.p(1, 3)) pr.assign(p.begin(), p.begin() + nc);      // the pressure at which the pore volume is as at the start
    // the fluid matrix of some cells, or of all but one, may not depend on the pressure (a flat part of a table); likewise the rock
    std::vector<char> stiff(nc, 0); const int sm = g.i(0, 4), odd = g.i(0, nc - 1); if (sm >= 3) for (int i = 0; i < nc; ++i) stiff[i] = sm == 3 ? g.b() : i != odd;
    if (rock) { const int rm = g.i(0, 4); if (rm >= 2) for (int i = 0; i < nc; ++i) if (rm == 2 || (rm == 3 ? g.b() : i != odd)) rc[i] = 0; }
    compr_quantities_gen* cq = compr_quantities_gen_allocate(nc, nf, np); std::unique_ptr<compr_quantities_gen, void (*)(compr_quantities_gen*)> oc(cq, compr_quantities_gen_deallocate);
    for (int f = 0; f < nf; ++f) { k.fl.A1(k.P * g.real(1, 3), cq->Af + np * np * f, 0); for (int q = 0; q < np; ++q) cq->phasemobf[np * f + q] = g.real(0, 1) / k.fl.mu0[q]; }
    for (int i = 0; i < nc; ++i) { std::vector<double> A(np * np); k.fl.A1(k.P * g.real(1, 3), &A[0], 0); for (int r = 0; r < np; ++r) for (int q = 0; q < np; ++q) z[np * i + r] += A[r + np * q] / np; }
    const int nperf = k.W ? k.W->well_connpos[nw] : 0;
    for (int j = 0; j < nperf; ++j) { wdp.push_back(gs * g.real(-1, 1)); std::vector<double> A(np * np); k.fl.A1(k.P * g.real(1, 3), &A[0], 0); Aw.insert(Aw.end(), A.begin(), A.end()); for (int q = 0; q < np; ++q) mw.push_back(g.real(0.01, 1) / k.fl.mu0[q]); }
    CompletionData cd = { nperf ? &wdp[0] : 0, nperf ? &Aw[0] : 0, nperf ? &mw[0] : 0 };
    cfs_tpfa_res_wells wl; wl.W = k.W.get(); wl.data = &cd;
    compr_src* src = g.b() ? compr_src_allocate(np, 0) : 0; std::unique_ptr<compr_src, void (*)(compr_src*)> os(src, compr_src_deallocate); std::vector<double> sq(nc, 0);
    if (src) { const int m = g.i(0, 3); std::vector<double> sat(np, 0.0); sat[0] = 1; for (int j = 0; j < m; ++j) { const int i = g.i(0, nc - 1); const double v = k.R * g.real(-1, 1); append_compr_source_term(i, np, v, &sat[0], src); sq[i] += v; } c.label("sources"); }
    cfs_tpfa_res_forces F; F.wells = k.W ? &wl : 0; F.src = src;
    cfs_tpfa_res_data* h = cfs_tpfa_res_construct(&G, k.W ? &wl : 0, np); std::unique_ptr<cfs_tpfa_res_data, void (*)(cfs_tpfa_res_data*)> oh(h, cfs_tpfa_res_destroy);
    auto assemble = [&](const std::vector<double>& x) {
        for (int i = 0; i < nc; ++i) { k.fl.A1(x[i], cq->Ac + np * np * i, cq->dAc + np * np * i); if (stiff[i]) { k.fl.A1(2 * k.P, cq->Ac + np * np * i, 0); std::fill(cq->dAc + np * np * i, cq->dAc + np * np * (i + 1), 0.0); } pv[i] = pv0[i] * (1 + (rock ? std::expm1(rc[i] * (x[i] - pr[i])) : 0)); }
        return rock ? cfs_tpfa_res_comprock_assemble(&G, dt, &F, &z[0], cq, &T[0], &gcap[0], &x[0], nw ? &x[nc] : 0, &pv[0], &pv0[0], &rc[0], h)
                    : cfs_tpfa_res_assemble(&G, dt, &F, &z[0], cq, &T[0], &gcap[0], &x[0], nw ? &x[nc] : 0, &pv[0], h);
    };
    const int adj = assemble(p); std::vector<double> J(n * n, 0.0), F0(h->F, h->F + n), sc(n, 0.0);
    for (int i = 0; i < n; ++i) for (int q = h->J->ia[i]; q < h->J->ia[i + 1]; ++q) J[i * n + h->J->ja[q]] += h->J->sa[q];
    bool comp = false; for (int i = 0; i < nc; ++i) comp = comp || (rock && rc[i] != 0); bool bhp = false; if (k.W) for (int w = 0; w < nw; ++w) bhp = bhp || anchor(k, w);
    bool soft = false; if (!k.fl.incompressible()) for (int i = 0; i < nc; ++i) soft = soft || !stiff[i];
    c.label("compressible in some cells only", soft && std::find(stiff.begin(), stiff.end(), 1) != stiff.end()); c.label("incompressible rock law", rock && !comp);
    c.check((adj != 0) == (!bhp && !comp && !soft), "adjustment", "the pressure level is %sfixed by the assembly; a well with prescribed pressure: %d, compressible fluid: %d, compressible rock: %d", adj ? "" : "not ", (int) bhp, (int) soft, (int) comp);
    if (adj) J[0] /= 2;
    // the residual itself, with upwinded quantities given
    for (int i = 0; i < nc; ++i) {
        V zz(z.begin() + np * i, z.begin() + np * (i + 1)); const V u = solveA(np, cq->Ac + np * np * i, zz); LD r = pv[i] - pv0[i] * sum(u), m = pv[i] + pv0[i] * asum(u); if (!rock) { r = pv[i] * (1 - sum(u)); }
        for (int q = G.cell_facepos[i]; q < G.cell_facepos[i + 1]; ++q) { const int f = G.cell_faces[q], a = G.face_cells[2 * f], b = G.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; V v(np); LD vm = 0; for (int x = 0; x < np; ++x) { v[x] = (LD) T[f] * cq->phasemobf[np * f + x] * ((LD) p[a] - p[b] + gcap[np * f + x]); vm += T[f] * cq->phasemobf[np * f + x] * (p[a] + p[b] + gs); } const V w = solveA(np, cq->Ac + np * np * i, mv(np, cq->Af + np * np * f, v)); r += (a == i ? 1 : -1) * (LD) dt * sum(w); m += dt * (asum(w) + vm); }
        r -= dt * sq[i]; m += dt * std::fabs(sq[i]);
        if (k.W) for (int w = 0; w < nw; ++w) if (k.W->ctrls[w]->current >= 0) for (int j = k.W->well_connpos[w]; j < k.W->well_connpos[w + 1]; ++j) if (k.W->well_cells[j] == i) { V v(np); LD vm = 0; for (int x = 0; x < np; ++x) { v[x] = (LD) k.W->WI[j] * mw[np * j + x] * ((LD) p[nc + w] + wdp[j] - p[i]); vm += k.W->WI[j] * mw[np * j + x] * (p[nc + w] + p[i] + gs); } const V y = solveA(np, cq->Ac + np * np * i, mv(np, &Aw[np * np * j], v)); r -= dt * sum(y); m += dt * (asum(y) + vm); }
        sc[i] = (double) m;
        c.check(std::fabs(F0[i] - r) <= 1e-11L * m, "residual", "cell %d: %.15g instead of %.15g (scale %.3g)", i, F0[i], (double) r, (double) m);
    }
    for (int w = 0; w < nw; ++w) for (int j = k.W->well_connpos[w]; j < k.W->well_connpos[w + 1]; ++j) for (int x = 0; x < np; ++x) { LD s = 0; for (int y = 0; y < np; ++y) s += Aw[np * np * j + y + np * x]; sc[nc + w] += dt * k.W->WI[j] * mw[np * j + x] * (1 + (double) s) * 8 * k.P; }
    const int m = std::min(n, 6); const std::vector<int> pm = g.perm(n);
    for (int t = 0; t < m; ++t) {
        const int j = pm[t]; const double e = 1e-4 * k.P; std::vector<double> x = p; x[j] = p[j] + e; assemble(x); std::vector<double> Fp(h->F, h->F + n); x[j] = p[j] - e; assemble(x);
        for (int i = 0; i < n; ++i) { if (i >= nc && i == j && k.W->ctrls[i - nc]->current < 0) continue;      /* the equation of a shut well is trivial */ const double fd = (Fp[i] - h->F[i]) / (2 * e); c.check(std::fabs(fd - J[i * n + j]) <= 1e-6 * (sc[i] / k.P + std::fabs(fd)), "jacobian", "entry %d,%d (%d cells): %.10g against the difference quotient %.10g (scale %.3g)", i, j, nc, J[i * n + j], fd, sc[i] / k.P); }
    }
}
}

pbt::Spec pbt::spec()
{
    return { "C18", "grids of at most 30 cells, two or three compressible phases with dissolved gas, gravity, rock compressibility, up to three wells under pressure, reservoir or surface rate control, up to two steps; Jacobian and residual through the C interface; non-trivial: more than one cell",
        { "Newton may give up (an exception)", "rates cancel in incompressible systems without prescribed pressure" }, 40000, 800000,
        { { "solve", 3, solve }, { "jacobian", 1, jacobian } } };
}
