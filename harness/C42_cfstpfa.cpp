// C42: the self-contained compressible two-point solver (cfs_tpfa) and its explicit transport, judged by their defining equations.
#include "flowgen.hpp"
extern "C" {
#define INJECTOR L_INJECTOR
#define PRODUCER L_PRODUCER
#define BHP L_BHP
#define well_type l_well_type
#define well_controls l_well_controls
#include <opm/core/pressure/tpfa/cfs_tpfa.h>
#include <opm/core/pressure/tpfa/compr_quant.h>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
#include <opm/core/linalg/sparse_sys.h>
}

namespace {
typedef std::vector<double> D;
typedef std::vector<LD> L;
struct Del { void operator()(cfs_tpfa_data* h) const { cfs_tpfa_destroy(h); } };

// x = Ac \ (A v), in phases
L ratio(int np, const double* Ac, const double* A, const LD* v)
{
    L M((size_t) np * np), r(np, 0), x; for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j) { M[(size_t) i * np + j] = Ac[j * np + i]; r[i] += (LD) A[j * np + i] * v[j]; }
    if (!luSolve(M, r, x)) throw pbt::Discard();
    return x;
}
LD sum(const L& x) { LD s = 0; for (LD v : x) s += v; return s; }
LD asum(const L& x) { LD s = 0; for (LD v : x) s += std::fabs(v); return s; }

void solve(Gen& g, Ctx& c)
{
    AnyGrid a = genGrid(g, 7, 30); UnstructuredGrid& G = *a.G; const int d = G.dimensions, nc = G.number_of_cells, nf = G.number_of_faces, nh = G.cell_facepos[nc];
    for (int e = 0; e < nc; ++e) if (!(G.cell_volumes[e] > 0)) throw pbt::Discard();
    for (int f = 0; f < nf; ++f) if (G.face_cells[2 * f] < 0 && G.face_cells[2 * f + 1] < 0) throw pbt::Discard();
    const int np = g.i(1, 3); const bool incompr = g.p(1, 5); int ncomp; const std::vector<int> comp = components(G, ncomp);
    D K((size_t) nc * d * d); for (int e = 0; e < nc; ++e) genTensor(g, d, &K[(size_t) e * d * d], true, 0.05, 20.0);
    D ht(nh), trans(nf); tpfa_htrans_compute(&G, &K[0], &ht[0]); for (double t : ht) if (!(t > 1e-12)) throw pbt::Discard(); tpfa_trans_compute(&G, &ht[0], &trans[0]);
    double t0 = 0, t1 = 1e300; for (double t : ht) { t0 = std::max(t0, t); t1 = std::min(t1, t); } if (t0 / t1 > 1e6) throw pbt::Discard();
    auto mat = [&](double* A) { for (int j = 0; j < np; ++j) for (int i = 0; i < np; ++i) A[j * np + i] = i == j ? g.real(0.5, 5) : g.b() ? 0 : g.real(0, 0.2); };
    D Ac((size_t) nc * np * np), Af((size_t) nf * np * np), mobf((size_t) nf * np), gc((size_t) nf * np, 0.0), ct(nc, 0.0), vd(nc, 0.0), p0(nc), pv(nc), src(nc, 0.0);
    if (incompr) { D A0(np * np); mat(&A0[0]); for (int e = 0; e < nc; ++e) std::copy(A0.begin(), A0.end(), &Ac[(size_t) e * np * np]); for (int f = 0; f < nf; ++f) std::copy(A0.begin(), A0.end(), &Af[(size_t) f * np * np]); }
    else { for (int e = 0; e < nc; ++e) mat(&Ac[(size_t) e * np * np]); for (int f = 0; f < nf; ++f) mat(&Af[(size_t) f * np * np]); }
    const double m0 = g.logreal(1e-2, 1e2); for (int f = 0; f < nf; ++f) { double s = 0; for (int q = 0; q < np; ++q) s += mobf[f * np + q] = g.p(1, 5) ? 0.0 : m0 * g.logreal(0.1, 10); if (s == 0) mobf[f * np] = m0; }
    const bool grav = g.b(); if (grav) for (double& x : gc) x = g.real(-1, 1);
    for (int e = 0; e < nc; ++e) { pv[e] = G.cell_volumes[e] * g.real(0.1, 0.4); p0[e] = g.real(0.5, 3); if (!incompr) { ct[e] = g.logreal(1e-3, 1); vd[e] = g.b() ? 0 : g.real(-0.1, 0.1) * t0 * m0; } }
    if (g.b()) for (double& x : src) x = g.p(1, 3) ? t0 * m0 * g.real(-1, 1) : 0;
    const double dt = g.logreal(1e-3, 1e2) * pv[0] / (t0 * m0);
    // wells
    std::vector<int> pos(1, 0), cells; std::vector<l_well_type> ty; std::vector<well_control> ctl; D tgt, zf, WI, gp, A, pm; const int nw = g.p(1, 2) ? g.p(1, 8) ? g.i(4, 14) : g.i(1, 3) : 0;
    for (int w = 0; w < nw; ++w) { const int m = g.i(1, std::min(nc, 3)); const std::vector<int> pe = g.perm(nc); for (int j = 0; j < m; ++j) { cells.push_back(pe[j]); WI.push_back(t0 * g.logreal(0.1, 2)); for (int q = 0; q < np; ++q) { gp.push_back(g.b() ? 0 : g.real(-1, 1)); pm.push_back(m0 * g.logreal(0.1, 10)); } A.resize(A.size() + np * np); if (incompr) std::copy(&Ac[0], &Ac[0] + np * np, &A[A.size() - np * np]); else mat(&A[A.size() - np * np]); } pos.push_back((int) cells.size()); ty.push_back(g.b() ? L_INJECTOR : L_PRODUCER); ctl.push_back(g.b() ? L_BHP : RATE); tgt.push_back(ctl.back() == L_BHP ? g.real(0, 4) : t0 * m0 * g.real(-1, 1)); for (int q = 0; q < 3; ++q) zf.push_back(q == 0); }
    well_t W; well_control_t wc; completion_data wd; if (nw) { W.number_of_wells = nw; W.well_connpos = &pos[0]; W.well_cells = &cells[0]; wc.type = &ty[0]; wc.ctrl = &ctl[0]; wc.target = &tgt[0]; wc.zfrac = &zf[0]; wd.WI = &WI[0]; wd.gpot = &gp[0]; wd.A = &A[0]; wd.phasemob = &pm[0]; }
    // boundary conditions
    BcPtr bc; std::vector<int> bt(nf, -1); D bv(nf, 0.0); std::vector<char> anch(ncomp, !incompr); const bool open = g.b();
    if (g.p(2, 3)) { bc.reset(flow_conditions_construct(0)); if (open) { std::vector<int> multi; const double mv = g.real(0, 3); for (int f : boundaryFaces(G)) { const int t = g.i(0, 4); if (t == 1) { bt[f] = BC_PRESSURE; bv[f] = g.real(0, 3); flow_conditions_append(BC_PRESSURE, f, bv[f], bc.get()); } else if (t == 2) { bt[f] = BC_PRESSURE; bv[f] = mv; multi.push_back(f); } else if (t == 3) flow_conditions_append(BC_NOFLOW, f, g.real(0, 3), bc.get()); } if (!multi.empty()) flow_conditions_append_multi(BC_PRESSURE, multi.size(), &multi[0], mv, bc.get()); } }
    bool anyp = false; for (int f = 0; f < nf; ++f) if (bt[f] == BC_PRESSURE) { anyp = true; anch[comp[std::max(G.face_cells[2 * f], G.face_cells[2 * f + 1])]] = 1; }
    bool bhp = false; for (int w = 0; w < nw; ++w) if (ctl[w] == L_BHP) { bhp = true; for (int j = pos[w]; j < pos[w + 1]; ++j) anch[comp[cells[j]]] = 1; }
    const bool all = std::find(anch.begin(), anch.end(), 0) == anch.end(); if (!all && (ncomp > 1 || anyp || bhp)) throw pbt::Discard();
    if (!all) { double s = 0; for (double x : src) s += x; for (double x : tgt) s += x; src[g.i(0, nc - 1)] -= s; }
    c.desc() << a.text << " " << np << " phases" << (incompr ? " incompressible" : "") << (grav ? " gravity" : "") << " wells " << nw << " bc " << (bc ? (int) bc->nbc : 0); c.nontrivial(nc > 1);
    c.label(np == 1 ? "one phase" : np == 2 ? "two phases" : "three phases"); c.label("incompressible", incompr); c.label("nothing fixes the pressure", !all); c.label("boundary pressure", anyp); c.label("pressure-controlled well", bhp); c.label("rate-controlled well", std::find(ctl.begin(), ctl.end(), RATE) != ctl.end()); c.label("gravity", grav);
    compr_quantities cq; cq.nphases = np; cq.totcompr = &ct[0]; cq.voldiscr = &vd[0]; cq.Ac = &Ac[0]; cq.Af = &Af[0]; cq.phasemobf = &mobf[0];
    std::unique_ptr<cfs_tpfa_data, Del> h(cfs_tpfa_construct(&G, nw ? &W : 0, np)); const int n = nc + nw; c.check(h.get() && (int) h->A->m == n, "size", "%d unknowns instead of %d", h ? (int) h->A->m : 0, n);
    const int ns = g.i(1, 2);
    for (int k = 0; k < ns; ++k) {
        if (k) for (double& x : p0) x = g.real(0.5, 3);
        cfs_tpfa_assemble(&G, dt, nw ? &W : 0, bc.get(), &src[0], &cq, &trans[0], &gc[0], nw ? &wc : 0, nw ? &wd : 0, &p0[0], &pv[0], h.get());
        DenseSolver ls; ls.solve(n, h->A->ia[n], h->A->ia, h->A->ja, h->A->sa, h->b, h->x); if (ls.singular) throw pbt::Discard();
        D p(nc, -1e300), fx(nf, -1e300), wp(nw + 1, -1e300), wf(cells.size() + 1, -1e300), fp(nf, -1e300), mt((size_t) nf * np, -1e300), gt(mt);
        cfs_tpfa_press_flux(&G, bc.get(), nw ? &W : 0, np, &trans[0], &mobf[0], &gc[0], nw ? &wd : 0, h.get(), &p[0], &fx[0], nw ? &wp[0] : 0, nw ? &wf[0] : 0);
        LD P = 4; for (int i = 0; i < n; ++i) P = std::max(P, (LD) std::fabs(h->x[i])); if (!(P < 1e6L)) throw pbt::Discard();
        LD pmag = 0; for (double x : p) pmag = std::max(pmag, (LD) std::fabs(x)); for (int w = 0; w < nw; ++w) pmag = std::max(pmag, (LD) std::fabs(wp[w])); c.check(pmag <= P, "pressure", "a pressure is %g", (double) pmag);
        // faces
        L half(nh, 0), hsc(nh, 0); const L zero(np, 0);
        cfs_tpfa_retrieve_masstrans(&G, np, h.get(), &mt[0]); cfs_tpfa_retrieve_gravtrans(&G, np, h.get(), &gt[0]);
        for (int f = 0; f < nf; ++f) {
            const int u = G.face_cells[2 * f], v = G.face_cells[2 * f + 1]; const bool in = u >= 0 && v >= 0, pr = bt[f] == BC_PRESSURE; LD dp = 0, q = 0, sc = 0;
            if (in) dp = (LD) p[u] - p[v]; else if (pr) dp = u >= 0 ? p[u] - (LD) bv[f] : (LD) bv[f] - p[v];
            L ph(np, 0), ab(np, 0); if (in || pr) for (int s = 0; s < np; ++s) { const LD m = (LD) trans[f] * mobf[f * np + s]; ph[s] = m * (dp + gc[f * np + s]); ab[s] = m * (2 * P + std::fabs(gc[f * np + s])); q += ph[s]; sc += ab[s]; }
            c.check(std::fabs(fx[f] - q) <= 1e-13L * sc, in ? "flux" : pr ? "boundary-flux" : "no-flow", "face %d (cells %d %d): flux %.15g instead of %.15g (scale %.3g)", f, u, v, fx[f], (double) q, (double) sc);
            for (int i = 0; i < np; ++i) { LD m = 0, r = 0, ma = 0, ra = 0; for (int s = 0; s < np; ++s) { const LD t = (LD) Af[(size_t) f * np * np + s * np + i] * trans[f] * mobf[f * np + s], tg = in || pr ? t * gc[f * np + s] : 0; m += t; r += tg; ma += std::fabs(t); ra += std::fabs(tg); } c.check(std::fabs(mt[f * np + i] - m) <= 1e-14L * ma, "mass-transmissibility", "face %d component %d: %.15g instead of %.15g", f, i, mt[f * np + i], (double) m); c.check(std::fabs(gt[f * np + i] - r) <= 1e-14L * ra, "gravity-transmissibility", "face %d component %d: %.15g instead of %.15g", f, i, gt[f * np + i], (double) r); }
            if (in || pr) for (int q2 = 0; q2 < 2; ++q2) { const int e = q2 ? v : u; if (e < 0) continue; for (int i = G.cell_facepos[e]; i < G.cell_facepos[e + 1]; ++i) if (G.cell_faces[i] == f) { const L x = ratio(np, &Ac[(size_t) e * np * np], &Af[(size_t) f * np * np], &ph[0]), y = ratio(np, &Ac[(size_t) e * np * np], &Af[(size_t) f * np * np], &ab[0]); half[i] = (q2 ? -1 : 1) * sum(x); hsc[i] = asum(y); } }
        }
        // wells
        L cw(nc, 0), cs(nc, 0);
        for (int w = 0; w < nw; ++w) {
            LD tot = 0, ts = 0;
            for (int j = pos[w]; j < pos[w + 1]; ++j) {
                const int e = cells[j]; L ph(np), ab(np); LD q = 0, sc = 0; for (int s = 0; s < np; ++s) { const LD m = (LD) WI[j] * pm[j * np + s]; ph[s] = m * ((LD) wp[w] - p[e] + gp[j * np + s]); ab[s] = m * (2 * P + std::fabs(gp[j * np + s])); q += ph[s]; sc += ab[s]; }
                c.check(std::fabs(wf[j] - q) <= 1e-13L * sc, "perforation-rate", "well %d perforation %d: %.15g instead of %.15g", w, j, wf[j], (double) q);
                const LD x = sum(ratio(np, &Ac[(size_t) e * np * np], &A[(size_t) j * np * np], &ph[0])), y = asum(ratio(np, &Ac[(size_t) e * np * np], &A[(size_t) j * np * np], &ab[0])); cw[e] += x; cs[e] += y; tot += x; ts += y;
            }
            if (ctl[w] == L_BHP) c.check(std::fabs(wp[w] - tgt[w]) <= 1e-12 * (1 + std::fabs(tgt[w])), "well-pressure", "well %d: %.15g instead of %.15g", w, wp[w], tgt[w]);
            else c.check(std::fabs(tot - tgt[w]) <= 1e-10L * (ts + std::fabs(tgt[w])), "well-rate", "well %d: volume rate %.12g instead of %.12g (scale %.3g)", w, (double) tot, tgt[w], (double) ts);
        }
        // volume balance of each cell
        LD slack = 0; if (!all) { for (double x : src) slack += std::fabs(x); for (double x : tgt) slack += std::fabs(x); for (LD x : hsc) slack += x; }
        for (int e = 0; e < nc; ++e) {
            const LD acc = (LD) ct[e] * pv[e] / dt; LD r = acc * ((LD) p[e] - p0[e]) - vd[e] - src[e] - cw[e], sc = acc * (P + std::fabs(p0[e])) + std::fabs(vd[e]) + std::fabs(src[e]) + cs[e];
            for (int i = G.cell_facepos[e]; i < G.cell_facepos[e + 1]; ++i) { r += half[i]; sc += hsc[i]; }
            c.check(std::fabs(r) <= 1e-10L * (sc + slack), "volume-balance", "cell %d: residual %.6g (scale %.3g)", e, (double) r, (double) sc);
        }
        // face pressures lie between those of the cells, nearer to the better connected one
        cfs_tpfa_fpress(&G, bc.get(), np, &ht[0], &mobf[0], &gc[0], h.get(), &p[0], &fx[0], &fp[0]);
        for (int f = 0; f < nf; ++f) { LD t = 0, s = 0; for (int q = 0; q < 2; ++q) { const int e = G.face_cells[2 * f + q]; if (e >= 0) { const LD x = ht[halfFace(G, e, f)]; t += x; s += x * p[e]; } } const LD w = bt[f] == BC_PRESSURE ? (LD) bv[f] : s / t; c.check(std::fabs(fp[f] - w) <= 1e-13L * P, "face-pressure", "face %d: %.15g instead of %.15g", f, fp[f], (double) w); }
        // explicit transport
        D z((size_t) nc * np), z0; for (double& x : z) x = g.real(0, 2); z0 = z;
        cfs_tpfa_expl_mass_transport(&G, nw ? &W : 0, nw ? &wd : 0, np, dt, &pv[0], h.get(), &z[0]);
        L want((size_t) nc * np, 0), sc(want);
        for (int f = 0; f < nf; ++f) { const int u = G.face_cells[2 * f], v = G.face_cells[2 * f + 1]; if (u < 0 || v < 0) continue; for (int i = 0; i < np; ++i) { LD q = 0, s = 0; for (int j = 0; j < np; ++j) { const LD m = (LD) Af[(size_t) f * np * np + j * np + i] * trans[f] * mobf[f * np + j]; q += m * ((LD) p[u] - p[v] + gc[f * np + j]); s += m * (2 * P + 1); } want[u * np + i] -= q; want[v * np + i] += q; sc[u * np + i] += s; sc[v * np + i] += s; } }
        L inj(np, 0); for (int w = 0; w < nw; ++w) for (int j = pos[w]; j < pos[w + 1]; ++j) { const int e = cells[j]; for (int i = 0; i < np; ++i) { LD q = 0, s = 0; for (int t = 0; t < np; ++t) { const LD m = (LD) A[(size_t) j * np * np + t * np + i] * WI[j] * pm[j * np + t]; q += m * ((LD) wp[w] - p[e] + gp[j * np + t]); s += m * (2 * P + 1); } want[e * np + i] += q; sc[e * np + i] += s; inj[i] += q; } }
        L tot(np, 0), tsc(np, 0);
        for (int e = 0; e < nc; ++e) for (int i = 0; i < np; ++i) { const LD w = z0[e * np + i] + want[e * np + i] * dt / pv[e], s = std::fabs(z0[e * np + i]) + sc[e * np + i] * dt / pv[e]; c.check(std::fabs(z[e * np + i] - w) <= 1e-12L * s, "transport", "cell %d component %d: surface volume %.12g instead of %.12g", e, i, z[e * np + i], (double) w); tot[i] += ((LD) z[e * np + i] - z0[e * np + i]) * pv[e]; tsc[i] += s * pv[e]; }
        for (int i = 0; i < np; ++i) c.check(std::fabs(tot[i] - dt * inj[i]) <= 1e-12L * tsc[i], "conservation", "component %d: %.12g more in place after %.12g was injected", i, (double) tot[i], (double) (dt * inj[i]));
        // stable explicit step
        if (np == 3) {
            D dm((size_t) 9 * nf), sd(3), gv(d, 0.0); for (double& x : dm) x = m0 * g.real(-2, 2); for (int f = 0; f < nf; ++f) for (int q : { 0, 4, 8 }) dm[9 * f + q] = m0 * g.real(0, 3); for (double& x : sd) x = g.real(0.1, 1.5); if (g.b()) for (double& x : gv) x = g.real(-1, 1);
            LD best = 1e100L; bool odd = false;
            for (int e = 0; e < nc; ++e) {
                LD F[2][2] = { { 0, 0 }, { 0, 0 } }, Fs = 0; bool exact = true;
                for (int i = G.cell_facepos[e]; i < G.cell_facepos[e + 1]; ++i) {
                    const int f = G.cell_faces[i], o = G.face_cells[2 * f] == e ? G.face_cells[2 * f + 1] : G.face_cells[2 * f]; if (o < 0) continue; LD dz = 0, az = 0; for (int x = 0; x < d; ++x) { dz += ((LD) G.cell_centroids[d * e + x] - G.cell_centroids[d * o + x]) * gv[x]; az += (std::fabs((LD) G.cell_centroids[d * e + x]) + std::fabs((LD) G.cell_centroids[d * o + x])) * std::fabs(gv[x]); }
                    LD pot[3], l[3], lt = 0, psc = 0; for (int s = 0; s < 3; ++s) { LD rho = 0; for (int i2 = 0; i2 < 3; ++i2) rho += (LD) Af[9 * (size_t) f + 3 * s + i2] * sd[i2]; pot[s] = std::fabs((LD) p[e] - p[o] - rho * dz); exact = exact && az == 0 && p[e] == p[o]; psc += std::fabs((LD) p[e]) + std::fabs((LD) p[o]) + std::fabs(rho) * az; l[s] = mobf[3 * f + s]; lt += l[s]; }
                    // derivatives of f_w and f_g times potentials; the water column takes no gas mobility change
                    const LD ww = dm[9 * f], wg = dm[9 * f + 2], ow = dm[9 * f + 3], og = dm[9 * f + 5], gg = dm[9 * f + 8], T = trans[f] / lt;
                    Fs += trans[f] * psc * (std::fabs(ww) + std::fabs(wg) + std::fabs(ow) + std::fabs(og) + std::fabs(gg));
                    F[0][0] += T * ((l[1] + l[2]) * ww * pot[0] - l[0] * ow * pot[1]); F[0][1] += T * ((l[1] + l[2]) * wg * pot[0] - l[0] * (og * pot[1] + gg * pot[2]));
                    F[1][0] -= T * l[2] * (ww * pot[0] + ow * pot[1]); F[1][1] += T * ((l[0] + l[1]) * gg * pot[2] - l[2] * (og * pot[1] + wg * pot[0]));
                }
                const LD tr = F[0][0] + F[1][1], dd = tr * tr - 4 * (F[0][0] * F[1][1] - F[0][1] * F[1][0]), sc2 = std::fabs(F[0][0]) + std::fabs(F[1][1]) + std::fabs(F[0][1]) + std::fabs(F[1][0]); if (sc2 == 0 && (exact || Fs == 0)) { continue; } if (1e-15L * Fs > 2e-10L * std::fabs(tr + std::sqrt(std::max(dd, 0.0L))) || dd < 1e-6L * sc2 * sc2 || std::fabs(tr + std::sqrt(std::max(dd, 0.0L))) < 1e-6L * sc2) { odd = true; continue; }
                best = std::min(best, pv[e] / (0.5L * std::fabs(tr + std::sqrt(dd))));
            }
            if (!odd) { const double v = cfs_tpfa_impes_maxtime(&G, &cq, &trans[0], &pv[0], h.get(), &dm[0], &sd[0], &gv[0]); c.label("stable step", best < 1e99L); c.check(best > 1e99L ? v >= 1e99 : std::fabs(v - best) <= 1e-6L * best, "stable-step", "largest stable step %.12g instead of %.12g", v, (double) best); }
        }
    }
    c.label("second solve", ns > 1);
}
// Coefficients of the hybrid compressible scheme
void terms(Gen& g, Ctx& c)
{
    AnyGrid a = genGrid(g, 7, 40); UnstructuredGrid& G = *a.G; const int nc = G.number_of_cells, nf = G.number_of_faces; c.desc() << a.text; c.nontrivial(nc > 1);
    D fx(nf), z(nc), B(G.cell_facepos[nc], -1e300), pv(nc), ct(nc), P(nc, -1e300), p0(nc), s(nc), s0; for (double& x : fx) x = g.real(-3, 3); for (double& x : z) x = g.real(-1, 1); for (double& x : pv) x = g.real(0, 2); for (double& x : ct) x = g.real(0, 2); for (double& x : p0) x = g.real(-3, 3); for (double& x : s) x = g.real(-3, 3); s0 = s; const double dt = g.logreal(1e-3, 1e3);
    compr_flux_term(&G, &fx[0], &z[0], &B[0]); compr_accum_term(nc, dt, &pv[0], &ct[0], &P[0]); compr_src_add_press_accum(nc, &p0[0], &P[0], &s[0]);
    for (int e = 0; e < nc; ++e) { for (int i = G.cell_facepos[e]; i < G.cell_facepos[e + 1]; ++i) { const int f = G.cell_faces[i]; const double w = z[e] * (G.face_cells[2 * f] == e ? fx[f] : -fx[f]); c.close(B[i], w, 1e-15, std::fabs(w), "flux-term", "cell %d face %d: %.15g instead of %.15g", e, f, B[i], w); }
        const double w = pv[e] * ct[e] / dt; c.close(P[e], w, 1e-14, w, "accumulation", "cell %d: %.15g instead of %.15g", e, P[e], w); c.close(s[e], s0[e] + P[e] * p0[e], 1e-15, std::fabs(s0[e]) + std::fabs(P[e] * p0[e]), "source", "cell %d: %.15g instead of %.15g", e, s[e], s0[e] + P[e] * p0[e]); }
}
}

pbt::Spec pbt::spec()
{
    return { "C42", "Cartesian, polyhedral and corner-point grids of at most 30 cells, one to three phases, general volume matrices per cell, face and perforation, variable mobilities, gravity and capillary terms per face, pressure and rate wells sharing cells, pressure boundaries, compressible or incompressible, one or two solves per object; non-trivial: more than one cell",
        { "flux conditions on the boundary are not given (the solver's documentation says other conditions are not handled)", "explicit transport covers interior faces and wells only", "the largest stable step is judged where Coats' formula has a real value" }, 40000, 800000,
        { { "solve", 6, solve }, { "terms", 1, terms } } };
}
