// C19: mimetic inner product and the hybrid pressure solvers built on it, judged by their defining equations.
#include "flowgen.hpp"
#include <map>
extern "C" {
// legacy_well.h and newwells.h both declare these
#define INJECTOR L_INJECTOR
#define PRODUCER L_PRODUCER
#define BHP L_BHP
#define well_type l_well_type
#define well_controls l_well_controls
#include <opm/core/pressure/mimetic/mimetic.h>
#include <opm/core/pressure/fsh.h>
#include <opm/core/pressure/mimetic/hybsys.h>
#include <opm/core/linalg/sparse_sys.h>
}

namespace {
typedef std::vector<double> D;
struct Local { D Binv; std::vector<size_t> pos; };
double dot3(int d, const double* a, const double* b) { double s = 0; for (int k = 0; k < d; ++k) s += a[k] * b[k]; return s; }

D genPerm(Gen& g, const UnstructuredGrid& G, bool uniform)
{
    const int d = G.dimensions, nc = G.number_of_cells; D K((size_t) nc * d * d, 0.0); const bool diag = g.p(1, 3); const double lo = g.p(1, 3) ? 1e-3 : 0.1;
    for (int c = 0; c < nc; ++c) { if (c && (uniform || g.b())) std::copy(&K[(size_t) (c - 1) * d * d], &K[(size_t) c * d * d], &K[(size_t) c * d * d]); else genTensor(g, d, &K[(size_t) c * d * d], diag, lo, 10.0); }
    return K;
}
Local inner(const UnstructuredGrid& G, const D& K)
{
    Local L; const int nc = G.number_of_cells; int mx = 0; L.pos.push_back(0);
    for (int c = 0; c < nc; ++c) { const int n = G.cell_facepos[c + 1] - G.cell_facepos[c]; mx = std::max(mx, n); L.pos.push_back(L.pos.back() + (size_t) n * n); }
    L.Binv.assign(L.pos.back(), -1e300);
    mim_ip_simple_all(nc, G.dimensions, mx, G.cell_facepos, G.cell_faces, G.face_cells, G.face_centroids, G.face_normals, G.face_areas, G.cell_centroids, G.cell_volumes, const_cast<double*>(&K[0]), &L.Binv[0]);
    return L;
}
double outw(const UnstructuredGrid& G, int c, int f) { return G.face_cells[2 * f] == c ? 1 : -1; }

void innerProduct(Gen& g, Ctx& c)
{
    AnyGrid a = genGrid(g, 7, 12); const UnstructuredGrid& G = *a.G; const int d = G.dimensions, nc = G.number_of_cells; const D K = genPerm(g, G, false); const bool planar = a.text.find("zscale") == std::string::npos;
    c.desc() << a.text << " K=" << K[0] << ".."; c.nontrivial(nc > 0); c.label(d == 2 ? "2D" : "3D");
    const Local L = inner(G, K);
    for (int e = 0; e < nc; ++e) {
        const int p = G.cell_facepos[e], n = G.cell_facepos[e + 1] - p; if (!(G.cell_volumes[e] > 0)) throw pbt::Discard();
        std::vector<LD> N(n * d), C(n * d), A(n), Q; LD kt = 0; for (int k = 0; k < d; ++k) kt += K[(size_t) e * d * d + k * (d + 1)];
        for (int i = 0; i < n; ++i) { const int f = G.cell_faces[p + i]; A[i] = G.face_areas[f]; for (int k = 0; k < d; ++k) { N[i + k * n] = outw(G, e, f) * G.face_normals[d * f + k]; C[i + k * n] = (LD) G.face_centroids[d * f + k] - G.cell_centroids[d * e + k]; } }
        // orthonormal basis of diag(A) C by Gram-Schmidt with reorthogonalisation
        LD worst = 1;
        for (int k = 0; k < d; ++k) {
            std::vector<LD> v(n); LD n0 = 0; for (int i = 0; i < n; ++i) { v[i] = A[i] * C[i + k * n]; n0 += v[i] * v[i]; }
            for (int r = 0; r < 2; ++r) for (int q = 0; q < k; ++q) { LD s = 0; for (int i = 0; i < n; ++i) s += Q[q * n + i] * v[i]; for (int i = 0; i < n; ++i) v[i] -= s * Q[q * n + i]; }
            LD n1 = 0; for (LD t : v) n1 += t * t; if (!(n1 > 0)) throw pbt::Discard(); worst = std::max(worst, std::sqrt(n0 / n1)); n1 = std::sqrt(n1); for (LD t : v) Q.push_back(t / n1);
        }
        if (worst > 1e6L) throw pbt::Discard();
        const double* B = &L.Binv[L.pos[e]]; const LD v = G.cell_volumes[e]; LD top = 0;
        std::vector<LD> want(n * n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            LD s = 0, x = i == j; for (int k = 0; k < d; ++k) { for (int q = 0; q < d; ++q) s += N[i + k * n] * K[(size_t) e * d * d + k * d + q] * N[j + q * n]; x -= Q[k * n + i] * Q[k * n + j]; }
            want[i + j * n] = (s + 6 * kt / d * A[i] * A[j] * x) / v;
        }
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            const LD sc = 6 * kt * A[i] * A[j] / v; top = std::max(top, sc);
            c.check(std::fabs(B[i + j * n] - want[i + j * n]) <= 1e-12L * worst * sc, "formula", "cell %d: entry %d,%d of the inverse inner product is %.15g instead of %.15g (scale %.3g)", e, i, j, B[i + j * n], (double) want[i + j * n], (double) sc);
            c.check(std::fabs(B[i + j * n] - B[j + i * n]) <= 1e-13L * sc, "symmetric", "cell %d: entries %d,%d differ: %.17g and %.17g", e, i, j, B[i + j * n], B[j + i * n]);
        }
        // scaled by the face areas, the smallest eigenvalue is bounded below by half that of K over the volume (positive definite)
        std::vector<LD> M(n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M[i * n + j] = (LD) B[i + j * n] / (A[i] * A[j]) * v / kt;
        bool pd = true; for (int k = 0; k < n && pd; ++k) { LD t = M[k * n + k]; for (int q = 0; q < k; ++q) t -= M[k * n + q] * M[k * n + q]; if (!(t > -1e-13L)) pd = false; if (t <= 1e-13L) break; M[k * n + k] = std::sqrt(t); for (int i = k + 1; i < n; ++i) { LD s = M[i * n + k]; for (int q = 0; q < k; ++q) s -= M[i * n + q] * M[k * n + q]; M[i * n + k] = s / M[k * n + k]; } }
        c.check(pd, "positive-definite", "cell %d: the inner product is not positive definite", e);
        // a linear pressure gives a constant velocity
        if (planar) for (int k = 0; k < d; ++k) for (int i = 0; i < n; ++i) {
            LD s = 0, m = 0, w = 0; for (int j = 0; j < n; ++j) { s += (LD) B[i + j * n] * C[j + k * n]; m += std::fabs((LD) B[i + j * n] * C[j + k * n]) + 6 * kt * A[i] * A[j] / v * std::fabs(C[j + k * n]); } for (int q = 0; q < d; ++q) { w += N[i + q * n] * K[(size_t) e * d * d + q * d + k]; }
            c.check(std::fabs(s - w) <= 1e-11L * worst * m, "linear-exact", "cell %d: a unit pressure gradient %d gives the flux %.12g through face %d instead of %.12g (scale %.3g)", e, k, (double) s, i, (double) w, (double) m);
        }
    }
    // updates
    const int nh = G.cell_facepos[nc]; D mob(nc), om(nc), grav(d), gp(nh), gp2(nh, -1), B2(L.Binv.size(), -1); for (double& x : mob) x = g.logreal(0.01, 100); for (double& x : om) x = g.real(0, 1000); for (double& x : grav) x = g.b() ? 0 : g.real(-10, 10);
    { // cells of any number of faces
        const int n = g.i(1, 4); std::vector<int> at(1, 0); for (int e = 0; e < n; ++e) at.push_back(at.back() + g.size(1, 40)); size_t n2 = 0; for (int e = 0; e < n; ++e) n2 += (size_t) (at[e + 1] - at[e]) * (at[e + 1] - at[e]); D m(n), o(n), b(n2), p(at.back()), b2(n2 + 1, -77), p2(at.back() + 1, -77); for (double& x : m) x = g.logreal(1e-3, 1e3); for (double& x : o) x = g.real(0, 1000); for (size_t k = 0; k < n2; ++k) b[k] = (k % 97) - 40.5; for (int k = 0; k < at.back(); ++k) p[k] = (k % 13) - 5.5;
        mim_ip_mobility_update(n, &at[0], &m[0], &b[0], &b2[0]); mim_ip_density_update(n, &at[0], &o[0], &p[0], &p2[0]); size_t k = 0;
        for (int e = 0; e < n; ++e) { const int w = at[e + 1] - at[e]; for (int i = 0; i < w * w; ++i, ++k) c.check(std::fabs(b2[k] - m[e] * b[k]) <= 1e-14 * std::fabs(m[e] * b[k]), "mobility-update", "cell %d of %d faces: entry %d is %g instead of %g", e, w, i, b2[k], m[e] * b[k]); for (int i = at[e]; i < at[e + 1]; ++i) c.check(std::fabs(p2[i] - o[e] * p[i]) <= 1e-14 * std::fabs(o[e] * p[i]), "density-update", "cell %d of %d faces: gravity term %d is %g instead of %g", e, w, i - at[e], p2[i], o[e] * p[i]); }
        c.check(b2[n2] == -77 && p2[at.back()] == -77, "overrun", "an entry behind the last was written");
    }
    mim_ip_compute_gpress(nc, d, &grav[0], G.cell_facepos, G.cell_faces, G.face_centroids, G.cell_centroids, &gp[0]);
    mim_ip_mobility_update(nc, G.cell_facepos, &mob[0], &L.Binv[0], &B2[0]); mim_ip_density_update(nc, G.cell_facepos, &om[0], &gp[0], &gp2[0]);
    for (int e = 0; e < nc; ++e) {
        for (int i = G.cell_facepos[e]; i < G.cell_facepos[e + 1]; ++i) {
            const int f = G.cell_faces[i]; LD s = 0, m = 0; for (int k = 0; k < d; ++k) { const LD t = (LD) grav[k] * ((LD) G.face_centroids[d * f + k] - G.cell_centroids[d * e + k]); s += t; m += std::fabs(t); }
            c.check(std::fabs(gp[i] - s) <= 1e-14L * m, "gravity", "cell %d face %d: %.15g instead of %.15g", e, f, gp[i], (double) s);
            c.check(std::fabs(gp2[i] - om[e] * gp[i]) <= 1e-15 * std::fabs(gp2[i]), "density-update", "cell %d face %d: %.15g instead of %.15g", e, f, gp2[i], om[e] * gp[i]);
        }
        for (size_t q = L.pos[e]; q < L.pos[e + 1]; ++q) c.check(std::fabs(B2[q] - mob[e] * L.Binv[q]) <= 1e-15 * std::fabs(B2[q]), "mobility-update", "cell %d: %.15g instead of %.15g", e, B2[q], mob[e] * L.Binv[q]);
    }
}

struct FshDel { void operator()(fsh_data* h) const { fsh_destroy(h); } };
struct LW { std::vector<int> pos, cells; std::vector<well_type> type; std::vector<well_control> ctrl; D target, zf, WI, wdp; well_t w; well_control_t c; void link() { w.number_of_wells = (int) pos.size() - 1; w.well_connpos = &pos[0]; w.well_cells = &cells[0]; c.type = &type[0]; c.ctrl = &ctrl[0]; c.target = &target[0]; c.zfrac = &zf[0]; } };

// One problem and the equations its solution has to satisfy.
void hybrid(Gen& g, Ctx& c, bool compr, bool linear)
{
    AnyGrid a = genGrid(g, linear ? 3 : 7, 30); UnstructuredGrid& G = *a.G; const int d = G.dimensions, nc = G.number_of_cells, nf = G.number_of_faces, nh = G.cell_facepos[nc]; for (int e = 0; e < nc; ++e) if (!(G.cell_volumes[e] > 0)) throw pbt::Discard();
    for (int f = 0; f < nf; ++f) if (G.face_cells[2 * f] < 0 && G.face_cells[2 * f + 1] < 0) throw pbt::Discard();
    const D K = genPerm(g, G, linear); const Local L0 = inner(G, K); int ncomp; const std::vector<int> comp = components(G, ncomp);
    std::unique_ptr<fsh_data, FshDel> h; BcPtr bc; LW W; const bool wells = !compr && !linear && g.p(2, 3);
    D mob(nc), om(nc), grav(d, 0.0), gp(nh), src(nc, 0.0), Biv(nh, 0.0), P(nc, 0.0);
    double scaleB = 0; for (size_t q = 0; q < L0.Binv.size(); ++q) scaleB = std::max(scaleB, std::fabs(L0.Binv[q]));
    const int nsolve = linear ? 1 : g.i(1, 2);
    if (wells) {
        const int nw = g.i(1, 3); W.pos.push_back(0); c.label("wells");
        for (int w = 0; w < nw; ++w) { const int m = g.size(1, std::min(nc, 4)); const std::vector<int> pm = g.perm(nc); for (int j = 0; j < m; ++j) { W.cells.push_back(pm[j]); W.WI.push_back(scaleB * g.logreal(0.1, 3)); W.wdp.push_back(g.b() ? 0 : g.real(-1, 1)); } W.pos.push_back((int) W.cells.size()); W.type.push_back(INJECTOR); W.ctrl.push_back(BHP); W.target.push_back(0); for (int k = 0; k < 3; ++k) W.zf.push_back(k == 0); }
        W.link(); std::vector<int> s = W.cells; std::sort(s.begin(), s.end()); c.label("shared-cell", std::adjacent_find(s.begin(), s.end()) != s.end());
    }
    h.reset(compr ? cfsh_construct(&G, 0) : ifsh_construct(&G, wells ? &W.w : 0));
    const int n = nf + (wells ? W.w.number_of_wells : 0); c.check(h.get() && (int) h->A->m == n, "size", "%zu unknowns instead of %d", h ? h->A->m : 0, n);
    c.desc() << a.text << (compr ? " compressible" : "") << (wells ? " wells" : ""); c.nontrivial(nc > 1);
    for (int solve = 0; solve < nsolve; ++solve) {
        const bool umob = linear || g.b(); const double m0 = g.logreal(0.1, 10), o0 = g.b() ? 0 : g.real(0, 2); for (int e = 0; e < nc; ++e) { mob[e] = umob ? m0 : g.logreal(0.1, 10); om[e] = umob ? o0 : g.real(0, 2); }
        if (g.b()) { grav[d - 1] = g.real(-1, 1); if (g.p(1, 3)) grav[0] = g.real(-1, 1); } D g0(nh), B(L0.Binv.size());
        mim_ip_compute_gpress(nc, d, &grav[0], G.cell_facepos, G.cell_faces, G.face_centroids, G.cell_centroids, &g0[0]); mim_ip_density_update(nc, G.cell_facepos, &om[0], &g0[0], &gp[0]); mim_ip_mobility_update(nc, G.cell_facepos, &mob[0], &L0.Binv[0], &B[0]);
        std::vector<int> bt(nf, -1), bf = boundaryFaces(G); D bv(nf, 0.0); bc.reset(flow_conditions_construct(0)); const double R = scaleB * m0; double p0 = 0; D lin(d);
        bool anchored = compr; std::vector<bool> anch(ncomp, compr);
        if (linear) { p0 = g.real(-2, 2); for (double& x : lin) x = g.b() ? 0 : g.real(-1, 1); for (int f : bf) { bt[f] = BC_PRESSURE; bv[f] = p0 + dot3(d, &lin[0], G.face_centroids + d * f); } for (size_t q = 0; q < anch.size(); ++q) anch[q] = true;
            if (bf.size() > 1 && g.b()) { const int k = g.i(0, (int) bf.size() - 2); for (int q = 0; q < k; ++q) { const int f = bf[g.i(1, (int) bf.size() - 1)]; const int e = std::max(G.face_cells[2 * f], G.face_cells[2 * f + 1]); LD s = 0; for (int x = 0; x < d; ++x) for (int y = 0; y < d; ++y) s += (LD) G.face_normals[d * f + x] * K[(size_t) e * d * d + x * d + y] * (om[e] * grav[y] - lin[y]); bt[f] = BC_FLUX_TOTVOL; bv[f] = (double) (outw(G, e, f) * mob[e] * s); c.label("linear-flux-boundary"); } }
        }
        else if (g.p(3, 4)) for (int f : bf) { const int t = g.i(0, 3); const int e = std::max(G.face_cells[2 * f], G.face_cells[2 * f + 1]); if (t == 1) { bt[f] = BC_PRESSURE; bv[f] = g.real(0, 3); anch[comp[e]] = true; } else if (t == 2) { bt[f] = BC_FLUX_TOTVOL; bv[f] = R * g.real(-1, 1); } else if (t == 3 && g.b()) bt[f] = BC_NOFLOW; }
        { int mf = -1; for (int f : bf) if (bt[f] == BC_PRESSURE && mf < 0 && !linear && g.p(1, 3)) mf = f; if (mf >= 0) { std::vector<int> fs; for (int f : bf) if (bt[f] == BC_PRESSURE && (f == mf || g.b())) { bv[f] = bv[mf]; fs.push_back(f); } flow_conditions_append_multi(BC_PRESSURE, fs.size(), &fs[0], bv[mf], bc.get()); for (int f : bf) if (bt[f] >= 0 && std::find(fs.begin(), fs.end(), f) == fs.end()) flow_conditions_append((FlowBCType) bt[f], f, bv[f], bc.get()); }
          else for (int f : bf) if (bt[f] >= 0) flow_conditions_append((FlowBCType) bt[f], f, bv[f], bc.get()); }
        const bool nobc = !linear && bc->nbc == 0 && g.b();
        if (!linear && g.b()) for (double& x : src) x = g.b() ? 0 : R * g.real(-1, 1);
        if (wells) { for (int w = 0; w < W.w.number_of_wells; ++w) { W.ctrl[w] = g.b() ? BHP : RATE; W.target[w] = W.ctrl[w] == BHP ? g.real(0, 3) : R * g.real(-1, 1); if (W.ctrl[w] == BHP) for (int j = W.pos[w]; j < W.pos[w + 1]; ++j) anch[comp[W.cells[j]]] = true; } if (g.b()) for (double& x : W.WI) x *= g.logreal(0.5, 2); c.label("rate-well", std::count(W.ctrl.begin(), W.ctrl.end(), RATE) > 0); c.label("pressure-well", std::count(W.ctrl.begin(), W.ctrl.end(), BHP) > 0); }
        // compressible accumulation: a negative diagonal, and flux-dependent terms
        if (compr) { const bool adv = g.b(); LD l = 0; for (int e = 0; e < nc; ++e) { l = 0; for (size_t q = L0.pos[e]; q < L0.pos[e + 1]; ++q) l += B[q]; P[e] = -(double) l * g.logreal(1e-3, 10); } if (adv) for (double& x : Biv) x = scaleB * m0 * g.real(-0.01, 0.01); c.label("advection", adv); }
        // a rate well spanning components ties their levels together: treated as one component only when everything is connected
        LD slack = 0; bool all = true; for (int q = 0; q < ncomp; ++q) { all = all && anch[q]; anchored = anchored || anch[q]; }
        if (!compr && !all) {
            if (anchored || ncomp > 1) throw pbt::Discard();
            double s = 0; for (int e = 0; e < nc; ++e) s += src[e]; if (wells) for (double t : W.target) s += t; for (int f : bf) if (bt[f] == BC_FLUX_TOTVOL) s -= bv[f]; src[0] -= s; c.label("no-prescribed-pressure");
            // rates cancel up to roundoff only, which ends up in the first face
            for (double x : src) slack += std::fabs(x); for (double x : W.target) slack += std::fabs(x); for (int f : bf) if (bt[f] == BC_FLUX_TOTVOL) slack += std::fabs(bv[f]); slack *= 1e-12L; slack += 1e-300L;
        }
        csrmatrix_zero(h->A); vector_zero(h->A->m, h->b); vector_zero(h->A->m, h->x);
        if (compr) cfsh_assemble(nobc ? 0 : bc.get(), &src[0], &B[0], &Biv[0], &P[0], &gp[0], 0, 0, 0, 0, h.get());
        else ifsh_assemble(nobc ? 0 : bc.get(), &src[0], &B[0], &gp[0], wells ? &W.c : 0, wells ? &W.WI[0] : 0, wells ? &W.wdp[0] : 0, h.get());
        if (!compr) { // two cells with several common faces give repeated columns
            std::map<std::pair<int, int>, double> M; for (int i = 0; i < n; ++i) for (int q = h->A->ia[i]; q < h->A->ia[i + 1]; ++q) { c.check(h->A->ja[q] >= 0 && h->A->ja[q] < n, "sparsity", "row %d has the column %d", i, h->A->ja[q]); M[std::make_pair(i, h->A->ja[q])] += h->A->sa[q]; }
            for (auto& x : M) { const double y = M[std::make_pair(x.first.second, x.first.first)]; c.check(std::fabs(x.second - y) <= 1e-12 * (std::fabs(x.second) + std::fabs(y)) + 1e-12 * R, "symmetric-system", "entries %d,%d of the global system differ: %.17g and %.17g", x.first.first, x.first.second, x.second, y); }
        }
        DenseSolver lin_; lin_.solve(n, h->A->ia[n], h->A->ia, h->A->ja, h->A->sa, h->b, h->x); c.check(!lin_.singular, "solvable", "the linear system is singular");
        D p(nc, -1e300), ff(nf, -1e300), wp(4, 0.0), wf(wells ? W.cells.size() : 1, -1e300);
        fsh_press_flux(&G, &B[0], &gp[0], h.get(), &p[0], &ff[0], &wp[0], &wf[0]);
        const double* pi = h->x; LD pm = 1; for (int i = 0; i < n; ++i) pm = std::max(pm, (LD) std::fabs(pi[i])); for (double x : p) pm = std::max(pm, (LD) std::fabs(x)); for (double x : gp) pm = std::max(pm, (LD) std::fabs(x)); if (wells) for (double x : W.wdp) pm = std::max(pm, (LD) std::fabs(x));
        std::vector<LD> vsum(nf, 0), vsc(nf, 0), cell(nc, 0), csc(nc, 0);
        for (int e = 0; e < nc; ++e) {
            const int q = G.cell_facepos[e], m = G.cell_facepos[e + 1] - q; cell[e] = -(LD) src[e] - (LD) P[e] * p[e]; csc[e] = std::fabs(src[e]) + std::fabs(P[e]) * pm;
            for (int i = 0; i < m; ++i) {
                LD v = 0, sc = 0; for (int j = 0; j < m; ++j) { const LD b = B[L0.pos[e] + i + j * m]; v += b * ((LD) gp[q + j] + p[e] - pi[G.cell_faces[q + j]]); sc += std::fabs(b) * pm; }
                const int f = G.cell_faces[q + i]; vsum[f] += v; vsc[f] += sc; cell[e] += v - (LD) Biv[q + i] * ((LD) gp[q + i] + p[e] - pi[f]); csc[e] += sc + std::fabs(Biv[q + i]) * pm;
                const bool outer = G.face_cells[2 * f] < 0 || G.face_cells[2 * f + 1] < 0;
                c.check(std::fabs(ff[f] - outw(G, e, f) * v) <= 1e-10L * (sc + csc[e]) + (f == 0 && slack > 0 ? slack + 1e-12L * R * pm * L0.Binv.size() : 0) + (outer ? 0 : 1e-10L * R * pm), "face-flux", "face %d: flux %.12g, from cell %d it is %.12g (scale %.3g)", f, ff[f], e, (double) (outw(G, e, f) * v), (double) sc);
            }
        }
        if (slack > 0) { for (double x : B) slack += 1e-14L * std::fabs(x) * pm; vsc[0] += 1e10L * slack; for (int q = 0; q < 2; ++q) { const int e = G.face_cells[q]; if (e >= 0) csc[e] += 1e10L * slack; } }
        std::vector<LD> wsum(W.pos.size(), 0), wsc(W.pos.size(), 0);
        if (wells) for (int w = 0; w < W.w.number_of_wells; ++w) {
            for (int j = W.pos[w]; j < W.pos[w + 1]; ++j) {
                const int e = W.cells[j]; const LD q = (LD) W.WI[j] * ((LD) wp[w] - p[e] - W.wdp[j]), sc = W.WI[j] * pm;
                c.check(std::fabs(wf[j] - q) <= 1e-12L * sc, "perforation-rate", "well %d perforation %d: %.12g instead of %.12g", w, j, wf[j], (double) q); cell[e] -= q; csc[e] += sc; wsum[w] += q; wsc[w] += sc;
            }
            if (W.ctrl[w] == BHP) c.check(std::fabs(wp[w] - W.target[w]) <= 1e-12 * (1 + std::fabs(W.target[w])), "well-pressure", "well %d: %.15g instead of %.15g", w, wp[w], W.target[w]);
            else c.check(std::fabs(wsum[w] - W.target[w]) <= 1e-10L * (wsc[w] + std::fabs(W.target[w])), "well-rate", "well %d: rate %.12g instead of %.12g (scale %.3g)", w, (double) wsum[w], W.target[w], (double) wsc[w]);
        }
        for (int e = 0; e < nc; ++e) c.check(std::fabs(cell[e]) <= 1e-10L * csc[e], "mass-balance", "cell %d: outflow minus sources is %.6g (scale %.3g)", e, (double) cell[e], (double) csc[e]);
        for (int f = 0; f < nf; ++f) {
            const bool outer = G.face_cells[2 * f] < 0 || G.face_cells[2 * f + 1] < 0;
            if (!outer) c.check(std::fabs(vsum[f]) <= 1e-10L * vsc[f], "continuity", "face %d: the two sides' fluxes add up to %.6g (scale %.3g)", f, (double) vsum[f], (double) vsc[f]);
            else if (bt[f] == BC_PRESSURE && !nobc) c.check(std::fabs(pi[f] - bv[f]) <= 1e-12 * (1 + std::fabs(bv[f])), "boundary-pressure", "face %d: pressure %.15g instead of %.15g", f, pi[f], bv[f]);
            else { const double w = bt[f] == BC_FLUX_TOTVOL ? bv[f] : 0; c.check(std::fabs(vsum[f] - w) <= 1e-10L * (vsc[f] + std::fabs(w)), bt[f] == BC_FLUX_TOTVOL ? "boundary-flux" : "no-flow", "face %d: outflow %.12g instead of %.12g (scale %.3g)", f, (double) vsum[f], w, (double) vsc[f]); }
        }
        if (linear) {
            LD ext = 0; for (int f = 0; f < nf; ++f) for (int k = 0; k < d; ++k) ext = std::max(ext, (LD) std::fabs(G.face_centroids[d * f + k])); const LD sc = std::fabs(p0) + ext * 3 + 1;
            for (int e = 0; e < nc; ++e) { const double w = p0 + dot3(d, &lin[0], G.cell_centroids + d * e); c.check(std::fabs(p[e] - w) <= 1e-7L * sc, "linear-pressure", "cell %d: pressure %.12g instead of %.12g", e, p[e], w); }
            for (int f = 0; f < nf; ++f) { const int e = std::max(G.face_cells[2 * f], G.face_cells[2 * f + 1]); LD s = 0; for (int x = 0; x < d; ++x) for (int y = 0; y < d; ++y) s += (LD) G.face_normals[d * f + x] * K[(size_t) e * d * d + x * d + y] * (om[e] * grav[y] - lin[y]); s *= mob[e]; c.check(std::fabs(ff[f] - s) <= 1e-7L * (vsc[f] + R * sc), "linear-flux", "face %d: flux %.12g instead of %.12g", f, ff[f], (double) s); }
        }
        c.label("second-solve", solve > 0);
    }
}
void incompressible(Gen& g, Ctx& c) { hybrid(g, c, false, false); }
void compressible(Gen& g, Ctx& c) { hybrid(g, c, true, false); }
void linearField(Gen& g, Ctx& c) { hybrid(g, c, false, true); }
// the elementwise reduction of the block system [B C1 D; C2' P 0; D' 0 0] (v, -p, pi) = (G, q, h)
void blocks(Gen& g, Ctx& c)
{
    const int nc = g.i(1, 5), kind = g.i(0, 2); std::vector<int> pos(1, 0), conn; const int nf = g.i(2, 8); std::vector<int> all; int mx = 0;
    for (int i = 0; i < nc; ++i) { const int n = g.i(1, std::min(nf, 5)); std::vector<int> p = g.perm(nf); conn.insert(conn.end(), p.begin(), p.begin() + n); pos.push_back(conn.size()); mx = std::max(mx, n); }
    std::vector<int> used(nf, -1); int m = 0; for (int& f : conn) { if (used[f] < 0) used[f] = m++; f = used[f]; } // every interface belongs to some cell
    const int N = conn.size(); D Binv, C2(N), V(N), P(nc, 0.0), G(N), q(nc), h(m), BIV(N, 0.0); std::vector<size_t> p2; 
    for (int i = 0; i < nc; ++i) { const int n = pos[i + 1] - pos[i]; D X(n * n); for (double& x : X) x = g.real(-1, 1); p2.push_back(Binv.size()); const double sc = g.logreal(0.1, 10); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { double t = a == b ? n : 0; for (int k = 0; k < n; ++k) t += X[a * n + k] * X[b * n + k]; Binv.push_back(t * sc); } }
    const bool grav = g.b(); for (double& x : G) x = grav ? g.real(-2, 2) : 0; for (double& x : q) x = g.p(1, 3) ? 0 : g.real(-3, 3); for (double& x : h) x = g.b() ? 0 : g.real(-1, 1); for (double& x : V) x = g.real(-0.1, 0.1); for (int i = 0; i < nc; ++i) P[i] = kind ? -g.logreal(0.05, 20) : 0;
    for (int i = 0; i < nc; ++i) for (int a = pos[i]; a < pos[i + 1]; ++a) { const int n = pos[i + 1] - pos[i]; for (int b = 0; b < n; ++b) BIV[a] += Binv[p2[i] + (a - pos[i]) * n + b] * V[pos[i] + b]; C2[a] = kind == 0 ? 1 : kind == 1 ? 1 - V[a] : g.real(0.5, 1.5); }
    c.desc() << (kind == 0 ? "symmetric" : kind == 1 ? "C2 = C1 - V" : "general C2") << ", cells " << show(pos) << " interfaces " << show(conn) << " sources " << show(q); c.nontrivial(nc > 1 && m < N); c.label("general", kind == 2);
    hybsys* S = kind ? hybsys_allocate_unsymm(mx, nc, N) : hybsys_allocate_symm(mx, nc, N); c.check(S != 0, "allocate", "no system"); std::unique_ptr<hybsys, void (*)(hybsys*)> own(S, hybsys_free); hybsys_init(mx, S); std::vector<LD> A((size_t) m * m, 0), b(m); for (int f = 0; f < m; ++f) b[f] = -h[f];
    for (int round = 0; round < 1 + g.p(1, 3); ++round) { if (kind == 0) hybsys_schur_comp_symm(nc, &pos[0], &Binv[0], S); else if (kind == 1) hybsys_schur_comp_unsymm(nc, &pos[0], &Binv[0], &BIV[0], &P[0], S); else hybsys_schur_comp_gen(nc, &pos[0], &Binv[0], &C2[0], &P[0], S); }
    for (int i = 0; i < nc; ++i) { const int n = pos[i + 1] - pos[i], p1 = pos[i]; if (kind) hybsys_cellcontrib_unsymm(i, n, p1, p2[i], &G[0], &q[0], &Binv[0], S); else hybsys_cellcontrib_symm(i, n, p1, p2[i], &G[0], &q[0], &Binv[0], S); for (int x = 0; x < n; ++x) { b[conn[p1 + x]] += S->r[x]; for (int y = 0; y < n; ++y) A[(size_t) conn[p1 + x] * m + conn[p1 + y]] += S->S[x + n * y]; } }
    if (kind == 0) A[0] += *std::max_element(Binv.begin(), Binv.end()); // pure flux conditions leave a constant undetermined
    // eliminate
    D pi(m); { std::vector<LD> M(A), r(b); LD top = 0; for (LD x : M) top = std::max(top, std::fabs(x)); for (int k = 0; k < m; ++k) { int u = k; for (int i = k; i < m; ++i) if (std::fabs(M[(size_t) i * m + k]) > std::fabs(M[(size_t) u * m + k])) u = i; if (std::fabs(M[(size_t) u * m + k]) < 1e-6L * top) throw pbt::Discard(); for (int j = 0; j < m; ++j) std::swap(M[(size_t) k * m + j], M[(size_t) u * m + j]); std::swap(r[k], r[u]); for (int i = k + 1; i < m; ++i) { const LD t = M[(size_t) i * m + k] / M[(size_t) k * m + k]; for (int j = k; j < m; ++j) M[(size_t) i * m + j] -= t * M[(size_t) k * m + j]; r[i] -= t * r[k]; } }
      for (int i = m - 1; i >= 0; --i) { LD s = r[i]; for (int j = i + 1; j < m; ++j) s -= M[(size_t) i * m + j] * pi[j]; pi[i] = (double) (s / M[(size_t) i * m + i]); } }
    D press(nc, -7), v(N, -7), work(mx + 1); hybsys_compute_press_flux(nc, &pos[0], &conn[0], &G[0], &Binv[0], S, &pi[0], &press[0], &v[0], &work[0]); double big = 1; for (double x : pi) big = std::max(big, std::fabs(x)); double bb = 0; for (double x : Binv) bb = std::max(bb, std::fabs(x)); const double tol = 1e-9 * big * bb * 10; std::vector<LD> out(m, 0);
    for (int i = 0; i < nc; ++i) { const int n = pos[i + 1] - pos[i], p1 = pos[i]; LD bal = -(LD) P[i] * press[i]; for (int x = 0; x < n; ++x) { LD w = 0; for (int y = 0; y < n; ++y) w += (LD) Binv[p2[i] + x * n + y] * (G[p1 + y] + press[i] - pi[conn[p1 + y]]); c.check(std::fabs(v[p1 + x] - w) <= tol, "flux", "cell %d, interface %d: flux %.12g, B v = G + C1 p - D pi gives %.12Lg", i, conn[p1 + x], v[p1 + x], w); bal += (LD) C2[p1 + x] * v[p1 + x]; out[conn[p1 + x]] += v[p1 + x]; } c.check(std::fabs(bal - q[i]) <= tol * 10, "cell", "cell %d: C2'v - P p = %.12Lg instead of %.12g", i, bal, q[i]); }
    if (kind) for (int f = 0; f < m; ++f) c.check(std::fabs(out[f] - h[f]) <= tol * 100, "interface", "interface %d: fluxes add up to %.12Lg instead of %.12g", f, out[f], h[f]);
    else { LD s = 0; for (int f = 0; f < m; ++f) s += out[f]; for (int f = 1; f < m; ++f) c.check(std::fabs(out[f] - h[f]) <= tol * 100, "interface", "interface %d: fluxes add up to %.12Lg instead of %.12g", f, out[f], h[f]); }
}
}

pbt::Spec pbt::spec()
{
    return { "C19", "Cartesian, polyhedral and corner-point grids of at most 30 cells with symmetric positive definite tensors; up to three wells that may share cells, boundary pressures and fluxes, sources, gravity, one or two solves per object; blocks: the elementwise reduction for random elements, symmetric, with C2 = C1 - V and general, whose recovered fluxes and pressures must satisfy the block system; non-trivial: more than one cell",
        { "flux conditions of the hybrid solvers give the outflow (the two-point solver takes them as inflow)", "the caller clears matrix and right-hand side before assembling, as the accumulation interface requires", "corner-point cells are not used for exactness claims (faces not planar)" }, 40000, 800000,
        { { "inner-product", 2, innerProduct }, { "incompressible", 3, incompressible }, { "compressible", 1, compressible }, { "linear", 2, linearField }, { "blocks", 2, blocks } } };
}
