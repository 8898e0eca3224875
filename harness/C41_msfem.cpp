// C41: the multiscale mixed solver against a reference built from its definition.
#include "flowgen.hpp"
extern "C" {
#include <opm/core/pressure/msmfem/ifsh_ms.h>
#include <opm/core/linalg/sparse_sys.h>
}
#include <map>

namespace {
typedef std::vector<double> D;
typedef std::vector<LD> L;

bool g_singular = false;
void denseSolve(struct CSRMatrix* A, double* b, double* x)
{
    const int n = (int) A->m; std::vector<LD> M((size_t) n * n, 0), r(b, b + n), y;
    for (int i = 0; i < n; ++i) for (int q = A->ia[i]; q < A->ia[i + 1]; ++q) M[(size_t) i * n + A->ja[q]] += A->sa[q];
    if (!luSolve(M, r, y)) { g_singular = true; y.assign(n, 0); }
    for (int i = 0; i < n; ++i) x[i] = (double) y[i];
}
struct MsDel { void operator()(ifsh_ms_data* h) const { ifsh_ms_destroy(h); } };

// Connected blocks grown from seeds; block numbers in arbitrary order.
std::vector<int> genBlocks(Gen& g, const UnstructuredGrid& G, int nb)
{
    const int nc = G.number_of_cells; std::vector<std::vector<int> > nbr(nc);
    for (int f = 0; f < G.number_of_faces; ++f) { const int a = G.face_cells[2 * f], b = G.face_cells[2 * f + 1]; if (a >= 0 && b >= 0) { nbr[a].push_back(b); nbr[b].push_back(a); } }
    std::vector<int> p(nc, -1); const std::vector<int> s = g.perm(nc); std::vector<std::vector<int> > front(nb);
    for (int b = 0; b < nb; ++b) { p[s[b]] = b; front[b].push_back(s[b]); }
    for (int left = nc - nb; left > 0;) {
        int b = g.i(0, nb - 1); bool got = false;
        for (int k = 0; k < nb && !got; ++k, b = (b + 1) % nb) for (int c : front[b]) { for (int e : nbr[c]) if (p[e] < 0) { p[e] = b; front[b].push_back(e); got = true; break; } if (got) break; }
        if (!got) throw pbt::Discard();
        --left;
    }
    return p;
}

// Fluxes with unit source distributed by w in the first block, drained from the second, and no flow out of the two.
struct Basis { int b[2]; L psi; };
struct Ref { std::vector<Basis> bf; L t; std::vector<int> p; int nb; };

Ref reference(Ctx& c, const UnstructuredGrid& G, const std::vector<int>& p, int nb, const D& K, const HalfTrans& ht, const D& src, const D& mob)
{
    const int nc = G.number_of_cells, nf = G.number_of_faces, d = G.dimensions; Ref r; r.p = p; r.nb = nb; r.t = ht.t;
    L w(nc), sum(nb, 0); std::vector<char> has(nb, 0);
    for (int e = 0; e < nc; ++e) if (src[e] != 0) has[p[e]] = 1;
    for (int e = 0; e < nc; ++e) { LD tr = 0; for (int k = 0; k < d; ++k) tr += K[(size_t) e * d * d + k * (d + 1)]; w[e] = has[p[e]] ? (LD) src[e] : tr * G.cell_volumes[e]; sum[p[e]] += w[e]; }
    for (int e = 0; e < nc; ++e) w[e] /= sum[p[e]];
    std::map<std::pair<int, int>, int> seen;
    for (int f = 0; f < nf; ++f) {
        const int a = G.face_cells[2 * f], b = G.face_cells[2 * f + 1]; if (a < 0 || b < 0 || p[a] == p[b]) continue;
        const std::pair<int, int> key(std::min(p[a], p[b]), std::max(p[a], p[b])); if (seen.count(key)) continue; seen[key] = (int) r.bf.size();
        Basis q; q.b[0] = key.first; q.b[1] = key.second; q.psi.assign(nf, 0);
        std::vector<int> loc(nc, -1), cells; for (int e = 0; e < nc; ++e) if (p[e] == key.first || p[e] == key.second) { loc[e] = (int) cells.size(); cells.push_back(e); }
        const int n = (int) cells.size(); std::vector<LD> M((size_t) n * n, 0), rhs(n), x; L T(nf, 0);
        for (int h = 0; h < nf; ++h) {
            const int u = G.face_cells[2 * h], v = G.face_cells[2 * h + 1]; if (u < 0 || v < 0 || loc[u] < 0 || loc[v] < 0) continue;
            T[h] = 1 / (1 / (mob[u] * ht.t[halfFace(G, u, h)]) + 1 / (mob[v] * ht.t[halfFace(G, v, h)]));
            M[(size_t) loc[u] * n + loc[u]] += T[h]; M[(size_t) loc[v] * n + loc[v]] += T[h]; M[(size_t) loc[u] * n + loc[v]] -= T[h]; M[(size_t) loc[v] * n + loc[u]] -= T[h];
        }
        for (int k = 0; k < n; ++k) rhs[k] = p[cells[k]] == key.first ? w[cells[k]] : -w[cells[k]];
        M[0] *= 2;
        if (!luSolve(M, rhs, x)) throw pbt::Discard();
        for (int h = 0; h < nf; ++h) if (T[h] != 0) q.psi[h] = T[h] * (x[loc[G.face_cells[2 * h]]] - x[loc[G.face_cells[2 * h + 1]]]);
        r.bf.push_back(q);
    }
    return r;
}

void solve(Gen& g, Ctx& c)
{
    AnyGrid a = genGrid(g, 7, 30); UnstructuredGrid& G = *a.G; const int d = G.dimensions, nc = G.number_of_cells, nf = G.number_of_faces;
    int ncomp; components(G, ncomp); if (ncomp > 1 || nc < 2) throw pbt::Discard();
    for (int e = 0; e < nc; ++e) if (!(G.cell_volumes[e] > 0)) throw pbt::Discard();
    for (int f = 0; f < nf; ++f) if (G.face_cells[2 * f] < 0 && G.face_cells[2 * f + 1] < 0) throw pbt::Discard();
    D K((size_t) nc * d * d); const bool hom = g.p(1, 4), dia = g.p(2, 3); for (int e = 0; e < nc; ++e) { if (hom && e) std::copy(&K[0], &K[0] + d * d, &K[(size_t) e * d * d]); else genTensor(g, d, &K[(size_t) e * d * d], dia, 0.05, 20.0); }
    const HalfTrans ht = halfTrans(G, &K[0]); LD tmin = 1e300L, tmax = 0; for (LD t : ht.t) { tmin = std::min(tmin, t); tmax = std::max(tmax, t); }
    if (!(tmin > 0) || tmax / tmin > 1e5L || ht.worst > 1e4L) throw pbt::Discard();
    const int kind = g.i(0, 3); const int nb = kind == 0 ? nc : g.i(2, std::min(nc, 8)); const std::vector<int> p = genBlocks(g, G, nb);
    const double m0 = g.logreal(0.01, 100); auto mobs = [&](D& m) { const bool u = g.p(1, 4); m.resize(nc); const double u0 = m0 * g.logreal(0.1, 10); for (double& x : m) x = u ? u0 : m0 * g.logreal(0.1, 10); };
    // sources that sum to zero, and in no block cancel
    auto sources = [&](D& s) {
        s.assign(nc, 0.0); const int n = g.i(1, 4); double tot = 0; std::vector<int> sg(nb, 0); const double R = g.p(1, 4) ? g.logreal(1e-20, 1e8) : g.logreal(1e-3, 1e3);
        for (int k = 0; k < n; ++k) { const int e = g.i(0, nc - 1); if (sg[p[e]] == 0) sg[p[e]] = g.b() ? 1 : -1; const double x = R * sg[p[e]] * g.real(0.2, 2); s[e] += x; tot += x; }
        int e = -1; const std::vector<int> pm = g.perm(nc); for (int q : pm) if (sg[p[q]] == 0 || sg[p[q]] * tot < 0) { e = q; break; }
        if (e < 0) throw pbt::Discard(); s[e] -= tot;
    };
    D src, mob, src2, mob2; sources(src); mobs(mob);
    c.desc() << a.text << " blocks " << show(p, 40) << " src " << show(src, 40) << " mobilities " << show(mob, 6);
    c.nontrivial(nb > 1 && nb < nc); c.label("one cell per block", nb == nc); c.label(d == 2 ? "2D" : "3D"); c.label(a.kind == 0 ? "Cartesian" : a.kind == 1 ? "polyhedral" : "corner-point");
    // elimination in double precision loses the digits that the coefficients' contrast costs
    double ulo = 1e300, uhi = 0; auto contrast = [&](const D& m) { for (double u : m) ulo = std::min(ulo, u), uhi = std::max(uhi, u); }; contrast(mob);
    const Ref r = reference(c, G, p, nb, K, ht, src, mob); const int m = (int) r.bf.size();
    g_singular = false;
    std::unique_ptr<ifsh_ms_data, MsDel> h(ifsh_ms_construct(&G, &p[0], &K[0], &src[0], &mob[0], denseSolve));
    c.check(h.get() != 0, "construct", "no solver was constructed"); c.check(!g_singular, "local-problem", "a local problem is singular");
    c.check((int) h->A->m == m, "size", "%d coarse unknowns for %d pairs of neighbouring blocks", (int) h->A->m, m);
    const int ns = g.i(1, 3);
    for (int k = 0; k < ns; ++k) {
        src2 = src; mob2 = mob; const bool other = k > 0 && g.b(); if (other) sources(src2); const bool newmob = k > 0 && g.p(2, 3); if (newmob) mobs(mob2); contrast(mob2); const LD tol = 1e-8L + 1e-13L * (tmax / tmin) * (uhi / ulo);
        c.label("other sources than constructed with", other); c.label("other mobilities than constructed with", newmob);
        ifsh_ms_assemble(&src2[0], &mob2[0], h.get());
        denseSolve(h->A, h->b, h->x); c.check(!g_singular, "coarse-system", "the coarse system is singular");
        D pr(nc, -1e300), fx(nf, -1e300); ifsh_ms_press_flux(&G, h.get(), &pr[0], &fx[0]);
        // mixed system of the basis functions
        const int n = m + nb; std::vector<LD> M((size_t) n * n, 0), rhs(n, 0), x; LD big = 0;
        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) {
            LD s = 0; for (int f = 0; f < nf; ++f) if (r.bf[i].psi[f] != 0 && r.bf[j].psi[f] != 0) for (int q = 0; q < 2; ++q) { const int e = G.face_cells[2 * f + q]; const int b = p[e]; if ((b == r.bf[i].b[0] || b == r.bf[i].b[1]) && (b == r.bf[j].b[0] || b == r.bf[j].b[1])) s += r.bf[i].psi[f] * r.bf[j].psi[f] / (mob2[e] * ht.t[halfFace(G, e, f)]); }
            M[(size_t) i * n + j] = s; big = std::max(big, std::fabs(s));
        }
        for (int j = 0; j < m; ++j) { M[(size_t) j * n + m + r.bf[j].b[0]] = -1; M[(size_t) j * n + m + r.bf[j].b[1]] = 1; M[(size_t) (m + r.bf[j].b[0]) * n + j] = 1; M[(size_t) (m + r.bf[j].b[1]) * n + j] = -1; }
        for (int e = 0; e < nc; ++e) rhs[m + p[e]] += src2[e];
        for (int j = 0; j < n; ++j) M[(size_t) (n - 1) * n + j] = j == n - 1;
        rhs[n - 1] = 0;
        if (!luSolve(M, rhs, x)) throw pbt::Discard();
        LD R = 0, P = 0; for (double s : src2) R += std::fabs(s); for (int j = 0; j < m; ++j) R = std::max(R, std::fabs(x[j])); for (int b = 0; b < nb; ++b) P = std::max(P, std::fabs(x[m + b])); P = std::max(P, R * 1e-3L / (m0 * tmax));
        L psum(nf, 0), tot(nf, 0); for (int j = 0; j < m; ++j) for (int f = 0; f < nf; ++f) tot[f] += x[j] * r.bf[j].psi[f];
        for (int f = 0; f < nf; ++f) {
            const bool outer = G.face_cells[2 * f] < 0 || G.face_cells[2 * f + 1] < 0;
            if (outer) c.check(std::fabs(fx[f]) <= 1e-9L * R, "no-flow", "flux %g through outer face %d (scale %.3g)", fx[f], f, (double) R);
            else c.check(std::fabs(fx[f] - tot[f]) <= tol * R, "flux", "face %d (cells %d %d): flux %.12g instead of %.12g (scale %.3g)", f, G.face_cells[2 * f], G.face_cells[2 * f + 1], fx[f], (double) tot[f], (double) R);
        }
        for (int e = 0; e < nc; ++e) c.check(std::fabs((pr[e] - pr[0]) - (x[m + p[e]] - x[m + p[0]])) <= tol * P, "pressure", "cell %d: pressure above that of cell 0 %.12g instead of %.12g", e, pr[e] - pr[0], (double) (x[m + p[e]] - x[m + p[0]]));
        L net(nc, 0), bn(nb, 0); for (int f = 0; f < nf; ++f) { const int u = G.face_cells[2 * f], v = G.face_cells[2 * f + 1]; if (u >= 0) net[u] += fx[f]; if (v >= 0) net[v] -= fx[f]; }
        for (int e = 0; e < nc; ++e) { net[e] -= src2[e]; bn[p[e]] += net[e]; if (!other) c.check(std::fabs(net[e]) <= tol * R, "mass-balance", "cell %d: outflow minus source is %.6g (scale %.3g)", e, (double) net[e], (double) R); }
        for (int b = 0; b < nb; ++b) c.check(std::fabs(bn[b]) <= tol * R, "block-balance", "block %d: outflow minus sources is %.6g (scale %.3g)", b, (double) bn[b], (double) R);
        if (nb == nc) { // the fine two-point solution itself
            for (int f = 0; f < nf; ++f) { const int u = G.face_cells[2 * f], v = G.face_cells[2 * f + 1]; if (u < 0 || v < 0) continue; LD s = 0, T = 0; for (int h2 = 0; h2 < nf; ++h2) { const int y = G.face_cells[2 * h2], z = G.face_cells[2 * h2 + 1]; if (std::minmax(y, z) == std::minmax(u, v)) { T += 1 / (1 / (mob2[y] * ht.t[halfFace(G, y, h2)]) + 1 / (mob2[z] * ht.t[halfFace(G, z, h2)])); s += y == u ? fx[h2] : -fx[h2]; } }
                if (!newmob || T == 1 / (1 / (mob2[u] * ht.t[halfFace(G, u, f)]) + 1 / (mob2[v] * ht.t[halfFace(G, v, f)]))) c.check(std::fabs(s - T * (pr[u] - pr[v])) <= tol * (R + T * P), "fine-solution", "cells %d %d: flux %.12g instead of %.12g", u, v, (double) s, (double) (T * (pr[u] - pr[v]))); }
        }
    }
    c.label("several solves", ns > 1);
}
}

pbt::Spec pbt::spec()
{
    return { "C41", "Connected Cartesian, polyhedral and corner-point grids of 2 to 30 cells cut into 2 to 8 connected blocks (or one block per cell), permeability tensors with positive half-transmissibilities, variable mobilities, sources that sum to zero but do not cancel within a block, one to three solves per object with other mobilities and sources; non-trivial: some block has several cells",
        { "boundaries are closed and there is no gravity, the only setting the solver has", "the grid and every block are connected, there are at least two blocks, and no block's sources cancel (the weighting is undefined then)", "pressure is determined up to a constant" }, 20000, 400000,
        { { "solve", 1, solve } } };
}
