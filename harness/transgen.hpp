// Topology-only grids (any graph, any numbering) and flux fields for transport problems.
#ifndef VERIF_TRANSGEN_HPP
#define VERIF_TRANSGEN_HPP
#include "flowgen.hpp"

// Owns a grid: the index structure always, geometry when copied from a grid that has one.
struct Topo {
    std::vector<int> fc, cfp, cf, tag; std::vector<double> fa, fn, fx, cx, cv; UnstructuredGrid G;
    Topo() { std::memset(&G, 0, sizeof G); }
    Topo(const Topo& o) : fc(o.fc), cfp(o.cfp), cf(o.cf), tag(o.tag), fa(o.fa), fn(o.fn), fx(o.fx), cx(o.cx), cv(o.cv), G(o.G) { link(); }
    Topo& operator=(const Topo& o) { fc = o.fc; cfp = o.cfp; cf = o.cf; tag = o.tag; fa = o.fa; fn = o.fn; fx = o.fx; cx = o.cx; cv = o.cv; G = o.G; link(); return *this; }
    void link()
    {
        G.face_cells = fc.data(); G.cell_facepos = cfp.data(); G.cell_faces = cf.data(); G.cell_facetag = tag.empty() ? 0 : tag.data(); G.face_areas = fa.data(); G.face_normals = fn.data(); G.face_centroids = fx.data(); G.cell_centroids = cx.data(); G.cell_volumes = cv.data();
        G.face_nodes = G.face_nodepos = 0; G.node_coordinates = 0; G.global_cell = 0; G.number_of_nodes = 0;
    }
    std::string str() const { return pbt::fmt("%d cells, faces ", G.number_of_cells) + show(fc, 60); }
};
inline void finishTopo(Topo& t, int nc, Gen* g)
{
    const int nf = (int) t.fc.size() / 2; t.G.number_of_cells = nc; t.G.number_of_faces = nf; if (!t.G.dimensions) t.G.dimensions = 3;
    std::vector<std::vector<int> > l(nc); for (int f = 0; f < nf; ++f) for (int s = 0; s < 2; ++s) if (t.fc[2 * f + s] >= 0) l[t.fc[2 * f + s]].push_back(f);
    t.cfp.assign(1, 0); t.cf.clear();
    for (auto& r : l) { if (g && g->b()) { const std::vector<int> p = g->perm((int) r.size()); std::vector<int> q; for (int k : p) q.push_back(r[k]); r = q; } t.cf.insert(t.cf.end(), r.begin(), r.end()); t.cfp.push_back((int) t.cf.size()); }
    t.link();
}
inline Topo topoOf(const UnstructuredGrid& G)
{
    const int d = G.dimensions, nf = G.number_of_faces, nc = G.number_of_cells; Topo t; t.G.dimensions = d; t.G.number_of_cells = nc; t.G.number_of_faces = nf;
    t.fc.assign(G.face_cells, G.face_cells + 2 * nf); t.cfp.assign(G.cell_facepos, G.cell_facepos + nc + 1); t.cf.assign(G.cell_faces, G.cell_faces + G.cell_facepos[nc]);
    if (G.cell_facetag) t.tag.assign(G.cell_facetag, G.cell_facetag + G.cell_facepos[nc]);
    t.fa.assign(G.face_areas, G.face_areas + nf); t.fn.assign(G.face_normals, G.face_normals + (size_t) d * nf); t.fx.assign(G.face_centroids, G.face_centroids + (size_t) d * nf); t.cx.assign(G.cell_centroids, G.cell_centroids + (size_t) d * nc); t.cv.assign(G.cell_volumes, G.cell_volumes + nc);
    for (int a = 0; a < 3; ++a) t.G.cartdims[a] = G.cartdims[a];
    t.link(); return t;
}
inline Topo genTopo(Gen& g, int maxc)
{
    const int kind = g.i(0, 5); Topo t;
    if (kind == 5) { AnyGrid a = genGrid(g, 7, maxc); return topoOf(*a.G); }
    const int nc = g.size(1, maxc);
    auto add = [&](int a, int b) { if (a >= 0 && b >= 0 && a == b) return; if (g.b()) std::swap(a, b); t.fc.push_back(a); t.fc.push_back(b); };
    if (kind == 0) { for (int k = 0; k + 1 < nc; ++k) add(k, k + 1); if (g.b() && nc > 2) add(nc - 1, 0); }                                       // line or ring
    else if (kind == 1) { const int w = std::max(1, (int) std::sqrt((double) nc)); for (int k = 0; k < nc; ++k) { if ((k + 1) % w && k + 1 < nc) add(k, k + 1); if (k + w < nc) add(k, k + w); } }   // rectangle
    else { const int m = g.i(0, 3 * nc); if (kind != 4) for (int k = 1; k < nc; ++k) add(k, g.i(0, k - 1)); for (int k = 0; k < m; ++k) add(g.i(0, nc - 1), g.i(0, nc - 1)); }
    if (g.b()) { const int m = g.i(0, nc); for (int k = 0; k < m; ++k) add(g.i(0, nc - 1), -1); }
    finishTopo(t, nc, &g); return t;
}
// Relabelled copy: cell c becomes pc[c], face f becomes pf[f], reversed where rev[f].
inline Topo relabel(const Topo& t, const std::vector<int>& pc, const std::vector<int>& pf, const std::vector<char>& rev, Gen& g)
{
    Topo r; r.G.dimensions = t.G.dimensions; r.fc.resize(t.fc.size());
    for (int f = 0; f < t.G.number_of_faces; ++f) for (int s = 0; s < 2; ++s) { const int c = t.fc[2 * f + s]; r.fc[2 * pf[f] + (rev[f] ? 1 - s : s)] = c < 0 ? -1 : pc[c]; }
    finishTopo(r, t.G.number_of_cells, &g); return r;
}

// Fluxes (positive from the first to the second cell of a face) and a source per cell with exact balance:
// q + net inflow over interior faces + boundary inflow = 0, all multiples of one power of two.
struct Flow { std::vector<double> v, q, bin; double unit; int kind; };
inline Flow genFlow(Gen& g, const UnstructuredGrid& G, bool boundary = true, bool si = true)
{
    const int nc = G.number_of_cells, nf = G.number_of_faces; Flow w; w.v.assign(nf, 0.0); w.q.assign(nc, 0.0); w.bin.assign(nc, 0.0);
    w.unit = std::ldexp(1.0, si ? g.pick(std::vector<int>{ 0, -10, -20, 4 }) : 0); w.kind = g.i(0, 3);
    auto cell = [&](int f, int s) { return G.face_cells[2 * f + s]; };
    auto interior = [&](int f) { return cell(f, 0) >= 0 && cell(f, 1) >= 0; };
    if (boundary && g.b()) for (int f = 0; f < nf; ++f) if ((cell(f, 0) < 0) != (cell(f, 1) < 0) && g.b()) w.v[f] = g.i(-4, 4);
    std::vector<double> rank(nc); for (double& x : rank) x = g.real(0, 1);
    if (w.kind == 0) { for (int f = 0; f < nf; ++f) if (interior(f)) w.v[f] = g.i(-4, 4); }
    else if (w.kind == 1) { for (int f = 0; f < nf; ++f) if (interior(f)) { w.v[f] = g.i(0, 4); if (rank[cell(f, 0)] < rank[cell(f, 1)]) w.v[f] = -w.v[f]; } }    // no circulation
    else if (w.kind == 2) {                                                    // paths from sources to sinks, and loops
        const int np = g.i(0, 6);
        for (int k = 0; k < np; ++k) {
            int c = g.i(0, nc - 1); const int len = g.i(0, 2 * nc); const double a = g.i(1, 3);
            for (int q = 0; q < len; ++q) { const int n = G.cell_facepos[c + 1] - G.cell_facepos[c]; if (!n) break; const int f = G.cell_faces[G.cell_facepos[c] + g.i(0, n - 1)]; if (!interior(f)) continue; if (cell(f, 0) == c) { w.v[f] += a; c = cell(f, 1); } else { w.v[f] -= a; c = cell(f, 0); } }
        }
    } else {                                                                   // few sources, balance carried by a spanning tree
        std::vector<int> par(nc, -2), pf(nc, -1), ord; std::vector<double> need(nc, 0.0); std::vector<char> tree(nf, 0);
        for (int s = 0; s < nc; ++s) {
            if (par[s] != -2) continue;
            size_t h = ord.size(); ord.push_back(s); par[s] = -1;
            for (; h < ord.size(); ++h) { const int c = ord[h]; for (int k = G.cell_facepos[c]; k < G.cell_facepos[c + 1]; ++k) { const int f = G.cell_faces[k]; if (!interior(f)) continue; const int o = cell(f, 0) == c ? cell(f, 1) : cell(f, 0); if (par[o] == -2) { par[o] = c; pf[o] = f; tree[f] = 1; ord.push_back(o); } } }
        }
        const bool loops = g.b(); for (int f = 0; f < nf; ++f) if (interior(f) && !tree[f] && loops) w.v[f] = g.i(-3, 3);
        for (int c = 0; c < nc; ++c) if (g.p(1, 6)) need[c] = g.i(-4, 4);
        for (int f = 0; f < nf; ++f) { if (cell(f, 0) >= 0) need[cell(f, 0)] -= w.v[f]; if (cell(f, 1) >= 0) need[cell(f, 1)] += w.v[f]; }
        for (size_t k = ord.size(); k-- > 0;) { const int c = ord[k]; if (pf[c] < 0) continue; const int f = pf[c]; w.v[f] = cell(f, 0) == c ? need[c] : -need[c]; need[par[c]] += need[c]; }
    }
    for (int f = 0; f < nf; ++f) for (int s = 0; s < 2; ++s) if (cell(f, s) >= 0) { const double out = s == 0 ? w.v[f] : -w.v[f]; if (cell(f, 1 - s) < 0) w.bin[cell(f, s)] -= out; w.q[cell(f, s)] += out; }
    for (double& x : w.v) x *= w.unit;
    for (double& x : w.q) x *= w.unit;
    for (double& x : w.bin) x *= w.unit;
    return w;
}
inline void genPorevol(Gen& g, int nc, std::vector<double>& pv) { pv.resize(nc); const int m = g.i(0, 2); for (int c = 0; c < nc; ++c) pv[c] = m == 0 && c ? pv[0] : g.logreal(0.1, m == 2 ? 100 : 10); }
// Largest slope of the fractional flow of phase 0
inline double fracSlope(const Fluid& f, int c)
{
    double m = 0, o = 0; for (int k = 0; k <= 400; ++k) { const double s[2] = { k / 400.0, 1 - k / 400.0 }; const double a = f.mob(c, s, 0), b = f.mob(c, s, 1), v = a / (a + b); if (k) m = std::max(m, (v - o) * 400); o = v; }
    return 1.3 * m + 0.1;
}
// Flux of phase 0 over a face from a to b: each mobility is taken from the side that phase comes from.
// All consistent choices give the same flux.
inline LD phaseFlux(Ctx& c, LD d, LD g, const double* ma, const double* mb)
{
    LD r = 0, sz = 0; int n = 0;
    for (int k = 0; k < 4; ++k) {
        const LD w = (k & 1 ? mb : ma)[0], o = (k & 2 ? mb : ma)[1], vw = d + o * g, vo = d - w * g;
        if ((k & 1 ? vw > 0 : vw < 0) || (k & 2 ? vo > 0 : vo < 0)) continue;
        if (w + o == 0) continue;
        const LD f = w / (w + o) * vw; sz = std::max(sz, std::fabs(f));
        if (n++) c.check(std::fabs(f - r) <= 1e-15L * (std::fabs(d) + std::fabs(g) * (ma[0] + ma[1] + mb[0] + mb[1])), "oracle", "two consistent upwind choices differ: %Lg %Lg", f, r);
        r = f;
    }
    return r;
}
#endif
