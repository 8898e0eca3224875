// Random complexes of polyhedra (3D) or polygons (2D) with planar faces: a box cut by random
// planes (a hyperplane arrangement, so faces always match), optionally merged cells (3D, faces
// stay convex), extra nodes on edges, an affine image, and random numbering of everything.
#ifndef VERIF_POLYGEN_HPP
#define VERIF_POLYGEN_HPP
#include "common.hpp"
#include <map>

struct Poly {
    typedef std::array<double, 3> P;
    struct Face { std::vector<int> nodes; int c[2]; };
    int d; std::vector<P> X; std::vector<Face> faces; int nc;
    double L, shift;   // size of the box image and distance from the origin
    bool merged, collinear;
    // exact geometry
    std::vector<double> area, vol; std::vector<P> fcen, nrm, ccen;

    std::string str() const
    {
        std::ostringstream o; o.precision(17);
        o << d << "D cells=" << nc << " faces=" << faces.size() << " nodes=" << X.size() << (merged ? " merged" : "") << (collinear ? " edge-nodes" : "") << " X=";
        for (size_t v = 0; v < X.size() && v < 40; ++v) { o << "("; for (int k = 0; k < d; ++k) o << (k ? "," : "") << X[v][k]; o << ")"; }
        o << " F=";
        for (size_t f = 0; f < faces.size() && f < 60; ++f) { o << "{"; for (size_t k = 0; k < faces[f].nodes.size(); ++k) o << (k ? "," : "") << faces[f].nodes[k]; o << "|" << faces[f].c[0] << "," << faces[f].c[1] << "}"; }
        return o.str();
    }
    static P sub(const P& a, const P& b) { P r = { { a[0] - b[0], a[1] - b[1], a[2] - b[2] } }; return r; }
    static P cross(const P& a, const P& b) { P r = { { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] } }; return r; }
    static double dot(const P& a, const P& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

    // vector area by a fan from node 0 (planar face)
    P vecArea(const Face& f) const
    {
        P n = { { 0, 0, 0 } };
        if (d == 2) { const P& a = X[f.nodes[0]]; const P& b = X[f.nodes[1]]; n[0] = b[1] - a[1]; n[1] = -(b[0] - a[0]); return n; }
        for (size_t k = 1; k + 1 < f.nodes.size(); ++k) { const P w = cross(sub(X[f.nodes[k]], X[f.nodes[0]]), sub(X[f.nodes[k + 1]], X[f.nodes[0]])); for (int q = 0; q < 3; ++q) n[q] += 0.5 * w[q]; }
        return n;
    }
    void box()
    {
        nc = 1; merged = collinear = false; faces.clear(); X.clear();
        for (int k = 0; k < (d == 3 ? 2 : 1); ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) { P p = { { (double) i, (double) j, (double) k } }; X.push_back(p); }
        static const int f3[6][4] = { {0,4,6,2}, {1,3,7,5}, {0,1,5,4}, {2,6,7,3}, {0,2,3,1}, {4,5,7,6} };
        static const int f2[4][2] = { {2,0}, {1,3}, {0,1}, {3,2} };
        for (int f = 0; f < 2 * d; ++f) { Face F; F.nodes.assign(d == 3 ? f3[f] : f2[f], d == 3 ? f3[f] + 4 : f2[f] + 2); F.c[0] = 0; F.c[1] = -1; faces.push_back(F); }
    }
    // Cut everything with the plane n.x = off.  Returns false (unchanged) if a node is too close.
    bool cut(const P& n, double off, double eps)
    {
        std::vector<double> s(X.size());
        for (size_t v = 0; v < X.size(); ++v) { s[v] = dot(n, X[v]) - off; if (std::fabs(s[v]) < eps) return false; }
        std::vector<int> sg(nc, 0);     // bit 0: has -, bit 1: has +
        for (const Face& F : faces) for (int v : F.nodes) for (int q = 0; q < 2; ++q) if (F.c[q] >= 0) sg[F.c[q]] |= s[v] > 0 ? 2 : 1;
        std::vector<int> plus(nc, -1); int m = nc;
        for (int c = 0; c < nc; ++c) if (sg[c] == 3) plus[c] = m++;
        std::map<std::pair<int, int>, int> cutnode;
        auto node = [&](int a, int b) {
            std::pair<int, int> e(std::min(a, b), std::max(a, b));
            auto it = cutnode.find(e); if (it != cutnode.end()) return it->second;
            const double t = s[e.first] / (s[e.first] - s[e.second]);
            P p; for (int q = 0; q < 3; ++q) p[q] = X[e.first][q] + t * (X[e.second][q] - X[e.first][q]);
            X.push_back(p); return cutnode[e] = (int) X.size() - 1;
        };
        std::vector<std::vector<int> > seg(nc);     // cut nodes per cell, in pairs (3D) or single (2D)
        std::vector<Face> out;
        for (const Face& F : faces) {
            Face fm, fp; fm.c[0] = F.c[0]; fm.c[1] = F.c[1];
            for (int q = 0; q < 2; ++q) fp.c[q] = F.c[q] >= 0 && plus[F.c[q]] >= 0 ? plus[F.c[q]] : F.c[q];
            std::vector<int> cutn; const int nn = (int) F.nodes.size();
            for (int k = 0; k < nn; ++k) {
                const int a = F.nodes[k], b = F.nodes[(k + 1) % nn];
                (s[a] > 0 ? fp : fm).nodes.push_back(a);
                if (d == 2 && k == 1) break;
                if ((s[a] > 0) != (s[b] > 0)) { const int v = node(a, b); cutn.push_back(v); fm.nodes.push_back(v); fp.nodes.push_back(v); }
            }
            if (fm.nodes.size()) out.push_back(fm);
            if (fp.nodes.size()) out.push_back(fp);
            for (int q = 0; q < 2; ++q) if (F.c[q] >= 0) for (int v : cutn) seg[F.c[q]].push_back(v);
        }
        for (int c = 0; c < nc; ++c) if (plus[c] >= 0) {
            Face F; F.c[0] = c; F.c[1] = plus[c];
            if (d == 2) { F.nodes.assign(seg[c].begin(), seg[c].end()); }
            else {
                std::multimap<int, int> adj;
                for (size_t k = 0; k < seg[c].size(); k += 2) { adj.insert(std::make_pair(seg[c][k], seg[c][k + 1])); adj.insert(std::make_pair(seg[c][k + 1], seg[c][k])); }
                int v = seg[c][0], prev = -1; const int v0 = v;
                do { F.nodes.push_back(v); auto r = adj.equal_range(v); int w = -1; for (auto it = r.first; it != r.second; ++it) if (it->second != prev) { w = it->second; break; } prev = v; v = w; } while (v != v0 && v >= 0);
            }
            if (dot(vecArea(F), n) < 0) std::reverse(F.nodes.begin(), F.nodes.end());
            out.push_back(F);
        }
        faces.swap(out); nc = m;
        return true;
    }
    void compact()
    {
        std::vector<int> id(nc, -1); int m = 0;
        for (const Face& F : faces) for (int q = 0; q < 2; ++q) if (F.c[q] >= 0 && id[F.c[q]] < 0) id[F.c[q]] = m++;
        for (Face& F : faces) for (int q = 0; q < 2; ++q) if (F.c[q] >= 0) F.c[q] = id[F.c[q]];
        nc = m;
        std::vector<int> nid(X.size(), -1); std::vector<P> Y;
        for (Face& F : faces) for (int& v : F.nodes) { if (nid[v] < 0) { nid[v] = (int) Y.size(); Y.push_back(X[v]); } v = nid[v]; }
        X.swap(Y);
    }
    void merge(int f)
    {
        const int a = faces[f].c[0], b = faces[f].c[1];
        if (a < 0 || b < 0) return;
        std::vector<Face> out;
        for (Face F : faces) { for (int q = 0; q < 2; ++q) if (F.c[q] == b) F.c[q] = a; if (F.c[0] != F.c[1]) out.push_back(F); }
        faces.swap(out); merged = true;
    }
    void edgeNode(int f, int k, double t)
    {
        const std::vector<int> nd = faces[f].nodes; const int a = nd[k], b = nd[(k + 1) % nd.size()];
        P p; for (int q = 0; q < 3; ++q) p[q] = X[a][q] + t * (X[b][q] - X[a][q]);
        X.push_back(p); const int v = (int) X.size() - 1; collinear = true;
        for (Face& F : faces) {
            const int nn = (int) F.nodes.size();
            for (int q = 0; q < nn; ++q) { const int x = F.nodes[q], y = F.nodes[(q + 1) % nn]; if ((x == a && y == b) || (x == b && y == a)) { F.nodes.insert(F.nodes.begin() + q + 1, v); break; } }
        }
    }
    void affine(const double* A, const P& t)
    {
        for (P& p : X) { P r = t; for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) r[a] += A[3 * a + b] * p[b]; p = r; }
        double det = d == 2 ? A[0] * A[4] - A[1] * A[3]
            : A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]);
        if (det < 0) for (Face& F : faces) std::reverse(F.nodes.begin(), F.nodes.end());
    }
    void exact()
    {
        const P o = X[0]; const int nf = (int) faces.size();
        area.assign(nf, 0); nrm.assign(nf, P()); fcen.assign(nf, P()); vol.assign(nc, 0); ccen.assign(nc, P());
        std::vector<std::array<long double, 4> > mom(nc); for (auto& m : mom) m.fill(0);
        for (int f = 0; f < nf; ++f) {
            const Face& F = faces[f];
            nrm[f] = vecArea(F); area[f] = std::sqrt(dot(nrm[f], nrm[f]));
            P u; for (int q = 0; q < 3; ++q) u[q] = nrm[f][q] / area[f];
            std::array<long double, 3> cen = { { 0, 0, 0 } }; long double tot = 0;
            const P a = sub(X[F.nodes[0]], o);
            std::array<long double, 4> m = { { 0, 0, 0, 0 } };   // of the simplices spanned with the origin o
            if (d == 2) {
                const P b = sub(X[F.nodes[1]], o);
                for (int q = 0; q < 2; ++q) cen[q] = 0.5L * (a[q] + b[q]); tot = 1;
                const long double w = 0.5L * ((long double) a[0] * b[1] - (long double) a[1] * b[0]);
                m[3] = w; for (int q = 0; q < 2; ++q) m[q] = w * (a[q] + b[q]) / 3.0L;
            } else for (size_t k = 1; k + 1 < F.nodes.size(); ++k) {
                const P b = sub(X[F.nodes[k]], o), c = sub(X[F.nodes[k + 1]], o);
                const long double w = 0.5L * dot(cross(sub(b, a), sub(c, a)), u);
                for (int q = 0; q < 3; ++q) cen[q] += w * (a[q] + b[q] + c[q]) / 3.0L; tot += w;
                const long double t = dot(cross(sub(b, a), sub(c, a)), a) / 6.0L;
                m[3] += t; for (int q = 0; q < 3; ++q) m[q] += t * (a[q] + b[q] + c[q]) / 4.0L;
            }
            for (int q = 0; q < 3; ++q) fcen[f][q] = q < d ? (double) (cen[q] / tot) + o[q] : 0.0;
            for (int s = 0; s < 2; ++s) if (F.c[s] >= 0) for (int q = 0; q < 4; ++q) mom[F.c[s]][q] += (s ? -1 : 1) * m[q];
        }
        for (int c = 0; c < nc; ++c) { vol[c] = (double) mom[c][3]; for (int q = 0; q < 3; ++q) ccen[c][q] = q < d ? (double) (mom[c][q] / mom[c][3]) + o[q] : 0.0; }
    }
    // Tetrahedra / triangles of cell c spanned with the cell's exact centroid: signed volume and vertices.
    struct Simplex { double v; P p[4]; };
    std::vector<Simplex> simplices(int c) const
    {
        std::vector<Simplex> r;
        for (const Face& F : faces) for (int s = 0; s < 2; ++s) if (F.c[s] == c) {
            if (d == 2) {
                Simplex S; S.p[0] = ccen[c]; S.p[1] = X[F.nodes[0]]; S.p[2] = X[F.nodes[1]];
                const P a = sub(S.p[1], S.p[0]), b = sub(S.p[2], S.p[0]); S.v = 0.5 * (a[0] * b[1] - a[1] * b[0]) * (s ? -1 : 1); r.push_back(S);
            } else for (size_t k = 1; k + 1 < F.nodes.size(); ++k) {
                Simplex S; S.p[0] = ccen[c]; S.p[1] = X[F.nodes[0]]; S.p[2] = X[F.nodes[k]]; S.p[3] = X[F.nodes[k + 1]];
                S.v = dot(cross(sub(S.p[1], S.p[0]), sub(S.p[2], S.p[0])), sub(S.p[3], S.p[0])) / 6.0 * (s ? -1 : 1); r.push_back(S);
            }
        }
        return r;
    }
    void renumber(Gen& g)
    {
        std::vector<int> pn = g.perm((int) X.size()), pc = g.perm(nc), pf = g.perm((int) faces.size());
        std::vector<P> Y(X.size()); for (size_t v = 0; v < X.size(); ++v) Y[pn[v]] = X[v]; X.swap(Y);
        std::vector<Face> ff(faces.size());
        for (size_t f = 0; f < faces.size(); ++f) {
            Face F = faces[f]; for (int& v : F.nodes) v = pn[v]; for (int q = 0; q < 2; ++q) if (F.c[q] >= 0) F.c[q] = pc[F.c[q]];
            if (d == 3) std::rotate(F.nodes.begin(), F.nodes.begin() + g.i(0, (int) F.nodes.size() - 1), F.nodes.end());
            if (g.b()) { std::reverse(F.nodes.begin(), F.nodes.end()); std::swap(F.c[0], F.c[1]); }
            ff[pf[f]] = F;
        }
        faces.swap(ff);
    }
    // Grid without geometry (geometry = false) or with the exact geometry.
    GridPtr grid(Gen* g, bool geometry) const
    {
        size_t nfn = 0, ncf = 0;
        for (const Face& F : faces) { nfn += F.nodes.size(); ncf += (F.c[0] >= 0) + (F.c[1] >= 0); }
        UnstructuredGrid* G = allocate_grid(d, nc, faces.size(), nfn, ncf, X.size());
        for (int k = 0; k < 3; ++k) G->cartdims[k] = k == 0 ? nc : 1;
        for (size_t v = 0; v < X.size(); ++v) for (int q = 0; q < d; ++q) G->node_coordinates[d * v + q] = X[v][q];
        std::vector<std::vector<int> > cf(nc); int p = 0;
        for (size_t f = 0; f < faces.size(); ++f) {
            G->face_nodepos[f] = p; for (int v : faces[f].nodes) G->face_nodes[p++] = v;
            for (int s = 0; s < 2; ++s) { G->face_cells[2 * f + s] = faces[f].c[s]; if (faces[f].c[s] >= 0) cf[faces[f].c[s]].push_back((int) f); }
        }
        G->face_nodepos[faces.size()] = p; p = 0;
        for (int c = 0; c < nc; ++c) {
            G->cell_facepos[c] = p; std::vector<int> pm(cf[c].size()); for (size_t k = 0; k < pm.size(); ++k) pm[k] = (int) k;
            if (g) pm = g->perm((int) cf[c].size());
            for (size_t k = 0; k < pm.size(); ++k) { G->cell_facetag[p] = 0; G->cell_faces[p++] = cf[c][pm[k]]; }
        }
        G->cell_facepos[nc] = p;
        const double bad = geometry ? 0 : std::numeric_limits<double>::quiet_NaN();
        for (size_t f = 0; f < faces.size(); ++f) { G->face_areas[f] = geometry ? area[f] : bad; for (int q = 0; q < d; ++q) { G->face_centroids[d * f + q] = geometry ? fcen[f][q] : bad; G->face_normals[d * f + q] = geometry ? nrm[f][q] : bad; } }
        for (int c = 0; c < nc; ++c) { G->cell_volumes[c] = geometry ? vol[c] : bad; for (int q = 0; q < d; ++q) G->cell_centroids[d * c + q] = geometry ? ccen[c][q] : bad; }
        return GridPtr(G);
    }
};

struct PolyOpts { int maxcuts = 4; bool merge = true, collinear = true, renumber = true; double eps = 0.02; };

inline Poly genPoly(Gen& g, int d, const PolyOpts& o = PolyOpts())
{
    Poly p; p.d = d; p.box();
    const int ncut = g.i(0, o.maxcuts);
    for (int k = 0; k < ncut; ++k) {
        Poly::P n = { { 0, 0, 0 } }; double l = 0; const bool axis = g.p(1, 3);
        if (axis) n[g.i(0, d - 1)] = 1; else for (int q = 0; q < d; ++q) n[q] = g.real(-1, 1);
        l = std::sqrt(Poly::dot(n, n)); if (l < 0.1) continue;
        for (int q = 0; q < 3; ++q) n[q] /= l;
        double off = 0; for (int q = 0; q < d; ++q) off += n[q] * g.real(0.2, 0.8);
        p.cut(n, off, o.eps);
    }
    if (o.merge && d == 3 && p.nc > 1) { const int m = g.i(0, 2); for (int k = 0; k < m; ++k) p.merge(g.i(0, (int) p.faces.size() - 1)); }
    p.compact();
    if (o.collinear && d == 3) { const int m = g.p(1, 3) ? g.i(1, 3) : 0; for (int k = 0; k < m; ++k) { const int f = g.i(0, (int) p.faces.size() - 1); p.edgeNode(f, g.i(0, (int) p.faces[f].nodes.size() - 1), g.real(0.2, 0.8)); } }
    // affine image: stretch, shear, rotation, reflection, shift
    double A[9] = { 0 }; const double scale = g.b() ? 1.0 : g.logreal(1e-2, 1e3);
    for (int a = 0; a < 3; ++a) A[3 * a + a] = scale * (g.b() ? 1.0 : g.real(0.3, 3.0)) * (g.p(1, 4) ? -1 : 1);
    if (g.b()) for (int a = 0; a < d; ++a) for (int b = a + 1; b < d; ++b) A[3 * a + b] = scale * g.real(-0.8, 0.8);
    if (g.b()) for (int a = 0; a < d; ++a) for (int b = a + 1; b < d; ++b) {
        const double t = g.real(0, 6.0), cs = std::cos(t), sn = std::sin(t);
        for (int q = 0; q < d; ++q) { const double u = A[3 * a + q], v = A[3 * b + q]; A[3 * a + q] = cs * u - sn * v; A[3 * b + q] = sn * u + cs * v; }
    }
    Poly::P t = { { 0, 0, 0 } }; if (g.b()) for (int q = 0; q < d; ++q) t[q] = scale * g.real(-100, 100);
    p.affine(A, t);
    p.L = 0; for (int a = 0; a < 9; ++a) p.L = std::max(p.L, std::fabs(A[a])); p.L *= 2;
    p.shift = std::max(p.L, std::max(std::fabs(t[0]), std::max(std::fabs(t[1]), std::fabs(t[2]))));
    if (o.renumber) p.renumber(g);
    p.exact();
    return p;
}
#endif
