// Helpers shared by the harnesses: grid ownership, generators and invariants.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "pbt.hpp"
#include "config.h"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <vector>

using pbt::Gen;
using pbt::Ctx;

struct GridDel { void operator()(UnstructuredGrid* g) const { destroy_grid(g); } };
typedef std::unique_ptr<UnstructuredGrid, GridDel> GridPtr;

template <class T> std::string show(const std::vector<T>& v, size_t maxn = 24)
{
    std::ostringstream o; o.precision(8); o << "[";
    for (size_t k = 0; k < v.size() && k < maxn; ++k) o << (k ? " " : "") << v[k];
    if (v.size() > maxn) o << " ...(" << v.size() << ")";
    o << "]";
    return o.str();
}

inline double dotn(const double* a, const double* b, int n) { double s = 0; for (int k = 0; k < n; ++k) s += a[k] * b[k]; return s; }
inline double normn(const double* a, int n) { return std::sqrt(dotn(a, a, n)); }

// ------------------------------------------------------------- invariants
// Index structure of a grid: everything in range, the face->cell and
// cell->face maps inverse to each other.
inline void checkTopology(Ctx& c, const UnstructuredGrid& g, bool tags = true)
{
    const int nc = g.number_of_cells, nf = g.number_of_faces, nn = g.number_of_nodes, d = g.dimensions;
    c.check(d == 2 || d == 3, "dimensions", "dimensions = %d", d);
    c.check(nc >= 0 && nf >= 0 && nn >= 0, "counts", "negative counts");
    c.check(g.face_nodepos[0] == 0 && g.cell_facepos[0] == 0, "positions", "offset arrays must start at 0");
    for (int f = 0; f < nf; ++f) {
        const int n = g.face_nodepos[f + 1] - g.face_nodepos[f];
        c.check(n >= (d == 2 ? 2 : 3), "face-nodes", "face %d has %d nodes", f, n);
        for (int k = g.face_nodepos[f]; k < g.face_nodepos[f + 1]; ++k)
            c.check(g.face_nodes[k] >= 0 && g.face_nodes[k] < nn, "face-nodes", "face %d refers to node %d of %d", f, g.face_nodes[k], nn);
        const int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1];
        c.check(a >= -1 && a < nc && b >= -1 && b < nc, "face-cells", "face %d has cells %d, %d of %d", f, a, b, nc);
        c.check(a != b, "face-cells", "face %d has the same cell %d on both sides", f, a);
    }
    std::vector<int> seen(2 * nf, 0);
    for (int i = 0; i < nc; ++i) {
        c.check(g.cell_facepos[i + 1] >= g.cell_facepos[i], "positions", "cell_facepos decreases at %d", i);
        for (int k = g.cell_facepos[i]; k < g.cell_facepos[i + 1]; ++k) {
            const int f = g.cell_faces[k];
            c.check(f >= 0 && f < nf, "cell-faces", "cell %d refers to face %d of %d", i, f, nf);
            const int side = g.face_cells[2 * f] == i ? 0 : g.face_cells[2 * f + 1] == i ? 1 : -1;
            c.check(side >= 0, "inverse-maps", "cell %d lists face %d, whose cells are %d, %d", i, f, g.face_cells[2 * f], g.face_cells[2 * f + 1]);
            c.check(seen[2 * f + side]++ == 0, "inverse-maps", "cell %d lists face %d twice", i, f);
            if (tags && g.cell_facetag) c.check(g.cell_facetag[k] >= 0 && g.cell_facetag[k] < 2 * d, "face-tags", "cell %d face %d has tag %d", i, f, g.cell_facetag[k]);
        }
    }
    for (int f = 0; f < nf; ++f) for (int s = 0; s < 2; ++s)
        c.check(seen[2 * f + s] == (g.face_cells[2 * f + s] >= 0 ? 1 : 0), "inverse-maps", "face %d borders cell %d, which does not list it", f, g.face_cells[2 * f + s]);
}

// Geometric consistency: |n| = area, closed cells, positive volumes.
// For non-planar faces the area is that of the triangulated surface, >= |normal|.
inline void checkGeometry(Ctx& c, const UnstructuredGrid& g, double tol = 1e-9, bool planar = true)
{
    const int d = g.dimensions;
    for (int f = 0; f < g.number_of_faces; ++f) {
        c.check(g.face_areas[f] >= 0, "face-area", "face %d has area %g", f, g.face_areas[f]);
        const double nl = normn(g.face_normals + d * f, d);
        if (planar) c.close(nl, g.face_areas[f], tol, 1e-300, "normal-length", "face %d: |normal| against area", f);
        else c.check(nl <= g.face_areas[f] * (1 + tol) && nl >= 0.2 * g.face_areas[f], "normal-length", "face %d: |normal| %g against area %g", f, nl, g.face_areas[f]);
    }
    for (int i = 0; i < g.number_of_cells; ++i) {
        c.check(g.cell_volumes[i] > 0, "cell-volume", "cell %d has volume %g", i, g.cell_volumes[i]);
        double s[3] = { 0, 0, 0 }, a = 0;
        for (int k = g.cell_facepos[i]; k < g.cell_facepos[i + 1]; ++k) {
            const int f = g.cell_faces[k];
            const double sg = g.face_cells[2 * f] == i ? 1 : -1;
            for (int q = 0; q < d; ++q) s[q] += sg * g.face_normals[d * f + q];
            a += g.face_areas[f];
        }
        c.check(normn(s, d) <= tol * a, "closed-cell", "outward normals of cell %d sum to (%g %g %g), total area %g", i, s[0], s[1], s[2], a);
    }
}

// ------------------------------------------------------------- generators
struct CartSpec {
    int dim = 3, n[3] = {1, 1, 1};
    std::vector<double> x[3];
    std::vector<double> depthz;
    std::string str() const
    {
        std::string s = pbt::fmt("%dD %dx%dx%d", dim, n[0], n[1], n[2]);
        for (int k = 0; k < dim; ++k) s += pbt::fmt(" %c=", "xyz"[k]) + show(x[k], 6);
        if (!depthz.empty()) s += " depthz=" + show(depthz, 8);
        return s;
    }
};

// Random tensor grid; 'maxc' bounds the number of cells.
// layered: 0 flat, 1 inclined plane, 2 random relief (small against the column width)
inline CartSpec genCart(Gen& g, int maxc = 60, int dim = 0, bool uniform = false, int layered = 0)
{
    CartSpec s;
    s.dim = dim ? dim : (g.p(1, 3) ? 2 : 3);
    int left = maxc;
    for (int k = 0; k < s.dim; ++k) {
        s.n[k] = g.size(1, std::max(1, std::min(left, s.dim == 2 ? 9 : 6)));
        left = std::max(1, left / s.n[k]);
    }
    const int mode = uniform ? 0 : g.i(0, 2);
    for (int k = 0; k < s.dim; ++k) {
        const double start = mode == 2 ? g.real(-100, 1000) : 0.0;
        const double h = g.b() ? 1.0 : g.logreal(0.1, 100.0);
        if (mode == 0) { s.x[k].resize(s.n[k] + 1); for (int q = 0; q <= s.n[k]; ++q) s.x[k][q] = q * h; }
        else s.x[k] = g.increasing(s.n[k], start, 0.25 * h, 3 * h);
    }
    if (layered && s.dim == 3) {
        s.depthz.resize((s.n[0] + 1) * (s.n[1] + 1));
        double h = 1e300;
        for (int k = 0; k < 2; ++k) for (int q = 0; q < s.n[k]; ++q) h = std::min(h, s.x[k][q + 1] - s.x[k][q]);
        const double a = g.real(-1, 1), b = g.real(-1, 1), d0 = g.real(0, 2000);
        for (int j = 0; j <= s.n[1]; ++j) for (int i = 0; i <= s.n[0]; ++i)
            s.depthz[i + (s.n[0] + 1) * j] = d0 + (layered == 1 ? a * (s.x[0][i] - s.x[0][0]) + b * (s.x[1][j] - s.x[1][0]) : g.real(0, 0.4 * h));
    }
    return s;
}
inline GridPtr makeCart(const CartSpec& s)
{
    if (s.dim == 2) return GridPtr(create_grid_tensor2d(s.n[0], s.n[1], &s.x[0][0], &s.x[1][0]));
    return GridPtr(create_grid_tensor3d(s.n[0], s.n[1], s.n[2], &s.x[0][0], &s.x[1][0], &s.x[2][0], s.depthz.empty() ? 0 : &s.depthz[0]));
}

// The same grid with its faces in another order, some of them turned round (the lists of the cells keep their order)
inline void shuffleFaces(UnstructuredGrid& G, Gen& g)
{
    const int nf = G.number_of_faces, d = G.dimensions; const std::vector<int> to = g.perm(nf); std::vector<int> from(nf); for (int f = 0; f < nf; ++f) from[to[f]] = f;
    const std::vector<int> fc(G.face_cells, G.face_cells + 2 * nf), fp(G.face_nodepos, G.face_nodepos + nf + 1), fn(G.face_nodes, G.face_nodes + fp[nf]);
    const std::vector<double> fx(G.face_centroids, G.face_centroids + d * nf), fm(G.face_normals, G.face_normals + d * nf), fa(G.face_areas, G.face_areas + nf);
    const bool turn = g.b(); int n = 0;
    for (int i = 0; i < nf; ++i) {
        const int f = from[i]; const bool r = turn && g.b(); G.face_areas[i] = fa[f];
        for (int e = 0; e < 2; ++e) G.face_cells[2 * i + e] = fc[2 * f + (r ? 1 - e : e)];
        for (int x = 0; x < d; ++x) { G.face_centroids[d * i + x] = fx[d * f + x]; G.face_normals[d * i + x] = r ? -fm[d * f + x] : fm[d * f + x]; }
        const int m = fp[f + 1] - fp[f]; G.face_nodepos[i] = n; for (int k = 0; k < m; ++k) G.face_nodes[n + k] = fn[fp[f] + (r ? m - 1 - k : k)]; n += m;
    }
    for (int k = 0; k < G.cell_facepos[G.number_of_cells]; ++k) G.cell_faces[k] = to[G.cell_faces[k]];
    if (g.b()) for (int c = 0; c < G.number_of_cells; ++c) {               // ... and the faces of a cell in another order
        const int b = G.cell_facepos[c], n = G.cell_facepos[c + 1] - b; const std::vector<int> p = g.perm(n), f(G.cell_faces + b, G.cell_faces + b + n);
        std::vector<int> t; if (G.cell_facetag) t.assign(G.cell_facetag + b, G.cell_facetag + b + n);
        for (int k = 0; k < n; ++k) { G.cell_faces[b + k] = f[p[k]]; if (!t.empty()) G.cell_facetag[b + k] = t[p[k]]; }
    }
}
// Random symmetric positive definite d x d tensor (row major == column major).
inline void genTensor(Gen& g, int d, double* K, bool diagonal, double lo = 1e-2, double hi = 1e2)
{
    double e[3]; for (int k = 0; k < d; ++k) e[k] = g.logreal(lo, hi);
    std::fill(K, K + d * d, 0.0);
    if (diagonal) { for (int k = 0; k < d; ++k) K[k * d + k] = e[k]; return; }
    double Q[9] = {0}; for (int k = 0; k < d; ++k) Q[k * d + k] = 1;
    for (int a = 0; a < d; ++a) for (int b = a + 1; b < d; ++b) {
        const double t = g.real(0, 3.0), cs = std::cos(t), sn = std::sin(t);
        for (int r = 0; r < d; ++r) { const double u = Q[r * d + a], v = Q[r * d + b]; Q[r * d + a] = cs * u - sn * v; Q[r * d + b] = sn * u + cs * v; }
    }
    for (int r = 0; r < d; ++r) for (int q = 0; q < d; ++q) { double s = 0; for (int k = 0; k < d; ++k) s += Q[r * d + k] * e[k] * Q[q * d + k]; K[r * d + q] = s; }
    for (int r = 0; r < d; ++r) for (int q = 0; q < r; ++q) K[r * d + q] = K[q * d + r];
}
#endif
