// C01: Cartesian, tensor and layered grids have exactly the topology and geometry of the box they describe.
#include "common.hpp"
#include <opm/core/grid/GridManager.hpp>
#include <map>

namespace {

// Reference: the (i,j,k) lattice.  Face identity is found geometrically through
// the cells on its two sides, so no numbering convention of faces is assumed.
void checkLattice(Ctx& c, const UnstructuredGrid& g, const CartSpec& s, int relief = 0)
{
    const int d = s.dim, nx = s.n[0], ny = s.n[1], nz = d == 3 ? s.n[2] : 1;
    const int ncell = nx * ny * nz;
    c.check(g.dimensions == d, "dimensions", "dimension %d instead of %d", g.dimensions, d);
    c.check(g.number_of_cells == ncell, "counts", "%d cells instead of %d", g.number_of_cells, ncell);
    const int nf = d == 3 ? (nx + 1) * ny * nz + nx * (ny + 1) * nz + nx * ny * (nz + 1) : (nx + 1) * ny + nx * (ny + 1);
    const int nn = (nx + 1) * (ny + 1) * (d == 3 ? nz + 1 : 1);
    c.check(g.number_of_faces == nf, "counts", "%d faces instead of %d", g.number_of_faces, nf);
    c.check(g.number_of_nodes == nn, "counts", "%d nodes instead of %d", g.number_of_nodes, nn);
    c.check(g.cartdims[0] == nx && g.cartdims[1] == ny && g.cartdims[2] == nz, "cartdims", "cartdims %d %d %d", g.cartdims[0], g.cartdims[1], g.cartdims[2]);
    checkTopology(c, g);
    // nodes: a permutation-free lattice is not required, but each lattice point must be there once
    std::map<std::array<double, 3>, int> where;
    for (int v = 0; v < nn; ++v) {
        std::array<double, 3> p = { { 0, 0, 0 } };
        for (int q = 0; q < d; ++q) p[q] = g.node_coordinates[d * v + q];
        c.check(where.insert(std::make_pair(p, v)).second, "node-duplicate", "node %d duplicates another node", v);
    }
    auto zat = [&](int i, int j, int k) { return s.x[2][k] + (s.depthz.empty() ? 0.0 : s.depthz[i + (nx + 1) * j]); };
    for (int k = 0; k <= (d == 3 ? nz : 0); ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
        std::array<double, 3> p = { { s.x[0][i], s.x[1][j], d == 3 ? zat(i, j, k) : 0.0 } };
        c.check(where.count(p) == 1, "node-missing", "no node at (%g, %g, %g)", p[0], p[1], p[2]);
    }
    if (g.global_cell) for (int q = 0; q < ncell; ++q) c.check(g.global_cell[q] == q, "global-cell", "global_cell[%d] = %d", q, g.global_cell[q]);
    const bool flat = s.depthz.empty();
    std::vector<char> tagseen(2 * d);
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        const int cell = i + nx * (j + ny * k);
        const int ijk[3] = { i, j, k }, stride[3] = { 1, nx, nx * ny };
        double len[3] = { 1, 1, 1 }, mid[3] = { 0, 0, 0 };
        for (int q = 0; q < d; ++q) { len[q] = s.x[q][ijk[q] + 1] - s.x[q][ijk[q]]; mid[q] = 0.5 * (s.x[q][ijk[q] + 1] + s.x[q][ijk[q]]); }
        if (!flat) { double z = 0; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) z += s.depthz[i + a + (nx + 1) * (j + b)]; mid[2] += z / 4; }
        const double vol = len[0] * len[1] * (d == 3 ? len[2] : 1.0);
        if (flat) {
            c.close(g.cell_volumes[cell], vol, 1e-12, 0, "volume", "cell %d (%d,%d,%d)", cell, i, j, k);
            for (int q = 0; q < d; ++q) c.close(g.cell_centroids[d * cell + q], mid[q], 1e-12, std::fabs(mid[q]) + len[q], "centroid", "cell %d axis %d", cell, q);
        } else {
            // The top and bottom surfaces are translates of each other, so whatever the
            // (bilinear or triangulated) surface is, the volume is base area times thickness.
            c.close(g.cell_volumes[cell], vol, 1e-9, 0, "volume", "layered cell %d (%d,%d,%d)", cell, i, j, k);
            double zr = 0; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) zr = std::max(zr, std::fabs(zat(i + a, j + b, k) - zat(i, j, k)));
            for (int q = 0; q < 3; ++q) {
                if (relief == 1) c.close(g.cell_centroids[3 * cell + q], mid[q], 1e-9, std::fabs(mid[q]) + len[q], "centroid", "inclined cell %d axis %d", cell, q);
                else c.check(std::fabs(g.cell_centroids[3 * cell + q] - mid[q]) <= (q == 2 ? zr : 0.2 * len[q]) + 1e-9 * (std::fabs(mid[q]) + len[q]), "centroid", "layered cell %d centroid axis %d is %g, box centre %g", cell, q, g.cell_centroids[3 * cell + q], mid[q]);
            }
        }
        std::fill(tagseen.begin(), tagseen.end(), 0);
        c.check(g.cell_facepos[cell + 1] - g.cell_facepos[cell] == 2 * d, "cell-faces", "cell %d has %d faces", cell, g.cell_facepos[cell + 1] - g.cell_facepos[cell]);
        for (int h = g.cell_facepos[cell]; h < g.cell_facepos[cell + 1]; ++h) {
            const int f = g.cell_faces[h], tag = g.cell_facetag[h], ax = tag / 2, hi = tag % 2;
            c.check(!tagseen[tag], "face-tags", "cell %d has two faces with tag %d", cell, tag);
            tagseen[tag] = 1;
            // neighbour
            const int nbijk = ijk[ax] + (hi ? 1 : -1);
            const int nb = nbijk < 0 || nbijk >= g.cartdims[ax] ? -1 : cell + (hi ? 1 : -1) * stride[ax];
            const int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1];
            c.check(hi ? (a == cell && b == nb) : (a == nb && b == cell), "face-cells", "cell %d tag %d: face cells (%d, %d), neighbour should be %d", cell, tag, a, b, nb);
            // nodes: exactly the lattice corners of that side
            std::set<std::array<double, 3> > want, got;
            for (int u = 0; u < 2; ++u) for (int v = 0; v < (d == 3 ? 2 : 1); ++v) {
                int o[3] = { 0, 0, 0 }, free0 = (ax + 1) % d, free1 = d == 3 ? (ax + 2) % d : 2;
                o[ax] = hi; o[free0] = u; if (d == 3) o[free1] = v;
                want.insert(std::array<double, 3>{ { s.x[0][i + o[0]], s.x[1][j + o[1]], d == 3 ? zat(i + o[0], j + o[1], k + o[2]) : 0.0 } });
            }
            double avg[3] = { 0, 0, 0 };
            const int n = g.face_nodepos[f + 1] - g.face_nodepos[f];
            c.check(n == (d == 3 ? 4 : 2), "face-nodes", "face %d has %d nodes", f, n);
            for (int m = 0; m < n; ++m) {
                std::array<double, 3> p = { { 0, 0, 0 } };
                for (int q = 0; q < d; ++q) { p[q] = g.node_coordinates[d * g.face_nodes[g.face_nodepos[f] + m] + q]; avg[q] += p[q] / n; }
                got.insert(p);
            }
            c.check(want == got, "face-nodes", "face %d (cell %d tag %d) does not have the corners of that side", f, cell, tag);
            // node order is a polygon around the face with a normal along the orientation
            if (d == 3) {
                double nn3[3] = { 0, 0, 0 };
                for (int m = 0; m < n; ++m) {
                    const double* p = g.node_coordinates + 3 * g.face_nodes[g.face_nodepos[f] + m];
                    const double* r = g.node_coordinates + 3 * g.face_nodes[g.face_nodepos[f] + (m + 1) % n];
                    nn3[0] += 0.5 * (p[1] * r[2] - p[2] * r[1]); nn3[1] += 0.5 * (p[2] * r[0] - p[0] * r[2]); nn3[2] += 0.5 * (p[0] * r[1] - p[1] * r[0]);
                }
                double sc = 0; for (int q = 0; q < 3; ++q) for (int m = 0; m < n; ++m) sc = std::max(sc, std::fabs(g.node_coordinates[3 * g.face_nodes[g.face_nodepos[f] + m] + q]));
                for (int q = 0; q < 3; ++q)
                    c.check(std::fabs(nn3[q] - g.face_normals[3 * f + q]) <= 1e-9 * (sc * sc + g.face_areas[f]), "node-order", "face %d: polygon normal component %d is %g, stored %g", f, q, nn3[q], g.face_normals[3 * f + q]);
            }
            if (flat) {
                const double area = vol / len[ax];
                c.close(g.face_areas[f], area, 1e-12, 0, "area", "face %d (cell %d tag %d)", f, cell, tag);
                for (int q = 0; q < d; ++q) {
                    c.close(g.face_normals[d * f + q], q == ax ? area : 0.0, 1e-12, area, "normal", "face %d axis %d", f, q);
                    c.close(g.face_centroids[d * f + q], avg[q], 1e-12, std::fabs(avg[q]) + len[q], "face-centroid", "face %d axis %d", f, q);
                }
            }
        }
    }
    checkGeometry(c, g, flat ? 1e-12 : 1e-8, relief != 2);
}

void tensor(Gen& g, Ctx& c)
{
    CartSpec s = genCart(g, 120);
    c.desc() << s.str();
    c.nontrivial(s.n[0] * s.n[1] * s.n[2] > 1);
    c.label(pbt::fmt("dim%d", s.dim));
    GridPtr G = makeCart(s);
    c.check(!!G, "null", "no grid");
    checkLattice(c, *G, s);
}
void layered(Gen& g, Ctx& c)
{
    const int relief = g.i(1, 2);
    CartSpec s = genCart(g, 80, 3, false, relief);
    c.desc() << s.str();
    c.label(relief == 1 ? "inclined" : "relief");
    c.nontrivial(s.n[0] * s.n[1] * s.n[2] > 1);
    GridPtr G = makeCart(s);
    c.check(!!G, "null", "no grid");
    checkLattice(c, *G, s, relief);
}
// The uniform constructors and the GridManager front ends describe the same grids.
void uniform(Gen& g, Ctx& c)
{
    const int dim = g.b() ? 3 : 2, kind = g.i(0, 3);
    CartSpec s; s.dim = dim;
    double h[3] = { 1, 1, 1 };
    for (int k = 0; k < dim; ++k) s.n[k] = g.size(1, 7);
    if (kind % 2) for (int k = 0; k < dim; ++k) h[k] = g.logreal(0.01, 500);
    for (int k = 0; k < dim; ++k) for (int q = 0; q <= s.n[k]; ++q) s.x[k].push_back(q * h[k]);
    c.desc() << "kind " << kind << " " << s.str();
    c.nontrivial(s.n[0] * s.n[1] * s.n[2] > 1);
    c.label(pbt::fmt("kind%d-dim%d", kind, dim));
    if (kind < 2) {
        GridPtr G;
        if (dim == 2) G.reset(create_grid_cart2d(s.n[0], s.n[1], h[0], h[1]));
        else if (kind) G.reset(create_grid_hexa3d(s.n[0], s.n[1], s.n[2], h[0], h[1], h[2]));
        else G.reset(create_grid_cart3d(s.n[0], s.n[1], s.n[2]));
        checkLattice(c, *G, s);
    } else {
        std::unique_ptr<Opm::GridManager> m;
        if (dim == 2 && kind == 2) m.reset(new Opm::GridManager(s.n[0], s.n[1]));
        else if (dim == 2) m.reset(new Opm::GridManager(s.n[0], s.n[1], h[0], h[1]));
        else if (kind == 2) m.reset(new Opm::GridManager(s.n[0], s.n[1], s.n[2]));
        else m.reset(new Opm::GridManager(s.n[0], s.n[1], s.n[2], h[0], h[1], h[2]));
        checkLattice(c, *m->c_grid(), s);
    }
}
} // namespace

pbt::Spec pbt::spec()
{
    return { "C01", "random sizes 1..9 per axis in 2D/3D, uniform and random tensor spacing, random origin, random surface relief; non-trivial: more than one cell",
             { "grids below 350 cells; relief below 0.4 of the column width (steeper reliefs fold the triangulated faces)" }, 80000, 2000000,
             { { "tensor", 3, tensor }, { "layered", 2, layered }, { "uniform", 2, uniform } } };
}
