// C03: areas, normals, centroids and volumes of grids with planar convex faces are exact.
#include "polygen.hpp"

namespace {

void compare(Ctx& c, const Poly& p, UnstructuredGrid& G)
{
    compute_geometry(&G);
    const int d = p.d; const double L = p.L, e = 1e-13 * (1 + p.shift / L);
    const double LA = d == 3 ? L * L : L, LV = LA * L;
    for (size_t f = 0; f < p.faces.size(); ++f) {
        c.check(std::fabs(G.face_areas[f] - p.area[f]) <= 100 * e * LA, "face-area", "face %d: area %.17g, exact %.17g", (int) f, G.face_areas[f], p.area[f]);
        for (int q = 0; q < d; ++q) {
            c.check(std::fabs(G.face_normals[d * f + q] - p.nrm[f][q]) <= 100 * e * LA, "face-normal", "face %d axis %d: normal %.17g, exact %.17g", (int) f, q, G.face_normals[d * f + q], p.nrm[f][q]);
            c.check(std::fabs(G.face_centroids[d * f + q] - p.fcen[f][q]) <= 100 * e * L * (LA / p.area[f]), "face-centroid", "face %d axis %d: centroid %.17g, exact %.17g", (int) f, q, G.face_centroids[d * f + q], p.fcen[f][q]);
        }
    }
    for (int i = 0; i < p.nc; ++i) {
        c.check(std::fabs(G.cell_volumes[i] - p.vol[i]) <= 1000 * e * LV, "cell-volume", "cell %d: volume %.17g, exact %.17g", i, G.cell_volumes[i], p.vol[i]);
        bool exactc = d == 3;
        const int m = G.cell_facepos[i + 1] - G.cell_facepos[i];
        if (d == 2) {
            // 2D cell centres are documented as approximations; they are exact for triangles and parallelograms
            exactc = m == 3;
            if (m == 4) {
                Poly::P s = { { 0, 0, 0 } }; double para = 0;   // parallelogram: opposite edge midpoints have the same mean
                std::vector<Poly::P> e4; for (int k = G.cell_facepos[i]; k < G.cell_facepos[i + 1]; ++k) { Poly::P n = p.nrm[G.cell_faces[k]]; if (G.face_cells[2 * G.cell_faces[k]] != i) for (double& x : n) x = -x; e4.push_back(n); }
                for (int k = 1; k < 4; ++k) { double r = 0; for (int q = 0; q < 2; ++q) r += std::fabs(e4[0][q] + e4[k][q]); para = k == 1 ? r : std::min(para, r); }
                exactc = para < 1e-10 * L; (void) s;
            }
            // inside the cell in any case
            for (int k = G.cell_facepos[i]; k < G.cell_facepos[i + 1]; ++k) {
                const int f = G.cell_faces[k]; const double sg = G.face_cells[2 * f] == i ? 1 : -1;
                double r = 0; for (int q = 0; q < 2; ++q) r += sg * p.nrm[f][q] * (G.cell_centroids[2 * i + q] - p.fcen[f][q]);
                c.check(r < 0, "cell-centre", "centre of cell %d is not inside edge %d", i, f);
            }
        }
        if (exactc) for (int q = 0; q < d; ++q)
            c.check(std::fabs(G.cell_centroids[d * i + q] - p.ccen[i][q]) <= 1000 * e * L * (LV / p.vol[i]), "cell-centroid", "cell %d axis %d: centroid %.17g, exact %.17g", i, q, G.cell_centroids[d * i + q], p.ccen[i][q]);
        // and outward: normals point from the first to the second cell, so cells are closed
        double s[3] = { 0, 0, 0 };
        for (int k = G.cell_facepos[i]; k < G.cell_facepos[i + 1]; ++k) { const int f = G.cell_faces[k]; for (int q = 0; q < d; ++q) s[q] += (G.face_cells[2 * f] == i ? 1 : -1) * G.face_normals[d * f + q]; }
        c.check(normn(s, d) <= 1000 * e * LA, "closed-cell", "outward normals of cell %d sum to %g %g %g", i, s[0], s[1], d == 3 ? s[2] : 0.0);
    }
}

void poly3(Gen& g, Ctx& c)
{
    PolyOpts o; o.maxcuts = 5;
    const Poly p = genPoly(g, 3, o);
    c.desc() << p.str();
    GridPtr G = p.grid(&g, false);
    size_t mx = 0; for (const Poly::Face& F : p.faces) mx = std::max(mx, F.nodes.size());
    c.nontrivial(p.nc > 1); c.label("merged cells", p.merged); c.label("nodes on edges", p.collinear); c.label("faces with 5+ nodes", mx >= 5); c.label("single cell", p.nc == 1);
    compare(c, p, *G);
}

void poly2(Gen& g, Ctx& c)
{
    PolyOpts o; o.maxcuts = 6; o.merge = false; o.collinear = false;
    const Poly p = genPoly(g, 2, o);
    c.desc() << p.str();
    GridPtr G = p.grid(&g, false);
    c.nontrivial(p.nc > 1); c.label("2D");
    compare(c, p, *G);
}

} // namespace

pbt::Spec pbt::spec()
{
    return { "C03", "A box is cut by up to 5 (3D) or 6 (2D) random planes into a conforming complex of convex cells; in 3D cells may be merged and extra nodes put on edges; then an affine image (stretch, shear, rotation, reflection, shift) and random numbering of nodes, cells, faces, face starts and face directions. Non-trivial: more than one cell.",
        { "faces are planar and convex, node order consistent with the face's direction", "in 2D cells are convex and the cell centre is only required to be inside (exact for triangles and parallelograms): grid.h documents it as possibly approximate" },
        100000, 2000000, { { "polyhedra", 3, poly3 }, { "polygons", 1, poly2 } } };
}
