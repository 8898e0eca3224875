// C14: velocity reconstruction and generalised barycentric coordinates.
#include "polygen.hpp"
#include <opm/core/utility/VelocityInterpolation.hpp>
#include <opm/core/utility/WachspressCoord.hpp>
#include <map>

namespace {
typedef Opm::WachspressCoord WC;

std::vector<int> cellNodes(const UnstructuredGrid& G, int cell)
{
    std::set<int> s;
    for (int h = G.cell_facepos[cell]; h < G.cell_facepos[cell + 1]; ++h) { const int f = G.cell_faces[h]; s.insert(G.face_nodes + G.face_nodepos[f], G.face_nodes + G.face_nodepos[f + 1]); }
    return std::vector<int>(s.begin(), s.end());
}
// A random point of the convex hull of the nodes: inside, near a node, near a face, or on them.
std::vector<double> convexWeights(Gen& g, int n)
{
    std::vector<double> w(n); const int mode = g.i(0, 3); double s = 0;
    for (double& x : w) { x = mode == 0 ? 1.0 : g.real(0.0, 1.0); if (mode == 2) x *= x * x * x * x * x; if (mode == 3 && g.b()) x = 0; s += x; }
    if (s < 1e-3) { w.assign(n, 1.0); s = n; }
    for (double& x : w) x /= s;
    return w;
}
std::vector<double> at(const UnstructuredGrid& G, const std::vector<int>& nodes, const std::vector<double>& w)
{
    const int d = G.dimensions; std::vector<double> x(d, 0.0);
    for (size_t k = 0; k < nodes.size(); ++k) for (int q = 0; q < d; ++q) x[q] += w[k] * G.node_coordinates[d * nodes[k] + q];
    return x;
}
struct Any { GridPtr G; std::string text; double L, shift; };
Any genAny(Gen& g)
{
    Any a;
    if (g.p(1, 3)) {
        CartSpec s = genCart(g, 30, 0, false, g.i(0, 1));
        a.G = makeCart(s); a.text = s.str();
        a.L = 0; a.shift = 0;
        for (int q = 0; q < s.dim; ++q) { a.L = std::max(a.L, s.x[q].back() - s.x[q][0]); a.shift = std::max(a.shift, std::max(std::fabs(s.x[q].back()), std::fabs(s.x[q][0]))); }
        for (double z : s.depthz) a.shift = std::max(a.shift, std::fabs(z) + a.L);
    } else {
        PolyOpts o; o.maxcuts = 3; o.merge = false; o.collinear = false;
        Poly p = genPoly(g, g.b() ? 3 : 2, o);
        a.G = p.grid(&g, true); a.text = p.str(); a.L = p.L; a.shift = p.shift;
    }
    return a;
}
// smallest extent of the cell, as a crude measure of how accurate geometry can be
double amp(const Any& a, const UnstructuredGrid& G, int cell)
{
    double amax = 0; for (int h = G.cell_facepos[cell]; h < G.cell_facepos[cell + 1]; ++h) amax = std::max(amax, G.face_areas[G.cell_faces[h]]);
    const double h = G.cell_volumes[cell] / amax;
    return (1 + a.shift / h) * (1 + a.L / h);
}

void constant(Gen& g, Ctx& c)
{
    Any a = genAny(g); const UnstructuredGrid& G = *a.G; const int d = G.dimensions;
    std::vector<double> v(d); for (double& x : v) x = g.real(-5, 5);
    double vn = normn(&v[0], d); if (vn < 1e-3) { v[0] = 1; vn = normn(&v[0], d); }
    std::vector<double> flux(G.number_of_faces);
    for (int f = 0; f < G.number_of_faces; ++f) flux[f] = dotn(&v[0], G.face_normals + d * f, d);
    c.desc() << a.text << " v=" << show(v);
    c.nontrivial(G.number_of_cells > 1); c.label(d == 3 ? "3D" : "2D");
    Opm::VelocityInterpolationConstant A(G); Opm::VelocityInterpolationECVI B(G);
    // fluxes may be set again
    if (g.b()) { std::vector<double> other(flux.size(), 1.0); A.setupFluxes(&other[0]); B.setupFluxes(&other[0]); }
    A.setupFluxes(&flux[0]); B.setupFluxes(&flux[0]);
    for (int i = 0; i < G.number_of_cells; ++i) {
        const std::vector<int> nodes = cellNodes(G, i);
        const std::vector<double> x = at(G, nodes, convexWeights(g, (int) nodes.size()));
        const double tol = 1e-12 * amp(a, G, i); if (tol > 1e-5) continue;
        std::vector<double> r(d, 99.0);
        A.interpolate(i, &x[0], &r[0]);
        for (int q = 0; q < d; ++q) c.check(std::fabs(r[q] - v[q]) <= tol * vn, "constant-field", "constant interpolation, cell %d axis %d: %.12g instead of %.12g", i, q, r[q], v[q]);
        std::fill(r.begin(), r.end(), 99.0);
        B.interpolate(i, &x[0], &r[0]);
        for (int q = 0; q < d; ++q) c.check(std::fabs(r[q] - v[q]) <= tol * vn, "ecvi-constant-field", "ECVI, cell %d axis %d: %.12g instead of %.12g", i, q, r[q], v[q]);
    }
}

void bary(Gen& g, Ctx& c)
{
    Any a = genAny(g); const UnstructuredGrid& G = *a.G; const int d = G.dimensions;
    c.desc() << a.text;
    c.nontrivial(G.number_of_cells > 1); c.label(d == 3 ? "3D" : "2D");
    WC wc(G);
    std::set<int> ids;
    for (int i = 0; i < G.number_of_cells; ++i) {
        const std::vector<int> nodes = cellNodes(G, i); const int n = (int) nodes.size();
        c.check(wc.numCorners(i) == n, "corners", "cell %d has %d corners instead of %d", i, wc.numCorners(i), n);
        c.check((int) wc.cornerInfo()[i].size() == n, "corners", "cell %d lists %d corners instead of %d", i, (int) wc.cornerInfo()[i].size(), n);
        std::vector<int> vert(n);
        for (int k = 0; k < n; ++k) {
            const WC::CornerInfo& ci = wc.cornerInfo()[i][k]; vert[k] = ci.vertex;
            c.check(ids.insert(ci.corner_id).second, "corners", "corner number %d is used twice", ci.corner_id);
            c.check(ci.volume > 0, "corners", "cell %d corner %d has volume %g", i, k, ci.volume);
            // the faces adjacent to this corner are faces of the cell that contain the vertex
            std::set<int> want, got;
            for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) { const int f = G.cell_faces[h]; for (int q = G.face_nodepos[f]; q < G.face_nodepos[f + 1]; ++q) if (G.face_nodes[q] == ci.vertex) want.insert(f); }
            for (int q = 0; q < d; ++q) got.insert(wc.adjacentFaces()[d * ci.corner_id + q]);
            c.check(want == got, "adjacent-faces", "cell %d vertex %d", i, ci.vertex);
        }
        std::vector<int> sv(vert); std::sort(sv.begin(), sv.end());
        c.check(sv == nodes, "corners", "cell %d: the corners are not its nodes", i);
        const double tol = 1e-12 * amp(a, G, i); if (tol > 1e-5) continue;
        const double lc = std::pow(G.cell_volumes[i], 1.0 / d); (void) lc;
        for (int t = 0; t < 2; ++t) {
            const std::vector<double> w = convexWeights(g, n);
            std::vector<double> x = at(G, nodes, w);
            std::vector<double> b(n, -7.0);
            wc.cartToBary(i, &x[0], &b[0]);
            double s = 0; std::vector<double> y(d, 0.0);
            for (int k = 0; k < n; ++k) { s += b[k]; for (int q = 0; q < d; ++q) y[q] += b[k] * G.node_coordinates[d * vert[k] + q]; }
            for (int k = 0; k < n; ++k) c.check(b[k] >= -tol, "non-negative", "cell %d corner %d: coordinate %g", i, k, b[k]);
            c.check(std::fabs(s - 1) <= 1e-12 * n, "sum", "cell %d: coordinates sum to %.17g", i, s);
            for (int q = 0; q < d; ++q) c.check(std::fabs(y[q] - x[q]) <= tol * (a.L), "reproduces", "cell %d axis %d: %.15g instead of %.15g", i, q, y[q], x[q]);
            if (n == d + 1) for (int k = 0; k < n; ++k) { const int m = (int) (std::lower_bound(nodes.begin(), nodes.end(), vert[k]) - nodes.begin()); c.check(std::fabs(b[k] - w[m]) <= tol * 10, "simplex", "cell %d corner %d: %.12g instead of the barycentric coordinate %.12g", i, k, b[k], w[m]); }
        }
        // at a node: that node's coordinate is one
        const int m = g.i(0, n - 1); std::vector<double> b(n, -7.0);
        wc.cartToBary(i, G.node_coordinates + d * vert[m], &b[0]);
        for (int k = 0; k < n; ++k) c.check(std::fabs(b[k] - (k == m ? 1 : 0)) <= tol * 10, "at-node", "cell %d, at corner %d the coordinate of corner %d is %.12g", i, m, k, b[k]);
        // on a face: only the nodes of that face count
        const int f = G.cell_faces[g.i(G.cell_facepos[i], G.cell_facepos[i + 1] - 1)];
        const std::vector<int> fn(G.face_nodes + G.face_nodepos[f], G.face_nodes + G.face_nodepos[f + 1]);
        const std::vector<double> x = at(G, fn, convexWeights(g, (int) fn.size()));
        wc.cartToBary(i, &x[0], &b[0]);
        for (int k = 0; k < n; ++k) if (std::find(fn.begin(), fn.end(), vert[k]) == fn.end()) c.check(std::fabs(b[k]) <= tol * 10, "on-face", "cell %d, on face %d the coordinate of corner %d off the face is %.12g", i, f, k, b[k]);
    }
}

// Arbitrary fluxes: ECVI's normal velocity on each face is the face's flux per area; both methods are linear in the flux.
void fluxes(Gen& g, Ctx& c)
{
    Any a = genAny(g); const UnstructuredGrid& G = *a.G; const int d = G.dimensions;
    std::vector<double> flux(G.number_of_faces), f2(G.number_of_faces);
    for (int f = 0; f < G.number_of_faces; ++f) { flux[f] = g.real(-3, 3) * G.face_areas[f]; f2[f] = g.real(-3, 3) * G.face_areas[f]; }
    c.desc() << a.text << " flux " << show(flux);
    c.nontrivial(G.number_of_cells > 1); c.label(d == 3 ? "3D" : "2D");
    Opm::VelocityInterpolationECVI B(G); B.setupFluxes(&flux[0]);
    for (int i = 0; i < G.number_of_cells; ++i) {
        const double tol = 1e-12 * amp(a, G, i) ; if (tol > 1e-5) continue;
        // largest velocity at a corner: the reconstruction may be much larger than the fluxes at sharp corners
        double vmax = 3; const std::vector<int> nodes = cellNodes(G, i);
        for (int m : nodes) { std::vector<double> r(d); B.interpolate(i, G.node_coordinates + d * m, &r[0]); vmax = std::max(vmax, normn(&r[0], d)); }
        for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) {
            const int f = G.cell_faces[h];
            const std::vector<int> fn(G.face_nodes + G.face_nodepos[f], G.face_nodes + G.face_nodepos[f + 1]);
            const std::vector<double> x = at(G, fn, convexWeights(g, (int) fn.size()));
            std::vector<double> r(d, 99.0); B.interpolate(i, &x[0], &r[0]);
            const double vn = dotn(&r[0], G.face_normals + d * f, d) / G.face_areas[f];
            c.check(std::fabs(vn - flux[f] / G.face_areas[f]) <= 10 * tol * vmax * d, "face-flux", "cell %d face %d: normal velocity %.12g, flux per area %.12g", i, f, vn, flux[f] / G.face_areas[f]);
        }
        // constant interpolation equals sum of flux * (x_f - x_c) / V
        const std::vector<double> x = at(G, nodes, convexWeights(g, (int) nodes.size()));
        Opm::VelocityInterpolationConstant A(G);
        std::vector<double> r1(d), r2(d), r3(d), s(G.number_of_faces), e1(d), e2(d), e3(d);
        const double al = g.real(-2, 2); for (size_t f = 0; f < s.size(); ++f) s[f] = al * flux[f] + f2[f];
        Opm::VelocityInterpolationECVI E(G);
        A.setupFluxes(&flux[0]); A.interpolate(i, &x[0], &r1[0]); A.setupFluxes(&f2[0]); A.interpolate(i, &x[0], &r2[0]); A.setupFluxes(&s[0]); A.interpolate(i, &x[0], &r3[0]);
        E.setupFluxes(&flux[0]); E.interpolate(i, &x[0], &e1[0]); E.setupFluxes(&f2[0]); E.interpolate(i, &x[0], &e2[0]); E.setupFluxes(&s[0]); E.interpolate(i, &x[0], &e3[0]);
        for (int q = 0; q < d; ++q) {
            c.check(std::fabs(al * r1[q] + r2[q] - r3[q]) <= tol * (std::fabs(r1[q]) + std::fabs(r2[q]) + 10), "linear", "constant interpolation is not linear in the fluxes");
            c.check(std::fabs(al * e1[q] + e2[q] - e3[q]) <= tol * (normn(&e1[0], d) + normn(&e2[0], d) + 10 * vmax), "linear", "ECVI is not linear in the fluxes");
        }
        if (i >= 3) break;
    }
}
// Rectangular cells: ECVI is the lowest-order Raviart-Thomas field; constant interpolation its mean.
void box(Gen& g, Ctx& c)
{
    CartSpec s = genCart(g, 30); GridPtr Gp = makeCart(s); const UnstructuredGrid& G = *Gp; const int d = G.dimensions;
    std::vector<double> flux(G.number_of_faces); for (int f = 0; f < G.number_of_faces; ++f) flux[f] = g.real(-3, 3) * G.face_areas[f];
    c.desc() << s.str() << " flux " << show(flux); c.nontrivial(G.number_of_cells > 1);
    Opm::VelocityInterpolationECVI B(G); Opm::VelocityInterpolationConstant A(G); A.setupFluxes(&flux[0]); B.setupFluxes(&flux[0]);
    for (int i = 0; i < G.number_of_cells; ++i) {
        int ijk[3] = { i % s.n[0], i / s.n[0] % s.n[1], i / (s.n[0] * s.n[1]) };
        double x[3], t[3], u[3][2];
        for (int q = 0; q < d; ++q) { t[q] = g.real(0, 1); x[q] = s.x[q][ijk[q]] + t[q] * (s.x[q][ijk[q] + 1] - s.x[q][ijk[q]]); }
        for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) { const int f = G.cell_faces[h], tag = G.cell_facetag[h]; u[tag / 2][tag % 2] = flux[f] / G.face_areas[f] * (G.face_normals[d * f + tag / 2] > 0 ? 1 : -1); }
        double r[3], m[3]; B.interpolate(i, x, r); A.interpolate(i, x, m);
        double rel = 1e-9; for (int q = 0; q < d; ++q) rel = std::max(rel, 1e-13 * (std::fabs(s.x[q][0]) + std::fabs(s.x[q].back())) / (s.x[q][ijk[q] + 1] - s.x[q][ijk[q]]) * 100);
        for (int q = 0; q < d; ++q) {
            const double ref = (1 - t[q]) * u[q][0] + t[q] * u[q][1], mean = 0.5 * (u[q][0] + u[q][1]);
            c.check(std::fabs(r[q] - ref) <= rel * 20, "raviart-thomas", "cell %d axis %d at %g: %.12g instead of %.12g", i, q, t[q], r[q], ref);
            c.check(std::fabs(m[q] - mean) <= rel * 20, "mean", "cell %d axis %d: %.12g instead of %.12g", i, q, m[q], mean);
        }
    }
}
} // namespace

pbt::Spec pbt::spec()
{
    return { "C14", "Cartesian/layered grids and random convex polygon/polyhedron complexes (affine images of plane arrangements, random numbering and orientation); constant fields, arbitrary fluxes, points inside, near and on faces and nodes; non-trivial: more than one cell",
             { "every node of a cell touches exactly as many of its faces as there are dimensions (the documented restriction)", "cells so thin that geometry is known to less than 1e-5 are skipped" },
             60000, 1200000, { { "constant", 3, constant }, { "bary", 4, bary }, { "fluxes", 3, fluxes }, { "box", 1, box } } };
}
