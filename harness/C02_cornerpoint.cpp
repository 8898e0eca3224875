// C02: corner-point processing against exact geometry of the input cells.
#include "cpgen.hpp"
#include <map>

namespace {
void features(Ctx& c, const CpModel& m)
{
    bool pinch = false, inact = false, fault = false, gap = false, cross = false;
    const int nx = m.n[0], ny = m.n[1], nz = m.n[2];
    for (int q = 0; q < m.cells(); ++q) {
        if (!m.alive(q)) (m.use_act && !m.act[q] ? inact : pinch) = true;
        if (q + nx * ny < nx * ny * nz && m.zc(q, 0, 0, 1) != m.zc(q + nx * ny, 0, 0, 0)) gap = true;
        const int i = q % nx, j = q / nx % ny;
        for (int t = 1; t < 4; t += 2) {
            if (t == 1 ? i + 1 >= nx : j + 1 >= ny) continue;
            const int r = q + (t == 1 ? 1 : nx);
            double t1[2], b1[2], t2[2], b2[2]; m.strip(q, t, t1, b1); m.strip(r, t - 1, t2, b2);
            if (t1[0] != t2[0] || t1[1] != t2[1]) fault = true;
            if ((t1[0] < t2[0] && t1[1] > t2[1]) || (t1[0] > t2[0] && t1[1] < t2[1])) cross = true;
        }
    }
    c.label("pinch", pinch); c.label("inactive", inact); c.label("fault", fault); c.label("gap", gap); c.label("crossing", cross);
    c.label("zup", m.zsign < 0); c.label("sheared", m.shear[0] != 0);
    c.label("cross<0", m.u[0] * m.v[1] - m.u[1] * m.v[0] < 0);
    c.nontrivial(fault || pinch || inact || gap);
}

void checkModel(Ctx& c, const CpModel& m, const UnstructuredGrid& G, double vtol)
{
    const int nx = m.n[0], ny = m.n[1], nz = m.n[2];
    c.check(G.dimensions == 3 && G.cartdims[0] == nx && G.cartdims[1] == ny && G.cartdims[2] == nz, "cartdims", "cartdims %d %d %d", G.cartdims[0], G.cartdims[1], G.cartdims[2]);
    std::vector<int> want, local(m.cells(), -1);
    for (int q = 0; q < m.cells(); ++q) if (m.alive(q)) { local[q] = (int) want.size(); want.push_back(q); }
    c.check(G.number_of_cells == (int) want.size(), "cells", "%d cells, the input has %d active cells of positive thickness", G.number_of_cells, (int) want.size());
    c.check(G.global_cell != 0, "cells", "no logical indices");
    for (size_t q = 0; q < want.size(); ++q) c.check(G.global_cell[q] == want[q], "cells", "cell %d has logical index %d instead of %d", (int) q, G.global_cell[q], want[q]);
    checkTopology(c, G);
    checkGeometry(c, G, 1e-8);
    const double flip = m.zsign;
    for (int q = 0; q < G.number_of_cells; ++q) {
        const int gc = want[q];
        const double vol = m.volume(gc);
        c.close(G.cell_volumes[q], vol, vtol, 0, "volume", "cell %d (logical %d)", q, gc);
        double cc[3]; m.centroid(gc, cc);
        const double ext = std::fabs(m.u[0]) + std::fabs(m.u[1]) + std::fabs(m.v[0]) + std::fabs(m.v[1]) + 40 * m.zscale;
        for (int d = 0; d < 3; ++d) c.check(std::fabs(G.cell_centroids[3 * q + d] - cc[d]) <= 1e-7 * (ext + std::fabs(cc[d])), "centroid", "cell %d (logical %d) axis %d: %.12g instead of %.12g", q, gc, d, G.cell_centroids[3 * q + d], cc[d]);
        // sides
        double area[6] = { 0, 0, 0, 0, 0, 0 };
        for (int h = G.cell_facepos[q]; h < G.cell_facepos[q + 1]; ++h) {
            const int f = G.cell_faces[h], tag = G.cell_facetag[h];
            area[tag] += G.face_areas[f];
            const bool first = G.face_cells[2 * f] == q;
            c.check(first == (tag % 2 == 1), "orientation", "face %d lies on side %d of cell %d but is oriented %s", f, tag, q, first ? "out of it" : "into it");
            double out = 0;
            for (int d = 0; d < 3; ++d) out += (G.face_centroids[3 * f + d] - G.cell_centroids[3 * q + d]) * G.face_normals[3 * f + d] * (first ? 1 : -1);
            c.check(out > 0, "normal-direction", "face %d (side %d of cell %d): normal does not point out of the cell", f, tag, q);
        }
        double ref = 0; for (int t = 0; t < 6; ++t) ref += area[t];
        for (int t = 0; t < 4; ++t) c.close(area[t], m.sideArea(gc, t), vtol, 1e-3 * ref, "side-area", "side %d of cell %d (logical %d)", t, q, gc);
        c.check(area[4] > 0 && area[5] > 0, "side-area", "cell %d has no top or bottom", q);
    }
    (void) flip;
    // contacts
    std::map<std::pair<int, int>, double> got;
    for (int f = 0; f < G.number_of_faces; ++f) {
        const int a = G.face_cells[2 * f], b = G.face_cells[2 * f + 1];
        if (a >= 0 && b >= 0) got[std::make_pair(a, b)] += G.face_areas[f];
        c.check(a >= 0 || b >= 0, "face-cells", "face %d has no cell", f);
    }
    for (auto& p : got) {
        const int A = want[p.first.first], B = want[p.first.second];
        const int di = B % nx - A % nx, dj = B / nx % ny - A / nx % ny;
        c.check((di == 1 && dj == 0) || (di == 0 && dj == 1) || (di == 0 && dj == 0 && B > A), "contact", "logical cells %d and %d share a face", A, B);
    }
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        for (int dir = 0; dir < 2; ++dir) {
            if (dir == 0 ? i + 1 >= nx : j + 1 >= ny) continue;
            for (int k = 0; k < nz; ++k) for (int l = 0; l < nz; ++l) {
                const int A = i + nx * (j + ny * k), B = (i + (dir == 0)) + nx * ((j + (dir == 1)) + ny * l);
                if (local[A] < 0 || local[B] < 0) continue;
                const double ov = m.contact(A, B, dir == 0 ? 1 : 3);
                const auto it = got.find(std::make_pair(local[A], local[B]));
                const double have = it == got.end() ? 0 : it->second;
                const double scale = std::max(m.sideArea(A, dir == 0 ? 1 : 3), m.sideArea(B, dir == 0 ? 0 : 2));
                c.close(have, ov, 1e-8, scale, "contact-area", "logical cells %d and %d", A, B);
                c.check((it != got.end()) == (ov > 1e-9 * scale), "contact", "logical cells %d and %d: overlap %g, %s", A, B, ov, it != got.end() ? "connected" : "not connected");
            }
        }
        // vertical contacts
        int prev = -1;
        for (int k = 0; k < nz; ++k) {
            const int B = i + nx * (j + ny * k);
            if (local[B] < 0) continue;
            if (prev >= 0) {
                bool same = true;
                for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) same = same && m.zc(prev, a, b, 1) == m.zc(B, a, b, 0);
                const auto it = got.find(std::make_pair(local[prev], local[B]));
                c.check((it != got.end()) == same, "vertical-contact", "logical cells %d and %d are %s but %s", prev, B, same ? "in contact" : "apart", it != got.end() ? "connected" : "not connected");
            }
            prev = B;
        }
        for (int k = 0; k < nz; ++k) for (int l = k + 1; l < nz; ++l) {
            const int A = i + nx * (j + ny * k), B = i + nx * (j + ny * l);
            if (local[A] < 0 || local[B] < 0) continue;
            bool between = false; for (int q = k + 1; q < l; ++q) between = between || local[i + nx * (j + ny * q)] >= 0;
            if (between) c.check(got.find(std::make_pair(local[A], local[B])) == got.end(), "vertical-contact", "logical cells %d and %d are connected across another cell", A, B);
        }
    }
    // node coordinates: every pillar node is on its pillar, no duplicates on a pillar with tolerance 0
    for (int v = 0; v < G.number_of_nodes; ++v) for (int d = 0; d < 3; ++d) c.check(std::isfinite(G.node_coordinates[3 * v + d]), "nodes", "node %d is not finite", v);
}

void exact(Gen& g, Ctx& c)
{
    CpModel m = genCp(g);
    if (c.wantDesc()) c.desc() << m.str();
    features(c, m);
    grdecl d = m.decl();
    GridPtr G(create_grid_cornerpoint(&d, 0.0));
    c.check(!!G, "null", "no grid");
    checkModel(c, m, *G, 1e-8);
}
void wedge(Gen& g, Ctx& c)
{
    CpOpts op; op.wedge = true;
    CpModel m = genCp(g, op);
    if (c.wantDesc()) c.desc() << m.str();
    features(c, m);
    grdecl d = m.decl();
    GridPtr G(create_grid_cornerpoint(&d, 0.0));
    c.check(!!G, "null", "no grid");
    checkModel(c, m, *G, 1e-8);
}
// Many layers / wide grids: buffers must grow.
void tall(Gen& g, Ctx& c)
{
    CpOpts op; op.maxc = 400; op.wedge = g.b();
    const int which = g.i(0, 2);
    op.maxn[0] = which == 0 ? 2 : 12; op.maxn[1] = which == 0 ? 2 : which == 1 ? 1 : 12; op.maxn[2] = which == 0 ? 40 : which == 1 ? 8 : 3;
    CpModel m = genCp(g, op);
    if (c.wantDesc()) c.desc() << m.str();
    features(c, m);
    grdecl d = m.decl();
    GridPtr G(create_grid_cornerpoint(&d, 0.0));
    c.check(!!G, "null", "no grid");
    checkModel(c, m, *G, 1e-8);
}
// An unfaulted box equals the tensor grid: same connections and geometry.
void box(Gen& g, Ctx& c)
{
    CartSpec s = genCart(g, 60, 3, false, g.b() ? 1 : 0);
    const int nx = s.n[0], ny = s.n[1], nz = s.n[2];
    if (c.wantDesc()) c.desc() << s.str();
    c.nontrivial(nx * ny * nz > 1);
    auto zat = [&](int i, int j, int k) { return s.x[2][k] + (s.depthz.empty() ? 0.0 : s.depthz[i + (nx + 1) * j]); };
    std::vector<double> coord, zcorn;
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) for (int e = 0; e < 2; ++e) { coord.push_back(s.x[0][i]); coord.push_back(s.x[1][j]); coord.push_back(zat(i, j, e ? nz : 0)); }
    for (int k = 0; k < 2 * nz; ++k) for (int j = 0; j < 2 * ny; ++j) for (int i = 0; i < 2 * nx; ++i) zcorn.push_back(zat((i + 1) / 2, (j + 1) / 2, (k + 1) / 2));
    grdecl d; d.dims[0] = nx; d.dims[1] = ny; d.dims[2] = nz; d.coord = &coord[0]; d.zcorn = &zcorn[0]; d.actnum = 0; d.mapaxes = 0;
    GridPtr A(create_grid_cornerpoint(&d, 0.0)), B = makeCart(s);
    c.check(A && B, "null", "no grid");
    checkTopology(c, *A); checkGeometry(c, *A, 1e-9);
    c.check(A->number_of_cells == B->number_of_cells && A->number_of_faces == B->number_of_faces && A->number_of_nodes == B->number_of_nodes, "counts",
            "%d/%d/%d cells/faces/nodes against %d/%d/%d", A->number_of_cells, A->number_of_faces, A->number_of_nodes, B->number_of_cells, B->number_of_faces, B->number_of_nodes);
    for (int q = 0; q < A->number_of_cells; ++q) {
        c.close(A->cell_volumes[q], B->cell_volumes[q], 1e-9, 0, "volume", "cell %d", q);
        double ext = std::pow(B->cell_volumes[q], 1. / 3) + std::fabs(s.x[0][0]) + std::fabs(s.x[0][nx]) + std::fabs(s.x[1][ny]) + std::fabs(zat(nx, ny, nz));
        for (int k = 0; k < 3; ++k) c.check(std::fabs(A->cell_centroids[3 * q + k] - B->cell_centroids[3 * q + k]) <= 1e-9 * ext, "centroid", "cell %d axis %d", q, k);
        std::map<int, int> fa, fb;
        for (int h = A->cell_facepos[q]; h < A->cell_facepos[q + 1]; ++h) fa[A->cell_facetag[h]] = A->cell_faces[h];
        for (int h = B->cell_facepos[q]; h < B->cell_facepos[q + 1]; ++h) fb[B->cell_facetag[h]] = B->cell_faces[h];
        c.check(fa.size() == 6, "tags", "cell %d has %d distinct side tags", q, (int) fa.size());
        for (int t = 0; t < 6; ++t) {
            const int a = fa[t], b = fb[t];
            c.check(A->face_cells[2 * a] == B->face_cells[2 * b] && A->face_cells[2 * a + 1] == B->face_cells[2 * b + 1], "face-cells", "cell %d side %d", q, t);
            for (int k = 0; k < 3; ++k) {
                c.check(std::fabs(A->face_centroids[3 * a + k] - B->face_centroids[3 * b + k]) <= 1e-9 * ext, "face-centroid", "cell %d side %d axis %d", q, t, k);
                c.close(A->face_normals[3 * a + k], B->face_normals[3 * b + k], 1e-9, B->face_areas[b], "normal", "cell %d side %d axis %d", q, t, k);
            }
        }
    }
}
std::set<std::pair<int, int> > conns(const UnstructuredGrid& G)
{
    std::set<std::pair<int, int> > s;
    for (int f = 0; f < G.number_of_faces; ++f) s.insert(std::make_pair(G.face_cells[2 * f] < 0 ? -1 : G.global_cell[G.face_cells[2 * f]], G.face_cells[2 * f + 1] < 0 ? -1 : G.global_cell[G.face_cells[2 * f + 1]]));
    return s;
}
// Depths that differ by less than the tolerance count as equal.
void tolerance(Gen& g, Ctx& c)
{
    CpModel m = genCp(g);
    if (c.wantDesc()) c.desc() << m.str();
    features(c, m);
    grdecl d0 = m.decl();
    GridPtr A(create_grid_cornerpoint(&d0, 0.0));
    const double eps = 0.04 * m.zscale;
    // noise in [-eps, eps], kept monotone along each corner column
    std::vector<double> z(m.zcorn);
    const int nx = m.n[0], ny = m.n[1], nz = m.n[2];
    for (int j = 0; j < 2 * ny; ++j) for (int i = 0; i < 2 * nx; ++i) {
        double last = -1e300;
        for (int k = 0; k < 2 * nz; ++k) {
            double& v = z[i + (size_t) 2 * nx * (j + (size_t) 2 * ny * k)];
            double w = m.zsign * v + g.real(-eps, eps);
            if (w < last) w = last;
            last = w; v = m.zsign * w;
        }
    }
    grdecl d1 = m.decl(); d1.zcorn = &z[0];
    GridPtr B(create_grid_cornerpoint(&d1, 0.25 * m.zscale));
    c.check(A && B, "null", "no grid");
    checkTopology(c, *B);
    c.check(A->number_of_cells == B->number_of_cells && A->number_of_faces == B->number_of_faces && A->number_of_nodes == B->number_of_nodes, "tolerance",
            "%d/%d/%d cells/faces/nodes, without noise %d/%d/%d", B->number_of_cells, B->number_of_faces, B->number_of_nodes, A->number_of_cells, A->number_of_faces, A->number_of_nodes);
    for (int q = 0; q < A->number_of_cells; ++q) {
        c.check(A->global_cell[q] == B->global_cell[q], "tolerance", "cell %d has logical index %d, without noise %d", q, B->global_cell[q], A->global_cell[q]);
        c.check(std::fabs(A->cell_volumes[q] - B->cell_volumes[q]) <= m.base() * m.zscale * 1.0, "tolerance", "cell %d volume %g, without noise %g", q, B->cell_volumes[q], A->cell_volumes[q]);
    }
    c.check(conns(*A) == conns(*B), "tolerance", "the connections differ from those without noise");
}
// Layers thinner than the tolerance vanish, but the outer boundary stays where it is.
void outer(Gen& g, Ctx& c)
{
    const int nx = g.size(1, 3), ny = g.size(1, 3), nz = g.size(1, 8);
    const double tol = g.p(1, 5) ? 0.0 : g.real(0.01, 0.3);
    const bool flat = g.b();
    // one list of thicknesses for all pillars, scaled per pillar by factors that do not change which are thinner than the tolerance
    std::vector<double> th(nz), zz;
    int thick = 0;
    for (double& t : th) { const int w = g.i(0, 3); t = w == 0 ? 0.0 : w == 1 ? tol * g.real(0.05, 0.3) : g.real(1.0, 3.0); thick += w >= 2; }
    if (!thick) { th[g.i(0, nz - 1)] = 2.0; thick = 1; }
    // a run of thin layers must stay below the tolerance as a whole
    double run = 0; for (double& t : th) { if (t >= 1.0) run = 0; else if (run + t > 0.8 * tol) t = 0; else run += t; }
    std::vector<double> coord, top((nx + 1) * (ny + 1)), fac((nx + 1) * (ny + 1), 1.0);
    for (size_t q = 0; q < top.size(); ++q) { top[q] = flat ? 5.0 : g.real(0, 10); }
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) for (int e = 0; e < 2; ++e) { coord.push_back(2.0 * i); coord.push_back(3.0 * j); coord.push_back(e ? 100.0 : 0.0); }
    std::vector<double> zcorn(8 * nx * ny * nz);
    std::vector<double> cum(nz + 1, 0.0); for (int k = 0; k < nz; ++k) cum[k + 1] = cum[k] + th[k];
    for (int k = 0; k < 2 * nz; ++k) for (int j = 0; j < 2 * ny; ++j) for (int i = 0; i < 2 * nx; ++i)
        zcorn[i + 2 * nx * (j + 2 * ny * k)] = top[(i + 1) / 2 + (nx + 1) * ((j + 1) / 2)] + cum[(k + 1) / 2];
    if (c.wantDesc()) c.desc() << pbt::fmt("%dx%dx%d tol %.17g top ", nx, ny, nz, tol) << show(top, 20) << " thickness " << show(th, 20);
    c.nontrivial(tol > 0 && thick < nz); c.label("thin-last", th[nz - 1] > 0 && th[nz - 1] < 0.5); c.label("thin-first", th[0] > 0 && th[0] < 0.5);
    grdecl d; d.dims[0] = nx; d.dims[1] = ny; d.dims[2] = nz; d.coord = &coord[0]; d.zcorn = &zcorn[0]; d.actnum = 0; d.mapaxes = 0;
    GridPtr G(create_grid_cornerpoint(&d, tol));
    c.check(!!G, "null", "no grid");
    checkTopology(c, *G); checkGeometry(c, *G, 1e-9, false);
    c.check(G->number_of_cells == nx * ny * thick, "cells", "%d cells, %d layers of %d by %d are thicker than the tolerance", G->number_of_cells, thick, nx, ny);
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
        const double a = top[i + (nx + 1) * j], b = a + cum[nz];
        double lo = 1e300, hi = -1e300; int cnt = 0;
        for (int v = 0; v < G->number_of_nodes; ++v) {
            const double* p = G->node_coordinates + 3 * v;
            if (std::fabs(p[0] - 2.0 * i) > 0.1 || std::fabs(p[1] - 3.0 * j) > 0.1) continue;
            lo = std::min(lo, p[2]); hi = std::max(hi, p[2]); ++cnt;
        }
        c.check(cnt == thick + 1, "nodes", "pillar %d,%d carries %d nodes for %d layers", i, j, cnt, thick);
        c.check(std::fabs(lo - a) <= 1e-12 * 100 && std::fabs(hi - b) <= 1e-12 * 100, "outer", "pillar %d,%d spans %.17g..%.17g, given %.17g..%.17g", i, j, lo, hi, a, b);
    }
    if (flat) { double v = 0; for (int q = 0; q < G->number_of_cells; ++q) v += G->cell_volumes[q]; c.close(v, 6.0 * nx * ny * cum[nz], 1e-10, 0, "outer", "total volume"); }
}
// Curved conforming grids (pillars not parallel, non-planar layers): topology of a
// box, closed cells, and volumes that add up to the whole.
void curved(Gen& g, Ctx& c)
{
    const int nx = g.size(1, 4), ny = g.size(1, 4), nz = g.size(1, 4);
    const bool zup = g.p(1, 4), left = g.p(1, 4);
    std::vector<double> coord, zcorn(8 * nx * ny * nz);
    std::vector<double> zz((nx + 1) * (ny + 1) * (nz + 1));
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
        for (int e = 0; e < 2; ++e) {
            coord.push_back(10 * (i + g.real(-0.2, 0.2))); coord.push_back((left ? -10 : 10) * (j + g.real(-0.2, 0.2)));
            coord.push_back((zup ? -1 : 1) * (e ? 10.0 * nz + 3 : 0.0));
        }
        double z = g.real(0, 2);
        for (int k = 0; k <= nz; ++k) { zz[i + (nx + 1) * (j + (ny + 1) * k)] = z; z += g.real(4, 9); }
    }
    for (int k = 0; k < 2 * nz; ++k) for (int j = 0; j < 2 * ny; ++j) for (int i = 0; i < 2 * nx; ++i)
        zcorn[i + 2 * nx * (j + 2 * ny * k)] = (zup ? -1 : 1) * zz[(i + 1) / 2 + (nx + 1) * ((j + 1) / 2 + (ny + 1) * ((k + 1) / 2))];
    if (c.wantDesc()) c.desc() << pbt::fmt("%dx%dx%d curved zup=%d left=%d ", nx, ny, nz, zup, left) << show(coord, 60) << " z " << show(zz, 60);
    c.nontrivial(nx * ny * nz > 1); c.label("zup", zup); c.label("left", left);
    grdecl d; d.dims[0] = nx; d.dims[1] = ny; d.dims[2] = nz; d.coord = &coord[0]; d.zcorn = &zcorn[0]; d.actnum = 0; d.mapaxes = 0;
    GridPtr G(create_grid_cornerpoint(&d, 0.0));
    c.check(!!G, "null", "no grid");
    checkTopology(c, *G); checkGeometry(c, *G, 1e-9, false);
    c.check(G->number_of_cells == nx * ny * nz, "cells", "%d cells", G->number_of_cells);
    c.check(G->number_of_faces == (nx + 1) * ny * nz + nx * (ny + 1) * nz + nx * ny * (nz + 1), "faces", "%d faces", G->number_of_faces);
    // every node is on its pillar at one of the given depths
    for (int v = 0; v < G->number_of_nodes; ++v) {
        const double* p = G->node_coordinates + 3 * v;
        double best = 1e300;
        for (int q = 0; q < (nx + 1) * (ny + 1); ++q) {
            const double* r = &coord[6 * q]; const double a = (p[2] - r[2]) / (r[5] - r[2]);
            best = std::min(best, std::hypot(r[0] + a * (r[3] - r[0]) - p[0], r[1] + a * (r[4] - r[1]) - p[1]));
        }
        c.check(best <= 1e-8, "pillar", "node %d is %g away from every pillar at its depth", v, best);
    }
    // volume through the divergence theorem on the outer triangulated surface (independent of the cells)
    double tot = 0, ref = 0;
    for (int q = 0; q < G->number_of_cells; ++q) tot += G->cell_volumes[q];
    for (int f = 0; f < G->number_of_faces; ++f) {
        const int a = G->face_cells[2 * f], b = G->face_cells[2 * f + 1];
        if (a >= 0 && b >= 0) continue;
        const int n = G->face_nodepos[f + 1] - G->face_nodepos[f];
        double x[3] = { 0, 0, 0 };
        for (int k = 0; k < n; ++k) for (int q = 0; q < 3; ++q) x[q] += G->node_coordinates[3 * G->face_nodes[G->face_nodepos[f] + k] + q] / n;
        double v = 0;
        for (int k = 0; k < n; ++k) {
            const double* p = G->node_coordinates + 3 * G->face_nodes[G->face_nodepos[f] + k];
            const double* r = G->node_coordinates + 3 * G->face_nodes[G->face_nodepos[f] + (k + 1) % n];
            v += (x[0] * (p[1] * r[2] - p[2] * r[1]) + x[1] * (p[2] * r[0] - p[0] * r[2]) + x[2] * (p[0] * r[1] - p[1] * r[0])) / 6;
        }
        ref += a >= 0 ? v : -v;
    }
    c.close(tot, ref, 1e-9, 0, "total-volume", "sum of cell volumes against the volume inside the outer surface");
}
} // namespace

pbt::Spec pbt::spec()
{
    return { "C02", "pillars on an affine lattice of either handedness, optionally inclined, depth axis up or down; integer depths with one plane per cell top/bottom and column: conforming, throws, per-column shifts, independent columns; zero-thickness layers and edges, gaps, random activity; non-trivial: some fault, pinch, gap or inactive cell (box/curved: more than one cell)",
             { "at least one active cell has positive thickness", "exact geometry oracle needs plane tops and parallel pillars; curved grids are checked for topology, closedness and total volume" },
             160000, 4000000, { { "exact", 6, exact }, { "wedge", 3, wedge }, { "tall", 1, tall }, { "box", 2, box }, { "tolerance", 3, tolerance }, { "outer", 2, outer }, { "curved", 2, curved } } };
}
