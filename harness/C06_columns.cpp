// C06: column extraction partitions the cells into vertically connected columns.
#include "cpgen.hpp"
#include "polygen.hpp"
#include <opm/core/grid/ColumnExtract.hpp>

namespace {

void verify(Ctx& c, const UnstructuredGrid& g)
{
    std::vector<std::vector<int> > cols;
    Opm::extractColumn(g, cols);
    const int nx = g.cartdims[0], ny = g.cartdims[1], nc = g.number_of_cells;
    auto glob = [&](int i) { return g.global_cell ? g.global_cell[i] : i; };
    std::set<std::pair<int, int> > nb;
    for (int f = 0; f < g.number_of_faces; ++f) if (g.face_cells[2 * f] >= 0 && g.face_cells[2 * f + 1] >= 0) { nb.insert(std::make_pair(g.face_cells[2 * f], g.face_cells[2 * f + 1])); nb.insert(std::make_pair(g.face_cells[2 * f + 1], g.face_cells[2 * f])); }
    // reference partition: per (i,j), by increasing k, broken where consecutive cells share no face
    std::map<int, std::map<int, int> > byij;
    for (int q = 0; q < nc; ++q) byij[glob(q) % (nx * ny)][glob(q) / (nx * ny)] = q;
    std::vector<std::vector<int> > ref; int splits = 0, gaps = 0;
    for (auto& ij : byij) {
        int prev = -1, pk = -1;
        for (auto& kc : ij.second) {
            if (prev < 0 || !nb.count(std::make_pair(prev, kc.second))) { splits += prev >= 0; ref.push_back(std::vector<int>()); } else gaps += kc.first != pk + 1;
            ref.back().push_back(kc.second); prev = kc.second; pk = kc.first;
        }
    }
    std::vector<int> seen(nc, 0);
    for (size_t k = 0; k < cols.size(); ++k) {
        c.check(!cols[k].empty(), "empty-column", "column %d is empty", (int) k);
        for (int q : cols[k]) { c.check(q >= 0 && q < nc, "cell-index", "column %d holds cell %d of %d", (int) k, q, nc); c.check(seen[q]++ == 0, "partition", "cell %d is in two columns", q); }
    }
    for (int q = 0; q < nc; ++q) c.check(seen[q] == 1, "partition", "cell %d is in no column", q);
    std::vector<std::vector<int> > a = cols; std::sort(a.begin(), a.end()); std::sort(ref.begin(), ref.end());
    c.check(a.size() == ref.size(), "column-count", "%d columns, expected %d", (int) a.size(), (int) ref.size());
    for (size_t k = 0; k < a.size(); ++k) c.check(a[k] == ref[k], "column", "column %s, expected %s", show(a[k]).c_str(), show(ref[k]).c_str());
    c.label("column broken at a gap", splits > 0); c.label("connected across missing layers", gaps > 0);
    c.nontrivial(nc > 1 && ref.size() > 1);
}

void cornerpoint(Gen& g, Ctx& c)
{
    CpOpts o; o.maxn[0] = o.maxn[1] = 3; o.maxn[2] = g.b() ? 7 : 3;
    CpModel m = genCp(g, o); const grdecl d = m.decl();
    c.desc() << m.str();
    GridPtr G(create_grid_cornerpoint(&d, 0.0));
    if (!G || G->number_of_cells == 0) throw pbt::Discard();
    verify(c, *G);
}
void cartesian(Gen& g, Ctx& c)
{
    const CartSpec s = genCart(g, 80, 3); c.desc() << s.str();
    GridPtr G = makeCart(s);
    if (g.b() && G->global_cell) { free(G->global_cell); G->global_cell = 0; }
    verify(c, *G);
}

// Any numbering of cells: a box with some cells removed, others made unreachable, cells renumbered.
void renumbered(Gen& g, Ctx& c)
{
    const int n[3] = { g.size(1, 4), g.size(1, 4), g.size(1, 6) }; const int N = n[0] * n[1] * n[2];
    std::vector<int> keep; for (int q = 0; q < N; ++q) if (!g.p(1, 4)) keep.push_back(q);
    if (keep.empty()) keep.push_back(g.i(0, N - 1));
    const bool shuffle = g.b(); if (shuffle) { std::vector<int> p = g.perm((int) keep.size()), k2(keep.size()); for (size_t k = 0; k < p.size(); ++k) k2[p[k]] = keep[k]; keep = k2; }
    std::map<int, int> loc; for (size_t k = 0; k < keep.size(); ++k) loc[keep[k]] = (int) k;
    const int stride[3] = { 1, n[0], n[0] * n[1] };
    std::vector<std::array<int, 2> > fc; std::vector<std::vector<int> > cf(keep.size());
    auto addFace = [&](int a, int b) { std::array<int, 2> f = { { a, b } }; if (g.b()) std::swap(f[0], f[1]); const int id = (int) fc.size(); fc.push_back(f); for (int q : f) if (q >= 0) cf[q].push_back(id); };
    for (size_t k = 0; k < keep.size(); ++k) for (int ax = 0; ax < 3; ++ax) {
        const int ijk[3] = { keep[k] % n[0], keep[k] / n[0] % n[1], keep[k] / (n[0] * n[1]) };
        if (ijk[ax] + 1 < n[ax] && loc.count(keep[k] + stride[ax]) && !(ax == 2 && g.p(1, 5))) addFace((int) k, loc[keep[k] + stride[ax]]);
        else addFace((int) k, -1);
        // a layer of zero thickness in between: direct connection over a missing cell
        if (ax == 2 && ijk[2] + 2 < n[2] && !loc.count(keep[k] + stride[2]) && loc.count(keep[k] + 2 * stride[2]) && g.b()) addFace((int) k, loc[keep[k] + 2 * stride[2]]);
    }
    size_t ncf = 0; for (auto& v : cf) ncf += v.size();
    GridPtr G(allocate_grid(3, keep.size(), fc.size(), 0, ncf, 0));
    for (int k = 0; k < 3; ++k) G->cartdims[k] = n[k];
    G->global_cell = (int*) malloc(sizeof(int) * keep.size());
    int p = 0;
    for (size_t k = 0; k < keep.size(); ++k) { G->global_cell[k] = keep[k]; G->cell_facepos[k] = p; for (int f : cf[k]) { G->cell_facetag[p] = 0; G->cell_faces[p++] = f; } }
    G->cell_facepos[keep.size()] = p;
    for (size_t f = 0; f < fc.size(); ++f) { G->face_cells[2 * f] = fc[f][0]; G->face_cells[2 * f + 1] = fc[f][1]; }
    c.desc() << n[0] << "x" << n[1] << "x" << n[2] << " cells=" << show(keep, 100) << " faces="; for (auto& f : fc) c.desc() << "(" << f[0] << "," << f[1] << ")";
    c.label("shuffled cell numbers", shuffle);
    verify(c, *G);
}

} // namespace

pbt::Spec pbt::spec()
{
    return { "C06", "Corner-point grids with faults, pinched layers, gaps and inactive cells; Cartesian boxes with and without an index map; and abstract logically Cartesian grids with removed cells, broken vertical contacts, contacts across missing layers and shuffled cell numbers. Non-trivial: more than one cell and more than one column.",
        { "the result's order of columns is not specified; columns are compared as a set", "consecutive means: next present cell of the same (i,j) by layer" },
        200000, 4000000, { { "cornerpoint", 2, cornerpoint }, { "cartesian", 1, cartesian }, { "abstract", 4, renumbered } } };
}
