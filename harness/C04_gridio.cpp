// C04: grids read from a file or built from a deck equal the grid that was described.
#include "polygen.hpp"
#include "cpgen.hpp"
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <fstream>
#include <sstream>

namespace {

typedef std::vector<std::string> Tokens;
template <class T> void put(Tokens& t, const T* p, size_t n) { for (size_t k = 0; k < n; ++k) t.push_back(pbt::fmt(sizeof(T) == sizeof(double) ? "%.17g" : "%.0f", (double) p[k])); }

Tokens tokens(const UnstructuredGrid& g, bool tag, bool map)
{
    Tokens t; const size_t d = g.dimensions, nc = g.number_of_cells, nf = g.number_of_faces, nn = g.number_of_nodes;
    const int nfn = g.face_nodepos[nf], ncf = g.cell_facepos[nc];
    const int head[8] = { (int) d, (int) nc, (int) nf, (int) nn, nfn, ncf, tag, map };
    put(t, head, 8); put(t, g.cartdims, d); put(t, g.node_coordinates, d * nn);
    put(t, g.face_nodepos, nf + 1); put(t, g.face_nodes, nfn); put(t, g.face_cells, 2 * nf); put(t, g.face_areas, nf); put(t, g.face_centroids, d * nf); put(t, g.face_normals, d * nf);
    put(t, g.cell_facepos, nc + 1);
    for (int k = 0; k < ncf; ++k) { put(t, g.cell_faces + k, 1); if (tag) put(t, g.cell_facetag + k, 1); }
    if (map) put(t, g.global_cell, nc);
    put(t, g.cell_volumes, nc); put(t, g.cell_centroids, d * nc);
    return t;
}
template <class T> void same(Ctx& c, const T* a, const T* b, size_t n, const char* what, double rtol = 0)
{
    for (size_t k = 0; k < n; ++k) {
        if (rtol == 0) c.check(a[k] == b[k], what, "%s[%d] is %.17g, expected %.17g", what, (int) k, (double) a[k], (double) b[k]);
        else c.check(std::fabs(double(a[k] - b[k])) <= rtol * (1 + std::fabs((double) b[k])), what, "%s[%d] is %.17g, expected %.17g", what, (int) k, (double) a[k], (double) b[k]);
    }
}
void sameGrid(Ctx& c, const UnstructuredGrid& a, const UnstructuredGrid& b, bool tag, bool map, double rtol = 0)
{
    c.check(a.dimensions == b.dimensions && a.number_of_cells == b.number_of_cells && a.number_of_faces == b.number_of_faces && a.number_of_nodes == b.number_of_nodes,
            "counts", "%d/%d/%d/%d instead of %d/%d/%d/%d", a.dimensions, a.number_of_cells, a.number_of_faces, a.number_of_nodes, b.dimensions, b.number_of_cells, b.number_of_faces, b.number_of_nodes);
    const size_t d = b.dimensions, nc = b.number_of_cells, nf = b.number_of_faces, nn = b.number_of_nodes;
    same(c, a.cartdims, b.cartdims, d, "cartdims"); if (d == 2) c.check(a.cartdims[2] == 1, "cartdims", "third logical size of a 2D grid is %d", a.cartdims[2]);
    same(c, a.node_coordinates, b.node_coordinates, d * nn, "node_coordinates", rtol);
    same(c, a.face_nodepos, b.face_nodepos, nf + 1, "face_nodepos"); same(c, a.face_nodes, b.face_nodes, b.face_nodepos[nf], "face_nodes"); same(c, a.face_cells, b.face_cells, 2 * nf, "face_cells");
    same(c, a.face_areas, b.face_areas, nf, "face_areas", rtol); same(c, a.face_centroids, b.face_centroids, d * nf, "face_centroids", rtol); same(c, a.face_normals, b.face_normals, d * nf, "face_normals", rtol);
    same(c, a.cell_facepos, b.cell_facepos, nc + 1, "cell_facepos"); same(c, a.cell_faces, b.cell_faces, b.cell_facepos[nc], "cell_faces");
    if (tag) { c.check(a.cell_facetag, "cell_facetag", "tags are missing"); same(c, a.cell_facetag, b.cell_facetag, b.cell_facepos[nc], "cell_facetag"); }
    if (map) { c.check((a.global_cell != 0) == (b.global_cell != 0), "global_cell", "index map present: %d", a.global_cell != 0); if (b.global_cell) same(c, a.global_cell, b.global_cell, nc, "global_cell"); }
    same(c, a.cell_volumes, b.cell_volumes, nc, "cell_volumes", rtol); same(c, a.cell_centroids, b.cell_centroids, d * nc, "cell_centroids", rtol);
}

// ------------------------------------------------------------------ files
GridPtr randomGrid(Gen& g, std::string& how)
{
    switch (g.i(0, 2)) {
    case 0: { const CartSpec s = genCart(g, 12); how = s.str(); return makeCart(s); }
    case 1: { PolyOpts o; o.maxcuts = 2; const Poly p = genPoly(g, g.p(1, 3) ? 2 : 3, o); how = pbt::fmt("polyhedral %dD, %d cells", p.d, p.nc); return p.grid(&g, true); }
    default: { CpOpts o; o.maxn[0] = o.maxn[1] = o.maxn[2] = 2; CpModel m = genCp(g, o); how = m.str(); const grdecl d = m.decl(); GridPtr p(create_grid_cornerpoint(&d, 0.0)); if (!p || p->number_of_cells == 0) throw pbt::Discard(); return p; }
    }
}

void file(Gen& g, Ctx& c)
{
    std::string how; GridPtr G = randomGrid(g, how);
    const bool tag = g.b(), map = g.b();
    if (!G->global_cell && map) { G->global_cell = (int*) malloc(sizeof(int) * G->number_of_cells); for (int k = 0; k < G->number_of_cells; ++k) G->global_cell[k] = 3 * k + 1; }
    if (!G->cell_facetag && tag) throw pbt::Discard();
    if (g.b()) for (int k = 0; k < 3; ++k) G->cartdims[k] = g.i(1, 50);
    if (tag) for (int k = 0; k < G->cell_facepos[G->number_of_cells]; ++k) if (g.p(1, 8)) G->cell_facetag[k] = g.i(0, 5);
    if (G->dimensions == 2) G->cartdims[2] = 1;
    const Tokens t = tokens(*G, tag, map);
    // 0 complete, 1 cut after some token, 2 a token is not a number, 3 no such file
    const int mode = g.i(0, 3);
    size_t at = t.size();
    if (mode == 1 || mode == 2) at = g.b() ? (size_t) g.i(0, (int) t.size() - 1) : (size_t) g.i((int) t.size() - std::min<int>((int) t.size(), 20), (int) t.size() - 1);
    if (g.p(1, 4) && mode) at = std::min(at, (size_t) g.i(0, 14));
    std::ostringstream o; const int per = g.i(1, 8);
    for (size_t k = 0; k < t.size(); ++k) {
        if (mode == 1 && k == at) break;
        if (mode == 2 && k == at) o << "garbage" << " "; else o << t[k] << ((k + 1) % per ? (k % 5 ? " " : "  ") : "\n");
    }
    if (g.b()) o << "\n";
    const std::string name = pbt::scratch() + "/grid.txt";
    if (mode != 3) { std::ofstream f(name.c_str()); f << o.str(); } else remove(name.c_str());
    c.desc() << how << " tags=" << tag << " indexmap=" << map << " mode=" << mode << " at token " << at << " of " << t.size();
    c.nontrivial(); c.label(mode == 0 ? "complete file" : mode == 1 ? "truncated file" : mode == 2 ? "non-numeric token" : "no file"); c.label("with tags", tag); c.label("with index map", map); c.label("2D", G->dimensions == 2);
    GridPtr R(read_grid(name.c_str()));
    bool thrown = false;
    try {
        Opm::GridManager m(name);
        if (mode == 0) sameGrid(c, *m.c_grid(), *G, tag, false);
    } catch (const pbt::Fail&) { throw; }
    catch (const std::exception&) { thrown = true; }
    if (mode == 0) {
        c.check(R != 0, "rejected", "a complete file was rejected");
        c.check((R->cell_facetag != 0) == tag, "cell_facetag", "tags present: %d, in file: %d", R->cell_facetag != 0, tag);
        c.check((R->global_cell != 0) == map, "global_cell", "index map present: %d, in file: %d", R->global_cell != 0, map);
        sameGrid(c, *R, *G, tag, map);
        c.check(!thrown, "rejected", "GridManager rejected a complete file");
    } else {
        c.check(R == 0, "accepted", "an incomplete file was accepted");
        c.check(thrown, "accepted", "GridManager accepted an incomplete file");
    }
}

// ------------------------------------------------------------------ decks
void vec(std::ostream& o, const char* key, const std::vector<double>& v)
{
    o << key << "\n"; for (size_t k = 0; k < v.size(); ++k) o << pbt::fmt("%.17g", v[k]) << (k % 6 == 5 ? "\n" : " "); o << "/\n\n";
}

void tensorDeck(Gen& g, Ctx& c)
{
    const bool field = g.p(1, 4); const double u = field ? 0.3048 : 1.0;
    CartSpec s; s.dim = 3; int nd[3]; std::vector<double> dv[3];
    for (int k = 0; k < 3; ++k) { s.n[k] = g.size(1, 4); nd[k] = s.n[k]; for (int q = 0; q < s.n[k]; ++q) dv[k].push_back(g.real(0.5, 20)); s.x[k].assign(1, 0.0); for (double h : dv[k]) s.x[k].push_back(s.x[k].back() + h * u); }
    const int top = g.i(0, 2);      // none, DEPTHZ, TOPS
    std::vector<double> depth, tops; const size_t np = (s.n[0] + 1) * (s.n[1] + 1);
    if (top == 1) for (size_t k = 0; k < np; ++k) depth.push_back(g.real(1000, 1000.4));
    if (top == 2) tops.assign(s.n[0] * s.n[1] * (g.b() ? 1 : s.n[2]), g.real(0, 2000));
    if (top == 1) for (double z : depth) s.depthz.push_back(z * u);
    if (top == 2) s.depthz.assign(np, tops[0] * u);
    // one inconsistency, or none
    const int bad = g.p(1, 2) ? g.i(1, 7) : 0;
    bool spec = g.b(), nodims = false; int skip = -1;
    bool rejected = false;
    if (bad == 1 || bad == 2 || bad == 3) { nd[bad - 1] += g.b() || nd[bad - 1] == 1 ? 1 : -1; rejected = true; }
    if (bad == 4 && top == 1) { if (g.b()) depth.pop_back(); else depth.push_back(1000); rejected = true; }
    if (bad == 5 && top == 2 && tops.size() > 1) { tops[g.i(0, (int) tops.size() - 1)] += 1; rejected = true; }
    if (bad == 6) { nodims = true; rejected = true; }
    if (bad == 7) { skip = g.i(0, 2); rejected = true; }
    std::ostringstream o;
    if (field) o << "FIELD\n\n";
    if (!nodims) { o << (spec ? "SPECGRID\n" : "DIMENS\n") << nd[0] << " " << nd[1] << " " << nd[2] << (spec ? " 1 F" : "") << " /\n\n"; }
    const char* key[3] = { "DXV", "DYV", "DZV" };
    for (int k = 0; k < 3; ++k) if (k != skip) vec(o, key[k], dv[k]);
    if (top == 1) vec(o, "DEPTHZ", depth);
    if (top == 2) vec(o, "TOPS", tops);
    c.desc() << o.str() << (rejected ? " [inconsistent]" : "");
    c.nontrivial(s.n[0] * s.n[1] * s.n[2] > 1); c.label(rejected ? "inconsistent deck" : "consistent deck"); c.label(top == 0 ? "no top" : top == 1 ? "DEPTHZ" : "TOPS"); c.label("FIELD units", field);
    GridPtr ref = makeCart(s);
    std::istringstream is(o.str());
    bool thrown = false;
    try {
        Opm::EclipseGridParser deck; deck.read(is);
        Opm::GridManager m(deck);
        c.check(!rejected, "accepted", "an inconsistent deck was accepted");
        sameGrid(c, *m.c_grid(), *ref, true, true, 1e-11);
    } catch (const pbt::Fail&) { throw; }
    catch (const std::exception&) { thrown = true; }
    c.check(thrown == rejected, "rejected", "a consistent deck was rejected");
}

void cpDeck(Gen& g, Ctx& c)
{
    CpOpts op; op.maxn[0] = op.maxn[1] = op.maxn[2] = 3;
    CpModel m = genCp(g, op); const grdecl d = m.decl();
    std::vector<double> coord = m.coord, zcorn = m.zcorn; std::vector<int> act(m.use_act ? m.act : std::vector<int>());
    const bool spec = g.b(); bool rejected = false; int bad = g.p(1, 3) ? g.i(1, 4) : 0, nd[3] = { m.n[0], m.n[1], m.n[2] };
    if (bad == 1) { const int k = g.i(1, 3); if (g.b()) zcorn.resize(zcorn.size() - k); else zcorn.resize(zcorn.size() + k, zcorn.back()); rejected = true; }
    if (bad == 2) { const int k = g.i(1, 3); if (g.b()) coord.resize(coord.size() - k); else coord.resize(coord.size() + k, 0.0); rejected = true; }
    if (bad == 3 && !act.empty()) { act.push_back(1); if (g.b() && act.size() > 2) act.resize(act.size() - 2); rejected = true; }
    if (bad == 4) { nd[g.i(0, 2)] += g.i(1, 2); rejected = true; }
    std::ostringstream o;
    o << (spec ? "SPECGRID\n" : "DIMENS\n") << nd[0] << " " << nd[1] << " " << nd[2] << (spec ? " 1 F" : "") << " /\n\n";
    vec(o, "COORD", coord); vec(o, "ZCORN", zcorn);
    if (!act.empty()) { o << "ACTNUM\n"; for (int a : act) o << a << " "; o << "/\n"; }
    c.desc() << m.str() << (rejected ? pbt::fmt(" [inconsistent %d: %d zcorn, %d coord, %d actnum, %dx%dx%d]", bad, (int) zcorn.size(), (int) coord.size(), (int) act.size(), nd[0], nd[1], nd[2]) : "");
    c.nontrivial(m.n[0] * m.n[1] * m.n[2] > 1); c.label(rejected ? "inconsistent corner-point deck" : "consistent corner-point deck");
    std::istringstream is(o.str());
    bool thrown = false;
    try {
        Opm::EclipseGridParser deck; deck.read(is);
        Opm::GridManager gm(deck);
        c.check(!rejected, "accepted", "an inconsistent deck was accepted");
        GridPtr ref(create_grid_cornerpoint(&d, 0.0));
        sameGrid(c, *gm.c_grid(), *ref, true, true);
    } catch (const pbt::Fail&) { throw; }
    catch (const std::exception&) { thrown = true; }
    c.check(thrown == rejected, "rejected", "a consistent deck was rejected");
}

} // namespace

pbt::Spec pbt::spec()
{
    return { "C04", "Files: a random Cartesian, polyhedral or corner-point grid is written in the grid file format with or without tags and index map, complete, cut before a random token, with one token replaced by text, or absent; read_grid and GridManager must reproduce every array exactly or fail. Decks: tensor (DIMENS or SPECGRID, none/DEPTHZ/TOPS, METRIC/FIELD) and corner-point decks, consistent or with one wrong count. Every case is non-trivial except single-cell decks.",
        { "file numbers are written with 17 significant digits", "a file cut inside its last number is indistinguishable from a complete one and is not generated" },
        100000, 2000000, { { "file", 4, file }, { "tensor-deck", 2, tensorDeck }, { "cornerpoint-deck", 1, cpDeck } } };
}
