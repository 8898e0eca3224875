// C39: visualisation files and the vertex oriented grid format describe the given grid and data.
#include "polygen.hpp"
#include "cpgen.hpp"
#include <opm/core/io/vtk/writeVtkData.hpp>
#include <opm/core/io/vag/vag.hpp>
#include <opm/core/utility/DataMap.hpp>
#include <iostream>
#include <map>
#include <sstream>

namespace {

struct Quiet {
    std::ostringstream sink; std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

// ------------------------------------------------- a strict little XML reader
struct Node { std::string name, text; std::map<std::string, std::string> att; std::vector<Node> kids;
    const Node* kid(const std::string& n) const { for (auto& k : kids) if (k.name == n) return &k; return 0; }
    const Node* array(const std::string& n) const { for (auto& k : kids) if (k.name == "DataArray" && k.att.count("Name") && k.att.at("Name") == n) return &k; return 0; } };
struct Xml {
    const std::string& s; size_t p; std::string err;
    explicit Xml(const std::string& t) : s(t), p(0) {}
    void ws() { while (p < s.size() && isspace((unsigned char) s[p])) ++p; }
    bool fail(const std::string& m) { if (err.empty()) err = m + pbt::fmt(" at offset %d", (int) p); return false; }
    bool name(std::string& n) { n.clear(); while (p < s.size() && (isalnum((unsigned char) s[p]) || s[p] == '_' || s[p] == '-' || s[p] == ':')) n += s[p++]; return !n.empty() || fail("name expected"); }
    bool element(Node& n)
    {
        if (p >= s.size() || s[p] != '<') return fail("'<' expected");
        ++p; if (!name(n.name)) return false;
        for (;;) {
            ws(); if (p >= s.size()) return fail("tag not closed");
            if (s[p] == '/') { if (s.compare(p, 2, "/>")) return fail("bad tag"); p += 2; return true; }
            if (s[p] == '>') { ++p; break; }
            std::string k, v; if (!name(k)) return false;
            if (s.compare(p, 2, "=\"")) return fail("attribute value expected");
            p += 2; while (p < s.size() && s[p] != '"') { if (s[p] == '<') return fail("'<' in attribute"); v += s[p++]; }
            if (p >= s.size()) return fail("attribute not closed");
            ++p; if (n.att.count(k)) return fail("attribute given twice"); n.att[k] = v;
        }
        for (;;) {
            while (p < s.size() && s[p] != '<') n.text += s[p++];
            if (p >= s.size()) return fail("element " + n.name + " not closed");
            if (s[p + 1] == '/') { const std::string end = "</" + n.name + ">"; if (s.compare(p, end.size(), end)) return fail("wrong end tag in " + n.name); p += end.size(); return true; }
            Node k; if (!element(k)) return false; n.kids.push_back(k);
        }
    }
    bool document(Node& root)
    {
        ws(); if (!s.compare(p, 5, "<?xml")) { p = s.find("?>", p); if (p == std::string::npos) return fail("declaration not closed"); p += 2; }
        ws(); if (!element(root)) return false;
        ws(); return p == s.size() || fail("text after the document");
    }
};

template <class T> bool numbers(const std::string& t, std::vector<T>& v)
{
    std::istringstream i(t); std::string w; v.clear();
    while (i >> w) { char* e; const double x = strtod(w.c_str(), &e); if (*e) return false; v.push_back((T) x); if ((double) v.back() != x && x == x) return false; }
    return true;
}

GridPtr anyGrid(Gen& g, std::string& how, int dim = 3)
{
    switch (g.i(0, 2)) {
    case 0: { const CartSpec s = genCart(g, 30, dim); how = s.str(); return makeCart(s); }
    case 1: { PolyOpts o; o.maxcuts = 3; const Poly p = genPoly(g, dim, o); how = p.str(); return p.grid(&g, true); }
    default: { if (dim == 2) throw pbt::Discard(); CpOpts o; o.maxn[0] = o.maxn[1] = o.maxn[2] = 3; CpModel m = genCp(g, o); how = m.str(); const grdecl d = m.decl(); GridPtr p(create_grid_cornerpoint(&d, 0.0)); if (!p || p->number_of_cells == 0) throw pbt::Discard(); return p; }
    }
}

struct Fields {
    std::map<std::string, std::vector<double> > f; std::map<std::string, int> comps;
    Opm::DataMap map() const { Opm::DataMap m; for (auto& k : f) m[k.first] = &k.second; return m; }
    std::string str() const { std::string s; for (auto& k : f) s += "\n  " + k.first + "=" + show(k.second, 60); return s; }
};
Fields genFields(Gen& g, int nc)
{
    static const char* names[] = { "saturation", "pressure", "velocity", "poro", "time_of_flight", "zzz", "A" };
    Fields F; const int n = g.i(0, 4);
    for (int k = 0; k < n; ++k) {
        const std::string nm = names[g.i(0, 6)]; const int comps = g.p(1, 2) ? 1 : g.i(2, 6);
        std::vector<double> v(nc * comps);
        for (auto& x : v) switch (g.i(0, 5)) {
            case 0: x = g.i(-5, 5); break;
            case 1: x = g.real(0, 1); break;
            case 2: x = g.logreal(1e-20, 1e20) * (g.b() ? 1 : -1); break;
            case 3: x = g.p(1, 4) ? g.oneof({ 4.9e-324, -1e-310, 2.2250738585072014e-308, 1.7976931348623157e308, -0.0, 1e-307 }) : 1e5 * g.i(1, 400); break;
            case 4: x = g.i(0, 1000000) + 0.125; break;
            default: x = g.real(-1e7, 1e7);
        }
        F.f[nm] = v; F.comps[nm] = comps;
    }
    return F;
}

// -------------------------------------------------------------------- VTK
void vtk(Gen& g, Ctx& c)
{
    std::string how; GridPtr G = anyGrid(g, how);
    if (g.p(1, 3)) for (int k = 0; k < 3 * G->number_of_nodes; ++k) G->node_coordinates[k] += k % 3 == 2 ? 0 : 6543210.25;
    const Fields F = genFields(g, G->number_of_cells);
    c.desc() << how << F.str();
    c.nontrivial(G->number_of_cells > 1 && !F.f.empty()); c.label("several fields", F.f.size() > 1); c.label("no fields", F.f.empty());
    std::ostringstream o; Opm::writeVtkData(*G, F.map(), o);
    std::string text = o.str();
    if (g.p(1, 4)) { std::ostringstream q; q.precision(3); Opm::writeVtkData(*G, F.map(), q); c.check(q.str() == text, "repeat", "a second file with the same content differs"); }
    Node root; Xml x(text); c.check(x.document(root), "well-formed", "%s", x.err.c_str());
    c.check(root.name == "VTKFile" && root.att["type"] == "UnstructuredGrid", "root", "root element %s of type %s", root.name.c_str(), root.att["type"].c_str());
    const Node* ug = root.kid("UnstructuredGrid"); c.check(ug, "structure", "no UnstructuredGrid element");
    const Node* pc = ug->kid("Piece"); c.check(pc && ug->kids.size() == 1, "structure", "not one Piece element");
    const int nc = G->number_of_cells, nn = G->number_of_nodes;
    c.check(pc->att.at("NumberOfPoints") == pbt::fmt("%d", nn) && pc->att.at("NumberOfCells") == pbt::fmt("%d", nc), "counts", "%s points and %s cells", pc->att.at("NumberOfPoints").c_str(), pc->att.at("NumberOfCells").c_str());
    const Node *pts = pc->kid("Points"), *cl = pc->kid("Cells"), *cd = pc->kid("CellData");
    c.check(pts && pts->kids.size() == 1 && cl && cd, "structure", "Points, Cells or CellData is missing");
    auto ascii = [&](const Node& n, const char* type, int comps) {
        c.check(n.att.count("type") && n.att.at("type") == type, "array-type", "array %s has type %s", n.att.at("Name").c_str(), n.att.count("type") ? n.att.at("type").c_str() : "(none)");
        c.check(n.att.count("format") && n.att.at("format") == "ascii", "array-format", "array %s is not declared ascii", n.att.at("Name").c_str());
        c.check(n.att.count("NumberOfComponents") && n.att.at("NumberOfComponents") == pbt::fmt("%d", comps), "array-components", "array %s declares %s components instead of %d", n.att.at("Name").c_str(), n.att.at("NumberOfComponents").c_str(), comps);
    };
    std::vector<double> d; std::vector<int> v, off, t, faces, fo;
    ascii(pts->kids[0], "Float64", 3); c.check(numbers(pts->kids[0].text, d), "numbers", "points are not numbers"); c.check((int) d.size() == 3 * nn, "points", "%d coordinates for %d points", (int) d.size(), nn);
    for (int k = 0; k < 3 * nn; ++k) c.close(d[k], G->node_coordinates[k], 1e-11, 1e-300, "points", "coordinate %d", k);
    const char* need[5] = { "connectivity", "offsets", "faces", "faceoffsets", "types" }; std::vector<int>* into[5] = { &v, &off, &faces, &fo, &t };
    for (int k = 0; k < 5; ++k) { const Node* a = cl->array(need[k]); c.check(a, "structure", "no array %s", need[k]); ascii(*a, k == 4 ? "UInt8" : "Int32", 1); c.check(numbers(a->text, *into[k]), "numbers", "array %s is not a list of integers", need[k]); }
    c.check((int) off.size() == nc && (int) fo.size() == nc && (int) t.size() == nc, "cell-arrays", "%d offsets, %d face offsets, %d types for %d cells", (int) off.size(), (int) fo.size(), (int) t.size(), nc);
    int b = 0, fb = 0;
    for (int k = 0; k < nc; ++k) {
        c.check(t[k] == 42, "types", "cell %d has type %d", k, t[k]);
        std::set<int> pn; for (int q = G->cell_facepos[k]; q < G->cell_facepos[k + 1]; ++q) { const int f = G->cell_faces[q]; pn.insert(G->face_nodes + G->face_nodepos[f], G->face_nodes + G->face_nodepos[f + 1]); }
        c.check(off[k] >= b && off[k] <= (int) v.size(), "offsets", "offset of cell %d is %d", k, off[k]);
        std::vector<int> mine(v.begin() + b, v.begin() + off[k]); std::sort(mine.begin(), mine.end());
        c.check(mine == std::vector<int>(pn.begin(), pn.end()), "connectivity", "cell %d has points %s", k, show(mine).c_str());
        b = off[k];
        // the face stream
        c.check(fo[k] > fb && fo[k] <= (int) faces.size(), "faceoffsets", "face offset of cell %d is %d", k, fo[k]);
        int p = fb; const int nf = faces[p++]; c.check(nf == G->cell_facepos[k + 1] - G->cell_facepos[k], "faces", "cell %d has %d faces", k, nf);
        std::multiset<std::vector<int> > want, got;
        for (int q = 0; q < nf; ++q) {
            const int f = G->cell_faces[G->cell_facepos[k] + q]; want.insert(std::vector<int>(G->face_nodes + G->face_nodepos[f], G->face_nodes + G->face_nodepos[f + 1]));
            c.check(p < fo[k], "faces", "face stream of cell %d ends early", k);
            const int np = faces[p++]; c.check(np >= 0 && p + np <= fo[k], "faces", "face stream of cell %d ends early", k); got.insert(std::vector<int>(faces.begin() + p, faces.begin() + p + np)); p += np;
        }
        c.check(p == fo[k], "faceoffsets", "face stream of cell %d has %d items, offset says %d", k, p - fb, fo[k] - fb);
        c.check(want == got, "faces", "faces of cell %d differ", k);
        fb = fo[k];
    }
    c.check(b == (int) v.size() && fb == (int) faces.size(), "offsets", "unused entries in the connectivity");
    c.check(cd->kids.size() == F.f.size(), "fields", "%d fields instead of %d", (int) cd->kids.size(), (int) F.f.size());
    const char* active = F.f.count("saturation") ? "saturation" : F.f.count("pressure") ? "pressure" : 0;
    if (active) c.check(cd->att.count("Scalars") && cd->att.at("Scalars") == active, "active-field", "field %s is not the active one", active);
    if (cd->att.count("Scalars")) c.check(F.f.count(cd->att.at("Scalars")), "active-field", "active field %s does not exist", cd->att.at("Scalars").c_str());
    for (auto& f : F.f) {
        const Node* a = cd->array(f.first); c.check(a, "fields", "field %s is missing", f.first.c_str());
        ascii(*a, "Float64", F.comps.at(f.first)); c.check(numbers(a->text, d), "numbers", "field %s is not numeric", f.first.c_str()); c.check(d.size() == f.second.size(), "field-size", "field %s has %d values", f.first.c_str(), (int) d.size());
        for (size_t k = 0; k < d.size(); ++k) c.check(d[k] == 0 || std::fabs(d[k]) >= 2.225e-308, "denormal", "value %d of field %s is written as the denormal number %g", (int) k, f.first.c_str(), d[k]);
        for (size_t k = 0; k < d.size(); ++k) c.check(std::fabs(d[k] - f.second[k]) <= 1e-11 * std::fabs(f.second[k]) + 2.3e-308, "field-value", "value %d of field %s is %.17g instead of %.17g", (int) k, f.first.c_str(), d[k], f.second[k]);
    }
}

void vtk2d(Gen& g, Ctx& c)
{
    std::string how; GridPtr G = anyGrid(g, how, 2); const Fields F = genFields(g, G->number_of_cells);
    c.desc() << how; c.nontrivial(true);
    bool thrown = false; std::ostringstream o; try { Quiet q; Opm::writeVtkData(*G, F.map(), o); } catch (const std::exception&) { thrown = true; }
    c.check(thrown, "2D", "a 2D grid was written as if it were 3D");
}

void vtkCart(Gen& g, Ctx& c)
{
    std::tr1::array<int, 3> n; std::tr1::array<double, 3> h;
    for (int k = 0; k < 3; ++k) { n[k] = g.i(1, 4); h[k] = g.p(1, 3) ? g.i(1, 10) : g.logreal(1e-3, 1e3); }
    const int nc = n[0] * n[1] * n[2]; const Fields F = genFields(g, nc);
    c.desc() << pbt::fmt("%dx%dx%d cells of %gx%gx%g", n[0], n[1], n[2], h[0], h[1], h[2]) << F.str(); c.nontrivial(nc > 1 && !F.f.empty());
    std::ostringstream o; const bool prec = g.b(); if (prec) o.precision(17);
    Opm::writeVtkData(n, h, F.map(), o);
    const double tol = prec ? 1e-15 : 6e-6;
    std::istringstream i(o.str()); std::string line, w;
    std::getline(i, line); c.check(line.compare(0, 22, "# vtk DataFile Version") == 0, "header", "first line %s", line.c_str());
    std::getline(i, line); std::string title = line;
    // the remaining header, as words (the title may be followed by an empty line)
    auto word = [&](const char* want) { std::string x; i >> x; c.check(x == want, "header", "'%s' instead of '%s'", x.c_str(), want); };
    auto num = [&]() { std::string x; i >> x; char* e; const double v = strtod(x.c_str(), &e); c.check(!x.empty() && !*e, "numbers", "'%s' is not a number", x.c_str()); return v; };
    word("ASCII"); word("DATASET"); word("STRUCTURED_POINTS"); word("DIMENSIONS");
    for (int k = 0; k < 3; ++k) c.check(num() == n[k] + 1, "dimensions", "point dimension %d is wrong", k);
    word("ORIGIN"); for (int k = 0; k < 3; ++k) c.check(num() == 0, "origin", "origin %d is wrong", k);
    word("SPACING"); for (int k = 0; k < 3; ++k) c.close(num(), h[k], tol, 0, "spacing", "direction %d", k);
    word("CELL_DATA"); c.check(num() == nc, "cells", "wrong number of cells");
    for (auto& f : F.f) {
        word("SCALARS"); word(f.first.c_str()); word("float"); word("LOOKUP_TABLE"); i >> w;
        const int s = F.comps.at(f.first);
        for (int k = 0; k < nc; ++k) c.check(std::fabs(num() - f.second[s * k]) <= tol * std::fabs(f.second[s * k]) + 5e-324, "field-value", "cell %d of %s", k, f.first.c_str());
    }
    i >> w; c.check(i.fail(), "end", "'%s' after the last field", w.c_str());
}

// -------------------------------------------------------------------- VAG
template <class T> void eq(Ctx& c, const std::vector<T>& a, const std::vector<T>& b, const char* what) { c.check(a == b, what, "%s is %s instead of %s", what, show(a).c_str(), show(b).c_str()); }
void eqp(Ctx& c, const Opm::PosStruct& a, const Opm::PosStruct& b, const char* what) { eq(c, a.pos, b.pos, what); eq(c, a.value, b.value, what); }

struct Ref { Opm::PosStruct vf, fv, vv; std::vector<int> fvol; std::vector<double> x; };
Ref reference(const UnstructuredGrid& G)
{
    Ref r; const int nc = G.number_of_cells, nf = G.number_of_faces;
    r.vf.pos.assign(G.cell_facepos, G.cell_facepos + nc + 1); for (int k = 0; k < G.cell_facepos[nc]; ++k) r.vf.value.push_back(G.cell_faces[k] + 1);
    r.fv.pos.assign(G.face_nodepos, G.face_nodepos + nf + 1); for (int k = 0; k < G.face_nodepos[nf]; ++k) r.fv.value.push_back(G.face_nodes[k] + 1);
    r.vv.pos.push_back(0);
    for (int k = 0; k < nc; ++k) { std::set<int> s; for (int q = G.cell_facepos[k]; q < G.cell_facepos[k + 1]; ++q) for (int p = G.face_nodepos[G.cell_faces[q]]; p < G.face_nodepos[G.cell_faces[q] + 1]; ++p) s.insert(G.face_nodes[p] + 1); r.vv.value.insert(r.vv.value.end(), s.begin(), s.end()); r.vv.pos.push_back((int) r.vv.value.size()); }
    for (int k = 0; k < 2 * nf; ++k) r.fvol.push_back(G.face_cells[k] + 1);
    r.x.assign(G.node_coordinates, G.node_coordinates + 3 * G.number_of_nodes);
    return r;
}
void checkVag(Ctx& c, const UnstructuredGrid& G, const Opm::VAG& v, bool edges)
{
    const Ref r = reference(G);
    c.check(v.number_of_vertices == G.number_of_nodes && v.number_of_volumes == G.number_of_cells && v.number_of_faces == G.number_of_faces, "vag-counts", "%d vertices, %d volumes, %d faces", v.number_of_vertices, v.number_of_volumes, v.number_of_faces);
    eq(c, v.vertices, r.x, "vertices"); eqp(c, v.volumes_to_faces, r.vf, "volumes_to_faces"); eqp(c, v.faces_to_vertices, r.fv, "faces_to_vertices"); eq(c, v.faces_to_volumes, r.fvol, "faces_to_volumes");
    // volumes to vertices: as sets
    c.check(v.volumes_to_vertices.pos == r.vv.pos, "volumes_to_vertices", "offsets are %s", show(v.volumes_to_vertices.pos).c_str());
    for (int k = 0; k < G.number_of_cells; ++k) { std::vector<int> a(v.volumes_to_vertices.value.begin() + r.vv.pos[k], v.volumes_to_vertices.value.begin() + r.vv.pos[k + 1]); std::sort(a.begin(), a.end()); c.check(std::equal(a.begin(), a.end(), r.vv.value.begin() + r.vv.pos[k]), "volumes_to_vertices", "volume %d has %s", k, show(a).c_str()); }
    if (!edges) return;
    // edges: each pair once, every face's boundary in order
    c.check((int) v.edges.size() == 2 * v.number_of_edges, "edges", "%d edge ends for %d edges", (int) v.edges.size(), v.number_of_edges);
    std::set<std::pair<int, int> > seen, used;
    for (int k = 0; k < v.number_of_edges; ++k) { const int a = std::min(v.edges[2 * k], v.edges[2 * k + 1]), b = std::max(v.edges[2 * k], v.edges[2 * k + 1]); c.check(a >= 1 && b <= G.number_of_nodes && a != b, "edges", "edge %d joins %d and %d", k, a, b); c.check(seen.insert(std::make_pair(a, b)).second, "edges", "edge %d-%d occurs twice", a, b); }
    c.check(v.faces_to_edges.pos == r.fv.pos, "faces_to_edges", "offsets are %s", show(v.faces_to_edges.pos).c_str());
    c.check((int) v.faces_to_edges.value.size() == r.fv.pos.back(), "faces_to_edges", "%d values", (int) v.faces_to_edges.value.size());
    for (int f = 0; f < G.number_of_faces; ++f) {
        std::multiset<std::pair<int, int> > want, got; const int b = r.fv.pos[f], n = r.fv.pos[f + 1] - b;
        for (int k = 0; k < n; ++k) {
            const int p = r.fv.value[b + k], q = r.fv.value[b + (k + 1) % n]; want.insert(std::make_pair(std::min(p, q), std::max(p, q)));
            const int e = v.faces_to_edges.value[b + k]; c.check(e >= 1 && e <= v.number_of_edges, "faces_to_edges", "face %d refers to edge %d", f, e);
            const int s = v.edges[2 * e - 2], t = v.edges[2 * e - 1]; got.insert(std::make_pair(std::min(s, t), std::max(s, t)));
        }
        c.check(want == got, "faces_to_edges", "edges of face %d do not surround it", f); used.insert(want.begin(), want.end());
    }
    c.check(used == seen, "edges", "%d edges exist, %d are used", (int) seen.size(), (int) used.size());
}

void toGrid(Ctx& c, const UnstructuredGrid& G, Opm::VAG& v)
{
    GridPtr H(allocate_grid(3, v.number_of_volumes, v.number_of_faces, v.faces_to_vertices.value.size(), v.volumes_to_faces.value.size(), v.number_of_vertices));
    { Quiet q; Opm::vagToUnstructuredGrid(v, *H); }
    auto same = [&](const int* a, const int* b, int n, const char* what) { for (int k = 0; k < n; ++k) c.check(a[k] == b[k], what, "%s[%d] is %d instead of %d", what, k, a[k], b[k]); };
    c.check(H->dimensions == 3 && H->number_of_cells == G.number_of_cells && H->number_of_faces == G.number_of_faces && H->number_of_nodes == G.number_of_nodes, "grid-counts", "%d cells, %d faces, %d nodes", H->number_of_cells, H->number_of_faces, H->number_of_nodes);
    const int nc = G.number_of_cells, nf = G.number_of_faces;
    same(H->face_nodepos, G.face_nodepos, nf + 1, "face_nodepos"); same(H->face_nodes, G.face_nodes, G.face_nodepos[nf], "face_nodes"); same(H->face_cells, G.face_cells, 2 * nf, "face_cells");
    same(H->cell_facepos, G.cell_facepos, nc + 1, "cell_facepos"); same(H->cell_faces, G.cell_faces, G.cell_facepos[nc], "cell_faces");
    double sc = 0; for (int k = 0; k < 3 * G.number_of_nodes; ++k) { c.check(H->node_coordinates[k] == G.node_coordinates[k], "node_coordinates", "coordinate %d is %.17g instead of %.17g", k, H->node_coordinates[k], G.node_coordinates[k]); sc = std::max(sc, std::fabs(G.node_coordinates[k])); }
    // geometry as the library computes it for the same topology and nodes
    GridPtr R(allocate_grid(3, nc, nf, G.face_nodepos[nf], G.cell_facepos[nc], G.number_of_nodes));
    std::copy(G.face_nodepos, G.face_nodepos + nf + 1, R->face_nodepos); std::copy(G.face_nodes, G.face_nodes + G.face_nodepos[nf], R->face_nodes); std::copy(G.face_cells, G.face_cells + 2 * nf, R->face_cells);
    std::copy(G.cell_facepos, G.cell_facepos + nc + 1, R->cell_facepos); std::copy(G.cell_faces, G.cell_faces + G.cell_facepos[nc], R->cell_faces); std::copy(G.node_coordinates, G.node_coordinates + 3 * G.number_of_nodes, R->node_coordinates);
    R->dimensions = 3; compute_geometry(R.get());
    auto num = [&](const double* a, const double* b, int n, const char* what) { for (int k = 0; k < n; ++k) c.check(a[k] == b[k] || (a[k] != a[k] && b[k] != b[k]), what, "%s[%d] is %.17g instead of %.17g", what, k, a[k], b[k]); };
    num(H->face_areas, R->face_areas, nf, "face_areas"); num(H->face_centroids, R->face_centroids, 3 * nf, "face_centroids"); num(H->face_normals, R->face_normals, 3 * nf, "face_normals");
    num(H->cell_volumes, R->cell_volumes, nc, "cell_volumes"); num(H->cell_centroids, R->cell_centroids, 3 * nc, "cell_centroids");
}

// grid -> VAG -> text -> VAG -> grid
void vag(Gen& g, Ctx& c)
{
    std::string how; GridPtr G = anyGrid(g, how);
    if (g.p(1, 3)) for (int k = 0; k < 3 * G->number_of_nodes; ++k) G->node_coordinates[k] += k % 3 == 2 ? 0.1 : 6543210.25;
    const bool reuse = g.p(1, 3);
    c.desc() << how << (reuse ? " [objects used before]" : ""); c.nontrivial(G->number_of_cells > 1); c.label("objects reused", reuse);
    Opm::VAG v, w; v.number_of_edges = w.number_of_edges = -1;
    if (reuse) { std::string h2; GridPtr O = anyGrid(g, h2); Quiet q; Opm::unstructuredGridToVag(*O, v); std::stringstream s; Opm::writeVagFormat(s, v); Opm::readVagGrid(s, w); }
    { Quiet q; Opm::unstructuredGridToVag(*G, v); }
    checkVag(c, *G, v, true);
    if (g.b()) toGrid(c, *G, v);
    std::stringstream s; Opm::writeVagFormat(s, v);
    { Quiet q; try { Opm::readVagGrid(s, w); } catch (const std::exception& e) { c.fail("read-back", "a written grid could not be read: %s", e.what()); } }
    checkVag(c, *G, w, true);
    c.check(w.number_of_edges == v.number_of_edges, "vag-counts", "%d edges instead of %d", w.number_of_edges, v.number_of_edges);
    eq(c, w.edges, v.edges, "edges"); eqp(c, w.faces_to_edges, v.faces_to_edges, "faces_to_edges"); eqp(c, w.volumes_to_vertices, v.volumes_to_vertices, "volumes_to_vertices");
    toGrid(c, *G, w);
}

// Files in the format as it is published: counts below their titles, sections with either spelling.
// A damaged file (cut, or one number replaced by text) must be reported, not read for ever.
void vagFile(Gen& g, Ctx& c)
{
    std::string how; GridPtr G = anyGrid(g, how); Opm::VAG v; { Quiet q; Opm::unstructuredGridToVag(*G, v); }
    std::vector<std::vector<std::string> > sec; // each section: title words, then numbers
    auto S = [](std::vector<std::string> t) { return t; };
    auto fi = [](long k) { return pbt::fmt("%ld", k); };
    auto pos = [&](std::vector<std::string> t, const Opm::PosStruct& p) { t.push_back(fi((long) p.pos.size() - 1)); for (size_t k = 0; k + 1 < p.pos.size(); ++k) { t.push_back(fi(p.pos[k + 1] - p.pos[k])); for (int q = p.pos[k]; q < p.pos[k + 1]; ++q) t.push_back(fi(p.value[q])); } sec.push_back(t); };
    std::vector<std::string> t = S({ "Vertices", fi(G->number_of_nodes) }); for (double x : v.vertices) t.push_back(pbt::fmt("%.17g", x)); sec.push_back(t);
    pos(S({ g.b() ? "Volumes->Faces" : "Volumes->faces" }), v.volumes_to_faces);
    pos(S({ g.b() ? "Volumes->Vertices" : "Volumes->Verticess" }), v.volumes_to_vertices);
    const char* fe[3] = { "Faces->Edges", "Faces->edges", "Faces->Edgess" }; pos(S({ fe[g.i(0, 2)] }), v.faces_to_edges);
    pos(S({ g.b() ? "Faces->Vertices" : "Faces->vertices" }), v.faces_to_vertices);
    t = g.b() ? S({ "Faces->Control", "volumes" }) : S({ "Faces->Volumes" }); t.push_back(fi(G->number_of_faces)); for (int x : v.faces_to_volumes) t.push_back(fi(x)); sec.push_back(t);
    t = S({ g.b() ? "Edges" : "Edge", fi(v.number_of_edges) }); for (int x : v.edges) t.push_back(fi(x)); sec.push_back(t);
    const std::vector<int> order = g.perm((int) sec.size());
    const bool mat = g.p(1, 2); std::vector<double> material;
    std::vector<std::string> tok; // "\n" separates lines
    if (g.b()) { for (auto w : S({ "File", "in", "the", "Vag", "grid", "format", "\n" })) tok.push_back(w); }
    const std::vector<std::vector<std::string> > head = { S({ "Number", "of", "vertices", "\n", fi(G->number_of_nodes), "\n" }), g.b() ? S({ "Number", "of", "control", "volume", "\n", fi(G->number_of_cells), "\n" }) : S({ "Number", "of", "volumes", "\n", fi(G->number_of_cells), "\n" }), S({ "Number", "of", "faces", "\n", fi(G->number_of_faces), "\n" }), S({ "Number", "of", "edges", "\n", fi(v.number_of_edges), "\n" }) };
    for (int k : g.perm(4)) tok.insert(tok.end(), head[k].begin(), head[k].end());
    for (int k : order) { tok.insert(tok.end(), sec[k].begin(), sec[k].end()); tok.push_back("\n"); }
    const size_t beforeMaterial = tok.size();
    if (mat) { for (auto w : S({ "Material", "number", "3", "\n" })) tok.push_back(w); for (int k = 0; k < G->number_of_cells; ++k) { const double q[3] = { k + 1.0, (double) g.i(0, 5), g.real(0, 100) }; for (double x : q) { material.push_back(x); tok.push_back(pbt::fmt("%.17g", x)); } tok.push_back("\n"); } }
    const int damage = g.p(1, 3) ? g.i(1, 4) : 0; bool must = false;
    std::vector<size_t> nums; for (size_t k = 0; k < beforeMaterial; ++k) if (isdigit((unsigned char) tok[k][0]) || tok[k][0] == '-') nums.push_back(k);
    if (damage == 1) { const size_t k = nums[g.i(0, (int) nums.size() - 1)]; tok.resize(k); must = true; }
    if (damage == 2) { const size_t k = nums[g.i(0, (int) nums.size() - 1)]; tok[k] = g.b() ? "x" : "?-"; must = true; }
    // the number of items a section announces cannot be negative, and the material is numbers only
    if (damage == 3) { std::vector<size_t> cnt; for (size_t k = 1; k < beforeMaterial; ++k) { const std::string& a = tok[k - 1]; if (tok[k] != "\n" && !isdigit((unsigned char) a[0]) && a[0] != '-' && a[0] != '\n' && isdigit((unsigned char) tok[k][0])) cnt.push_back(k); } const size_t k = cnt[g.i(0, (int) cnt.size() - 1)]; tok[k] = "-" + (g.b() ? tok[k] : std::string("1")); if (tok[k] == "-0") tok[k] = "-1"; must = true; }
    if (damage == 4 && mat) { const size_t lo = beforeMaterial + 4; size_t k; do k = (size_t) g.i((int) lo, (int) tok.size() - 1); while (tok[k] == "\n"); tok[k] = "x"; must = true; }
    std::string text; int col = 0; const int width = g.i(1, 9);
    for (size_t k = 0; k < tok.size(); ++k) { if (tok[k] == "\n") { text += "\n"; col = 0; continue; } text += tok[k]; const bool number = isdigit((unsigned char) tok[k][0]) || tok[k][0] == '-'; if (number && ++col % width == 0) text += "\n"; else text += k % 7 ? " " : "  "; }
    if (g.b()) while (!text.empty() && isspace((unsigned char) text.back())) text.erase(text.size() - 1);
    c.desc() << how << (damage ? pbt::fmt(" [damaged %d]", damage) : "") << "\n" << text;
    c.nontrivial(G->number_of_cells > 1); c.label(damage == 1 ? "cut file" : damage == 2 ? "malformed file" : damage == 3 ? "negative count" : must ? "malformed material" : "complete file"); c.label("material", mat && !damage);
    Opm::VAG w; if (g.p(1, 4)) { for (int k = 0; k < 5; ++k) w.material.push_back(k); w.vertices.assign(7, 1.0); w.edges.assign(3, 9); w.faces_to_volumes.assign(2, 2); } std::istringstream is(text);
    bool thrown = false;
    try { Quiet q; Opm::readVagGrid(is, w); } catch (const std::exception&) { thrown = true; }
    c.check(thrown == must, "damaged", thrown ? "a complete file was rejected" : "a damaged file was accepted");
    if (thrown) return;
    checkVag(c, *G, w, true);
    eq(c, w.edges, v.edges, "edges"); eqp(c, w.faces_to_edges, v.faces_to_edges, "faces_to_edges");
    if (mat) eq(c, w.material, material, "material");
    toGrid(c, *G, w);
}

void vagVectors(Gen& g, Ctx& c)
{
    const int n = g.i(0, 12), per = g.i(1, 5);
    std::vector<int> v(n), w(n, -7); for (auto& x : v) x = g.i(-50, 50);
    c.desc() << show(v) << pbt::fmt(" %d per line", per); c.nontrivial(n > 1);
    std::stringstream s; Opm::writeVector(s, v, per); const std::string text = s.str();
    Opm::readVector(s, w); eq(c, w, v, "readVector");
    std::istringstream l(text); std::string line; int lines = 0, got = 0;
    while (std::getline(l, line)) { std::istringstream q(line); int k = 0, x; while (q >> x) ++k; got += k; ++lines; c.check(k == per || (got == n && k <= per), "per-line", "line %d has %d numbers", lines, k); }
    c.check(got == n && lines == (n + per - 1) / per, "per-line", "%d lines with %d numbers", lines, got);
    Opm::PosStruct p, q; p.pos.push_back(0); const int m = g.i(0, 5);
    for (int k = 0; k < m; ++k) { const int z = g.i(0, 4); for (int e = 0; e < z; ++e) p.value.push_back(g.i(-9, 99)); p.pos.push_back((int) p.value.size()); }
    std::stringstream t; Opm::PosStruct pc = p; Opm::writePosStruct(t, pc); eqp(c, pc, p, "writePosStruct");
    { Quiet z; Opm::readPosStruct(t, m, q); } eqp(c, q, p, "readPosStruct");
    std::string rest; t >> rest; c.check(rest.empty(), "readPosStruct", "left '%s' unread", rest.c_str());
}

} // namespace

pbt::Spec pbt::spec()
{
    return { "C39", "Random Cartesian, polyhedral and corner-point grids, also with large coordinates, with up to four fields of one to six components including huge, tiny and denormal values. VTK XML output is parsed by an independent strict reader and compared item by item (points, connectivity, face streams, offsets, types, fields); legacy Cartesian output likewise; 2D grids must be refused. VAG: grid to VAG to text to VAG to grid, files written independently in every documented spelling and section order, and files that are cut or contain text for a number, which must be refused. Non-trivial: more than one cell and, for VTK, at least one field.",
        { "field names are plain identifiers", "every field has a whole number of values per cell", "VTK numbers are written with 12 digits and values below the smallest normal number as zero", "the legacy Cartesian writer writes the first component of each field with the stream's precision" },
        60000, 1000000, { { "vtk", 4, vtk }, { "vtk2d", 1, vtk2d }, { "vtk-cartesian", 2, vtkCart }, { "vag", 4, vag }, { "vag-file", 4, vagFile }, { "vag-vectors", 1, vagVectors } } };
}
