// C09: cutting a box out of a corner-point deck keeps that part unchanged.
#include "cpgen.hpp"
#include <opm/core/io/eclipse/CornerpointChopper.hpp>
#include <opm/core/grid/GridManager.hpp>
#include <fstream>
#include <iostream>

namespace {

struct Quiet {
    std::ostringstream sink; std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

// A deck: pillars of arbitrary inclination, depths per corner, optional cell properties.
struct Deck {
    int n[3];
    std::vector<double> coord, zcorn; std::vector<int> act, sat; std::vector<double> poro, perm[3];
    int unit;       // 0 none, 1 METRIC, 2 FIELD, 3 LAB, 4 PVT-M
    std::string str() const
    {
        std::ostringstream o; o.precision(17);
        if (unit == 1) o << "METRIC\n"; if (unit == 2) o << "FIELD\n"; if (unit == 3) o << "LAB\n"; if (unit == 4) o << "PVT-M\n";
        o << "SPECGRID\n " << n[0] << " " << n[1] << " " << n[2] << " 1 F /\n";
        auto put = [&](const char* k, const std::vector<double>& v) { if (v.empty()) return; o << k << "\n"; for (size_t q = 0; q < v.size(); ++q) o << v[q] << (q % 6 == 5 ? "\n" : " "); o << " /\n"; };
        auto puti = [&](const char* k, const std::vector<int>& v) { if (v.empty()) return; o << k << "\n"; for (size_t q = 0; q < v.size(); ++q) o << v[q] << (q % 9 == 8 ? "\n" : " "); o << " /\n"; };
        put("COORD", coord); put("ZCORN", zcorn); puti("ACTNUM", act); put("PORO", poro); put("PERMX", perm[0]); put("PERMY", perm[1]); put("PERMZ", perm[2]); puti("SATNUM", sat);
        return o.str();
    }
};
inline size_t zix(const int* n, int i, int j, int k, int a) { return 2 * i + (a & 1) + (size_t) 2 * n[0] * (2 * j + (a >> 1 & 1) + (size_t) 2 * n[1] * (2 * k + (a >> 2))); }
// corner a of cell (i,j,k) at depth z on its pillar
void corner(const int* n, const double* coord, int i, int j, int a, double z, double* x)
{
    const double* p = coord + 6 * (size_t) ((j + (a >> 1 & 1)) * (n[0] + 1) + i + (a & 1));
    const double t = p[5] == p[2] ? 0 : (z - p[2]) / (p[5] - p[2]);
    x[0] = p[0] + t * (p[3] - p[0]); x[1] = p[1] + t * (p[4] - p[1]); x[2] = z;
}

Deck genDeck(Gen& g, Ctx& c, CpModel& m)
{
    CpOpts op; op.flip = true; op.maxc = 60; op.maxn[0] = op.maxn[1] = 5; op.maxn[2] = 5;
    m = genCp(g, op); if (m.zsign < 0) { m.zsign = 1; m.build(); }
    Deck d; for (int k = 0; k < 3; ++k) d.n[k] = m.n[k];
    d.coord = m.coord; d.zcorn = m.zcorn; d.unit = g.p(1, 6) ? 2 : g.i(0, 1);
    // pillars: as built, ends moved along the line, each inclined on its own, or (vertical only) of no length
    const int pm = g.i(0, 3); const double off = g.p(1, 3) ? g.real(1e4, 7e6) : 0.0;
    for (size_t p = 0; p < d.coord.size() / 6; ++p) {
        double* q = &d.coord[6 * p];
        if (pm == 1) { const double s = g.real(-0.4, 0.4), t = g.real(0.6, 1.4); for (int k = 0; k < 3; ++k) { const double a = q[k], b = q[3 + k]; q[k] = a + s * (b - a); q[3 + k] = a + t * (b - a); } }
        if (pm == 2) { q[3] += g.real(-0.3, 0.3) * m.base(); q[4] += g.real(-0.3, 0.3); }
        if (pm == 1 && g.p(1, 3)) for (int k = 0; k < 3; ++k) std::swap(q[k], q[3 + k]);   // given from the bottom up
        if (pm == 3 && m.shear[0] == 0 && m.shear[1] == 0 && g.b()) q[5] = q[2];
        q[0] += off; q[3] += off; q[1] += off / 2; q[4] += off / 2;
    }
    c.label(pm == 2 ? "pillars of different inclination" : m.shear[0] != 0 ? "inclined pillars" : "vertical pillars"); c.label("map coordinates", off > 0);
    const int nc = m.cells();
    if (m.use_act) d.act = m.act;
    if (g.b()) { d.poro.resize(nc); for (auto& v : d.poro) v = g.real(0.01, 0.4); }
    for (int q = 0; q < 3; ++q) if (g.b()) { d.perm[q].resize(nc); for (auto& v : d.perm[q]) v = g.p(1, 6) ? 0.0 : g.logreal(1e-4, 1e5); }
    if (g.b()) { d.sat.resize(nc); for (auto& v : d.sat) v = g.i(1, 9); }
    return d;
}

struct Cut { int lo[3], hi[3]; double zmin, zmax; bool reset, fails; };

// The layers and clamped limits a cut must have.
Cut genCut(Gen& g, const Deck& d)
{
    Cut q; q.reset = g.b();
    for (int k = 0; k < 2; ++k) { q.lo[k] = g.i(0, d.n[k] - 1); q.hi[k] = g.i(q.lo[k] + 1, d.n[k]); if (g.p(1, 4)) { q.lo[k] = 0; q.hi[k] = d.n[k]; } }
    double bot = -1e300, top = 1e300, a = 1e300, b = -1e300;
    for (int j = 0; j < d.n[1]; ++j) for (int i = 0; i < d.n[0]; ++i) for (int w = 0; w < 4; ++w) { bot = std::max(bot, d.zcorn[zix(d.n, i, j, 0, w)]); top = std::min(top, d.zcorn[zix(d.n, i, j, d.n[2] - 1, 4 + w)]); }
    for (double z : d.zcorn) { a = std::min(a, z); b = std::max(b, z); }
    auto lim = [&](double far) { return g.p(1, 4) ? far : g.p(1, 3) ? g.pick(d.zcorn) : g.p(1, 4) ? g.real(a - 5, b + 5) : bot + (top - bot) * g.real(0, 1); };
    q.zmin = lim(a - g.i(0, 3)); q.zmax = lim(b + g.i(0, 3));
    if (q.zmin > q.zmax && g.p(9, 10)) std::swap(q.zmin, q.zmax);
    const double zl = std::max(q.zmin, bot), zh = std::min(q.zmax, top);
    q.fails = zl >= zh; if (!q.fails) { q.zmin = g.b() ? q.zmin : zl; }
    return q;
}

struct Limits { double bot, top; };

// Compare the fields of a cut with the deck it was cut from.
void judge(Ctx& c, const Deck& d, Cut q, const std::vector<int>& dims, const Deck& r, double ctol, double ptol, bool exactProps)
{
    double bot = -1e300, top = 1e300;
    for (int j = 0; j < d.n[1]; ++j) for (int i = 0; i < d.n[0]; ++i) for (int w = 0; w < 4; ++w) { bot = std::max(bot, d.zcorn[zix(d.n, i, j, 0, w)]); top = std::min(top, d.zcorn[zix(d.n, i, j, d.n[2] - 1, 4 + w)]); }
    const double zl = std::max(q.zmin, bot), zh = std::min(q.zmax, top);
    const int n0 = q.hi[0] - q.lo[0], n1 = q.hi[1] - q.lo[1];
    c.check(dims.size() == 3 && dims[0] == n0 && dims[1] == n1, "dimensions", "cut has %dx%d columns instead of %dx%d", dims[0], dims[1], n0, n1);
    // which layers: a consecutive set that includes every layer with something strictly between the limits
    int kneed0 = d.n[2], kneed1 = -1;
    for (int k = 0; k < d.n[2]; ++k) for (int j = q.lo[1]; j < q.hi[1]; ++j) for (int i = q.lo[0]; i < q.hi[0]; ++i) {
        bool in = false; for (int a = 0; a < 4; ++a) { const double t = d.zcorn[zix(d.n, i, j, k, a)], b = d.zcorn[zix(d.n, i, j, k, a + 4)]; in = in || std::min(b, zh) > std::max(t, zl); }
        if (in) { kneed0 = std::min(kneed0, k); kneed1 = std::max(kneed1, k); }
    }
    // the library takes the layers of the whole model between the limits
    int k0 = -1, k1 = -1;
    for (int k = 0; k < d.n[2]; ++k) {
        double mx = -1e300, mn = 1e300; const size_t ls = (size_t) 8 * d.n[0] * d.n[1];
        for (size_t s = k * ls; s < (k + 1) * ls; ++s) { mx = std::max(mx, d.zcorn[s]); mn = std::min(mn, d.zcorn[s]); }
        if (mx > zl && k0 < 0) k0 = k;
        if (mn < zh) k1 = k;
    }
    c.check(k0 <= kneed0 && k1 >= kneed1, "model", "inconsistent oracle");
    c.check(dims[2] == k1 - k0 + 1, "layers", "cut has %d layers, layers %d to %d lie between the limits", dims[2], k0, k1);
    const int n[3] = { n0, n1, dims[2] };
    if (n[2] == 0) { c.label("limits inside a gap"); return; }
    c.check(r.coord.size() == (size_t) 6 * (n0 + 1) * (n1 + 1) && r.zcorn.size() == (size_t) 8 * n0 * n1 * n[2], "sizes", "%d pillar values, %d depths", (int) r.coord.size(), (int) r.zcorn.size());
    const double dz = q.reset ? zl : 0;
    double sc = 1; for (double v : d.coord) sc = std::max(sc, std::fabs(v));
    // the horizontal shift is common to all points; without reset there is none
    double shift[2] = { 0, 0 };
    if (q.reset) {
        double x[3], y[3];
        const double zo = d.zcorn[zix(d.n, q.lo[0], q.lo[1], k0, 0)], zc = std::min(zh, std::max(zl, zo));
        corner(d.n, &d.coord[0], q.lo[0], q.lo[1], 0, zc, x); corner(n, &r.coord[0], 0, 0, 0, zc - dz, y);
        shift[0] = x[0] - y[0]; shift[1] = x[1] - y[1];
    }
    for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) for (int a = 0; a < 8; ++a) {
        const double zo = d.zcorn[zix(d.n, q.lo[0] + i, q.lo[1] + j, k0 + k, a)], zc = std::min(zh, std::max(zl, zo));
        const double zn = r.zcorn[zix(n, i, j, k, a)];
        c.close(zn, zc - dz, ctol, 1000, "depth", "corner %d of cell (%d,%d,%d) of the cut", a, i, j, k);
        double x[3], y[3];
        corner(d.n, &d.coord[0], q.lo[0] + i, q.lo[1] + j, a, zc, x); corner(n, &r.coord[0], i, j, a, zn, y);
        for (int e = 0; e < 2; ++e) c.close(y[e] + shift[e], x[e], ctol, 30 * sc, "position", "coordinate %d of corner %d of cell (%d,%d,%d) of the cut", e, a, i, j, k);
    }
    if (q.reset) {
        c.check(std::fabs(r.coord[0]) <= ctol * 30 * sc && std::fabs(r.coord[1]) <= ctol * 30 * sc, "origin", "first pillar starts at (%g, %g)", r.coord[0], r.coord[1]);
    }
    auto prop = [&](const char* key, auto& full, auto& cut) {
        c.check(full.empty() == cut.empty(), "property-present", "%s is %s in the cut", key, cut.empty() ? "missing" : "present");
        if (full.empty()) return;
        c.check(cut.size() == (size_t) n0 * n1 * n[2], "property-size", "%s has %d values", key, (int) cut.size());
        for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) {
            const double v = cut[i + n0 * (j + n1 * k)], w = full[q.lo[0] + i + d.n[0] * (q.lo[1] + j + d.n[1] * (k0 + k))];
            c.check(exactProps ? v == w : std::fabs(v - w) <= ptol * std::fabs(w), "property-value", "%s of cell (%d,%d,%d) of the cut is %.17g instead of %.17g", key, i, j, k, v, w);
        }
    };
    prop("ACTNUM", d.act, r.act); prop("PORO", d.poro, r.poro); prop("PERMX", d.perm[0], r.perm[0]); prop("PERMY", d.perm[1], r.perm[1]); prop("PERMZ", d.perm[2], r.perm[2]); prop("SATNUM", d.sat, r.sat);
}

Deck fields(Opm::EclipseGridParser& p, std::vector<int>& dims)
{
    Deck r; dims = p.getSPECGRID().dimensions;
    r.coord = p.getFloatingPointValue("COORD"); r.zcorn = p.getFloatingPointValue("ZCORN");
    if (p.hasField("ACTNUM")) r.act = p.getIntegerValue("ACTNUM");
    if (p.hasField("SATNUM")) r.sat = p.getIntegerValue("SATNUM");
    if (p.hasField("PORO")) r.poro = p.getFloatingPointValue("PORO");
    const char* k[3] = { "PERMX", "PERMY", "PERMZ" };
    for (int q = 0; q < 3; ++q) if (p.hasField(k[q])) r.perm[q] = p.getFloatingPointValue(k[q]);
    return r;
}

std::string describe(const Deck& d, const Cut& q, bool full)
{
    return pbt::fmt("%dx%dx%d deck, box [%d,%d)x[%d,%d), limits [%.17g, %.17g]%s", d.n[0], d.n[1], d.n[2], q.lo[0], q.hi[0], q.lo[1], q.hi[1], q.zmin, q.zmax, q.reset ? ", reset to origin" : "") + (full ? "\n" + d.str() : "");
}

void chop(Gen& g, Ctx& c)
{
    CpModel m; Deck d = genDeck(g, c, m);
    const int cuts = g.p(1, 3) ? 2 : 1;
    std::vector<Cut> Q; for (int k = 0; k < cuts; ++k) Q.push_back(genCut(g, d));
    for (size_t k = 0; k < Q.size(); ++k) c.desc() << describe(d, Q[k], k + 1 == Q.size()) << "\n";
    const std::string name = pbt::scratch() + "/full.grdecl", out = pbt::scratch() + "/cut.grdecl";
    { std::ofstream f(name.c_str()); f << d.str(); }
    Quiet quiet;
    Opm::CornerPointChopper ch(name);
    c.check(std::equal(d.n, d.n + 3, ch.dimensions()), "dimensions", "deck dimensions are wrong");
    for (const Cut& q : Q) {
        bool thrown = false;
        try { ch.chop(q.lo[0], q.hi[0], q.lo[1], q.hi[1], q.zmin, q.zmax, q.reset); } catch (const std::exception&) { thrown = true; }
        c.check(thrown == q.fails, "limits", thrown ? "valid limits were refused" : "limits without anything between them were accepted");
        c.label(thrown ? "refused" : q.reset ? "reset" : "in place");
        if (thrown) continue;
        c.nontrivial(d.n[0] * d.n[1] > (q.hi[0] - q.lo[0]) * (q.hi[1] - q.lo[1]) || d.n[2] > 1);
        std::vector<int> dims(ch.newDimensions(), ch.newDimensions() + 3);
        // as a parser object
        if (d.unit == 2) {
            bool refused = false; try { ch.subparser(); } catch (const std::exception&) { refused = true; }
            c.check(refused, "field-units", "the deck in FIELD units was passed on as METRIC"); c.label("FIELD deck");
        } else {
            Opm::EclipseGridParser p = ch.subparser(); std::vector<int> dd; Deck r = fields(p, dd);
            c.check(dd == dims, "dimensions", "newDimensions() differ from SPECGRID");
            judge(c, d, q, dims, r, 1e-12, 0, true);
            // and in SI, as a grid
            if (g.b()) {
                p.convertToSI();
                Deck s = fields(p, dd);
                for (int k = 0; k < 3; ++k) for (size_t e = 0; e < s.perm[k].size(); ++e) c.close(s.perm[k][e], r.perm[k][e] * 9.869232667160130e-16, 1e-12, 0, "SI", "permeability %d in SI", (int) e);
                c.check(s.poro == r.poro && s.coord == r.coord && s.zcorn == r.zcorn, "SI", "converting to SI changed metric lengths");
            }
        }
        // as a file
        ch.writeGrdecl(out);
        Opm::EclipseGridParser p(out, false); std::vector<int> dd; Deck r = fields(p, dd);
        c.check(dd == dims, "dimensions", "newDimensions() differ from the file's");
        judge(c, d, q, dims, r, 1e-12, 0, true);
        if (d.unit < 2) { Opm::EclipseGridParser sp = ch.subparser(); c.check(sp.getFloatingPointValue("COORD") == r.coord && sp.getFloatingPointValue("ZCORN") == r.zcorn, "file-exact", "the written depths or pillars differ from those in memory"); }
    }
}

// The processed cut has the cells and volumes of that part of the full grid.
void grid(Gen& g, Ctx& c)
{
    CpModel m; CpOpts op; op.maxc = 60; op.maxn[0] = op.maxn[1] = op.maxn[2] = 4; op.faults = g.b(); op.wedge = g.b();
    m = genCp(g, op); if (m.zsign < 0) { m.zsign = 1; m.build(); }
    Deck d; for (int k = 0; k < 3; ++k) d.n[k] = m.n[k]; d.coord = m.coord; d.zcorn = m.zcorn; d.unit = 0; if (m.use_act) d.act = m.act;
    // no depth limits that cut anything: the model's own top and bottom must be flat
    const long lo = *std::min_element(m.z.begin(), m.z.end()), hi = *std::max_element(m.z.begin(), m.z.end());
    const bool flat = g.b();
    if (flat) {
        // extend the top and bottom layers to flat surfaces
        for (int j = 0; j < m.n[1]; ++j) for (int i = 0; i < m.n[0]; ++i) for (int w = 0; w < 4; ++w) { m.z[m.zi(i, j, 0, w & 1, w >> 1, 0)] = lo; m.z[m.zi(i, j, m.n[2] - 1, w & 1, w >> 1, 1)] = hi; }
        m.build(); d.zcorn = m.zcorn;
    }
    Cut q = genCut(g, d); if (flat && g.b()) { q.zmin = m.zscale * lo; q.zmax = m.zscale * hi; q.fails = false; }
    if (q.fails) throw pbt::Discard();
    c.desc() << describe(d, q, true);
    const std::string name = pbt::scratch() + "/full.grdecl";
    { std::ofstream f(name.c_str()); f << d.str(); }
    Quiet quiet;
    Opm::CornerPointChopper ch(name);
    ch.chop(q.lo[0], q.hi[0], q.lo[1], q.hi[1], q.zmin, q.zmax, q.reset);
    Opm::EclipseGridParser p = ch.subparser(); p.convertToSI();
    // expected: per column, the cells clipped to the limits
    const double zl = std::max(q.zmin, ch.zLimits().first), zh = std::min(q.zmax, ch.zLimits().second);
    const int* nd = ch.newDimensions();
    int k0 = 0; { const size_t ls = (size_t) 8 * d.n[0] * d.n[1]; while (*std::max_element(d.zcorn.begin() + k0 * ls, d.zcorn.begin() + (k0 + 1) * ls) <= zl) ++k0; }
    std::vector<double> vol(nd[0] * nd[1] * nd[2], 0.0); double total = 0; int cells = 0; bool clippedCorner = false;
    for (int k = 0; k < nd[2]; ++k) for (int j = 0; j < nd[1]; ++j) for (int i = 0; i < nd[0]; ++i) {
        const int oc = q.lo[0] + i + d.n[0] * (q.lo[1] + j + d.n[1] * (k0 + k)), nc = i + nd[0] * (j + nd[1] * k);
        if (m.use_act && !m.act[oc]) continue;
        double h = 0;
        for (int w = 0; w < 4; ++w) {
            const double t = d.zcorn[zix(d.n, q.lo[0] + i, q.lo[1] + j, k0 + k, w)], b = d.zcorn[zix(d.n, q.lo[0] + i, q.lo[1] + j, k0 + k, 4 + w)];
            h += std::min(zh, std::max(zl, b)) - std::min(zh, std::max(zl, t));
            clippedCorner = clippedCorner || t < zl || b > zh;
        }
        vol[nc] = h / 4 * m.base(); if (h > 0) { ++cells; total += vol[nc]; }
    }
    c.label(clippedCorner ? "cells cut by the limits" : "whole cells"); c.nontrivial(cells > 1);
    if (cells == 0) { c.label("nothing active left"); return; }
    Opm::GridManager gm(p); const UnstructuredGrid& G = *gm.c_grid();
    c.check(G.cartdims[0] == nd[0] && G.cartdims[1] == nd[1] && G.cartdims[2] == nd[2], "cartdims", "logical size of the processed cut");
    c.check(G.number_of_cells == cells, "cells", "the processed cut has %d cells, expected %d", G.number_of_cells, cells);
    double sum = 0;
    // flat tops: exact per cell for planar clipped surfaces; the trilinear volume otherwise agrees to rounding on parallelogram columns
    for (int k = 0; k < G.number_of_cells; ++k) {
        const int gc = G.global_cell[k]; c.check(gc >= 0 && gc < (int) vol.size() && vol[gc] > 0, "cells", "cell %d of the cut (index %d) should not exist", k, gc);
        if (!clippedCorner) c.close(G.cell_volumes[k], vol[gc], 1e-8, 0, "volume", "cell %d of the cut", gc);
        sum += G.cell_volumes[k];
    }
    bool gapless = flat && !m.use_act;
    for (int k = 0; gapless && k + 1 < d.n[2]; ++k) for (int j = 0; j < d.n[1]; ++j) for (int i = 0; i < d.n[0]; ++i) for (int w = 0; w < 4; ++w)
        gapless = gapless && m.z[m.zi(i, j, k, w & 1, w >> 1, 1)] == m.z[m.zi(i, j, k + 1, w & 1, w >> 1, 0)] && m.z[m.zi(i, j, k, w & 1, w >> 1, 1)] >= m.z[m.zi(i, j, k, w & 1, w >> 1, 0)];
    // surfaces that are cut through by a limit are no longer plane, their cells need not be star shaped
    bool through = false;
    for (int k = 0; k < d.n[2]; ++k) for (int j = q.lo[1]; j < q.hi[1]; ++j) for (int i = q.lo[0]; i < q.hi[0]; ++i) for (int e = 0; e < 2; ++e) {
        int cls = 0; for (int w = 0; w < 4; ++w) { const double z = d.zcorn[zix(d.n, i, j, k, 4 * e + w)]; cls |= z <= zl ? (z < zl ? 1 : 9) : z >= zh ? (z > zh ? 4 : 10) : 2; }
        through = through || ((cls & 1) && (cls & 6)) || ((cls & 4) && (cls & 3));
    }
    if (gapless && !through) { c.label("solid block"); c.close(sum, m.base() * nd[0] * nd[1] * (zh - zl), 1e-9, 0, "total-volume", "volume of the cut block"); }
}

// Fields that do not fit the deck's dimensions, and units that are not supported, are refused.
void malformed(Gen& g, Ctx& c)
{
    CpModel m; Deck d = genDeck(g, c, m); if (d.unit == 2) d.unit = 0; const int nc = d.n[0] * d.n[1] * d.n[2]; const int what = g.i(0, 8); std::string nm; Cut q = genCut(g, d); if (q.fails) throw pbt::Discard();
    auto spoil = [&](auto& v, typename std::decay<decltype(v[0])>::type fill) { const bool more = v.size() < 2 || g.b(); const size_t by = g.p(1, 4) ? (size_t) g.i(1, (int) v.size()) : 1; if (more) v.resize(v.size() + by, fill); else v.resize(v.size() - std::min(by, v.size() - 1)); };
    switch (what) {
    case 0: nm = "ZCORN"; spoil(d.zcorn, d.zcorn.back()); break;
    case 1: nm = "COORD"; spoil(d.coord, 1.0); break;
    case 2: nm = "ACTNUM"; d.act.assign(nc, 1); spoil(d.act, 1); break;
    case 3: nm = "PORO"; d.poro.assign(nc, 0.2); spoil(d.poro, 0.2); break;
    case 4: case 5: case 6: nm = std::string("PERM") + "XYZ"[what - 4]; d.perm[what - 4].assign(nc, 2.0); spoil(d.perm[what - 4], 2.0); break;
    case 7: nm = "SATNUM"; d.sat.assign(nc, 2); spoil(d.sat, 2); break;
    default: d.unit = g.i(3, 4); nm = d.unit == 3 ? "LAB units" : "PVT-M units"; break;
    }
    c.desc() << nm << "\n" << describe(d, q, true); c.nontrivial(); c.label(nm);
    const std::string name = pbt::scratch() + "/full.grdecl"; { std::ofstream f(name.c_str()); f << d.str(); }
    bool thrown = false; Quiet quiet;
    try { Opm::CornerPointChopper ch(name); ch.chop(q.lo[0], q.hi[0], q.lo[1], q.hi[1], q.zmin, q.zmax, q.reset); if (what == 8) ch.subparser(); } catch (const std::exception&) { thrown = true; }
    c.check(thrown, "inconsistent", "a deck with unsuitable %s was cut", nm.c_str());
}

void shoebox(Gen& g, Ctx& c)
{
    CpModel m; Deck d = genDeck(g, c, m);
    const std::string name = pbt::scratch() + "/full.grdecl";
    { std::ofstream f(name.c_str()); f << d.str(); }
    double a = 1e300, b = -1e300; for (double z : d.zcorn) { a = std::min(a, z); b = std::max(b, z); }
    Quiet quiet; Opm::CornerPointChopper ch(name);
    double bot = -1e300, top = 1e300;
    for (int j = 0; j < d.n[1]; ++j) for (int i = 0; i < d.n[0]; ++i) for (int w = 0; w < 4; ++w) { bot = std::max(bot, d.zcorn[zix(d.n, i, j, 0, w)]); top = std::min(top, d.zcorn[zix(d.n, i, j, d.n[2] - 1, 4 + w)]); }
    c.check(ch.zLimits().first == bot && ch.zLimits().second == top, "zLimits", "(%g, %g) instead of (%g, %g)", ch.zLimits().first, ch.zLimits().second, bot, top);
    c.check(ch.abszLimits().first == a && ch.abszLimits().second == b, "abszLimits", "(%g, %g) instead of (%g, %g)", ch.abszLimits().first, ch.abszLimits().second, a, b);
    const int wrong = g.b() ? g.i(1, 9) : 0; c.nontrivial(wrong); c.label(wrong ? "inconsistent" : "consistent");
    int imin = g.i(0, d.n[0] - 1), imax = g.i(imin + 1, d.n[0]), ilen = g.i(1, d.n[0]), jmin = g.i(0, d.n[1] - 1), jmax = g.i(jmin + 1, d.n[1]), jlen = g.i(1, d.n[1]);
    double zmin = a + (b - a) * g.real(0, 0.5), zmax = b - (b - a) * g.real(0, 0.5), zlen = (b - a) * g.real(0, 1);
    if (g.p(1, 4)) { zmin = a; zmax = b; zlen = b - a; }
    switch (wrong) {
    case 1: imin = -g.i(1, 3); break; case 2: ilen = d.n[0] + g.i(1, 3); break; case 3: imax = d.n[0] + g.i(1, 3); break;
    case 4: jmin = -g.i(1, 3); break; case 5: jlen = d.n[1] + g.i(1, 3); break; case 6: jmax = d.n[1] + g.i(1, 3); break;
    case 7: zmin = a - g.real(0.01, 5); break; case 8: zlen = (b - a) + g.real(0.01, 5); break; case 9: zmax = b + g.real(0.01, 5); break;
    }
    c.desc() << pbt::fmt("%dx%dx%d z in [%g,%g]; i %d %d %d j %d %d %d z %g %g %g (violation %d)", d.n[0], d.n[1], d.n[2], a, b, imin, ilen, imax, jmin, jlen, jmax, zmin, zlen, zmax, wrong);
    bool thrown = false; try { ch.verifyInscribedShoebox(imin, ilen, imax, jmin, jlen, jmax, zmin, zlen, zmax); } catch (const std::exception&) { thrown = true; }
    c.check(thrown == (wrong != 0), "verify", thrown ? "consistent input was refused" : "inconsistent input was accepted");
}

} // namespace

pbt::Spec pbt::spec()
{
    return { "C09", "A random corner-point model (faults, gaps, pinched layers, inactive cells, vertical, commonly or individually inclined pillars, map coordinates, optional properties, METRIC or FIELD) is written as a deck and one or two boxes with random depth limits are cut from it, in place or moved to the origin. Every corner of every remaining cell is compared in space, every property per logical cell, in the parser object and in the written file; the processed cut's cells and volumes with the model's. Fields of the wrong length and unsupported unit systems must be refused. Non-trivial when the box is a part of the model or has several layers.",
        { "depths increase with layer number (models whose depth axis points up are refused by the limits check)", "the box is not empty and lies inside the model", "limits are applied between the deepest top and the shallowest bottom of the whole model, as documented", "a written file does not name the unit system of the deck" },
        60000, 1000000, { { "chop", 5, chop }, { "grid", 3, grid }, { "shoebox", 1, shoebox }, { "malformed", 1, malformed } } };
}
