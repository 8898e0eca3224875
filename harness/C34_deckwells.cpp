// C34: wells, groups and limits read from a deck against an independent interpretation of its text.
#include "cpgen.hpp"
#include <iostream>
#include <map>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/wells.h>
#include <opm/core/wells/WellsManager.hpp>
#include <opm/core/wells/WellCollection.hpp>

namespace {
typedef long double LD; typedef std::vector<double> V; typedef std::vector<int> VI;
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

struct Units { const char* key; double length, time, pressure, liq, gas, resv, trans; };
const double day = 86400, psi = 6894.757293168361, bar = 1e5, ft = 0.3048, stb = 0.158987294928, cP = 1e-3;
const Units UNITS[2] = { { "METRIC", 1, day, bar, 1, 1, 1, cP / (day * bar) }, { "FIELD", ft, day, psi, stb, 1000 * ft * ft * ft, stb, cP * stb / (day * psi) } };

struct Control { WellControlType type; double target; V distr; };
struct RPerf { int cell; double wi; bool open; };
struct RWell {
    std::string name, group; bool inj = false, control = true, shut = false, grup = false; int phase = 0; double depth = 0; bool depthGiven = false;
    std::vector<RPerf> perf; std::vector<Control> ctrl; int current = -1; int gci = -1; double guide = 1; bool guideGiven = false; int I = 1, J = 1;
    double limit[6]; // ORAT WRAT GRAT LRAT RESV (BHP) in SI, negative for none
};
struct RGroup { std::string name; int parent = -1; std::string pmode, imode, proc; double plim[5], ilim[2], rein = 0, vrep = 0; int itype = 0; bool prod = false, inje = false; };

const char* PMODE[5] = { "ORAT", "WRAT", "GRAT", "LRAT", "RESV" };
struct Model {
    const Units* U; int np; int pos[3]; bool used[3];       // water, oil, gas
    GridPtr G; V perm; std::vector<RWell> w; std::vector<RGroup> g; std::string deck, gridText; std::map<int, int> cart; bool throws = false; int dims[3];
    int gid(const std::string& n) const { for (size_t i = 0; i < g.size(); ++i) if (g[i].name == n) return i; return -1; }
    bool below(const std::string& group, int top) const { for (int k = gid(group); k >= 0; k = g[k].parent) if (k == top) return true; return false; }
    V dist(const char* m) const { V d(np, 0.0); const std::string s(m); if (s == "RESV" || s == "RATE") std::fill(d.begin(), d.end(), 1.0); else { if (s == "ORAT" || s == "LRAT") d[pos[1]] = 1; if (s == "WRAT" || s == "LRAT") d[pos[0]] = 1; if (s == "GRAT") d[pos[2]] = 1; } return d; }
};

void genGrid(Gen& g, Model& m)
{
    if (g.p(1, 3)) { CartSpec s = genCart(g, 40, 3); m.G = makeCart(s); m.gridText = s.str(); }
    else { CpOpts o; o.maxc = 36; CpModel cm = genCp(g, o); const grdecl d = cm.decl(); m.G.reset(create_grid_cornerpoint(&d, 0.0)); m.gridText = cm.str(); if (!m.G || m.G->number_of_cells == 0) throw pbt::Discard(); }
    const UnstructuredGrid& G = *m.G; for (int c = 0; c < G.number_of_cells; ++c) m.cart[G.global_cell ? G.global_cell[c] : c] = c; for (int k = 0; k < 3; ++k) m.dims[k] = G.cartdims[k];
    m.perm.resize(9 * G.number_of_cells); const bool diag = g.b(); for (int c = 0; c < G.number_of_cells; ++c) { genTensor(g, 3, &m.perm[9 * c], diag); for (int k = 0; k < 9; ++k) m.perm[9 * c + k] *= 1e-13; }
}
void extent(const UnstructuredGrid& G, int c, double* d)
{
    for (int k = 0; k < 3; ++k) { double lo = 1e300, hi = -1e300; for (int q = G.cell_facepos[c]; q < G.cell_facepos[c + 1]; ++q) { const double x = G.face_centroids[3 * G.cell_faces[q] + k]; lo = std::min(lo, x); hi = std::max(hi, x); } d[k] = hi - lo; }
}
LD peacemanR0(const Model& m, int c) { double d[3]; extent(*m.G, c, d); const LD kx = m.perm[9 * c], ky = m.perm[9 * c + 4]; return 0.28L * std::sqrt(std::sqrt(ky / kx) * d[0] * d[0] + std::sqrt(kx / ky) * d[1] * d[1]) / (std::pow(ky / kx, 0.25L) + std::pow(kx / ky, 0.25L)); }
LD peaceman(const Model& m, int c, LD radius) { double d[3]; extent(*m.G, c, d); const LD kx = m.perm[9 * c], ky = m.perm[9 * c + 4]; return 2 * std::acos(-1.0L) * d[2] * std::sqrt(kx * ky) / std::log(peacemanR0(m, c) / radius); }
const char* NAMES[] = { "P1", "P10", "P", "P1A", "I1", "I", "INJ", "PROD", "INJ-10", "W_2", "p1", "PRODUCER" };

struct Opt { bool groups = false, wild = false, orphans = false, multi = true, shutGrup = false; int activeP = -1, activeI = -1; };

// rate target in deck units and SI
double rate(Gen& g, double unit, V& out) { const double v = g.p(1, 8) ? 0 : g.b() ? g.i(1, 1000) : g.logreal(1, 1e4); out.push_back(v); return v * unit; }

void genWells(Gen& g, Model& m, const Opt& o)
{
    m.U = &UNITS[g.i(0, 1)]; const Units& U = *m.U; const bool gas = g.b(), water = !gas || g.b(); m.np = 0; m.used[0] = water; m.used[1] = true; m.used[2] = gas; for (int k = 0; k < 3; ++k) { m.pos[k] = m.np; m.np += m.used[k]; }
    std::vector<int> phases; for (int k = 0; k < 3; ++k) if (m.used[k]) phases.push_back(k);
    const int nw = g.size(1, 6) + (o.groups ? g.i(0, 3) : 0); VI nameIdx = g.perm(sizeof NAMES / sizeof *NAMES);
    const double liq = U.liq / U.time, gasr = U.gas / U.time, resv = U.resv / U.time;
    // groups
    const int ng = o.groups ? g.size(1, 5) : g.i(1, 2); const char* GN[] = { "G1", "FIELD", "A", "Z9", "PLAT" }; VI gp = g.perm(5);
    for (int i = 0; i < ng; ++i) { RGroup x; x.name = GN[gp[i]]; x.parent = i && o.groups && g.p(3, 4) ? g.i(0, i - 1) : -1; std::fill(x.plim, x.plim + 5, -1.0); std::fill(x.ilim, x.ilim + 2, -1.0); m.g.push_back(x); }
    std::ostringstream welspecs, compdat, wi, wp, welopen, gruptree, gi, gp_, wg;
    for (int q = 0; q < nw; ++q) {
        RWell w; w.name = NAMES[nameIdx[q]]; w.group = m.g[g.i(0, ng - 1)].name; w.inj = g.b(); w.control = !(o.orphans && g.p(1, 8)); std::fill(w.limit, w.limit + 6, -1.0);
        // completions
        std::vector<int> all; for (auto& p : m.cart) all.push_back(p.first);
        const int home = all[g.i(0, (int) all.size() - 1)]; w.I = home % m.dims[0] + 1; w.J = home / m.dims[0] % m.dims[1] + 1; std::set<int> have;
        const int nl = g.p(1, 12) ? 0 : g.size(1, 3);
        for (int l = 0; l < nl; ++l) {
            const int at = l && g.p(1, 2) ? all[g.i(0, (int) all.size() - 1)] : home; const int i = at % m.dims[0], j = at / m.dims[0] % m.dims[1], k0 = at / m.dims[0] / m.dims[1]; int k1 = k0, k2 = k0;
            auto ok = [&](int k) { const int ci = i + m.dims[0] * (j + m.dims[1] * k); return k >= 0 && k < m.dims[2] && m.cart.count(ci) && !have.count(ci); };
            if (!ok(k0)) continue; while (ok(k1 - 1) && !g.p(1, 4)) --k1; while (ok(k2 + 1) && !g.p(1, 4)) ++k2;
            LD rmax = 1e300; for (int k = k1; k <= k2; ++k) rmax = std::min(rmax, peacemanR0(m, m.cart[i + m.dims[0] * (j + m.dims[1] * k)]));
            const int form = g.i(0, 3); // 0: factor given, 1: diameter given, 2: default diameter
            double tf = -1, dia = -1; std::string tail; const bool shutLine = g.p(1, 8); const std::string flag = shutLine ? "SHUT" : g.p(1, 4) ? "1*" : g.p(1, 6) ? "'OPEN'" : "OPEN";
            bool ended = false;
            if (form == 0) { tf = g.logreal(1e-3, 1e3); tail = pbt::fmt(" %s %s", g.b() ? "1*" : "1", num(tf).c_str()); if (g.b()) tail += " 0.2"; else if (g.b()) tail += " 1*"; if (g.b() && tail.size() && tail[tail.size() - 1] != '*') { } }
            else if (form == 1 || rmax < 1.05L * 0.25 * ft * 2) { dia = (double) (2 * rmax) * g.real(0.01, 0.9) / U.length; tail = pbt::fmt(" %s %s %s", g.b() ? "1*" : "0", g.b() ? "1*" : "0", num(dia).c_str()); }
            else if (g.b()) tail = g.b() ? " 3*" : g.b() ? " 1 2*" : " 1* 0 0";
            else ended = true;
            std::string items = pbt::fmt("%s %s %s %s", i + 1 == w.I && g.b() ? "1*" : num(i + 1).c_str(), j + 1 == w.J && g.b() ? "1*" : num(j + 1).c_str(), k1 == 0 && g.b() ? "1*" : num(k1 + 1).c_str(), k2 == m.dims[2] - 1 && g.b() ? "1*" : num(k2 + 1).c_str());
            if (i + 1 == w.I && j + 1 == w.J && k1 == 0 && k2 == m.dims[2] - 1 && g.p(1, 3)) items = "4*"; else if (i + 1 == w.I && j + 1 == w.J && g.p(1, 3)) items = pbt::fmt("2* %d %d", k1 + 1, k2 + 1);
            if (g.p(1, 10)) compdat << "-- a comment\n";
            compdat << (g.p(1, 4) ? "'" + w.name + "'" : w.name) << " " << items; bool shut = shutLine;
            if (ended && g.b() && !shutLine) { compdat << " /\n"; } else { compdat << " " << flag; compdat << (ended ? " 1* /\n" : tail + (g.p(1, 3) ? "\n /\n" : " /\n")); }
            for (int k = k1; k <= k2; ++k) { const int ci = i + m.dims[0] * (j + m.dims[1] * k), c = m.cart[ci]; have.insert(ci); const double radius = dia > 0 ? 0.5 * dia * U.length : 0.5 * ft; w.perf.push_back({ c, tf > 0 ? tf * U.trans : (double) peaceman(m, c, radius), !shut }); }
        }
        // name line(s)
        w.depthGiven = g.b(); double d = g.p(1, 4) ? 0 : g.real(0, 3000);
        const int extra = o.multi && g.p(1, 6) ? 1 : 0; if (extra) welspecs << w.name << " " << m.g[g.i(0, ng - 1)].name << " 1 1 " << (g.b() ? "1*" : "17") << " WATER /\n";
        welspecs << (g.p(1, 4) ? "'" + w.name + "'" : w.name) << " " << w.group << " " << w.I << " " << w.J << " " << (w.depthGiven ? num(d) : "1*") << " " << (g.b() ? "OIL" : "WATER") << (g.p(1, 3) ? " 1* STD SHUT" : "") << " /\n"; w.depth = d * U.length;
        // controls
        if (w.control) {
            w.shut = g.p(1, 6);
            const int lines = g.p(1, 6) ? 2 : 1;
            for (int l = 0; l < lines; ++l) {
                const bool last = l + 1 == lines; std::ostringstream& os = w.inj ? wi : wp; std::vector<std::string> item; std::vector<Control> cs; std::vector<std::string> modes; const int nr = w.inj ? 2 : 5; double lim[6]; std::fill(lim, lim + 6, -1.0);
                w.phase = phases[g.i(0, (int) phases.size() - 1)];
                for (int r = 0; r < nr; ++r) {
                    const char* nm = w.inj ? (r ? "RESV" : "RATE") : PMODE[r]; bool can = true; if (!w.inj) { if (r == 1 || r == 3) can = m.used[0]; if (r == 2) can = m.used[2]; }
                    if (!can || g.b()) { item.push_back(g.b() ? "1*" : "-1"); continue; }
                    V x; const double u = nm == std::string("RESV") ? resv : w.inj ? (w.phase == 2 ? gasr : liq) : r == 2 ? gasr : liq; const double t = rate(g, u, x); item.push_back(num(x[0])); lim[r] = t;
                    cs.push_back({ nm == std::string("RESV") ? RESERVOIR_RATE : SURFACE_RATE, w.inj ? t : -t, m.dist(w.inj ? "RATE" : nm) }); modes.push_back(nm);
                }
                double bhp = w.inj ? 6891 : 1; const int bk = g.i(0, 3); bool stop = false; if (bk == 0) item.push_back("1*"); else if (bk == 1) { stop = true; } else if (bk == 2) { bhp = g.p(1, 4) ? 0 : g.real(1, 500); item.push_back(num(bhp)); } else { bhp = -1; item.push_back("-1"); }
                if (bhp > 0) { cs.push_back({ BHP, bhp * U.pressure, V(m.np, 0.0) }); modes.push_back("BHP"); }
                if (!stop && g.p(1, 3)) { item.push_back("1*"); if (g.b()) item.push_back("3"); }
                const bool grup = g.p(o.groups ? 3 : 1, 4) && (o.shutGrup || !w.shut); if (modes.empty() && !grup) { cs.push_back({ BHP, 200 * U.pressure, V(m.np, 0.0) }); modes.push_back("BHP"); item.resize(nr, "1*"); item.push_back("200"); bhp = 200; }
                const int md = grup ? -1 : g.i(0, (int) modes.size() - 1);
                const bool lineShut = last ? w.shut ? !g.p(1, 3) : !grup && g.p(1, 10) : g.p(1, 3) && !grup;
                os << (g.p(1, 4) ? "'" + w.name + "'" : w.name) << " "; if (w.inj) { const char* PN[] = { "WATER", "OIL", "GAS" }; os << PN[w.phase] << " "; }
                os << (lineShut ? "SHUT" : g.b() ? "OPEN" : g.b() ? "1*" : "AUTO") << " " << (grup ? "GRUP" : modes[md]); for (auto& s : item) os << " " << s; os << " /\n";
                if (last) { w.ctrl = cs; w.grup = grup; w.current = md; for (int k = 0; k < 6; ++k) w.limit[k] = lim[k]; w.limit[5] = bhp; if (lineShut && !w.shut) { if (g.p(1, 4)) welopen << w.name << " SHUT /\n"; welopen << w.name << " OPEN /\n"; } else if (lineShut != w.shut) { if (!w.grup || o.shutGrup) { if (g.p(1, 4) && !grup) welopen << w.name << " OPEN /\n"; welopen << w.name << " SHUT" << (g.b() ? " 0 0 0 /\n" : " /\n"); } } else if (g.p(1, 8) && !grup) welopen << w.name << (w.shut ? " SHUT /\n" : " OPEN /\n"); }
            }
            if (o.groups && g.p(1, 3)) { w.guideGiven = true; w.guide = g.b() ? g.i(1, 10) : g.logreal(0.1, 100); wg << w.name << " " << (g.b() ? "YES" : "1*") << " " << num(w.guide) << (w.inj ? " RAT" : " OIL") << (g.b() ? " 1.0 /\n" : " /\n"); }
        }
        m.w.push_back(w);
    }
    bool any = false; for (auto& w : m.w) any = any || w.control; if (!any) throw pbt::Discard(); if (compdat.str().empty()) throw pbt::Discard();
    // group controls
    if (o.groups) {
        VI order = g.perm(ng); for (int i : order) if (m.g[i].parent >= 0) gruptree << "'" << m.g[i].name << "' '" << m.g[m.g[i].parent].name << "' /\n";
        auto present = [&](int i) { if (m.g[i].parent >= 0) return true; for (auto& x : m.g) if (x.parent == i) return true; for (auto& w : m.w) if (w.group == m.g[i].name) return true; return false; };
        auto clear = [&](int i, bool prod) { for (size_t k = 0; k < m.g.size(); ++k) if (prod ? m.g[k].pmode != "" && m.g[k].pmode != "NONE" && m.g[k].pmode != "FLD" : m.g[k].imode != "" && m.g[k].imode != "NONE" && m.g[k].imode != "FLD") if (m.below(m.g[i].name, k) || m.below(m.g[k].name, i)) return false; return true; };
        VI o2 = g.perm(ng);
        for (int i : o2) {
            RGroup& x = m.g[i]; if (!present(i)) continue;
            if (g.p(2, 3)) {
                x.prod = true; std::vector<std::string> item, modes; for (int r = 0; r < 4; ++r) { bool can = !((r == 1 || r == 3) && !m.used[0]) && !(r == 2 && !m.used[2]); if (!can || g.b()) { item.push_back("1*"); continue; } V y; x.plim[r] = rate(g, r == 2 ? gasr : liq, y); item.push_back(num(y[0])); if (r != 2) modes.push_back(PMODE[r]); }
                x.proc = g.pick(std::vector<std::string>{ "NONE", "RATE", "WELL" }); bool res = g.p(1, 3); std::string tail = " " + x.proc; if (res) { V y; x.plim[4] = rate(g, resv, y); tail += (g.b() ? " 6* " : " YES 1* 1* 3* ") + num(y[0]); modes.push_back("RESV"); } else if (x.proc == "NONE" && g.b()) tail = "";
                x.pmode = modes.empty() || g.p(1, 4) || !clear(i, true) ? (g.p(1, 3) ? "FLD" : "NONE") : g.pick(modes); gp_ << x.name << " " << (x.pmode == "NONE" && g.b() ? "1*" : x.pmode); for (auto& s : item) gp_ << " " << s; gp_ << tail << " /\n";
            }
            if (g.p(2, 3)) {
                x.inje = true; x.itype = phases[g.i(0, (int) phases.size() - 1)]; std::vector<std::string> item, modes; for (int r = 0; r < 2; ++r) { if (g.b()) { item.push_back("1*"); continue; } V y; x.ilim[r] = rate(g, r ? resv : x.itype == 2 ? gasr : liq, y); item.push_back(num(y[0])); modes.push_back(r ? "RESV" : "RATE"); }
                x.rein = g.real(0, 2); x.vrep = g.real(0, 2); item.push_back(num(x.rein)); item.push_back(num(x.vrep)); modes.push_back("REIN"); modes.push_back("VREP"); x.imode = g.p(1, 3) || !clear(i, false) ? (g.b() ? "FLD" : "NONE") : g.pick(modes);
                const char* PN[] = { "WATER", "OIL", "GAS" }; gi << x.name << " " << PN[x.itype] << " " << x.imode; for (auto& s : item) gi << " " << s; gi << " /\n";
            }
        }
    }
    std::ostringstream d; for (int k = 0; k < 3; ++k) { const char* PN[] = { "WATER", "OIL", "GAS" }; if (m.used[k]) d << PN[k] << "\n"; } d << U.key << "\n";
    d << "WELSPECS\n" << welspecs.str() << "/\nCOMPDAT\n" << compdat.str() << "/\n"; if (!wi.str().empty()) d << "WCONINJE\n" << wi.str() << "/\n"; if (!wp.str().empty()) d << "WCONPROD\n" << wp.str() << "/\n"; if (!welopen.str().empty()) d << "WELOPEN\n" << welopen.str() << "/\n"; if (!gruptree.str().empty()) d << "GRUPTREE\n" << gruptree.str() << "/\n"; if (!gp_.str().empty()) d << "GCONPROD\n" << gp_.str() << "/\n"; if (!gi.str().empty()) d << "GCONINJE\n" << gi.str() << "/\n"; if (!wg.str().empty()) d << "WGRUPCON\n" << wg.str() << "/\n";
    m.deck = d.str();
    for (auto& w : m.w) if (w.shut && w.current >= 0) w.current = ~w.current;
}
// a group control for one well
void give(Model& m, RWell& w, const std::string& mode, double target)
{
    Control c; c.type = mode == "RESV" ? RESERVOIR_RATE : SURFACE_RATE; c.target = w.inj ? target : -target; c.distr = m.dist(mode.c_str());
    if (w.gci < 0) { w.gci = w.ctrl.size(); w.ctrl.push_back(c); } else w.ctrl[w.gci] = c; w.current = w.gci;
}
void share(Model& m, int grp, bool inj, const std::string& mode, LD target)
{
    LD sum = 0; for (auto& w : m.w) if (w.control && w.inj == inj && w.grup && m.below(w.group, grp)) sum += w.guide; if (sum == 0) return;
    for (auto& w : m.w) if (w.control && w.inj == inj && w.grup && m.below(w.group, grp)) give(m, w, mode, target * (w.guide / sum));
}
bool activeP(const RGroup& x) { return x.prod && x.pmode != "NONE" && x.pmode != "FLD"; }
void initial(Model& m)
{
    for (size_t i = 0; i < m.g.size(); ++i) { RGroup& x = m.g[i];
        if (activeP(x)) { int r = 0; while (x.pmode != PMODE[r]) ++r; LD sum = 0; for (auto& w : m.w) if (w.control && !w.inj && w.grup && m.below(w.group, i)) sum += w.guide; if (sum == 0) m.throws = true; share(m, i, false, x.pmode, x.plim[r]); }
        if (x.inje && (x.imode == "RATE" || x.imode == "RESV")) share(m, i, true, x.imode, x.ilim[x.imode == "RESV"]);
    }
}
struct Run { Opm::EclipseGridParser P; std::unique_ptr<Opm::WellsManager> M; };
void build(const Model& m, Run& r) { std::istringstream i(m.deck); r.P.read(i); r.M.reset(new Opm::WellsManager(r.P, *m.G, &m.perm[0])); }

std::string ctrlText(const Wells& W, int w) { const WellControls& k = *W.ctrls[w]; std::string s = pbt::fmt("current %d:", k.current); for (int c = 0; c < k.num; ++c) { s += pbt::fmt(" [%d %.9g", (int) k.type[c], k.target[c]); for (int p = 0; p < W.number_of_phases; ++p) s += pbt::fmt(" %g", k.distr[c * W.number_of_phases + p]); s += "]"; } return s; }
std::string ctrlText(const RWell& w) { std::string s = pbt::fmt("current %d:", w.current); for (auto& c : w.ctrl) { s += pbt::fmt(" [%d %.9g", (int) c.type, c.target); for (double x : c.distr) s += pbt::fmt(" %g", x); s += "]"; } return s; }
bool sameControls(const Wells& W, int w, const RWell& r, bool current = true)
{
    const WellControls& k = *W.ctrls[w]; if (k.num != (int) r.ctrl.size() || (current && k.current != r.current)) return false;
    for (int c = 0; c < k.num; ++c) { if (k.type[c] != r.ctrl[c].type || !(std::fabs(k.target[c] - r.ctrl[c].target) <= 1e-12 * std::fabs(r.ctrl[c].target))) return false; if (k.type[c] != BHP) for (int p = 0; p < W.number_of_phases; ++p) if (k.distr[c * W.number_of_phases + p] != r.ctrl[c].distr[p]) return false; }
    return true;
}
bool same(const Wells& W, const Model& m) { for (size_t w = 0; w < m.w.size(); ++w) if (!sameControls(W, w, m.w[w])) return false; return true; }

void judge(Ctx& c, const Model& m, const Opm::WellsManager& M)
{
    const Wells* W = M.c_wells(); const int nw = m.w.size(); c.check(W != 0 && !M.empty() && W->number_of_wells == nw, "count", "%d wells instead of %d", W ? W->number_of_wells : -1, nw); c.check(W->number_of_phases == m.np, "phases", "%d phases", W->number_of_phases);
    for (int w = 0; w < nw; ++w) {
        const RWell& r = m.w[w]; const char* n = r.name.c_str(); c.check(W->name[w] && r.name == W->name[w], "name", "well %d is '%s' and not %s", w, W->name[w] ? W->name[w] : "(null)", n);
        if (r.control) c.check(W->type[w] == (r.inj ? INJECTOR : PRODUCER), "type", "%s has type %d", n, (int) W->type[w]); else c.check(W->type[w] == PRODUCER || W->type[w] == INJECTOR, "type", "%s has type %d", n, (int) W->type[w]);
        std::vector<RPerf> want; for (auto& p : r.perf) if (p.open) want.push_back(p); const int a = W->well_connpos[w], np = W->well_connpos[w + 1] - a;
        c.check(np == (int) want.size(), "completions", "%s has %d perforations instead of %d", n, np, (int) want.size());
        double top = 1e300; for (int q = 0; q < np; ++q) { c.check(W->well_cells[a + q] == want[q].cell, "completions", "%s perforation %d in cell %d instead of %d", n, q, W->well_cells[a + q], want[q].cell); c.close(W->WI[a + q], want[q].wi, 1e-10, want[q].wi, "index", "well index of %s perforation %d (cell %d)", n, q, want[q].cell); top = std::min(top, m.G->cell_centroids[3 * want[q].cell + 2]); }
        const double depth = r.depthGiven ? r.depth : top; if (r.depthGiven || np) c.check(std::fabs(W->depth_ref[w] - depth) <= 1e-13 * std::fabs(depth), "depth", "%s has reference depth %.17g instead of %.17g", n, W->depth_ref[w], depth);
        c.check(sameControls(*W, w, r), "controls", "%s (shut %d, group controlled %d) has %s instead of %s", n, r.shut, r.grup, ctrlText(*W, w).c_str(), ctrlText(r).c_str());
        if (r.inj && r.control) for (int p = 0; p < m.np; ++p) c.check(W->comp_frac[m.np * w + p] == (p == m.pos[r.phase] ? 1 : 0), "fraction", "%s injects %g of phase %d", n, W->comp_frac[m.np * w + p], p);
        const Opm::WellsGroupInterface* node = M.wellCollection().findNode(r.name); c.check(node && node->isLeafNode(), "tree", "no node for %s", n); c.check(node->getParent() && const_cast<Opm::WellsGroupInterface*>(node->getParent())->name() == r.group, "tree", "%s is not in %s", n, r.group.c_str());
        c.check((int) M.wellCollection().getLeafNodes().size() == nw && M.wellCollection().getLeafNodes()[w] == node, "tree", "%d leaf nodes, order", (int) M.wellCollection().getLeafNodes().size());
        if (r.control && !r.inj) { const Opm::ProductionSpecification& s = node->prodSpec(); const double got[5] = { s.oil_max_rate_, s.water_max_rate_, s.gas_max_rate_, s.liquid_max_rate_, s.reservoir_flow_max_rate_ }; for (int k = 0; k < 5; ++k) c.check(r.limit[k] < 0 ? got[k] < 0 : std::fabs(got[k] - r.limit[k]) <= 1e-13 * r.limit[k], "specification", "%s: %s limit %g instead of %g", n, PMODE[k], got[k], r.limit[k]); c.check(s.guide_rate_ == r.guide, "guide", "%s: guide rate %g", n, s.guide_rate_); }
        if (r.control && r.inj) { const Opm::InjectionSpecification& s = node->injSpec(); const double got[2] = { s.surface_flow_max_rate_, s.reservoir_flow_max_rate_ }; for (int k = 0; k < 2; ++k) c.check(r.limit[k] < 0 ? got[k] < 0 : std::fabs(got[k] - r.limit[k]) <= 1e-13 * r.limit[k], "specification", "%s: limit %g instead of %g", n, got[k], r.limit[k]); c.check(s.guide_rate_ == r.guide, "guide", "%s: guide rate %g", n, s.guide_rate_); c.check((int) s.injector_type_ == r.phase, "specification", "%s injects %d", n, (int) s.injector_type_); }
    }
    for (auto& x : m.g) {
        bool used = x.parent >= 0; for (auto& y : m.g) used = used || (y.parent >= 0 && &m.g[y.parent] == &x); for (auto& w : m.w) used = used || w.group == x.name; if (!used) continue;
        const Opm::WellsGroupInterface* node = M.wellCollection().findNode(x.name); c.check(node && !node->isLeafNode(), "tree", "no group %s", x.name.c_str());
        bool inTree = x.parent >= 0; const Opm::WellsGroupInterface* par = node->getParent(); c.check(inTree ? par && const_cast<Opm::WellsGroupInterface*>(par)->name() == m.g[x.parent].name : !par, "tree", "parent of group %s", x.name.c_str());
        if (x.prod) { const Opm::ProductionSpecification& s = node->prodSpec(); const double got[5] = { s.oil_max_rate_, s.water_max_rate_, s.gas_max_rate_, s.liquid_max_rate_, s.reservoir_flow_max_rate_ }; for (int k = 0; k < 5; ++k) c.check(x.plim[k] < 0 ? got[k] < 0 : std::fabs(got[k] - x.plim[k]) <= 1e-13 * x.plim[k], "specification", "%s: %s limit %g instead of %g", x.name.c_str(), PMODE[k], got[k], x.plim[k]); c.check((int) s.procedure_ == (x.proc == "NONE" ? Opm::ProductionSpecification::NONE_P : x.proc == "RATE" ? Opm::ProductionSpecification::RATE : Opm::ProductionSpecification::WELL), "specification", "procedure %d of %s", (int) s.procedure_, x.name.c_str()); }
        if (x.inje) { const Opm::InjectionSpecification& s = node->injSpec(); const double got[2] = { s.surface_flow_max_rate_, s.reservoir_flow_max_rate_ }; for (int k = 0; k < 2; ++k) c.check(x.ilim[k] < 0 ? got[k] < 0 : std::fabs(got[k] - x.ilim[k]) <= 1e-13 * x.ilim[k], "specification", "%s: limit %g instead of %g", x.name.c_str(), got[k], x.ilim[k]); }
    }
}

void make(Gen& g, Ctx& c, Model& m, const Opt& o, Run& r)
{
    genGrid(g, m); genWells(g, m, o); if (o.groups) initial(m); c.desc() << m.gridText << "\n" << m.deck; c.label(m.U->key); c.label(pbt::fmt("%d-phases", m.np));
    Quiet q; try { build(m, r); } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { if (!m.throws) c.fail("accepted", "the deck is not accepted: %s", q.s.str().c_str()); return; }
    if (m.throws) c.fail("guide-sum", "group target without group controlled wells accepted");
}
void wells(Gen& g, Ctx& c) { Model m; Opt o; o.orphans = g.p(1, 3); Run r; make(g, c, m, o, r); int n = 0; for (auto& w : m.w) n += w.perf.size(); c.nontrivial(m.w.size() > 1 && n > 1); judge(c, m, *r.M); }
void groups(Gen& g, Ctx& c)
{
    Model m; Opt o; o.groups = true; Run r; make(g, c, m, o, r); int n = 0; for (auto& w : m.w) n += w.gci >= 0; c.nontrivial(n > 1); c.label("shared", n > 1); c.label("rejected", m.throws); if (m.throws) return; judge(c, m, *r.M);
}

// ---- limits over a history of solutions ----
struct Rates { V bhp, res, surf; };
const double AMB = 1e-4; // relative distance from a limit below which a case is not judged
int over(LD rate, LD lim, bool& amb) { const LD a = std::fabs(rate), b = std::fabs(lim); if (a == b) return 0; if (std::fabs(a - b) <= AMB * std::max(a, b)) amb = true; return a > b; }
bool isShut(const RWell& w) { return w.current < 0 && !(w.grup && w.gci < 0); }
void limits(Gen& g, Ctx& c)
{
    Model m; Opt o; o.groups = true; Run r; make(g, c, m, o, r); if (m.throws) return; const Wells* W = r.M->c_wells(); c.check(same(*W, m), "controls", "initial controls differ");
    const int nw = m.w.size(), np = m.np, T = g.size(1, 8); int acted = 0;
    for (int t = 0; t < T; ++t) {
        Rates R; R.bhp.resize(nw); R.res.assign(nw * np, 0); R.surf.assign(nw * np, 0); const double lvl = g.logreal(0.05, 2);
        for (int w = 0; w < nw; ++w) {
            const RWell& x = m.w[w]; R.bhp[w] = g.logreal(0.5e5, 1000e5); for (auto& k : x.ctrl) if (k.type == BHP && g.p(3, 4)) R.bhp[w] = k.target * (x.inj == g.p(3, 4) ? g.real(0.5, 0.99) : g.real(1.01, 1.5));
            if (g.p(1, 8)) for (int k = 0; k < W->ctrls[w]->num; ++k) if (W->ctrls[w]->type[k] == BHP) { R.bhp[w] = W->ctrls[w]->target[k]; c.label("bhp at its limit"); }
            if (isShut(x) || x.current < 0) continue; double s = 1e-3; for (auto& k : x.ctrl) if (k.type != BHP && std::fabs(k.target) > 0 && g.b()) s = std::fabs(k.target); s *= lvl;
            for (int p = 0; p < np; ++p) { const double a = g.p(1, 6) ? 0 : s * g.real(0.05, 1), b = a * g.real(0.5, 1.5); R.surf[np * w + p] = x.inj ? (p == m.pos[x.phase] ? a * np : 0) : -a; R.res[np * w + p] = x.inj ? (p == m.pos[x.phase] ? b * np : 0) : -b; }
        }
        // what may happen
        std::vector<Model> out; bool amb = false; std::vector<std::string> why; std::vector<int> mode, as;   // acted group (-1 none) and its new control mode (injection: + 100)
        auto copy = [&]() { Model n; n.U = m.U; n.np = m.np; for (int k = 0; k < 3; ++k) { n.pos[k] = m.pos[k]; n.used[k] = m.used[k]; } n.w = m.w; n.g = m.g; return n; };
        for (int w = 0; w < nw; ++w) {
            const RWell& x = m.w[w]; if (x.current < 0 && !(x.grup && x.gci < 0)) continue;
            for (size_t k = 0; k < x.ctrl.size(); ++k) {
                if ((int) k == x.current || (int) k == x.gci) continue; bool v = false; const Control& q = x.ctrl[k];
                if (q.type == BHP) { const double lim = W->ctrls[w]->type[k] == BHP ? W->ctrls[w]->target[k] : q.target; if (R.bhp[w] == lim) continue; if (std::fabs(R.bhp[w] - q.target) <= AMB * q.target) amb = true; v = x.inj ? R.bhp[w] > q.target : R.bhp[w] < q.target; }
                else { LD s = 0; for (int p = 0; p < np; ++p) s += (LD) q.distr[p] * (q.type == SURFACE_RATE ? R.surf : R.res)[np * w + p]; v = over(s, q.target, amb); }
                if (v) { out.push_back(copy()); out.back().w[w].current = k; why.push_back(pbt::fmt("%s switched to control %d", x.name.c_str(), (int) k)); mode.push_back(-1); as.push_back(0); }
            }
        }
        const bool wellViolated = !out.empty();
        for (size_t i = 0; i < m.g.size(); ++i) {
            const RGroup& x = m.g[i]; const Opm::WellsGroupInterface* node = r.M->wellCollection().findNode(x.name); if (!node) continue;
            V rs(2 * np), rr(2 * np); for (int w = 0; w < nw; ++w) if (m.below(m.w[w].group, i)) for (int p = 0; p < np; ++p) { rs[m.w[w].inj * np + p] += R.surf[np * w + p]; rr[m.w[w].inj * np + p] += R.res[np * w + p]; }
            for (int k = 0; k < 2; ++k) if (x.ilim[k] >= 0 && node->injSpec().control_mode_ != (k ? Opm::InjectionSpecification::RESV : Opm::InjectionSpecification::RATE)) {
                LD s = 0; for (int p = 0; p < np; ++p) s += (k ? rr : rs)[np + p]; if (!over(s, x.ilim[k], amb)) continue;
                Model n = copy(); LD sum = 0; for (auto& w : n.w) if (w.control && w.inj && !isShut(w) && m.below(w.group, i)) sum += w.guide; for (auto& w : n.w) if (w.control && w.inj && !isShut(w) && m.below(w.group, i)) give(n, w, k ? "RESV" : "RATE", x.ilim[k] * (w.guide / sum));
                out.push_back(std::move(n)); why.push_back(x.name + (k ? " injection RESV" : " injection RATE")); mode.push_back(i); as.push_back(100 + (k ? Opm::InjectionSpecification::RESV : Opm::InjectionSpecification::RATE));
            }
            const Opm::ProductionSpecification::ControlMode PM[5] = { Opm::ProductionSpecification::ORAT, Opm::ProductionSpecification::WRAT, Opm::ProductionSpecification::GRAT, Opm::ProductionSpecification::LRAT, Opm::ProductionSpecification::RESV };
            for (int k = 0; k < 5; ++k) if (x.plim[k] >= 0 && node->prodSpec().control_mode_ != PM[k]) {
                const V d = m.dist(PMODE[k]); LD s = 0; for (int p = 0; p < np; ++p) s += (LD) d[p] * (k == 4 ? rr : rs)[p]; if (!over(s, x.plim[k], amb)) continue; if (x.proc == "NONE") continue;
                if (x.proc == "RATE") { Model n = copy(); LD sum = 0; for (auto& w : n.w) if (w.control && !w.inj && !isShut(w) && m.below(w.group, i)) sum += w.guide; for (auto& w : n.w) if (w.control && !w.inj && !isShut(w) && m.below(w.group, i)) give(n, w, PMODE[k], x.plim[k] * (w.guide / sum)); out.push_back(std::move(n)); mode.push_back(i); as.push_back(PM[k]); }
                else { int worst = -1; LD big = -1; for (int w = 0; w < nw; ++w) if (!m.w[w].inj && m.below(m.w[w].group, i)) { LD q = 0; for (int p = 0; p < np; ++p) q -= (LD) d[p] * (k == 4 ? R.res : R.surf)[np * w + p]; if (worst >= 0 && std::fabs(q - big) <= 1e-12L * std::fabs(big)) amb = amb || q != 0; if (q > big) { big = q; worst = w; } } if (worst < 0) continue; out.push_back(copy()); RWell& y = out.back().w[worst]; if (y.current >= 0) y.current = ~y.current; mode.push_back(-1); as.push_back(0); }
                why.push_back(x.name + " production " + PMODE[k] + " " + x.proc);
            }
        }
        if (amb) { c.label("ambiguous"); return; }
        bool ok; { Quiet q; ok = r.M->conditionsMet(R.bhp, R.res, R.surf); }
        std::string all; for (auto& s : why) all += s + "; ";
        if (out.empty()) { c.check(ok, "met", "step %d: no limit exceeded, yet not accepted", t); c.check(same(*W, m), "unchanged", "step %d: controls changed although all limits hold", t); continue; }
        c.check(!ok, "enforced", "step %d: accepted although %s", t, all.c_str()); int hit = -1; for (size_t k = 0; k < out.size() && hit < 0; ++k) if (same(*W, out[k])) hit = k;
        if (hit < 0) { std::string s; for (int w = 0; w < nw; ++w) s += m.w[w].name + " was " + ctrlText(m.w[w]) + " is " + ctrlText(*W, w) + "\n"; c.fail("enforced", "step %d: controls after enforcing none of: %s\n%s", t, all.c_str(), s.c_str()); }
        if (mode[hit] >= 0) { c.label("group-limit"); bool known = false; for (size_t k = 0; k < out.size(); ++k) if (mode[k] >= 0 && same(*W, out[k])) { const Opm::WellsGroupInterface* n = r.M->wellCollection().findNode(m.g[mode[k]].name); known = known || (as[k] >= 100 ? (int) n->injSpec().control_mode_ == as[k] - 100 : (int) n->prodSpec().control_mode_ == as[k]); } c.check(known, "active-group-control", "step %d: after %s the limit is not the active control of the group", t, why[hit].c_str()); }
        if (why[hit].find("WELL") != std::string::npos) c.label("worst-shut"); if (why[hit].find("switched") != std::string::npos) c.label("well-limit"); c.label("several", wellViolated && out.size() > 1);
        m.w = out[hit].w; ++acted;
    }
    c.nontrivial(acted > 0);
}

void reinject(Gen& g, Ctx& c)
{
    Model m; Opt o; o.groups = true; Run r; make(g, c, m, o, r); if (m.throws) return; const Wells* W = r.M->c_wells(); const int nw = m.w.size(), np = m.np; int acted = 0;
    for (int t = 0; t < 2; ++t) {
        V res(nw * np), surf(nw * np); for (int w = 0; w < nw; ++w) for (int p = 0; p < np; ++p) { const double s = m.w[w].inj ? 1 : -1; surf[np * w + p] = s * g.real(0, 1); res[np * w + p] = s * g.real(0, 1); }
        for (size_t i = 0; i < m.g.size(); ++i) {
            const RGroup& x = m.g[i]; if (!x.inje || (x.imode != "REIN" && x.imode != "VREP")) continue; LD tot = 0;
            for (int w = 0; w < nw; ++w) if (!m.w[w].inj && m.below(m.w[w].group, i)) for (int p = 0; p < np; ++p) { if (x.imode == "REIN") { if (p == m.pos[x.itype]) tot -= surf[np * w + p]; } else tot -= res[np * w + p]; }
            const int before = acted; for (auto& w : m.w) acted += w.control && w.inj && w.grup && m.below(w.group, i); share(m, i, true, x.imode == "REIN" ? "RATE" : "RESV", tot * (x.imode == "REIN" ? x.rein : x.vrep)); c.label(x.imode, acted > before);
        }
        { Quiet q; r.M->applyExplicitReinjectionControls(res, surf); }
        for (int w = 0; w < nw; ++w) c.check(sameControls(*W, w, m.w[w]), "reinjection", "%s has %s instead of %s", m.w[w].name.c_str(), ctrlText(*W, w).c_str(), ctrlText(m.w[w]).c_str());
    }
    c.nontrivial(acted > 0);
}

// ---- invalid references ----
std::string section(const std::string& d, const std::string& key, const std::string& line, bool front)
{
    size_t p = d.find("\n" + key + "\n"); if (p == std::string::npos) return d + key + "\n" + line + " /\n/\n"; p += key.size() + 2; if (front) return d.substr(0, p) + line + " /\n" + d.substr(p);
    size_t e = p; for (;;) { size_t n = d.find('\n', e); std::string l = d.substr(e, n - e); if (l == "/") break; e = n + 1; } return d.substr(0, e) + line + " /\n" + d.substr(e);
}
void invalid(Gen& g, Ctx& c)
{
    Model m; Opt o; o.groups = g.b(); genGrid(g, m); genWells(g, m, o); if (o.groups) { initial(m); if (m.throws) throw pbt::Discard(); }
    { Run r; Quiet q; build(m, r); }
    const RWell& a = m.w[g.i(0, (int) m.w.size() - 1)]; const bool front = false; std::string d = m.deck, what; const int kind = g.i(0, 16); bool flat = false; const std::string inj = "WATER"; const char* PN[] = { "WATER", "OIL", "GAS" };
    if (kind == 0) { what = "unknown well in COMPDAT"; d = section(d, "COMPDAT", "NOBODY 1 1 1 1 OPEN 1 10.0", front); }
    else if (kind == 1) { what = "column outside the grid"; const bool i = g.b(); const int k = m.dims[2] > 1 ? g.i(1, m.dims[2] - 1) : 1; d = section(d, "COMPDAT", pbt::fmt("%s %d %d %d %d OPEN 1 10.0", a.name.c_str(), i ? m.dims[0] + g.i(1, 2) : g.i(1, m.dims[0]), i ? g.i(1, m.dims[1]) : m.dims[1] + g.i(1, 2), k, k), front); }
    else if (kind == 2) { what = "layer outside the grid"; d = section(d, "COMPDAT", pbt::fmt("%s %d %d %d %d OPEN 1 10.0", a.name.c_str(), g.i(1, m.dims[0]), g.i(1, m.dims[1]), m.dims[2] + 1, m.dims[2] + g.i(1, 2)), front); }
    else if (kind == 3) { what = "inactive cell"; std::vector<int> dead; for (int q = 0; q < m.dims[0] * m.dims[1] * m.dims[2]; ++q) if (!m.cart.count(q)) dead.push_back(q); if (dead.empty()) throw pbt::Discard(); const int q = dead[g.i(0, (int) dead.size() - 1)]; d = section(d, "COMPDAT", pbt::fmt("%s %d %d %d %d OPEN 1 10.0", a.name.c_str(), q % m.dims[0] + 1, q / m.dims[0] % m.dims[1] + 1, q / m.dims[0] / m.dims[1] + 1, q / m.dims[0] / m.dims[1] + 1), front); }
    else if (kind == 4) { what = "unknown well in a control"; d = g.b() ? section(d, "WCONPROD", "NOBODY OPEN BHP 5* 100", front) : section(d, "WCONINJE", "NOBODY OIL OPEN RATE 100", front); }
    else if (kind == 5) { what = "control mode without target"; d = a.inj ? section(d, "WCONINJE", a.name + " OIL OPEN RESV 100", front) : section(d, "WCONPROD", a.name + " OPEN RESV 100", front); if (!a.control) throw pbt::Discard(); }
    else if (kind == 6) { what = "unknown control mode"; if (!a.control) throw pbt::Discard(); d = a.inj ? section(d, "WCONINJE", a.name + " OIL OPEN " + g.pick(std::vector<std::string>{ "ORAT", "XRAT", "rate", "1*" }) + " 100 100 100", front) : section(d, "WCONPROD", a.name + " OPEN " + g.pick(std::vector<std::string>{ "RATE", "XRAT", "orat", "1*" }) + " 100", front); }
    else if (kind == 7) { what = "producer and injector"; if (!a.control) throw pbt::Discard(); d = a.inj ? section(d, "WCONPROD", a.name + " OPEN BHP 5* 100", front) : section(d, "WCONINJE", a.name + " OIL OPEN RATE 100", front); }
    else if (kind == 8) { what = "phase that is not there"; if (!a.control || m.np == 3) throw pbt::Discard(); const int miss = m.used[0] ? 2 : 0; d = a.inj ? section(d, "WCONINJE", a.name + " " + PN[miss] + " OPEN RATE 100", front) : section(d, "WCONPROD", a.name + (miss ? " OPEN GRAT 2* 100" : g.b() ? " OPEN WRAT 1* 100" : " OPEN LRAT 3* 100"), front); }
    else if (kind == 9) { what = "THP limit"; if (!a.control) throw pbt::Discard(); d = a.inj ? section(d, "WCONINJE", a.name + " OIL OPEN RATE 100 1* 300 20", front) : section(d, "WCONPROD", a.name + " OPEN BHP 5* 100 20", front); }
    else if (kind == 10) { what = "WELTARG"; d = section(d, "WELTARG", a.name + " BHP 100", front); }
    else if (kind == 11) { what = "WELOPEN reference"; d = section(d, "WELOPEN", g.b() ? "NOBODY OPEN" : a.name + " CLOSED", front); }
    else if (kind == 12) { what = "WGRUPCON reference"; if (!a.control) throw pbt::Discard(); d = section(d, "WGRUPCON", g.b() ? "NOBODY YES 1.0 OIL" : a.name + " YES 1.0 " + (a.inj ? "OIL" : "WAT"), front); }
    else if (kind == 13) { what = "cyclic groups"; const std::string x = m.g[0].name; if (m.g[0].parent >= 0) throw pbt::Discard(); d = section(d, "GRUPTREE", g.b() ? x + " " + x + " /\nCY1 CY2 /\nCY2 CY1" : x + " CY1 /\nCY1 CY2 /\nCY2 " + x, front); }
    else if (kind == 14) { what = "well used as group"; d = section(d, "WELSPECS", "LATE " + a.name + " 1 1 1* OIL", front); }
    else if (kind == 15) { what = "no controls"; size_t p = d.find("WCONINJE"), q = d.find("WCONPROD"), e; p = std::min(p, q); for (const char* k : { "WELOPEN", "GRUPTREE", "GCONPROD", "GCONINJE", "WGRUPCON" }) { (void) k; } e = d.size(); d = d.substr(0, p) + d.substr(e); }
    else { what = "two-dimensional grid"; flat = true; }
    c.desc() << m.gridText << "\n" << d; c.label(what.c_str()); c.nontrivial(true); Model n; n.deck = d; n.perm = m.perm; n.G = std::move(m.G);
    if (flat) { n.G.reset(create_grid_cart2d(3, 3, 1.0, 1.0)); n.perm.assign(81, 1e-13); }
    bool threw = false; { Run r; Quiet q; try { build(n, r); } catch (const std::exception&) { threw = true; } }
    c.check(threw, "accepted", "%s accepted", what.c_str());
}
// wildcards in COMPDAT; decks without wells
void names(Gen& g, Ctx& c)
{
    CartSpec s; s.dim = 3; for (int k = 0; k < 3; ++k) { s.n[k] = g.i(1, 4); s.x[k].resize(s.n[k] + 1); for (int q = 0; q <= s.n[k]; ++q) s.x[k][q] = 10 * q; } GridPtr G = makeCart(s); V perm(9 * G->number_of_cells, 0.0); for (int i = 0; i < G->number_of_cells; ++i) for (int k = 0; k < 3; ++k) perm[9 * i + 4 * k] = 1e-13;
    if (g.p(1, 6)) { Quiet q; Opm::EclipseGridParser P; std::istringstream i(g.b() ? "OIL\nWATER\n" : "OIL\nWATER\nWELSPECS\nA G 1 1 1* OIL /\n/\n"); P.read(i); Opm::WellsManager M(P, *G, &perm[0]); c.check(M.empty(), "empty", "wells without keywords"); Opm::WellsManager N; c.check(N.empty() && N.c_wells() == 0, "empty", "default"); return; }
    const int nw = g.size(1, 5); VI idx = g.perm(10); std::vector<std::string> nm; std::string d = "OIL\nWATER\nMETRIC\nWELSPECS\n", prod; std::vector<int> I, J; for (int w = 0; w < nw; ++w) { nm.push_back(NAMES[idx[w]]); I.push_back(g.i(1, s.n[0])); J.push_back(g.i(1, s.n[1])); d += pbt::fmt("%s G %d %d 1* OIL /\n", nm[w].c_str(), I[w], J[w]); prod += nm[w] + " OPEN BHP 5* 100 /\n"; }
    const std::string full = nm[g.i(0, nw - 1)]; const std::string pre = full.substr(0, g.i(1, (int) full.size())); const bool star = g.b(); const int k1 = g.i(1, s.n[2]), k2 = g.i(k1, s.n[2]); d += "/\nCOMPDAT\n" + (star ? (g.b() ? "'" + pre + "*'" : pre + "*") : full) + pbt::fmt(" 2* %d %d OPEN 1 5.0 /\n/\nWCONPROD\n", k1, k2) + prod + "/\n";
    c.desc() << s.str() << "\n" << d; Quiet q; Opm::EclipseGridParser P; std::istringstream i(d); P.read(i); Opm::WellsManager M(P, *G, &perm[0]); const Wells* W = M.c_wells(); int hits = 0;
    for (int w = 0; w < nw; ++w) { const bool match = star ? nm[w].compare(0, pre.size(), pre) == 0 : nm[w] == full; hits += match; const int n = W->well_connpos[w + 1] - W->well_connpos[w]; c.check(n == (match ? k2 - k1 + 1 : 0), "pattern", "%s has %d perforations", nm[w].c_str(), n); for (int k = 0; k < n; ++k) c.check(W->well_cells[W->well_connpos[w] + k] == I[w] - 1 + s.n[0] * (J[w] - 1 + s.n[1] * (k1 - 1 + k)), "pattern", "%s perforation %d in cell %d", nm[w].c_str(), k, W->well_cells[W->well_connpos[w] + k]); }
    c.label("several", hits > 1); c.nontrivial(hits > 1 || nw > 1);
}
// group controlled wells that are shut (known finding)
void shutgroup(Gen& g, Ctx& c)
{
    Model m; Opt o; o.groups = true; o.shutGrup = true; Run r; genGrid(g, m); genWells(g, m, o); c.desc() << m.gridText << "\n" << m.deck; Quiet q; try { build(m, r); } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { throw pbt::Discard(); }
    for (size_t w = 0; w < m.w.size(); ++w) if (m.w[w].shut && m.w[w].grup) { c.nontrivial(true); c.check(r.M->c_wells()->ctrls[w]->current < 0, "shut", "%s is shut in the deck, but has %s", m.w[w].name.c_str(), ctrlText(*r.M->c_wells(), w).c_str()); }
}
}
pbt::Spec pbt::spec()
{
    return { "C34", "at least two wells with two perforations (wells), at least two wells sharing a group target (groups), at least one enforced limit or reinjection target (limits, reinject), or the invalid reference was there (invalid)",
        { "one level of active group control per path of the group tree", "bore holes smaller than the equivalent radius", "group controlled wells that are shut are the listed finding", "limits within 1e-4 of being reached are not judged" },
        40000, 800000, { { "wells", 5, wells }, { "groups", 3, groups }, { "limits", 5, limits }, { "reinject", 2, reinject }, { "invalid", 3, invalid }, { "names", 1, names }, { "shutgroup", 0, shutgroup } } };
}
