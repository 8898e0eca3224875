// C07: deck parsing keeps every value, unit and count; bad decks are rejected, never crash.
#include "pbt.hpp"
#include "config.h"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>

using pbt::Gen; using pbt::Ctx;
using Opm::EclipseGridParser;

namespace {

// Unit factors, stated independently of the library.
struct Units { double length, time, density, pdens, pressure, compr, visc, perm, liqs, liqr, gass, gasr, trans; };
Units metric() { Units u = { 1, 86400, 1, 1, 1e5, 1e-5, 1e-3, 9.869232667160130e-16, 1, 1, 1, 1, 1e-3 / (86400 * 1e5) }; return u; }
Units field()
{
    const double ft = 0.3048, lb = 0.45359237, psi = 6894.757293168361, stb = 0.158987294928;
    Units u = { ft, 86400, lb / (ft * ft * ft), lb / stb, psi, 1 / psi, 1e-3, 9.869232667160130e-16, stb, stb, 1000 * ft * ft * ft, stb, 1e-3 * stb / (86400 * psi) }; return u;
}
Units one() { Units u = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; return u; }

const EclipseGridParser& K(const EclipseGridParser& p) { return p; }

struct W {     // writes numbers and records with random layout
    Gen& g; std::ostringstream o; int col; bool comments;
    explicit W(Gen& gg) : g(gg), col(0), comments(true) {}
    double val(double lo = 0.0, double hi = 1000.0) {
        switch (g.i(0, 3)) { case 0: return g.i((int) std::ceil(lo), (int) hi); case 1: return lo + (hi - lo) * g.i(0, 1000) / 1000.0; default: return g.real(lo, hi); }
    }
    void sep()
    {
        if (comments && g.p(1, 20)) { o << " -- a comment 12 / 'x'\n"; return; }
        if (g.p(1, 6)) o << "\n" << (g.b() ? " " : "");
        else o << (g.p(1, 5) ? "\t " : " ");
    }
    void raw(double v)
    {
        static const char* f[] = { "%.17g", "%.17E", "%.16e", "%.17G" }; std::string t = pbt::fmt(f[g.i(0, 3)], v);
        if (t.find("e") == std::string::npos && t.find("E") == std::string::npos) { if (t.compare(0, 2, "0.") == 0 && g.b()) t = t.substr(1); else if (t.find('.') == std::string::npos && t.find('n') == std::string::npos && g.p(1, 4)) t += g.b() ? "." : ".0"; }
        o << t;
    }
    void num(double v) { raw(v); sep(); }
    void num(int v) { o << v; sep(); }
    void str(const std::string& s, bool mayquote = true) { if (mayquote && g.b()) o << "'" << s << "'"; else o << s; o << " "; }
    void end() { o << "/"; if (g.p(1, 4)) o << " trailing text"; o << "\n"; gap(); }
    void gap() { if (comments && g.p(1, 6)) o << "-- comment line 3*4 /\n"; if (g.p(1, 6)) o << "\n"; }
    void key(const char* k) { gap2(); o << k; if (g.p(1, 6)) o << (g.b() ? "   " : "  -- note"); o << "\n"; if (comments && g.p(1, 8)) o << "-- after keyword\n"; }
    void gap2() { if (g.p(1, 4)) o << "\n"; if (g.p(1, 6)) o << "-- BETWEEN KEYWORDS /\n"; }
    template <class T> void vec(const std::vector<T>& v)        // with repeat counts
    {
        for (size_t k = 0; k < v.size(); ) {
            size_t r = 1; while (k + r < v.size() && v[k + r] == v[k]) ++r;
            if (r > 1 && g.p(2, 3)) { r = g.i(1, (int) r); o << r << "*"; } else r = 1;
            num(v[k]); k += r;
        }
        o << " "; end();
    }
};

typedef std::function<void(Ctx&, EclipseGridParser&, const Units&)> Verify;
struct Item { std::string key, text; Verify check; };

void eq(Ctx& c, double got, double want, const char* key, const char* what)
{
    c.check(std::fabs(got - want) <= 1e-11 * std::fabs(want), key, "%s %s: read %.17g, expected %.17g", key, what, got, want);
}
void eqs(Ctx& c, const std::string& got, const std::string& want, const char* key, const char* what)
{
    c.check(got == want, key, "%s %s: read '%s', expected '%s'", key, what, got.c_str(), want.c_str());
}
void eqn(Ctx& c, size_t got, size_t want, const char* key, const char* what)
{
    c.check(got == want, key, "%s %s: %d, expected %d", key, what, (int) got, (int) want);
}

// ------------------------------------------------------------- plain vectors
struct FKey { const char* k; double Units::*u; };
const FKey fkeys[] = {
    {"COORD", &Units::length}, {"ZCORN", &Units::length}, {"DXV", &Units::length}, {"DYV", &Units::length}, {"DZV", &Units::length}, {"DEPTHZ", &Units::length}, {"TOPS", &Units::length},
    {"PERMX", &Units::perm}, {"PERMY", &Units::perm}, {"PERMZ", &Units::perm}, {"PERMXX", &Units::perm}, {"PERMYY", &Units::perm}, {"PERMZZ", &Units::perm}, {"PERMXY", &Units::perm}, {"PERMYZ", &Units::perm}, {"PERMZX", &Units::perm},
    {"PRESSURE", &Units::pressure},
    {"PORO", 0}, {"BULKMOD", 0}, {"YOUNGMOD", 0}, {"LAMEMOD", 0}, {"SHEARMOD", 0}, {"PWAVEMOD", 0}, {"MULTPV", 0}, {"SGAS", 0}, {"SWAT", 0}, {"SOIL", 0}, {"RS", 0},
    {"SWCR", 0}, {"SWL", 0}, {"SWU", 0}, {"SOWCR", 0}, {"KRW", 0}, {"KRWR", 0}, {"KRO", 0}, {"KRORW", 0} };
const int nfkeys = sizeof fkeys / sizeof fkeys[0];
const char* const ikeys[] = { "ACTNUM", "SATNUM", "EQLNUM", "REGNUM", "ROCKTYPE", "DIMENS", "REGDIMS", "WELLDIMS", "TABDIMS", "FIPNUM", "GRIDFILE" };
const int nikeys = sizeof ikeys / sizeof ikeys[0];

Item floatItem(Gen& g, int which)
{
    const FKey f = fkeys[which]; W w(g); std::vector<double> v; const int n = g.size(1, 40); const double sc = g.b() ? 1 : g.logreal(1e-6, 1e6);
    while ((int) v.size() < n) { const double x = w.val(g.p(1, 5) ? -10 : 0, 100) * sc; const int r = g.p(1, 4) ? g.i(1, 6) : 1; v.insert(v.end(), r, x); }
    w.key(f.k); w.vec(v);
    Item it; it.key = f.k; it.text = w.o.str(); const std::string k = f.k;
    it.check = [v, k, f](Ctx& c, EclipseGridParser& p, const Units& u) {
        const std::vector<double>& r = p.getFloatingPointValue(k); eqn(c, r.size(), v.size(), f.k, "count");
        for (size_t q = 0; q < v.size(); ++q) eq(c, r[q], v[q] * (f.u ? u.*(f.u) : 1.0), f.k, pbt::fmt("[%d]", (int) q).c_str());
    };
    return it;
}
Item intItem(Gen& g, int which)
{
    W w(g); std::vector<int> v; const int n = g.size(1, 40);
    while ((int) v.size() < n) v.insert(v.end(), g.p(1, 3) ? g.i(1, 6) : 1, g.i(g.p(1, 10) ? -3 : 0, g.b() ? 3 : 2000));
    w.key(ikeys[which]); w.vec(v);
    Item it; it.key = ikeys[which]; it.text = w.o.str(); const std::string k = ikeys[which];
    it.check = [v, k](Ctx& c, EclipseGridParser& p, const Units&) {
        const std::vector<int>& r = p.getIntegerValue(k); eqn(c, r.size(), v.size(), k.c_str(), "count");
        for (size_t q = 0; q < v.size(); ++q) c.check(r[q] == v[q], k.c_str(), "%s[%d] read as %d, expected %d", k.c_str(), (int) q, r[q], v[q]);
    };
    return it;
}

// ------------------------------------------------------------------- tables
typedef std::vector<std::vector<double> > T2;
typedef std::vector<T2> T3;
// column tables: PVDG, PVDO, ROCKTAB (3 columns), SWOF, SGOF (4)
template <class Get> Item colTable(Gen& g, const char* key, int ncol, const std::vector<double Units::*>& num, const std::vector<double Units::*>& den, bool defaults, Get get)
{
    W w(g); T3 t; const int nreg = g.i(1, 3);
    w.key(key);
    for (int r = 0; r < nreg; ++r) {
        const int n = g.i(1, 6); T2 cols(ncol, std::vector<double>(n)); double x = g.real(0.1, 10); std::vector<std::vector<char> > def(ncol, std::vector<char>(n, 0));
        for (int k = 0; k < n; ++k) { x += g.real(0.05, 3); for (int q = 0; q < ncol; ++q) { cols[q][k] = !q ? x : q == 3 && g.p(1, 8) ? -1.0 : w.val(0, 10); def[q][k] = defaults && q && g.p(1, 6); } }
        for (int k = 0; k < n; ++k) { for (int q = 0; q < ncol; ++q) if (def[q][k]) w.o << "1* "; else w.num(cols[q][k]); if (g.b()) w.o << "\n"; }
        w.end();
        // defaulted entries: linear interpolation between the neighbours in the same column, end values extended
        // linearly as the library's interpolation does; a wholly defaulted column is zero
        for (int q = 1; q < ncol; ++q) {
            std::vector<double> xs, ys; for (int k = 0; k < n; ++k) if (!def[q][k]) { xs.push_back(cols[0][k]); ys.push_back(cols[q][k]); }
            for (int k = 0; k < n; ++k) if (def[q][k]) {
                if (xs.empty()) { cols[q][k] = 0; continue; }
                size_t hi = 0; while (hi < xs.size() && xs[hi] < cols[0][k]) ++hi;
                if (xs.size() == 1) { cols[q][k] = ys[0]; continue; }
                hi = std::min(std::max<size_t>(hi, 1), xs.size() - 1); { const double s = (cols[0][k] - xs[hi - 1]) / (xs[hi] - xs[hi - 1]); cols[q][k] = ys[hi - 1] + s * (ys[hi] - ys[hi - 1]); }
            }
        }
        t.push_back(cols);
    }
    Item it; it.key = key; it.text = w.o.str();
    it.check = [t, key, ncol, num, den, get, defaults](Ctx& c, EclipseGridParser& p, const Units& u) {
        const auto& r = get(p); eqn(c, r.size(), t.size(), key, "tables");
        for (size_t a = 0; a < t.size(); ++a) {
            eqn(c, r[a].size(), ncol, key, "columns");
            for (int q = 0; q < ncol; ++q) {
                eqn(c, r[a][q].size(), t[a][q].size(), key, "rows"); double big = 0; if (defaults) for (double x : t[a][q]) big = std::max(big, std::fabs(x));
                for (size_t k = 0; k < t[a][q].size(); ++k) {
                    const double want = t[a][q][k] * (num[q] ? u.*(num[q]) : 1.0) / (den[q] ? u.*(den[q]) : 1.0);
                    c.check(std::fabs(r[a][q][k] - want) <= 1e-11 * (std::fabs(want) + big * (num[q] ? u.*(num[q]) : 1.0) / (den[q] ? u.*(den[q]) : 1.0)) + (std::fabs(want) < 1e-9 ? 1e-12 : 0), key, "%s table %d row %d column %d: read %.17g, expected %.17g", key, (int) a, (int) k, q, r[a][q][k], want);
                }
            }
        }
    };
    return it;
}
// record lists: DENSITY, PVTW, PVCDO, ROCK
template <class Get> Item recList(Gen& g, const char* key, int n, const std::vector<double Units::*>& num, const std::vector<double Units::*>& den, Get get, bool may4)
{
    W w(g); w.comments = true; T2 t; const int nreg = g.i(1, 3); w.key(key);
    for (int r = 0; r < nreg; ++r) {
        std::vector<double> v(n); for (double& x : v) x = w.val(0, 900);
        const bool four = may4 && g.p(1, 4); if (four) v[4] = 0;
        for (int q = 0; q < (four ? 4 : n); ++q) w.num(v[q]);
        w.o << " "; w.end(); t.push_back(v);
    }
    Item it; it.key = key; it.text = w.o.str();
    it.check = [t, key, n, num, den, get](Ctx& c, EclipseGridParser& p, const Units& u) {
        const auto& r = get(p); eqn(c, r.size(), t.size(), key, "records");
        for (size_t a = 0; a < t.size(); ++a) { eqn(c, r[a].size(), n, key, "items"); for (int q = 0; q < n; ++q) eq(c, r[a][q], t[a][q] * (num[q] ? u.*(num[q]) : 1.0) / (den[q] ? u.*(den[q]) : 1.0), key, pbt::fmt("record %d item %d", (int) a, q).c_str()); }
    };
    return it;
}
// PVTO / PVTG
template <class Get> Item pvtTable(Gen& g, const char* key, bool oil, Get get)
{
    W w(g); T3 t; const int nreg = g.i(1, 2); w.key(key);
    for (int r = 0; r < nreg; ++r) {
        T2 rec; const int n = g.i(1, 4);
        for (int k = 0; k < n; ++k) {
            std::vector<double> v; const int rows = g.i(1, 3); v.push_back(w.val(0.1, 300));
            for (int q = 0; q < 3 * rows; ++q) v.push_back(w.val(0.1, 300));
            for (size_t q = 0; q < v.size(); ++q) { w.num(v[q]); if (q % 3 == 0 && q && g.b()) w.o << "\n"; }
            w.end(); rec.push_back(v);
        }
        w.end(); t.push_back(rec);
    }
    Item it; it.key = key; it.text = w.o.str();
    it.check = [t, key, oil, get](Ctx& c, EclipseGridParser& p, const Units& u) {
        const auto& r = get(p); eqn(c, r.size(), t.size(), key, "tables");
        for (size_t a = 0; a < t.size(); ++a) {
            eqn(c, r[a].size(), t[a].size(), key, "records");
            for (size_t b = 0; b < t[a].size(); ++b) {
                eqn(c, r[a][b].size(), t[a][b].size(), key, "items");
                for (size_t q = 0; q < t[a][b].size(); ++q) {
                    double f;
                    const double rs = oil ? u.gass / u.liqs : u.liqs / u.gass, vf = oil ? u.liqr / u.liqs : u.gasr / u.gass;
                    if (q == 0) f = oil ? rs : u.pressure; else if (q % 3 == 1) f = oil ? u.pressure : rs; else if (q % 3 == 2) f = vf; else f = u.visc;
                    eq(c, r[a][b][q], t[a][b][q] * f, key, pbt::fmt("table %d record %d item %d", (int) a, (int) b, (int) q).c_str());
                }
            }
        }
    };
    return it;
}

// -------------------------------------------------------------- static items
typedef double Units::*UP;
const UP N = 0;

Item miscItem(Gen& g, int which)
{
    W w(g); Item it; EclipseGridParser* dummy = 0; (void) dummy;
    switch (which) {
    case 0: {
        const int a = g.i(1, 300), b = g.i(1, 300), d = g.i(1, 90), res = g.i(1, 3); const int form = g.i(0, 2);
        w.key("SPECGRID"); w.num(a); w.num(b); w.num(d); if (form > 0) w.num(res); w.comments = false; if (form > 1) w.o << (g.b() ? "F " : "T "); w.o << " "; w.end();
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units&) { const Opm::SPECGRID& s = p.getSPECGRID(); c.check(s.dimensions.size() == 3 && s.dimensions[0] == a && s.dimensions[1] == b && s.dimensions[2] == d && s.numres == (form ? res : 1), "SPECGRID", "read %d %d %d %d", s.dimensions[0], s.dimensions[1], s.dimensions[2], s.numres); };
        it.key = "SPECGRID"; break; }
    case 1: return colTable(g, "PVDG", 3, { &Units::pressure, &Units::gasr, &Units::visc }, { N, &Units::gass, N }, false, [](EclipseGridParser& p) -> const T3& { return p.getPVDG().pvdg_; });
    case 2: return colTable(g, "PVDO", 3, { &Units::pressure, &Units::liqr, &Units::visc }, { N, &Units::liqs, N }, false, [](EclipseGridParser& p) -> const T3& { return p.getPVDO().pvdo_; });
    case 3: return colTable(g, "ROCKTAB", 3, { &Units::pressure, N, N }, { N, N, N }, false, [](EclipseGridParser& p) -> const T3& { return p.getROCKTAB().rocktab_; });
    case 4: return colTable(g, "SWOF", 4, { N, N, N, &Units::pressure }, { N, N, N, N }, true, [](EclipseGridParser& p) -> const T3& { return p.getSWOF().swof_; });
    case 5: return colTable(g, "SGOF", 4, { N, N, N, &Units::pressure }, { N, N, N, N }, true, [](EclipseGridParser& p) -> const T3& { return p.getSGOF().sgof_; });
    case 6: return recList(g, "DENSITY", 3, { &Units::density, &Units::density, &Units::density }, { N, N, N }, [](EclipseGridParser& p) -> const T2& { return p.getDENSITY().densities_; }, false);
    case 7: return recList(g, "PVTW", 5, { &Units::pressure, &Units::liqr, &Units::compr, &Units::visc, &Units::compr }, { N, &Units::liqs, N, N, N }, [](EclipseGridParser& p) -> const T2& { return p.getPVTW().pvtw_; }, true);
    case 8: return recList(g, "PVCDO", 5, { &Units::pressure, &Units::liqr, &Units::compr, &Units::visc, &Units::compr }, { N, &Units::liqs, N, N, N }, [](EclipseGridParser& p) -> const T2& { return p.getPVCDO().pvcdo_; }, true);
    case 9: return recList(g, "ROCK", 2, { &Units::pressure, &Units::compr }, { N, N }, [](EclipseGridParser& p) -> const T2& { return p.getROCK().rock_compressibilities_; }, false);
    case 10: return pvtTable(g, "PVTO", true, [](EclipseGridParser& p) -> const T3& { return p.getPVTO().pvto_; });
    case 11: return pvtTable(g, "PVTG", false, [](EclipseGridParser& p) -> const T3& { return p.getPVTG().pvtg_; });
    case 12: case 13: {
        const bool visc = which == 12; const char* k = visc ? "PLYVISC" : "PLYADS"; w.key(k); std::vector<double> a, b, all; const int n = g.i(1, 6);
        for (int q = 0; q < n; ++q) { a.push_back(w.val()); b.push_back(w.val()); all.push_back(a.back()); all.push_back(b.back()); }
        w.vec(all); it.key = k;
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units& u) {
            const std::vector<double>& x = visc ? p.getPLYVISC().concentration_ : p.getPLYADS().local_concentration_; const std::vector<double>& y = visc ? p.getPLYVISC().factor_ : p.getPLYADS().adsorbed_concentration_;
            eqn(c, x.size(), a.size(), k, "rows"); eqn(c, y.size(), b.size(), k, "rows");
            for (size_t q = 0; q < a.size(); ++q) { eq(c, x[q], a[q] * u.pdens, k, "concentration"); eq(c, y[q], b[q], k, "value"); }
        };
        break; }
    case 14: {
        std::vector<double> v(5); for (double& x : v) x = w.val(0, 10); w.key("PLYROCK"); bool d3 = g.b();
        for (int q = 0; q < 5; ++q) if (q == 3 && d3) { w.o << "1* "; v[3] = 1; } else w.num(v[q]);
        w.o << " "; w.end(); it.key = "PLYROCK";
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units& u) { const std::vector<double>& r = p.getPLYROCK().plyrock_; eqn(c, r.size(), 5, "PLYROCK", "items"); for (int q = 0; q < 5; ++q) eq(c, r[q], v[q] * (q == 2 ? u.pdens : 1), "PLYROCK", "item"); };
        break; }
    case 15: {
        const double a = w.val(), b = w.val(); w.key("PLYMAX"); w.num(a); w.num(b); w.o << " "; w.end(); it.key = "PLYMAX";
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units& u) { const std::vector<double>& r = p.getPLYMAX().plymax_; eqn(c, r.size(), 2, "PLYMAX", "items"); eq(c, r[0], a * u.pdens, "PLYMAX", "polymer"); eq(c, r[1], b * u.pdens, "PLYMAX", "salt"); };
        break; }
    case 16: {
        const double a = w.val(0, 1); const bool d = g.b(); const double b = d ? a : w.val(0, 1); w.key("TLMIXPAR"); w.num(a); if (!d) w.num(b); w.o << " "; w.end(); it.key = "TLMIXPAR";
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units&) { const std::vector<double>& r = p.getTLMIXPAR().tlmixpar_; eqn(c, r.size(), 2, "TLMIXPAR", "items"); eq(c, r[0], a, "TLMIXPAR", "first"); eq(c, r[1], b, "TLMIXPAR", "second"); };
        break; }
    case 17: {
        double v[9]; for (double& x : v) x = w.val(0, 3000); for (int q = 6; q < 9; ++q) v[q] = g.i(0, 30); const int n = g.i(2, 9); w.key("EQUIL");
        for (int q = 0; q < 9; ++q) { if (q >= n) v[q] = 0; else if (q && g.p(1, 6)) { v[q] = 0; w.o << "1* "; } else if (q < 6) w.num(v[q]); else w.num((int) v[q]); }
        w.o << " "; w.end(); it.key = "EQUIL"; std::vector<double> x(v, v + 9);
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units& u) {
            eqn(c, p.getEQUIL().equil.size(), 1, "EQUIL", "records"); const Opm::EquilLine& e = p.getEQUIL().equil[0];
            eq(c, e.datum_depth_, x[0] * u.length, "EQUIL", "datum"); eq(c, e.datum_depth_pressure_, x[1] * u.pressure, "EQUIL", "pressure"); eq(c, e.water_oil_contact_depth_, x[2] * u.length, "EQUIL", "woc"); eq(c, e.oil_water_cap_pressure_, x[3] * u.pressure, "EQUIL", "pcow");
            eq(c, e.gas_oil_contact_depth_, x[4] * u.length, "EQUIL", "goc"); eq(c, e.gas_oil_cap_pressure_, x[5] * u.pressure, "EQUIL", "pcgo"); eq(c, e.live_oil_table_index_, x[6], "EQUIL", "item 7"); eq(c, e.wet_gas_table_index_, x[7], "EQUIL", "item 8"); eq(c, e.N_, x[8], "EQUIL", "item 9");
        };
        break; }
    case 18: case 19: {
        const bool en = which == 18; const char* k = en ? "ENPTVD" : "ENKRVD"; const int ncol = en ? 9 : 8; const int use[2][5] = { { 0, 1, 3, 4, 7 }, { 0, 1, 2, 3, 7 } }; const int* ix = use[en];
        w.comments = false; w.key(k); T3 t; const int nt = g.i(1, 2); std::vector<char> whole(5, 0); for (int q = 1; q < 5; ++q) whole[q] = g.p(1, 4); for (int r = 0; r < nt; ++r) {
            T2 tab(5); const int n = g.i(2, 4); double z = g.real(1, 500);
            for (int row = 0; row < n; ++row) {
                z += g.real(1, 100); std::vector<double> v(ncol, -1); v[0] = z; for (int q = 1; q < 5; ++q) if (!whole[q]) v[ix[q]] = w.val(0, 1);
                for (int q = 0; q < ncol; ++q) if (v[q] == -1) { int m = 1; while (q + m < ncol && v[q + m] == -1 && g.b()) ++m; w.o << m << "* "; q += m - 1; } else { w.raw(v[q]); w.o << " "; }
                w.o << "\n"; for (int q = 0; q < 5; ++q) tab[q].push_back(v[ix[q]]);
            }
            w.o << "/\n"; t.push_back(tab);
        }
        w.o << "/\n"; it.key = k;
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units& u) {
            const T3& r = en ? p.getENPTVD().table_ : p.getENKRVD().table_; eqn(c, r.size(), 5, k, "columns");
            const std::vector<bool>& m = en ? p.getENPTVD().mask_ : p.getENKRVD().mask_; eqn(c, m.size(), 4, k, "mask");
            for (int q = 0; q < 5; ++q) { eqn(c, r[q].size(), t.size(), k, "tables"); if (q) c.check(m[q - 1] == !whole[q], k, "mask of column %d", q); for (size_t a = 0; a < t.size(); ++a) { eqn(c, r[q][a].size(), t[a][q].size(), k, "rows"); for (size_t b = 0; b < t[a][q].size(); ++b) eq(c, r[q][a][b], t[a][q][b] * (q == 0 ? u.length : 1), k, "value"); } }
        };
        break; }
    case 20: {
        static const char* d[] = { "NODIR", "DIRECT" }; static const char* rv[] = { "REVERS", "IRREVERS" }; const int n = g.i(0, 4), a = g.i(1, 9), b = g.i(2, 99); const std::string ds = n > 0 ? d[g.i(0, 1)] : "NODIR", rs = n > 1 ? rv[g.i(0, 1)] : "REVERS";
        w.comments = false; w.key("ENDSCALE"); if (n > 0) w.str(ds); if (n > 1) w.str(rs); if (n > 2) w.o << a << " "; if (n > 3) w.o << b << " "; w.o << "/\n"; it.key = "ENDSCALE";
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units&) { const Opm::ENDSCALE& e = p.getENDSCALE(); eqs(c, e.dir_switch_, ds, "ENDSCALE", "direction"); eqs(c, e.revers_switch_, rs, "ENDSCALE", "reversibility"); eqn(c, e.n_tab_, n > 2 ? a : 1, "ENDSCALE", "tables"); eqn(c, e.n_node_, n > 3 ? b : 20, "ENDSCALE", "nodes"); };
        break; }
    case 21: {
        const int n = g.i(0, 2); w.comments = false; w.key("SCALECRS"); if (n) w.str(n == 2 ? "YES" : "NO"); w.o << "/\n"; it.key = "SCALECRS";
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units&) { eqs(c, p.getSCALECRS().scalecrs_, n == 2 ? "YES" : "NO", "SCALECRS", "switch"); };
        break; }
    case 22: {
        w.key("FAULTS"); std::vector<Opm::FaultSegment> v; const int n = g.i(1, 4); static const char* face[] = { "X", "Y", "Z", "I-" };
        for (int k = 0; k < n; ++k) { Opm::FaultSegment s; s.fault_name = pbt::fmt("F%d", g.i(1, 9)); s.face = face[g.i(0, 3)]; for (int q = 0; q < 6; ++q) s.ijk_coord.push_back(g.i(1, 30)); w.o << s.fault_name << " "; w.comments = false; for (int x : s.ijk_coord) w.num(x); w.comments = true; w.o << s.face << " "; w.end(); v.push_back(s); }
        w.o << "/\n"; it.key = "FAULTS";
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units&) { const auto& r = p.getFAULTS().faults; eqn(c, r.size(), v.size(), "FAULTS", "segments"); for (size_t k = 0; k < v.size(); ++k) { eqs(c, r[k].fault_name, v[k].fault_name, "FAULTS", "name"); eqs(c, r[k].face, v[k].face, "FAULTS", "face"); c.check(r[k].ijk_coord == v[k].ijk_coord, "FAULTS", "ranges of segment %d", (int) k); } };
        break; }
    case 23: {
        w.key("MULTFLT"); std::vector<Opm::MultfltLine> v; const int n = g.i(1, 4);
        for (int k = 0; k < n; ++k) { Opm::MultfltLine s; s.fault_name = pbt::fmt("F%d", g.i(1, 9)); s.transmis_multiplier = w.val(0, 2); const bool d = g.b(); if (!d) s.diffusivity_multiplier = w.val(0, 2); w.o << s.fault_name << " "; w.comments = false; w.num(s.transmis_multiplier); if (!d) w.num(s.diffusivity_multiplier); w.comments = true; w.o << "/\n"; if (g.p(1, 6)) w.o << "-- c\n"; v.push_back(s); }
        w.o << "/\n"; it.key = "MULTFLT";
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units&) { const auto& r = p.getMULTFLT().multflts; eqn(c, r.size(), v.size(), "MULTFLT", "lines"); for (size_t k = 0; k < v.size(); ++k) { eqs(c, r[k].fault_name, v[k].fault_name, "MULTFLT", "name"); eq(c, r[k].transmis_multiplier, v[k].transmis_multiplier, "MULTFLT", "transmissibility"); eq(c, r[k].diffusivity_multiplier, v[k].diffusivity_multiplier, "MULTFLT", "diffusivity"); } };
        break; }
    case 24: {
        static const char* t[] = { "A title", "SPE 9 case, DIMENS", "x", "Run 42 / with slash" }; const std::string s = t[g.i(0, 3)];
        w.comments = false; w.o << "TITLE\n" << (g.b() ? "  " : "") << s << "\n"; if (g.b()) w.o << "\n"; it.key = "TITLE";
        it.check = [=](Ctx& c, EclipseGridParser& p, const Units&) { eqs(c, p.getTITLE().title, s, "TITLE", "text"); };
        break; }
    default: {     // keywords without data, ignored or unknown: only their presence is kept
        static const char* k[] = { "RUNSPEC", "WATER", "OIL", "GRID", "PROPS", "REGIONS", "SOLUTION", "SUMMARY", "SCHEDULE", "NOECHO", "POLYMER", "NTG", "BOX", "RPTRST", "XYZZY1", "FOO", "SWFN", "SOF2", "TUNING" };
        const int q = g.i(0, 18); w.key(k[q]); if (q >= 11) { const int rows = q == 18 ? 3 : 1; for (int r = 0; r < rows; ++r) w.o << " 1 2.5 3*7 /\n"; if (q == 16 || q == 17) { if (g.b()) w.o << " 4 5 6 /\n"; } }
        it.key = k[q]; it.check = [](Ctx&, EclipseGridParser&, const Units&) {};
        break; }
    }
    it.text = w.o.str();
    return it;
}
const int nmisc = 26;

// ------------------------------------------------------------ schedule items
struct Sched {     // cumulative expectation per keyword
    std::vector<Opm::WelspecsLine> welspecs; std::vector<Opm::CompdatLine> compdat; std::vector<Opm::WconinjeLine> inje; std::vector<Opm::WconprodLine> prod;
    std::vector<Opm::WeltargLine> targ; std::vector<Opm::WelopenLine> open; std::vector<Opm::WpolymerLine> poly; std::map<std::string, std::string> tree;
    std::vector<Opm::GconinjeLine> ginje; std::vector<Opm::GconprodLine> gprod; std::vector<Opm::WgrupconLine> grup; std::vector<double> tstep; std::set<std::string> keys;
};
const double DEF = -1e20;
// A defaulted number: written as 1*; several in a row may be joined.
struct Row {
    W& w; int pend; bool ended;
    explicit Row(W& ww) : w(ww), pend(0), ended(false) {}
    void flush() { while (pend > 0) { const int m = w.g.i(1, pend); w.o << m << "* "; pend -= m; } }
    double num(double v, double def, bool mayDefault = true) { if (mayDefault && w.g.p(1, 3)) { ++pend; return def; } flush(); w.raw(v); w.o << " "; return v; }
    void end() { if (w.g.b()) flush(); w.o << "/\n"; if (w.g.p(1, 8)) w.o << "-- between records\n"; }
};
std::string schedItem(Gen& g, int which, Sched& s)
{
    W w(g); static const char* wn[] = { "W1", "INJ", "PROD-2", "W10" }; static const char* gn[] = { "G1", "G2", "FIELD" };
    const int n = g.i(1, 3); w.comments = false;
    const char* key[] = { "WELSPECS", "COMPDAT", "WCONINJE", "WCONPROD", "WELTARG", "WELOPEN", "WPOLYMER", "GRUPTREE", "GCONINJE", "GCONPROD", "WGRUPCON" };
    w.key(key[which]); s.keys.insert(key[which]);
    if (g.p(1, 5)) w.o << "-- a comment line\n";
    for (int k = 0; k < n; ++k) {
        Row r(w); const std::string well = wn[g.i(0, 3)], group = gn[g.i(0, 2)];
        switch (which) {
        case 0: { Opm::WelspecsLine l; l.name_ = well; l.group_ = group; l.I_ = g.i(1, 99); l.J_ = g.i(1, 99); const bool d = g.p(1, 4); l.datum_depth_BHP_ = d ? -1 : w.val(0, 3000); static const char* ph[] = { "OIL", "WATER", "GAS" }; l.pref_phase_ = ph[g.i(0, 2)];
            w.str(well); w.str(group); w.num(l.I_); w.num(l.J_); if (d) w.o << "1* "; else { w.raw(l.datum_depth_BHP_); w.o << " "; } w.str(l.pref_phase_); if (g.p(1, 4)) w.o << "0.5 STD SHUT "; w.o << "/\n"; s.welspecs.push_back(l); break; }
        case 1: { Opm::CompdatLine l; l.well_ = well; for (int q = 0; q < 4; ++q) l.grid_ind_[q] = g.i(1, 30); l.open_shut_flag_ = g.b() ? "OPEN" : "SHUT"; const bool d = g.b(); l.sat_table_number_ = d ? -1 : g.i(0, 3); w.str(well); for (int x : l.grid_ind_) w.num(x); const int cut = g.i(0, 9); if (cut == 1) { l.open_shut_flag_ = "OPEN"; l.sat_table_number_ = 0; w.o << "/\n"; s.compdat.push_back(l); break; } w.str(l.open_shut_flag_); if (cut == 2) { l.sat_table_number_ = -1; w.o << "/\n"; s.compdat.push_back(l); break; } if (d) w.o << "1* "; else { w.o << l.sat_table_number_ << " "; }
            l.connect_trans_fac_ = r.num(w.val(0, 50), 0.0); l.diameter_ = r.num(w.val(0, 1), 0.0); const bool extra = !r.pend && g.p(1, 3); if (extra) w.o << "1* 0.0 /\n"; else r.end(); s.compdat.push_back(l); break; }
        case 2: { Opm::WconinjeLine l; l.well_ = well; static const char* ty[] = { "WATER", "GAS", "OIL" }; static const char* md[] = { "RATE", "RESV", "BHP", "GRUP" }; l.injector_type_ = ty[g.i(0, 2)]; l.open_shut_flag_ = g.b() ? "OPEN" : "SHUT"; l.control_mode_ = md[g.i(0, 3)];
            w.str(well); w.str(l.injector_type_); w.str(l.open_shut_flag_); w.str(l.control_mode_); l.surface_flow_max_rate_ = r.num(w.val(), DEF); l.reservoir_flow_max_rate_ = r.num(w.val(), DEF); l.BHP_limit_ = r.num(w.val(), 6891); l.THP_limit_ = r.num(w.val(), DEF); l.VFP_table_number_ = (int) r.num(g.i(0, 9), 0); l.concentration_ = r.num(w.val(0, 1), 0); r.end(); s.inje.push_back(l); break; }
        case 3: { Opm::WconprodLine l; l.well_ = well; static const char* md[] = { "ORAT", "WRAT", "GRAT", "LRAT", "RESV", "BHP", "GRUP" }; l.open_shut_flag_ = g.b() ? "OPEN" : "SHUT"; l.control_mode_ = md[g.i(0, 6)];
            w.str(well); w.str(l.open_shut_flag_); w.str(l.control_mode_); l.oil_max_rate_ = r.num(w.val(), DEF); l.water_max_rate_ = r.num(w.val(), DEF); l.gas_max_rate_ = r.num(w.val(), DEF); l.liquid_max_rate_ = r.num(w.val(), DEF); l.reservoir_flow_max_rate_ = r.num(w.val(), DEF); l.BHP_limit_ = r.num(w.val(), 1.0); l.THP_limit_ = r.num(w.val(), 0.0); l.VFP_table_number_ = (int) r.num(g.i(0, 9), 0); l.artif_lift_quantity_ = r.num(w.val(), 0); r.end(); s.prod.push_back(l); break; }
        case 4: { Opm::WeltargLine l; l.well_ = well; static const char* md[] = { "ORAT", "WRAT", "GRAT", "LRAT", "RESV", "BHP", "THP" }; l.control_change_ = md[g.i(0, 6)]; l.new_value_ = w.val(); w.str(well); w.str(l.control_change_); w.raw(l.new_value_); w.o << " /\n"; s.targ.push_back(l); break; }
        case 5: { Opm::WelopenLine l; l.well_ = well; l.openshutflag_ = g.b() ? "OPEN" : "SHUT"; w.str(well); w.str(l.openshutflag_); w.o << "/\n"; s.open.push_back(l); break; }
        case 6: { Opm::WpolymerLine l; l.well_ = well; l.polymer_concentration_ = w.val(0, 5); l.salt_concentration_ = w.val(0, 5); const int f = g.i(0, 2); if (f > 0) l.polymer_group_ = "PG"; if (f > 1) l.salt_group_ = "SG"; w.str(well); w.raw(l.polymer_concentration_); w.o << " "; w.raw(l.salt_concentration_); w.o << " "; if (f > 0) w.str("PG"); if (f > 1) w.str("SG"); w.o << "/\n"; s.poly.push_back(l); break; }
        case 7: { const std::string ch = pbt::fmt("G%d", g.i(1, 6)), pa = g.b() ? "FIELD" : pbt::fmt("P%d", g.i(1, 3)); w.str(ch); w.str(pa); w.o << "/\n"; s.tree[ch] = pa; break; }
        case 8: { Opm::GconinjeLine l; l.group_ = group; static const char* ty[] = { "WATER", "GAS", "OIL" }; static const char* md[] = { "RATE", "RESV", "VREP", "REIN" }; l.injector_type_ = ty[g.i(0, 2)]; l.control_mode_ = md[g.i(0, 3)]; w.str(group); w.str(l.injector_type_); w.str(l.control_mode_);
            l.surface_flow_max_rate_ = r.num(w.val(), DEF); l.resv_flow_max_rate_ = r.num(w.val(), DEF); l.reinjection_fraction_target_ = r.num(w.val(0, 1), DEF); l.voidage_replacement_fraction_ = r.num(w.val(0, 1), DEF); r.end(); s.ginje.push_back(l); break; }
        case 9: { Opm::GconprodLine l; l.group_ = group; static const char* md[] = { "ORAT", "WRAT", "GRAT", "LRAT", "RESV", "1*" }; l.control_mode_ = md[g.i(0, 5)]; w.str(group); if (l.control_mode_ == "1*") { w.o << "1* "; l.control_mode_ = "NONE"; } else w.str(l.control_mode_);
            l.oil_max_rate_ = r.num(w.val(), DEF); l.water_max_rate_ = r.num(w.val(), DEF); l.gas_max_rate_ = r.num(w.val(), DEF); l.liquid_max_rate_ = r.num(w.val(), DEF); const int form = g.i(0, 2);
            if (form == 0) { l.procedure_ = "NONE"; r.end(); }
            else { r.flush(); static const char* pr[] = { "NONE", "RATE", "WELL", "CON" }; l.procedure_ = pr[g.i(0, 3)]; w.str(l.procedure_);
                if (form == 2) { for (int q = 0; q < 6; ) { if (g.b()) { const int m = g.i(1, 6 - q); w.o << m << "* "; q += m; } else { w.o << (g.b() ? "YES " : "1.5 "); ++q; } } l.resv_max_rate_ = w.val(); w.raw(l.resv_max_rate_); w.o << " "; }
                w.o << "/\n"; }
            s.gprod.push_back(l); break; }
        default: { Opm::WgrupconLine l; l.well_ = well; const int a = g.i(0, 2); l.available_for_group_control_ = a != 1; static const char* av[] = { "YES", "NO", "1*" }; w.str(well); w.o << av[a] << " "; const bool d = g.p(1, 4); l.guide_rate_ = d ? 1e20 : w.val(); const int cut = g.i(0, 7); if (cut == 1) { l.guide_rate_ = 1e20; w.o << "/\n"; s.grup.push_back(l); break; } if (d) w.o << "1* "; else { w.raw(l.guide_rate_); w.o << " "; } static const char* ph[] = { "OIL", "RES", "LIQ" }; l.phase_ = ph[g.i(0, 2)]; if (cut == 2) l.phase_ = ""; else w.str(l.phase_); w.o << "/\n"; s.grup.push_back(l); break; }
        }
    }
    if (g.p(1, 5)) w.o << "-- the list ends\n";
    w.o << "/\n";
    return w.o.str();
}
void rate(Ctx& c, double got, double want, double f, const char* k, const char* what) { if (want < -1e19) c.check(got < 0, k, "%s %s was defaulted but reads %g", k, what, got); else eq(c, got, want * f, k, what); }
void verifySched(Ctx& c, EclipseGridParser& p, const Sched& s, const Units& u)
{
    const double lr = u.liqs / u.time, gr = u.gass / u.time, rr = u.liqr / u.time;
    if (s.welspecs.size()) { const auto& r = p.getWELSPECS().welspecs; eqn(c, r.size(), s.welspecs.size(), "WELSPECS", "lines"); for (size_t k = 0; k < r.size(); ++k) { const auto& e = s.welspecs[k]; eqs(c, r[k].name_, e.name_, "WELSPECS", "well"); eqs(c, r[k].group_, e.group_, "WELSPECS", "group"); eqn(c, r[k].I_, e.I_, "WELSPECS", "I"); eqn(c, r[k].J_, e.J_, "WELSPECS", "J"); if (e.datum_depth_BHP_ < 0) c.check(r[k].datum_depth_BHP_ < 0, "WELSPECS", "defaulted depth reads %g", r[k].datum_depth_BHP_); else eq(c, r[k].datum_depth_BHP_, e.datum_depth_BHP_ * u.length, "WELSPECS", "datum depth"); eqs(c, r[k].pref_phase_, e.pref_phase_, "WELSPECS", "phase"); } }
    if (s.compdat.size()) { const auto& r = p.getCOMPDAT().compdat; eqn(c, r.size(), s.compdat.size(), "COMPDAT", "lines"); for (size_t k = 0; k < r.size(); ++k) { const auto& e = s.compdat[k]; eqs(c, r[k].well_, e.well_, "COMPDAT", "well"); c.check(r[k].grid_ind_ == e.grid_ind_, "COMPDAT", "cell range of line %d", (int) k); eqs(c, r[k].open_shut_flag_, e.open_shut_flag_, "COMPDAT", "flag"); c.check(r[k].sat_table_number_ == e.sat_table_number_, "COMPDAT", "saturation table %d, expected %d", r[k].sat_table_number_, e.sat_table_number_); eq(c, r[k].connect_trans_fac_, e.connect_trans_fac_ * u.trans, "COMPDAT", "transmissibility factor"); eq(c, r[k].diameter_, e.diameter_ * u.length, "COMPDAT", "diameter"); } }
    if (s.inje.size()) { const auto& r = p.getWCONINJE().wconinje; eqn(c, r.size(), s.inje.size(), "WCONINJE", "lines"); for (size_t k = 0; k < r.size(); ++k) { const auto& e = s.inje[k]; eqs(c, r[k].well_, e.well_, "WCONINJE", "well"); eqs(c, r[k].injector_type_, e.injector_type_, "WCONINJE", "type"); eqs(c, r[k].open_shut_flag_, e.open_shut_flag_, "WCONINJE", "flag"); eqs(c, r[k].control_mode_, e.control_mode_, "WCONINJE", "mode");
        rate(c, r[k].surface_flow_max_rate_, e.surface_flow_max_rate_, e.injector_type_ == "GAS" ? gr : lr, "WCONINJE", "surface rate"); rate(c, r[k].reservoir_flow_max_rate_, e.reservoir_flow_max_rate_, rr, "WCONINJE", "reservoir rate"); rate(c, r[k].BHP_limit_, e.BHP_limit_, u.pressure, "WCONINJE", "BHP"); rate(c, r[k].THP_limit_, e.THP_limit_, u.pressure, "WCONINJE", "THP"); eqn(c, r[k].VFP_table_number_, e.VFP_table_number_, "WCONINJE", "VFP table"); eq(c, r[k].concentration_, e.concentration_ * u.gass / u.liqs, "WCONINJE", "concentration"); } }
    if (s.prod.size()) { const auto& r = p.getWCONPROD().wconprod; eqn(c, r.size(), s.prod.size(), "WCONPROD", "lines"); for (size_t k = 0; k < r.size(); ++k) { const auto& e = s.prod[k]; eqs(c, r[k].well_, e.well_, "WCONPROD", "well"); eqs(c, r[k].open_shut_flag_, e.open_shut_flag_, "WCONPROD", "flag"); eqs(c, r[k].control_mode_, e.control_mode_, "WCONPROD", "mode");
        rate(c, r[k].oil_max_rate_, e.oil_max_rate_, lr, "WCONPROD", "oil rate"); rate(c, r[k].water_max_rate_, e.water_max_rate_, lr, "WCONPROD", "water rate"); rate(c, r[k].gas_max_rate_, e.gas_max_rate_, gr, "WCONPROD", "gas rate"); rate(c, r[k].liquid_max_rate_, e.liquid_max_rate_, lr, "WCONPROD", "liquid rate"); rate(c, r[k].reservoir_flow_max_rate_, e.reservoir_flow_max_rate_, rr, "WCONPROD", "reservoir rate"); rate(c, r[k].BHP_limit_, e.BHP_limit_, u.pressure, "WCONPROD", "BHP"); rate(c, r[k].THP_limit_, e.THP_limit_, u.pressure, "WCONPROD", "THP"); eqn(c, r[k].VFP_table_number_, e.VFP_table_number_, "WCONPROD", "VFP table"); eq(c, r[k].artif_lift_quantity_, e.artif_lift_quantity_, "WCONPROD", "lift"); } }
    if (s.targ.size()) { const auto& r = p.getWELTARG().weltarg; eqn(c, r.size(), s.targ.size(), "WELTARG", "lines"); for (size_t k = 0; k < r.size(); ++k) { const auto& e = s.targ[k]; eqs(c, r[k].well_, e.well_, "WELTARG", "well"); eqs(c, r[k].control_change_, e.control_change_, "WELTARG", "quantity"); const std::string& q = e.control_change_; eq(c, r[k].new_value_, e.new_value_ * (q == "GRAT" ? gr : q == "RESV" ? rr : q == "BHP" || q == "THP" ? u.pressure : lr), "WELTARG", "value"); } }
    if (s.open.size()) { const auto& r = p.getWELOPEN().welopen; eqn(c, r.size(), s.open.size(), "WELOPEN", "lines"); for (size_t k = 0; k < r.size(); ++k) { eqs(c, r[k].well_, s.open[k].well_, "WELOPEN", "well"); eqs(c, r[k].openshutflag_, s.open[k].openshutflag_, "WELOPEN", "flag"); } }
    if (s.poly.size()) { const auto& r = p.getWPOLYMER().wpolymer_; eqn(c, r.size(), s.poly.size(), "WPOLYMER", "lines"); for (size_t k = 0; k < r.size(); ++k) { const auto& e = s.poly[k]; eqs(c, r[k].well_, e.well_, "WPOLYMER", "well"); eq(c, r[k].polymer_concentration_, e.polymer_concentration_ * u.pdens, "WPOLYMER", "polymer"); eq(c, r[k].salt_concentration_, e.salt_concentration_ * u.pdens, "WPOLYMER", "salt"); eqs(c, r[k].polymer_group_, e.polymer_group_, "WPOLYMER", "group"); eqs(c, r[k].salt_group_, e.salt_group_, "WPOLYMER", "salt group"); } }
    if (s.tree.size()) c.check(p.getGRUPTREE().tree == s.tree, "GRUPTREE", "tree has %d entries, expected %d", (int) p.getGRUPTREE().tree.size(), (int) s.tree.size());
    if (s.ginje.size()) { const auto& r = p.getGCONINJE().gconinje; eqn(c, r.size(), s.ginje.size(), "GCONINJE", "lines"); for (size_t k = 0; k < r.size(); ++k) { const auto& e = s.ginje[k]; eqs(c, r[k].group_, e.group_, "GCONINJE", "group"); eqs(c, r[k].injector_type_, e.injector_type_, "GCONINJE", "type"); eqs(c, r[k].control_mode_, e.control_mode_, "GCONINJE", "mode"); rate(c, r[k].surface_flow_max_rate_, e.surface_flow_max_rate_, e.injector_type_ == "GAS" ? gr : lr, "GCONINJE", "surface rate"); rate(c, r[k].resv_flow_max_rate_, e.resv_flow_max_rate_, rr, "GCONINJE", "reservoir rate"); rate(c, r[k].reinjection_fraction_target_, e.reinjection_fraction_target_, 1, "GCONINJE", "reinjection"); rate(c, r[k].voidage_replacement_fraction_, e.voidage_replacement_fraction_, 1, "GCONINJE", "voidage"); } }
    if (s.gprod.size()) { const auto& r = p.getGCONPROD().gconprod; eqn(c, r.size(), s.gprod.size(), "GCONPROD", "lines"); for (size_t k = 0; k < r.size(); ++k) { const auto& e = s.gprod[k]; eqs(c, r[k].group_, e.group_, "GCONPROD", "group"); eqs(c, r[k].control_mode_, e.control_mode_, "GCONPROD", "mode"); rate(c, r[k].oil_max_rate_, e.oil_max_rate_, lr, "GCONPROD", "oil rate"); rate(c, r[k].water_max_rate_, e.water_max_rate_, lr, "GCONPROD", "water rate"); rate(c, r[k].gas_max_rate_, e.gas_max_rate_, gr, "GCONPROD", "gas rate"); rate(c, r[k].liquid_max_rate_, e.liquid_max_rate_, lr, "GCONPROD", "liquid rate"); rate(c, r[k].resv_max_rate_, e.resv_max_rate_, rr, "GCONPROD", "reservoir rate"); eqs(c, r[k].procedure_, e.procedure_, "GCONPROD", "procedure"); } }
    if (s.grup.size()) { const auto& r = p.getWGRUPCON().wgrupcon; eqn(c, r.size(), s.grup.size(), "WGRUPCON", "lines"); for (size_t k = 0; k < r.size(); ++k) { const auto& e = s.grup[k]; eqs(c, r[k].well_, e.well_, "WGRUPCON", "well"); c.check(r[k].available_for_group_control_ == e.available_for_group_control_, "WGRUPCON", "availability"); eq(c, r[k].guide_rate_, e.guide_rate_, "WGRUPCON", "guide rate"); eqs(c, r[k].phase_, e.phase_, "WGRUPCON", "phase"); } }
    if (s.keys.count("TSTEP")) { const auto& r = p.getTSTEP().tstep_; eqn(c, r.size(), s.tstep.size(), "TSTEP", "steps"); for (size_t k = 0; k < r.size(); ++k) c.check(std::fabs(r[k] - s.tstep[k] * u.time) <= 1e-9 * u.time * (1 + std::fabs(s.tstep[k])), "TSTEP", "step %d is %.17g, expected %.17g", (int) k, r[k], s.tstep[k] * u.time); }
    static const char* all[] = { "WELSPECS", "COMPDAT", "WCONINJE", "WCONPROD", "WELTARG", "WELOPEN", "WPOLYMER", "GRUPTREE", "GCONINJE", "GCONPROD", "WGRUPCON", "TSTEP" };
    for (const char* k : all) c.check(p.hasField(k) == (s.keys.count(k) > 0), "presence", "%s reported present: %d", k, p.hasField(k));
}

// ------------------------------------------------------------------ the deck
struct Deck { std::vector<Item> items; std::vector<Sched> epochs; std::vector<std::string> sched; bool fieldUnits, metricKey; std::set<std::string> present; };

Deck genDeck(Gen& g, bool withSched)
{
    Deck d; const int u = g.i(0, 2); d.fieldUnits = u == 2; d.metricKey = u == 1;
    std::set<std::string> used; const int n = g.size(1, 8);
    for (int k = 0; k < n; ++k) {
        const int t = g.i(0, 5); Item it = t == 0 ? floatItem(g, g.i(0, nfkeys - 1)) : t == 1 ? intItem(g, g.i(0, nikeys - 1)) : miscItem(g, g.i(0, nmisc - 1));
        if (!used.insert(it.key).second) continue;
        d.items.push_back(it); d.present.insert(it.key);
    }
    if (withSched) {
        const int ne = g.i(1, 3); Sched s; long start = 0; double now = 0; bool havestart = g.b();
        boost::gregorian::date sd(1983, 1, 1);
        static const char* mon[] = { "JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC" };
        auto date = [&](const boost::gregorian::date& x, std::ostream& o) { std::string m = mon[x.month() - 1]; if (m == "JUL" && g.b()) m = "JLY"; const char* q = g.b() ? "'" : ""; o << int(x.day()) << " " << q << m << q << " " << int(x.year()) << " /\n"; };
        std::ostringstream o; (void) start;
        if (havestart) { sd = boost::gregorian::date(g.i(1950, 2050), g.i(1, 12), g.i(1, 28)); o << "START\n"; date(sd, o); const boost::gregorian::date x = sd; Item it; it.key = "START"; it.text = o.str(); it.check = [x](Ctx& c, EclipseGridParser& p, const Units&) { c.check(p.getSTART().date == x, "START", "start date differs"); }; d.items.push_back(it); d.present.insert("START"); }
        for (int e = 0; e < ne; ++e) {
            const int m = g.i(1, 3);
            for (int k = 0; k < m; ++k) { const int wi = g.i(0, 10); d.sched.push_back(schedItem(g, wi, s)); }
            const bool last = e == ne - 1; const int nt = last ? g.i(0, 2) : g.i(1, 2);
            for (int k = 0; k < nt; ++k) {
                W w(g);
                if (g.b()) { std::vector<double> v; const int q = g.i(1, 5); while ((int) v.size() < q) v.insert(v.end(), g.i(1, 3), g.b() ? g.i(1, 60) : g.real(0.1, 40)); w.key("TSTEP"); w.vec(v); for (double x : v) { s.tstep.push_back(x); now += x; } }
                else { w.o << "DATES\n"; const int q = g.i(1, 3); long day = (long) std::ceil(now); for (int r = 0; r < q; ++r) { day += g.i(1, 400); if (g.p(1, 6) && r) w.o << "-- comment\n"; date(sd + boost::gregorian::days(day), w.o); s.tstep.push_back(day - now); now = day; } w.o << "/\n"; }
                d.sched.push_back(w.o.str()); s.keys.insert("TSTEP");
            }
            d.epochs.push_back(s);
        }
    }
    return d;
}
// Writes the deck, possibly spread over include files; returns the main text.
std::string writeDeck(Gen& g, const Deck& d, const std::string& dir, bool includes, bool* used)
{
    std::ostringstream o; int nfile = 0; *used = false;
    if (d.fieldUnits) o << "FIELD\n"; if (d.metricKey) o << "METRIC\n";
    std::vector<int> order = g.perm((int) d.items.size());
    std::vector<int> o2; for (int k : order) if (d.items[k].key == "START") o2.insert(o2.begin(), k); else o2.push_back(k);
    for (int k : o2) {
        if (includes && g.p(1, 3)) {
            const std::string name = pbt::fmt("inc%d.txt", nfile++); { std::ofstream f((dir + "/" + name).c_str()); f << d.items[k].text; }
            if (g.p(1, 3)) { const std::string mid = pbt::fmt("mid%d.txt", nfile++); std::ofstream f((dir + "/" + mid).c_str()); f << "-- nested\nINCLUDE\n '" << name << "' /\n"; f.close(); o << "INCLUDE\n" << "'" << mid << "' /\n"; }
            else o << "INCLUDE\n" << (g.b() ? "  " : "") << "'" << name << "' /\n";
            *used = true;
        } else o << d.items[k].text;
    }
    // schedule: runs of keywords may come from include files
    for (size_t k = 0; k < d.sched.size(); ) {
        size_t m = 1; if (includes && g.p(1, 4)) {
            m = std::min<size_t>(g.i(1, 4), d.sched.size() - k); const std::string name = pbt::fmt("sched%d.inc", nfile++); std::ofstream f((dir + "/" + name).c_str()); for (size_t r = 0; r < m; ++r) f << d.sched[k + r]; f.close();
            o << "INCLUDE\n" << "'" << name << "' /\n"; *used = true;
        } else o << d.sched[k];
        k += m;
    }
    if (g.p(1, 3)) o << "END\n";
    std::string s = o.str(); if (g.p(1, 4) && !s.empty() && s[s.size() - 1] == '\n') s.resize(s.size() - 1);
    return s;
}

void roundtrip(Gen& g, Ctx& c)
{
    Deck d = genDeck(g, g.b()); const bool file = g.b(), si = g.p(3, 4); bool inc = false;
    const std::string dir = pbt::scratch(); const std::string text = writeDeck(g, d, dir, file, &inc);
    c.desc() << (file ? "[file] " : "[stream] ") << (si ? "SI\n" : "deck units\n") << text; if (inc) for (const Item& it : d.items) c.desc() << "\n[item] " << it.text;
    c.nontrivial(d.items.size() + d.sched.size() >= 2); c.label("includes", inc); c.label("schedule", !d.sched.empty()); c.label("several epochs", d.epochs.size() > 1); c.label("FIELD units", d.fieldUnits); c.label("no conversion", !si);
    EclipseGridParser p;
    if (file) { { std::ofstream f((dir + "/deck.data").c_str()); f << text; } p = EclipseGridParser(dir + "/deck.data", si); }
    else {
        if (g.p(1, 4)) { c.label("parser reused"); std::istringstream old("FIELD\nPORO\n 1 2 /\nXYZZY2\nWELSPECS\n 'A' 'B' 1 1 3 OIL /\n/\nTSTEP\n 1 2 /\n"); p.read(old, g.b()); }
        std::istringstream is(text); p.read(is, si);
    }
    const Units u = !si ? one() : d.fieldUnits ? field() : metric();
    const int ne = std::max<int>(1, (int) d.epochs.size()); eqn(c, p.numberOfEpochs(), ne, "epochs", "count");
    for (int e = 0; e < ne; ++e) {
        p.setCurrentEpoch(e);
        for (const Item& it : d.items) { c.check(p.hasField(it.key), "presence", "%s is in the deck but not reported", it.key.c_str()); it.check(c, p, u); }
        if (!d.epochs.empty()) verifySched(c, p, d.epochs[e], u);
        // nothing that was not written is reported, and asking for it fails
        for (int k = 0; k < nfkeys; ++k) if (!d.present.count(fkeys[k].k)) { c.check(!p.hasField(fkeys[k].k), "presence", "%s reported but not in the deck", fkeys[k].k); }
        for (int k = 0; k < nikeys; ++k) if (!d.present.count(ikeys[k])) { c.check(!p.hasField(ikeys[k]), "presence", "%s reported but not in the deck", ikeys[k]); }
        static const char* sp[] = { "SPECGRID", "FAULTS", "TITLE", "START", "DENSITY", "PVDG", "PVTO", "SWOF", "EQUIL", "ROCK", "XYZZY2" };
        for (const char* k : sp) if (!d.present.count(k)) c.check(!p.hasField(k), "presence", "%s reported but not in the deck", k);
        c.check(p.hasField("FIELD") == d.fieldUnits && p.hasField("METRIC") == d.metricKey, "presence", "unit keywords");
    }
    bool t1 = false, t2 = false, t3 = false;
    try { p.getFloatingPointValue("NOSUCH"); } catch (const std::exception&) { t1 = true; } try { p.getIntegerValue("NOSUCH"); } catch (const std::exception&) { t2 = true; } try { p.getSpecialValue("NOSUCH"); } catch (const std::exception&) { t3 = true; }
    c.check(t1 && t2 && t3, "absent", "asking for an absent field did not fail");
}

// ------------------------------------------------------------- bad decks
void reject(Gen& g, Ctx& c)
{
    const int kind = g.i(0, 7); std::string text, what; const std::string dir = pbt::scratch(); W pre(g);
    Deck d = genDeck(g, false); bool inc; text = writeDeck(g, d, dir, false, &inc); if (!text.empty() && text[text.size() - 1] != '\n') text += "\n";
    { size_t e = text.rfind("\nEND\n"); if (e != std::string::npos) text.resize(e + 1); }
    const bool isf = g.b(); const std::string key = isf ? fkeys[g.i(0, nfkeys - 1)].k : ikeys[g.i(0, nikeys - 1)];
    const int n = g.i(0, 8); std::ostringstream o; o << key << "\n"; for (int k = 0; k < n; ++k) o << g.i(0, 99) << " ";
    switch (kind) {
    case 0: what = "vector data end with the file"; text += o.str() + (g.b() ? "\n" : ""); break;
    case 1: what = "vector data run into the next keyword"; text += o.str() + "\nPORO\n 0.2 /\n"; break;
    case 2: { what = "a word among numbers"; static const char* bad[] = { "abc", "'x'", "1.5x7", "?", "*", "0.3.4e", "#" }; std::string b = bad[g.i(0, 6)]; text += o.str() + b + " 1 2 /\n"; break; }
    case 3: { what = "table data end with the file"; static const char* t[] = { "PVDO", "PVDG", "SWOF", "SGOF", "ROCKTAB", "PVTW", "ROCK", "PVTO", "PVTG", "PLYVISC", "TSTEP", "DENSITY", "EQUIL", "PVCDO" }; const int q = g.i(0, 13); std::ostringstream r; r << t[q] << "\n"; const int m = q == 11 ? 2 : q == 12 ? g.i(0, 8) : g.i(0, 9); for (int k = 0; k < m; ++k) r << g.i(1, 99) << " "; if ((q == 7 || q == 8) && g.b()) { text += r.str() + " 1 /\n"; break; } text += r.str(); break; }
    case 4: what = "an include file is missing"; text += "INCLUDE\n 'nosuch.inc' /\n"; break;
    case 7: { what = "unit system not supported"; const std::string u = g.b() ? "LAB\n" : "PVT-M\n"; if (g.b()) text = u + text; else text += u; break; }
    case 6: { what = "a list of records is not closed"; Sched dummy; const int wi = g.i(0, 10); std::string q = schedItem(g, wi, dummy); q.resize(q.size() - 2); if (g.b()) q.resize(q.size() - 1); text += q; break; }
    default: what = "no such file"; break;
    }
    c.desc() << what << "\n" << text; c.nontrivial(); c.label(what);
    bool thrown = false;
    try {
        if (kind == 5) { EclipseGridParser p(dir + "/nosuch.data", g.b()); }
        else if (g.b() || kind == 4) { { std::ofstream f((dir + "/bad.data").c_str()); f << text; } EclipseGridParser p(dir + "/bad.data", g.b()); }
        else { std::istringstream is(text); EclipseGridParser p; p.read(is, g.b()); }
    } catch (const std::exception&) { thrown = true; }
    c.check(thrown, "accepted", "accepted although %s", what.c_str());
}

// Mutated decks: any outcome but an exception or a normal return is a failure
// (crashes, sanitizer reports and hangs are caught by the engine).
void mutate(Gen& g, Ctx& c)
{
    Deck d = genDeck(g, g.b()); bool inc; std::string t = writeDeck(g, d, pbt::scratch(), false, &inc); const std::string orig = t;
    const int nm = g.i(1, 4);
    static const char* frag[] = { "/", "\n/\n", "1*", "3*", " 7*2.5 ", "'", "--", "-- x\n", "*", "-1", "1e400", "nan", "\n", " ", "PORO", "'W1'", "12345678901", "0", "\t", "//", "A", "." };
    for (int k = 0; k < nm; ++k) {
        if (t.empty()) break; const int len = (int) t.size();
        switch (g.i(0, 4)) {
        case 0: t.resize(g.i(0, len - 1)); break;                                              // truncate
        case 1: { const int a = g.i(0, len - 1); t.erase(a, g.i(1, 12)); break; }              // delete
        case 2: t.insert(g.i(0, len), frag[g.i(0, 21)]); break;                                // insert
        case 3: { const int a = g.i(0, len - 1), b = g.i(0, len - 1); t.insert(g.i(0, len), t.substr(a, std::min(40, std::abs(b - a)))); break; }   // copy a piece
        default: {                                                                             // drop or double a line
            const size_t a = t.find('\n', g.i(0, len - 1)); if (a == std::string::npos) break; const size_t b = t.find('\n', a + 1); const std::string ln = t.substr(a, b == std::string::npos ? b : b - a);
            if (g.b()) t.erase(a, ln.size()); else t.insert(a, ln); break; }
        }
    }
    // repeat counts of more than four digits would only measure the memory limit
    for (size_t k = 0, run = 0; k < t.size(); ++k) { if (isdigit((unsigned char) t[k])) ++run; else { if (t[k] == '*' && run > 4) t[k - run + 4] = ' ', t[k] = ' '; run = 0; } }
    for (size_t k = 0; k + 1 < t.size(); ++k) if ((t[k] == 'e' || t[k] == 'E') && k && isdigit((unsigned char) t[k - 1])) { size_t q = k; while (q < t.size() && !isspace((unsigned char) t[q]) && t[q] != '*') ++q; if (q < t.size() && t[q] == '*') t[q] = ' '; }
    c.desc() << t; c.nontrivial(t != orig);
    try { std::istringstream is(t); EclipseGridParser p; p.read(is, g.b()); c.label("accepted"); for (const std::string& k : p.fieldNames()) c.check(p.hasField(k), "presence", "%s listed but not present", k.c_str()); }
    catch (const pbt::Fail&) { throw; } catch (const std::exception&) { c.label("rejected"); }
}

} // namespace

pbt::Spec pbt::spec()
{
    return { "C07", "Round trip: 1-8 random keywords (37 float, 11 integer, 24 special, data-less/ignored/unknown) plus up to 3 schedule epochs of 11 well/group keywords with TSTEP/DATES, printed with random number formats, separators, repeat counts, defaults, comments, quotes, nested includes and units, then every field of every keyword compared in every epoch. Reject: decks with a missing terminator, a non-number, or a missing file. Mutate: random edits of valid decks must return or throw. Non-trivial: at least two keywords (round trip), changed text (mutate).",
        { "records give at least the items the parser reads positionally as strings; names contain no blanks", "repeat counts in mutated decks are at most four digits" },
        80000, 3000000, { { "roundtrip", 4, roundtrip }, { "reject", 2, reject }, { "mutate", 3, mutate } } };
}
