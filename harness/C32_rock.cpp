// C32: rock properties from decks and parameters; rock compressibility laws.
#include "cpgen.hpp"
#include <iostream>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/props/rock/RockBasic.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/props/rock/RockFromDeck.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>

namespace {
typedef long double LD;
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
const double mD = 9.869232667160130e-16;
std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
void read(Opm::EclipseGridParser& P, const std::string& s) { std::istringstream i(s); P.read(i); }

void deckRock(Gen& g, Ctx& c)
{
    GridPtr G; int dims[3]; std::ostringstream txt;
    if (g.p(1, 3)) { for (int& d : dims) d = g.i(1, 4); G.reset(create_grid_cart3d(dims[0], dims[1], dims[2])); txt << "cartesian " << dims[0] << "x" << dims[1] << "x" << dims[2]; }
    else { CpModel m = genCp(g); m.build(); grdecl d = m.decl(); G.reset(create_grid_cornerpoint(&d, 0.0)); if (!G || !G->number_of_cells) throw pbt::Discard(); for (int k = 0; k < 3; ++k) dims[k] = m.n[k]; txt << "corner point " << m.str(); }
    const int n = dims[0] * dims[1] * dims[2], nc = G->number_of_cells; const bool field = g.p(1, 3);
    static const char* nm[9] = { "PERMX", "PERMXY", "PERMXZ", "PERMYX", "PERMY", "PERMYZ", "PERMZX", "PERMZY", "PERMZ" };
    bool have[9]; const int mode = g.i(0, 3); for (int k = 0; k < 9; ++k) have[k] = mode == 0 ? (k % 4 == 0 && g.b()) : mode == 1 ? (k % 4 == 0 || g.p(1, 3)) : mode == 2 ? g.p(1, 2) : k % 4 == 0;
    if (mode == 0 && g.b()) { for (bool& h : have) h = false; have[4 * g.i(0, 2)] = true; }
    const bool poro = g.i(0, 4); std::vector<std::vector<double> > v(10); std::vector<int> order; for (int k = 0; k < 9; ++k) if (have[k]) order.push_back(k); if (poro) order.push_back(9);
    { std::vector<int> p = g.perm(order.size()), q(order); for (size_t k = 0; k < p.size(); ++k) order[k] = q[p[k]]; }
    std::ostringstream o; o << (field ? "FIELD\n" : "METRIC\n") << "DIMENS\n " << dims[0] << ' ' << dims[1] << ' ' << dims[2] << " /\n";
    // one field may have too few values for the cells of the grid
    int last = 0; for (int q = 0; q < nc; ++q) last = std::max(last, G->global_cell ? G->global_cell[q] : q);
    const int cut = !order.empty() && g.p(1, 12) ? g.pick(order) : -1, cutTo = cut >= 0 ? g.b() ? last : g.i(0, last) : 0; c.label("too few values", cut >= 0);
    std::vector<int> given; for (int k : order) { const int full = n; const int n = k == cut ? cutTo : full; // distinct values tell the cells apart
        const bool direct = k == 2 || k == 3 || k == 7 || g.p(1, 8); std::ostringstream sink, &w = direct ? sink : o; // not keywords of the reader
        w << (k == 9 ? "PORO" : nm[k]) << '\n'; const double base = k == 9 ? 0 : g.i(0, 5) * 10; for (int i = 0; i < n;) { double x = k == 9 ? g.i(0, 1000) / 1000.0 : base + g.i(0, 1000) * (g.b() ? 0.5 : 0.125) - (k % 4 && g.b() ? 300 : 0); int rep = g.p(1, 8) ? std::min(n - i, g.i(2, 6)) : 1; if (rep > 1) w << rep << '*'; w << num(x) << (g.p(1, 6) ? "\n" : " "); for (int r = 0; r < rep; ++r) v[k].push_back(x); i += rep; } w << "/\n"; if (direct) given.push_back(k);
    }
    c.desc() << txt.str() << '\n' << o.str(); Quiet quiet; Opm::EclipseGridParser P; read(P, o.str()); for (int k : given) { std::vector<double> x(v[k]); if (k < 9) for (double& y : x) y *= mD; P.setFloatingPointField(k == 9 ? "PORO" : nm[k], x); c.desc() << (k == 9 ? "PORO" : nm[k]) << " set to " << show(v[k]) << '\n'; }
    // a component off the diagonal needs both diagonal entries
    bool ok = true, any = false; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { any = any || have[3 * i + j]; if (i != j && have[3 * i + j]) ok = ok && have[4 * i] && have[4 * j]; } if (cut >= 0) ok = false;
    Opm::RockFromDeck R; bool thrown = false;
    if (g.p(1, 4)) { // the object held the rock of another deck before
        c.label("initialised anew"); GridPtr H(create_grid_cart3d(g.i(1, 3), g.i(1, 3), g.i(1, 4))); const int m = H->number_of_cells; Opm::EclipseGridParser Q; Q.setFloatingPointField("PORO", std::vector<double>(m, 0.77)); Q.setFloatingPointField("PERMX", std::vector<double>(m, 3e-13)); if (g.b()) { Q.setFloatingPointField("PERMY", std::vector<double>(m, 4e-13)); Q.setFloatingPointField("PERMXY", std::vector<double>(m, 5e-14)); } R.init(Q, *H);
    }
    try { R.init(P, *G); } catch (const std::exception&) { thrown = true; }
    c.check(thrown == !ok, "admissible", "%s component set was %s", ok ? "admissible" : "inadmissible", thrown ? "rejected" : "accepted"); c.label("rejected", thrown); if (thrown) return;
    c.check(R.numDimensions() == 3 && R.numCells() == nc, "size", "%d cells in %d dimensions instead of %d", R.numCells(), R.numDimensions(), nc); c.nontrivial(any && poro && n > 1); c.label("inactive cells", nc < n); c.label("tensor", mode == 1 || mode == 2);
    for (int q = 0; q < nc; ++q) {
        const int gc = G->global_cell ? G->global_cell[q] : q; c.check(gc >= 0 && gc < n, "cell", "global cell %d", gc);
        c.check(R.porosity()[q] == (poro ? v[9][gc] : 1.0), "porosity", "cell %d (global %d) has porosity %.17g instead of %.17g", q, gc, R.porosity()[q], poro ? v[9][gc] : 1.0);
        const double* K = R.permeability() + 9 * q; auto is = [&](double a, double b) { return std::fabs(a - b * mD) <= 1e-13 * std::fabs(b * mD); };
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            const int a = 3 * i + j, b = 3 * j + i; c.check(K[a] == K[b], "symmetric", "cell %d: K(%d,%d) = %g, K(%d,%d) = %g", q, i, j, K[a], j, i, K[b]);
            if (i == j) {
                if (have[a]) c.check(is(K[a], v[a][gc]), "diagonal", "cell %d (global %d): K(%d,%d) = %.17g instead of %.17g mD", q, gc, i, i, K[a], v[a][gc]);
                else { bool f = !any; for (int s = 0; s < 3; ++s) if (have[4 * s]) f = f || is(K[a], v[4 * s][gc]); if (!any) f = K[a] == 0; c.check(f, "missing", "cell %d: K(%d,%d) = %.17g is not that of another direction", q, i, i, K[a]); }
            } else if (have[a] || have[b]) c.check((have[a] && is(K[a], v[a][gc])) || (have[b] && is(K[a], v[b][gc])), "cross", "cell %d (global %d): K(%d,%d) = %.17g", q, gc, i, j, K[a]);
            else c.check(K[a] == 0, "cross", "cell %d: K(%d,%d) = %.17g instead of zero", q, i, j, K[a]);
        }
        // missing directions: the only given one, or the first given one in cyclic order of the documented copies
        int given = 0, only = -1; for (int s = 0; s < 3; ++s) if (have[4 * s]) { ++given; only = s; }
        if (given == 1) for (int s = 0; s < 3; ++s) c.check(is(K[4 * s], v[4 * only][gc]), "isotropic", "cell %d: K(%d,%d) = %.17g, the only given component is %.17g mD", q, s, s, K[4 * s], v[4 * only][gc]);
        if (given == 2) { const int first = have[0] ? 0 : 4; for (int s = 0; s < 3; ++s) if (!have[4 * s]) c.check(is(K[4 * s], v[first][gc]), "missing", "cell %d: K(%d,%d) = %.17g should copy %s = %.17g mD", q, s, s, K[4 * s], nm[first], v[first][gc]); }
    }
}

void basic(Gen& g, Ctx& c)
{
    const int d = g.i(2, 3), n = g.size(1, 40); const double poro = g.real(0, 1), perm = g.logreal(1e-18, 1e-9); Opm::RockBasic R; R.init(g.i(2, 3), g.i(1, 9), 0.5, 1.0); R.init(d, n, poro, perm); c.desc() << d << "D, " << n << " cells"; c.nontrivial(n > 1);
    c.check(R.numDimensions() == d && R.numCells() == n, "size", "%d cells in %d dimensions", R.numCells(), R.numDimensions());
    for (int q = 0; q < n; ++q) { c.check(R.porosity()[q] == poro, "porosity", "cell %d: porosity %g", q, R.porosity()[q]); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) c.check(R.permeability()[d * d * q + d * i + j] == (i == j ? perm : 0.0), "permeability", "cell %d: K(%d,%d) = %g", q, i, j, R.permeability()[d * d * q + d * i + j]); }
}

void law(Gen& g, Ctx& c)
{
    std::unique_ptr<Opm::RockCompressibility> R; std::vector<double> p, m; double pref = 0, cr = 0; const int kind = g.i(0, 4); const bool field = g.b(); const double bar = 1e5, psi = 0.45359237 * 9.80665 / (0.0254 * 0.0254), up = field ? psi : bar; Quiet quiet; std::ostringstream o;
    if (kind <= 1) { // parameters
        Opm::parameter::ParameterGroup q; q.disableOutput(); pref = 100 * bar; if (g.b()) { const double x = g.real(0, 500); q.insertParameter("rock_compressibility_pref", num(x)); pref = x * bar; o << "pref " << x; } if (g.i(0, 4)) { const double x = g.b() ? g.logreal(1e-7, 1e-2) : 0.0; q.insertParameter("rock_compressibility", num(x)); cr = x / bar; o << " c " << x; } R.reset(new Opm::RockCompressibility(q));
    } else {
        o << (field ? "FIELD\n" : "METRIC\n"); bool tab = kind == 3 || kind == 4;
        if (kind == 2 || g.p(1, 5)) { double a = g.real(0, 500), b = g.b() ? g.logreal(1e-7, 1e-2) : 0.0; o << "ROCK\n " << num(a) << ' ' << num(b) << " /\n"; if (g.p(1, 3)) o << " 1 1e-3 /\n"; pref = a * up; cr = b / up; }
        if (tab) { const int n = g.i(2, 8), q = g.i(1, 2); o << "ROCKTAB\n"; for (int t = 0; t < q; ++t) { double x = g.real(0, 100), y = g.real(0.5, 1); for (int k = 0; k < n; ++k) { o << ' ' << num(x) << ' ' << num(y) << ' ' << num(g.real(0.5, 1.5)) << (k + 1 < n ? "\n" : " /\n"); if (!t) { p.push_back(x * up); m.push_back(y); } x += g.p(1, 4) ? g.i(1, 100) : g.real(0.5, 200); y += g.p(1, 5) ? 0 : g.real(0, 0.05); } } }
        o << "DENSITY\n 1 1 1 /\n"; Opm::EclipseGridParser P; read(P, o.str()); R.reset(new Opm::RockCompressibility(P));
    }
    c.desc() << o.str(); c.check(R->isActive() == (!p.empty() || cr != 0), "active", "isActive() is %d", R->isActive()); c.nontrivial(R->isActive()); c.label("table", !p.empty());
    for (int t = 0; t < 12; ++t) {
        LD mult, der; double x; bool kink = false; LD dl = 0, dr = 0;
        if (p.empty()) { x = g.p(1, 5) ? pref : g.b() ? g.real(0, 600) * bar : pref + g.real(-1, 1) / std::max(cr, 1e-12) * 0.5; const LD u = (LD) cr * ((LD) x - pref); mult = 1 + u + u * u / 2; der = cr * (1 + u) / mult; }
        else {
            const int n = p.size(); x = g.p(1, 3) ? p[g.i(0, n - 1)] : g.p(1, 6) ? p[0] - g.real(0, 0.2) * (p[1] - p[0]) : g.p(1, 6) ? p[n - 1] + g.real(0, 1) * (p[n - 1] - p[n - 2]) : g.real(p[0], p[n - 1]);
            int k = 0; while (k + 2 < n && x > p[k + 1]) ++k; auto slope = [&](int i) { return ((LD) m[i + 1] - m[i]) / ((LD) p[i + 1] - p[i]); }; dl = dr = slope(k); mult = m[k] + dl * ((LD) x - p[k]); if (x == p[k + 1] && k + 2 < n) { dr = slope(k + 1); kink = true; }
            for (int i = 0; i < n; ++i) if (std::fabs(x - p[i]) < 1e-9 * p[n - 1] && i && i + 1 < n) { kink = true; dl = slope(i - 1); dr = slope(i); }
            der = dl / mult; dl /= mult; dr /= mult;
        }
        const double a = R->poroMult(x), b = R->rockComp(x); const LD msc = 1 + std::fabs(mult) + (p.empty() ? std::fabs((LD) cr * x) + std::fabs((LD) cr * pref) : 1); c.check(std::fabs(a - mult) <= 1e-13L * msc, "multiplier", "multiplier at %.17g is %.17g instead of %.17Lg", x, a, mult);
        if (p.empty()) { /* the law's stated constant compressibility; the derivative up to second order in c*dp */ c.check(std::fabs(b - cr) <= 1e-12 * cr || std::fabs(b - der) <= 1e-10L * cr, "compressibility", "compressibility at %.17g is %.17g; stated %.17g", x, b, cr); continue; }
        const LD ds = std::max(std::fabs(der), p.empty() ? (LD) cr : std::max(std::fabs(dl), std::fabs(dr))) * 1e-10L + (p.empty() ? 0 : 1e-12L / (p[p.size() - 1] - p[0])); c.check(std::fabs(b - der) <= ds || (kink && (std::fabs(b - dl) <= ds || std::fabs(b - dr) <= ds)), "compressibility", "compressibility at %.17g is %.17g; the multiplier's relative derivative is %.17Lg", x, b, der);
    }
}
}
pbt::Spec pbt::spec()
{
    return { "C32", "deckRock: PORO and any subset of the nine PERM components in any order, with repeat counts, METRIC or FIELD, on Cartesian and corner-point grids with inactive and collapsed cells; every cell's tensor and porosity compared with the deck entry of its logical index, symmetry, filled-in components, rejection of cross terms without their diagonal and of fields with too few values. basic: homogeneous rock. law: multiplier and compressibility of the quadratic law and of ROCKTAB tables (inside, at entries, extrapolated) against closed forms. Non-trivial: a permeability and porosity on more than one cell; an active law.",
             { "cross components given twice (PERMXY and PERMYX) may resolve to either, symmetrically", "missing diagonal components copy the first given one (PERMX before PERMY)", "absent porosity is one", "the quadratic law reports its constant compressibility, the multiplier's relative derivative up to second order in c*(p-pref)" },
             150000, 3000000, { { "deck", 4, deckRock }, { "basic", 1, basic }, { "law", 4, law } } };
}
