// C26: one explicit step of the minimal upwind transport solver, judged by phase-wise upwinding.
#include "transgen.hpp"
extern "C" {
#include <opm/core/transport/minimal/spu_explicit.h>
}

namespace {
struct Prob { Topo t; std::vector<double> d, g, src, mob, s0; double dt; bool balanced, zero; };
double amount(Gen& g, double u) { const int m = g.i(0, 5); return m == 0 ? 0.0 : m == 1 ? u * g.i(-2, 2) : m == 2 ? u * g.logreal(1e-6, 1) * (g.b() ? 1 : -1) : u * g.real(-1, 1); }
void gen(Gen& g, Prob& k, Ctx& c)
{
    k.t = genTopo(g, 30); const int nc = k.t.G.number_of_cells, nf = k.t.G.number_of_faces; if (!nf) throw pbt::Discard();
    const double u = g.pick(std::vector<double>{ 1, 1, 1e-6, 1e3 }); const int mode = g.i(0, 3);     // 1: no total flow, 2: no gravity
    k.d.assign(nf, 0.0); k.g.assign(nf, 0.0); k.src.assign(nc, 0.0);
    const double gu = u * g.logreal(0.01, 100);
    for (int f = 0; f < nf; ++f) { if (mode != 1) k.d[f] = amount(g, u); if (mode != 2) k.g[f] = amount(g, gu); }
    for (int i = 0; i < nc; ++i) k.src[i] = g.p(2, 3) ? 0.0 : amount(g, u);
    k.dt = g.logreal(1e-3, 10) / u; k.zero = mode == 1;
    c.desc() << k.t.str() << " flux " << show(k.d, 60) << " gravity " << show(k.g, 60) << " source " << show(k.src, 40) << " dt " << k.dt;
}
std::vector<double> step(Ctx& c, Prob& k)
{
    std::vector<double> s(k.s0.size(), 7.0), s0(k.s0), mob(k.mob), d(k.d), g(k.g), src(k.src);
    spu_explicit(&k.t.G, &s0[0], &s[0], &mob[0], &d[0], &g[0], &src[0], k.dt);
    c.check(s0 == k.s0 && mob == k.mob && d == k.d && g == k.g && src == k.src, "input", "an input array was changed");
    return s;
}
void judge(Ctx& c, const Prob& k, const std::vector<double>& s)
{
    const UnstructuredGrid& G = k.t.G; const int nc = G.number_of_cells; std::vector<LD> w(nc, 0), sz(nc, 0); LD put = 0, tot = 0, all = 0; bool counter = false;
    for (int i = 0; i < nc; ++i) { w[i] = k.src[i] > 0 ? (LD) k.src[i] : k.src[i] * (LD) k.mob[2 * i] / ((LD) k.mob[2 * i] + k.mob[2 * i + 1]); sz[i] = std::fabs(k.src[i]); put += w[i]; }
    for (int f = 0; f < G.number_of_faces; ++f) {
        const int a = G.face_cells[2 * f], b = G.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue;
        const LD q = phaseFlux(c, k.d[f], k.g[f], &k.mob[2 * a], &k.mob[2 * b]), z = std::fabs(k.d[f]) + std::fabs(k.g[f]) * (k.mob[2 * a] + k.mob[2 * b] + k.mob[2 * a + 1] + k.mob[2 * b + 1]);
        w[a] -= q; w[b] += q; sz[a] += z; sz[b] += z; counter = counter || (q * (k.d[f] - q) < 0);
    }
    for (int i = 0; i < nc; ++i) {
        const LD e = k.s0[i] + k.dt * w[i], al = 1e-14L * (1 + k.dt * sz[i]);
        c.check(std::fabs(s[i] - e) <= al, "update", "cell %d goes from %.17g to %.17g instead of %.17Lg", i, k.s0[i], s[i], e);
        tot += (LD) s[i] - k.s0[i]; all += 1 + k.dt * sz[i];
    }
    c.check(std::fabs(tot - k.dt * put) <= 1e-14L * all, "total", "the total changed by %Lg with %Lg put in", tot, k.dt * put);
    c.label("counter-current", counter); c.label("no total flow", k.zero); bool mv = false; for (int i = 0; i < nc; ++i) mv = mv || s[i] != k.s0[i]; c.nontrivial(mv && nc > 1);
}
// any mobilities
void formula(Gen& g, Ctx& c)
{
    Prob k; gen(g, k, c); const int nc = k.t.G.number_of_cells; k.mob.resize(2 * nc); k.s0.resize(nc);
    const int m = g.i(0, 2);
    for (int i = 0; i < nc; ++i) {
        k.s0[i] = g.b() ? g.real(0, 1) : g.i(0, 1);
        if (m == 0) { k.mob[2 * i] = k.s0[i]; k.mob[2 * i + 1] = 1 - k.s0[i]; }
        else for (int p = 0; p < 2; ++p) k.mob[2 * i + p] = g.p(1, 4) ? 0.0 : m == 1 ? g.i(1, 3) : g.logreal(1e-3, 1e3);
        if (k.mob[2 * i] + k.mob[2 * i + 1] == 0) k.mob[2 * i + g.i(0, 1)] = 1;
    }
    c.desc() << " mobilities " << show(k.mob, 60) << " s " << show(k.s0, 40);
    judge(c, k, step(c, k));
}
// physical mobilities and divergence-free flow: below the stability limit saturations stay in [0,1]; many steps
void bounds(Gen& g, Ctx& c)
{
    Prob k; k.t = genTopo(g, 30); const UnstructuredGrid& G = k.t.G; const int nc = G.number_of_cells, nf = G.number_of_faces; if (!nf) throw pbt::Discard();
    Flow w = genFlow(g, G, false); k.d = w.v; k.src = w.q; k.zero = false; k.g.assign(nf, 0.0); const int e0 = g.i(1, 3), e1 = g.i(1, 3); const double mu = g.logreal(0.1, 10);
    if (g.p(3, 4)) { const double gu = w.unit * g.logreal(0.1, 10); for (double& x : k.g) x = amount(g, gu); }
    k.s0.resize(nc); for (double& x : k.s0) x = g.b() ? g.i(0, 1) : g.real(0, 1);
    auto mob = [&](double s, int p) { s = std::min(1.0, std::max(0.0, s)); return p == 0 ? std::pow(s, e0) : std::pow(1 - s, e1) / mu; };
    double Lf = 0, Lm = 0; for (int i = 1; i <= 500; ++i) { const double s = i / 500.0, f = mob(s, 0) / (mob(s, 0) + mob(s, 1)), h = mob(1 - s, 1) / (mob(1 - s, 0) + mob(1 - s, 1)); Lf = std::max(Lf, std::max(f, h) / s); Lm = std::max(Lm, std::max(mob(s, 0), mob(1 - s, 1)) / s); }
    Lf *= 1.05; Lm *= 1.05;
    std::vector<double> C(nc, 0.0); for (int i = 0; i < nc; ++i) C[i] = std::max(0.0, -k.src[i]) * Lf;
    for (int f = 0; f < nf; ++f) for (int s = 0; s < 2; ++s) { const int a = G.face_cells[2 * f + s]; if (a < 0 || G.face_cells[2 * f + 1 - s] < 0) continue; C[a] += Lf * std::max(0.0, s ? -k.d[f] : k.d[f]) + Lm * std::fabs(k.g[f]); }
    const double cm = *std::max_element(C.begin(), C.end()); if (!(cm > 0)) throw pbt::Discard();
    k.dt = (g.b() ? 1.0 : g.real(0.05, 1)) / cm; k.balanced = true;
    c.desc() << k.t.str() << " flux " << show(k.d, 60) << " gravity " << show(k.g, 60) << " source " << show(k.src, 40) << " dt " << k.dt << " exponents " << e0 << " " << e1 << " mu " << mu << " s " << show(k.s0, 40);
    const int n = g.size(1, 10);
    for (int q = 0; q < n; ++q) {
        k.mob.resize(2 * nc); for (int i = 0; i < 2 * nc; ++i) k.mob[i] = mob(k.s0[i / 2], i % 2);
        const std::vector<double> s = step(c, k); judge(c, k, s);
        for (int i = 0; i < nc; ++i) c.check(s[i] >= -1e-13 && s[i] <= 1 + 1e-13, "bounds", "step %d moves cell %d from %.17g to %.17g", q, i, k.s0[i], s[i]);
        k.s0 = s; for (double& x : k.s0) x = std::min(1.0, std::max(0.0, x));
    }
}
}
pbt::Spec pbt::spec()
{
    return { "C26", "more than one cell and a saturation that changes",
             { "The routine takes no pore volumes: saturations advance as for unit pore volumes", "At least one phase is mobile in every cell", "Bounds are judged for divergence-free flow without boundary flow and steps below the stability limit of the scheme" },
             150000, 3000000, { { "formula", 3, formula }, { "bounds", 1, bounds } } };
}
