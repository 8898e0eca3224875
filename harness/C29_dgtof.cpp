// C29: discontinuous Galerkin time of flight: bases, weak form of every cell, limiters, exact solutions.
#include "transgen.hpp"
#include <iostream>
#include <opm/core/grid/CellQuadrature.hpp>
#include <opm/core/grid/FaceQuadrature.hpp>
#include <opm/core/tof/DGBasis.hpp>
#include <opm/core/tof/TofDiscGalReorder.hpp>
#include <opm/core/tof/TofReorder.hpp>
#include <opm/core/utility/VelocityInterpolation.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>

namespace {
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
typedef std::unique_ptr<Opm::DGBasisInterface> BasisPtr;
BasisPtr mk(const UnstructuredGrid& G, bool tensor, int deg) { if (tensor) return BasisPtr(new Opm::DGBasisMultilin(G, deg)); return BasisPtr(new Opm::DGBasisBoundedTotalDegree(G, deg)); }
int dimOf(int d, bool tensor, int deg) { return deg == 0 ? 1 : tensor ? 1 << d : d + 1; }
// the average of the reported increment of multilinear functions is off by the number of functions (known finding)
void basisCase(Gen& g, Ctx& c, bool strict)
{
    AnyGrid a = genGrid(g, 7, 20); const UnstructuredGrid& G = *a.G; const int d = G.dimensions; const bool tensor = g.b(); const int deg = g.i(0, 4) ? 1 : 0; BasisPtr B = mk(G, tensor, deg); const int nb = B->numBasisFunc(), cell = g.i(0, G.number_of_cells - 1);
    c.desc() << a.text << (tensor ? " multilinear" : " total") << " degree " << deg << " cell " << cell; c.nontrivial(deg == 1); c.label(tensor ? "multilinear" : "total degree");
    c.check(nb == dimOf(d, tensor, deg) && B->degree() == deg && B->dimensions() == d, "dimension", "%d functions of degree %d in %d dimensions", nb, B->degree(), B->dimensions());
    const double* cc = G.cell_centroids + d * cell; double ref = 0; for (int q = 0; q < d; ++q) ref = std::max(ref, std::fabs(cc[q])); const double L = g.b() ? 1.0 : std::pow(G.cell_volumes[cell], 1.0 / d);
    auto point = [&]() { std::vector<double> x(d); for (int q = 0; q < d; ++q) x[q] = cc[q] + L * (g.b() ? g.real(-1, 1) : g.i(-2, 2) * 0.5); return x; };
    auto val = [&](const std::vector<double>& x) { std::vector<double> v(nb, 77.0); B->eval(cell, &x[0], &v[0]); return v; };
    const double M = std::pow(1 + L, d), eps = 1e-14 * (1 + ref / L) * M * 4;
    // gradients: difference quotients are exact along the axes for functions that are linear there
    const std::vector<double> x = point(); const std::vector<double> v = val(x); std::vector<double> gr(nb * d, 77.0); B->evalGrad(cell, &x[0], &gr[0]);
    for (int q = 0; q < d; ++q) {
        std::vector<double> lo(x), hi(x); lo[q] -= L; hi[q] += L; const std::vector<double> a0 = val(lo), a1 = val(hi); const double h = (hi[q] - lo[q]);
        for (int i = 0; i < nb; ++i) { const double e = (a1[i] - a0[i]) / h; c.check(std::fabs(e - gr[i * d + q]) <= eps * 4 / L * (1 + std::pow(1 + 2 * L, d)), "gradient", "function %d, direction %d: gradient %.17g, difference quotient %.17g", i, q, gr[i * d + q], e); c.check(std::fabs(a0[i] + a1[i] - 2 * v[i]) <= eps * 8 * std::pow(2, d), "linear", "function %d is not linear along axis %d", i, q); }
    }
    if (!tensor) { const std::vector<double> y = point(); std::vector<double> m(d); for (int q = 0; q < d; ++q) m[q] = 0.5 * (x[q] + y[q]); const std::vector<double> vy = val(y), vm = val(m); for (int i = 0; i < nb; ++i) c.check(std::fabs(vy[i] + v[i] - 2 * vm[i]) <= eps * 8, "total-degree", "function %d is not linear", i); }
    // independent functions; constants are in the span
    { std::vector<LD> A((size_t) nb * nb), one(nb, 1), sol; for (int r = 0; r < nb; ++r) { std::vector<double> y(d); for (int q = 0; q < d; ++q) y[q] = cc[q] + L * (nb == 1 << d ? ((r >> q & 1) ? 1 : -1) : r == q + 1 ? 1 : 0); const std::vector<double> vy = val(y); for (int i = 0; i < nb; ++i) A[r * nb + i] = vy[i]; } c.check(luSolve(A, one, sol), "span", "the functions are dependent");
      LD s = 0; for (int i = 0; i < nb; ++i) s += sol[i] * v[i]; c.check(std::fabs(s - 1) <= 1e-9L * (1 + ref / L) * std::pow(1 + 1 / L, d) * M, "span", "constants are not in the span: %Lg", s); }
    // coefficients
    std::vector<double> k(nb); for (double& t : k) t = g.b() ? g.i(-3, 3) : g.real(-3, 3); const double ks = 3.0 * nb * M * 4;
    auto f = [&](const std::vector<double>& q, const std::vector<double>& w) { LD s = 0; const std::vector<double> z = val(q); for (int i = 0; i < nb; ++i) s += (LD) z[i] * w[i]; return s; };
    c.check(std::fabs(B->evalFunc(cell, &k[0], &x[0]) - f(x, k)) <= 1e-14L * ks, "evalFunc", "value %.17g instead of %.17Lg", B->evalFunc(cell, &k[0], &x[0]), f(x, k));
    const std::vector<double> mid(cc, cc + d); LD avg = f(mid, k); c.check(std::fabs(B->functionAverage(&k[0]) - avg) <= 1e-13L * ks, "average", "average %.17g instead of %.17Lg", B->functionAverage(&k[0]), avg);
    const double inc = g.b() ? g.i(-4, 4) : g.real(-4, 4), fac = g.b() ? g.i(-1, 2) : g.real(0, 1); std::vector<double> ka(k), km(k); B->addConstant(inc, &ka[0]); B->multiplyGradient(fac, &km[0]); const double scale = strict || !tensor || deg == 0 ? 1 : f(mid, ka) - f(mid, k) < inc / 2 == inc > 0 ? 1.0 / nb : 1;
    for (int t = 0; t < 3; ++t) {
        const std::vector<double> y = t ? point() : x; const LD b = f(y, k), e1 = b + scale * inc, e2 = avg + fac * (b - avg);
        c.check(std::fabs(f(y, ka) - e1) <= 1e-13L * ks, "addConstant", "adding %g changes the value %Lg to %Lg", inc, b, f(y, ka)); c.check(std::fabs(f(y, km) - e2) <= 1e-13L * ks * 2, "multiplyGradient", "scaling the gradient by %g gives %.17Lg instead of %.17Lg", fac, f(y, km), e2);
    }
}
void basis(Gen& g, Ctx& c) { basisCase(g, c, false); }
void known_addconstant(Gen& g, Ctx& c) { basisCase(g, c, true); }

struct Limit { bool on = false, face = false; int usage = 0; double thr = 1e-3; };
struct Prob { AnyGrid a; Flow w; std::vector<double> pv; bool tensor, cvi; int deg; Limit l; };
struct Conn { int face, other; double out; };
std::vector<std::vector<Conn> > conns(const UnstructuredGrid& G, const std::vector<double>& v)
{
    std::vector<std::vector<Conn> > r(G.number_of_cells);
    for (int c = 0; c < G.number_of_cells; ++c) for (int h = G.cell_facepos[c]; h < G.cell_facepos[c + 1]; ++h) { const int f = G.cell_faces[h]; const bool a = G.face_cells[2 * f] == c; r[c].push_back({ f, G.face_cells[2 * f + (a ? 1 : 0)], a ? v[f] : -v[f] }); }
    return r;
}
std::vector<char> inLoop(const std::vector<std::vector<Conn> >& q)
{
    const int n = q.size(); std::vector<char> r(n, 0); for (int s = 0; s < n; ++s) { std::vector<char> seen(n, 0); std::vector<int> st(1, s); while (!st.empty()) { const int a = st.back(); st.pop_back(); for (const Conn& k : q[a]) if (k.other >= 0 && k.out > 0 && !seen[k.other]) { seen[k.other] = 1; st.push_back(k.other); } } r[s] = seen[s]; }
    return r;
}
struct Cell { std::vector<LD> J, b, aJ, ab; };        // row i: test function i; aJ, ab: sums of magnitudes
Cell weak(const Prob& k, const Opm::DGBasisInterface& B, const Opm::VelocityInterpolationInterface& V, const std::vector<Conn>& q, int cell, const std::vector<double>& tof)
{
    const UnstructuredGrid& G = *k.a.G; const int d = G.dimensions, nb = B.numBasisFunc(), deg = k.deg; Cell r; r.J.assign(nb * nb, 0); r.aJ = r.J; r.b.assign(nb, 0); r.ab = r.b;
    std::vector<double> x(d), v(nb), u(nb), gr(nb * d), vel(d); const double vol = G.cell_volumes[cell];
    { Opm::CellQuadrature Q(G, cell, deg); for (int p = 0; p < Q.numQuadPts(); ++p) { Q.quadPtCoord(p, &x[0]); B.eval(cell, &x[0], &v[0]); for (int i = 0; i < nb; ++i) { const LD t = (LD) Q.quadPtWeight(p) * v[i] * k.pv[cell] / vol; r.b[i] += t; r.ab[i] += std::fabs(t); } } }
    { Opm::CellQuadrature Q(G, cell, 2 * deg); for (int p = 0; p < Q.numQuadPts(); ++p) { Q.quadPtCoord(p, &x[0]); B.eval(cell, &x[0], &v[0]); B.evalGrad(cell, &x[0], &gr[0]); V.interpolate(cell, &x[0], &vel[0]); const LD w = Q.quadPtWeight(p), s = k.w.q[cell] < 0 ? -k.w.q[cell] / vol : 0; for (int i = 0; i < nb; ++i) for (int j = 0; j < nb; ++j) { LD t = s * w * v[i] * v[j]; r.aJ[i * nb + j] += std::fabs(t); for (int e = 0; e < d; ++e) { const LD z = w * v[j] * gr[d * i + e] * vel[e]; t -= z; r.aJ[i * nb + j] += std::fabs(z); } r.J[i * nb + j] += t; } } }
    for (const Conn& n : q) {
        if (n.out == 0 || (n.out < 0 && n.other < 0)) continue; const LD vn = n.out / G.face_areas[n.face]; Opm::FaceQuadrature Q(G, n.face, 2 * deg);
        for (int p = 0; p < Q.numQuadPts(); ++p) {
            Q.quadPtCoord(p, &x[0]); B.eval(cell, &x[0], &v[0]); const LD w = Q.quadPtWeight(p) * vn;
            if (n.out > 0) { for (int i = 0; i < nb; ++i) for (int j = 0; j < nb; ++j) { r.J[i * nb + j] += w * v[i] * v[j]; r.aJ[i * nb + j] += std::fabs(w * v[i] * v[j]); } }
            else { B.eval(n.other, &x[0], &u[0]); LD t = 0, at = 0; for (int j = 0; j < nb; ++j) { t += (LD) u[j] * tof[nb * n.other + j]; at += std::fabs((LD) u[j] * tof[nb * n.other + j]); } for (int i = 0; i < nb; ++i) { r.b[i] -= w * t * v[i]; r.ab[i] += std::fabs(w * at * v[i]); } }
        }
    }
    return r;
}
LD corner(const Prob& k, const Opm::DGBasisInterface& B, int cell, int face, const LD* u) { const UnstructuredGrid& G = *k.a.G; const int nb = B.numBasisFunc(); LD m = 1e100L; std::vector<double> v(nb); for (int n = G.face_nodepos[face]; n < G.face_nodepos[face + 1]; ++n) { B.eval(cell, G.node_coordinates + G.dimensions * G.face_nodes[n], &v[0]); LD s = 0; for (int i = 0; i < nb; ++i) s += v[i] * u[i]; m = std::min(m, s); } return m; }
LD average(const Prob& k, const LD* u, int nb) { if (!k.tensor) return u[0]; LD s = 0; for (int i = 0; i < nb; ++i) s += u[i]; return s / nb; }
// Limits u in one cell; 'up' are the coefficients of the upstream cells; flat: how the average was changed (0: not)
struct Lim { std::vector<LD> u; LD M; bool some, lifted; LD lift, fac; };
Lim limit(const Prob& k, const Opm::DGBasisInterface& B, const std::vector<Conn>& q, int cell, const std::vector<LD>& u, const std::vector<double>& up)
{
    const int nb = B.numBasisFunc(); Lim r; r.u = u; r.lifted = false; r.some = false; r.lift = 0; r.fac = 1; LD here = 1e100L; r.M = 1e100L; double in = 0, out = 0; for (const Conn& n : q) { if (n.out < 0) in -= n.out; else out += n.out; }
    for (const Conn& n : q) {
        here = std::min(here, corner(k, B, cell, n.face, &u[0])); if (!(n.out < -std::max(in, out) * k.l.thr)) continue; r.some = true; LD m = 0;
        if (n.other >= 0) { std::vector<LD> w(up.begin() + nb * n.other, up.begin() + nb * (n.other + 1)); m = k.l.face ? corner(k, B, n.other, n.face, &w[0]) : average(k, &w[0], nb); }
        r.M = std::min(r.M, m);
    }
    if (!r.some) here = r.M = 0;      // no upstream face counts: only a negative average is repaired
    r.M = std::max(r.M, (LD) 0); const LD av = average(k, &u[0], nb); LD f = 1;
    if (av < r.M) { f = 0; r.lifted = true; r.lift = r.M - av; } else if (r.some && here < r.M) f = (av - r.M) / (av - here);
    r.fac = f; for (int i = 0; i < nb; ++i) r.u[i] = k.tensor ? av + f * (u[i] - av) : i ? f * u[i] : u[i];
    return r;
}
std::vector<double> run(const Prob& k, bool limiter, bool again = false)
{
    Opm::parameter::ParameterGroup p; p.disableOutput(); p.insertParameter("dg_degree", pbt::fmt("%d", k.deg)); p.insertParameter("use_tensorial_basis", k.tensor ? "true" : "false"); p.insertParameter("use_cvi", k.cvi ? "true" : "false");
    if (limiter) { p.insertParameter("use_limiter", "true"); p.insertParameter("limiter_method", k.l.face ? "MinUpwindFace" : "MinUpwindAverage"); p.insertParameter("limiter_usage", k.l.usage == 0 ? "DuringComputations" : k.l.usage == 1 ? "AsPostProcess" : "AsSimultaneousPostProcess"); p.insertParameter("limiter_relative_flux_threshold", pbt::fmt("%.17g", k.l.thr)); }
    std::vector<double> t; Opm::TofDiscGalReorder S(*k.a.G, p); if (again) { S.solveTof(&k.w.v[0], &k.pv[0], &k.w.q[0], t); for (double& x : t) x = 7 - 3 * x; } S.solveTof(&k.w.v[0], &k.pv[0], &k.w.q[0], t); return t;
}
void solve(Gen& g, Ctx& c)
{
    Prob k; k.tensor = g.p(1, 3); k.cvi = g.p(1, 4); if (k.tensor || k.cvi) { CartSpec s = genCart(g, 25, 0, false, k.tensor ? 0 : g.p(1, 4)); k.a.G = makeCart(s); k.a.text = s.str(); } else k.a = genGrid(g, 7, 25); const UnstructuredGrid& G = *k.a.G; const int d = G.dimensions, nc = G.number_of_cells; k.deg = g.p(1, 4) ? 0 : 1; k.w = genFlow(g, G); genPorevol(g, nc, k.pv); if (g.b()) for (int i = 0; i < nc; ++i) k.pv[i] = 0.3 * G.cell_volumes[i];
    k.l.on = k.deg == 1 && g.b(); if (k.l.on) { k.l.face = g.b(); k.l.usage = g.i(0, 2); k.l.thr = g.b() ? 1e-3 : 0.15; }
    c.desc() << k.a.text << (k.tensor ? " multilinear" : " total") << " degree " << k.deg << (k.cvi ? " cvi" : "") << " flux " << show(k.w.v, 80) << " source " << show(k.w.q, 40) << " pv " << show(k.pv, 40); if (k.l.on) c.desc() << " limiter " << (k.l.face ? "face" : "average") << " usage " << k.l.usage << " threshold " << k.l.thr;
    for (int f = 0; f < G.number_of_faces; ++f) if (k.w.v[f] != 0 && !(G.face_areas[f] > 1e-9)) throw pbt::Discard();
    LD ref = 0; for (int i = 0; i < nc; ++i) { if (!(G.cell_volumes[i] > 1e-9)) throw pbt::Discard(); const double h = std::pow(G.cell_volumes[i], 1.0 / d); for (int q = 0; q < d; ++q) ref = std::max(ref, (LD) std::fabs(G.cell_centroids[d * i + q]) / h); } if (ref > 1e4) throw pbt::Discard();
    BasisPtr B = mk(G, k.tensor, k.deg); const int nb = B->numBasisFunc(); std::unique_ptr<Opm::VelocityInterpolationInterface> V; if (k.cvi) V.reset(new Opm::VelocityInterpolationECVI(G)); else V.reset(new Opm::VelocityInterpolationConstant(G)); V->setupFluxes(&k.w.v[0]);
    const auto q = conns(G, k.w.v); const std::vector<char> loop = inLoop(q); bool any = false; for (double x : k.w.v) any = any || x != 0;
    // cells without flow have no solution: the solver reports an error
    bool stagnant = false; for (int i = 0; i < nc; ++i) { double out = std::max(0.0, -k.w.q[i]); for (const Conn& n : q[i]) out += std::max(0.0, n.out); stagnant = stagnant || out == 0; }
    const std::vector<double> v0(k.w.v), p0(k.pv), q0(k.w.q); std::vector<double> t, t0;
    try { Quiet z; t0 = run(k, false); } catch (const std::exception&) { c.label("no solution"); if (stagnant) { c.label("stagnant"); throw pbt::Discard(); } }
    // (nor has a cell of degree 1 whose own equations happen to be singular, as those of a sink with all flow inwards on a skewed cell can be)
    bool singular = false; if (t0.empty()) { const std::vector<double> zero(nb * nc, 0.0); for (int i = 0; i < nc && !singular; ++i) { const Cell w = weak(k, *B, *V, q[i], i, zero); LD s = 0; for (LD x : w.aJ) s = std::max(s, x); for (int r = 0; r < nb && !singular; ++r) { std::vector<LD> one(nb, 0), du; one[r] = s; if (!luSolve(w.J, one, du)) singular = true; else for (LD x : du) singular = singular || !(std::fabs(x) < 1e10L * (1 + ref)); } } if (singular) { c.label("singular cell"); throw pbt::Discard(); } }
    c.check(stagnant || !t0.empty(), "no-solution", "no solution though every cell is left by the flow");
    if (t0.empty() || stagnant) throw pbt::Discard();
    if (g.p(1, 3)) { // the same solver object, with what is left of an earlier answer in the output array
        std::vector<double> a, b(t0); { Quiet z; if (k.l.on) b = run(k, true); a = run(k, k.l.on, true); } c.check(a.size() == b.size(), "again", "%zu coefficients, %zu when solved again", b.size(), a.size());
        for (size_t i = 0; i < a.size(); ++i) c.check(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]), "again", "coefficient %zu: %.17g at first, %.17g when solved again", i, b[i], a[i]);
    }
    auto small = [&](const std::vector<double>& u) { LD m = 0; for (double x : u) m = std::max(m, std::fabs((LD) x)); return m < 1e8L * (1 + *std::max_element(k.pv.begin(), k.pv.end()) / k.w.unit); };
    if (!small(t0)) { c.label("nearly singular"); throw pbt::Discard(); }
    c.check((int) t0.size() == nb * nc, "size", "%zu coefficients for %d cells and %d functions", t0.size(), nc, nb); c.check(v0 == k.w.v && p0 == k.pv && q0 == k.w.q, "input", "an input array was changed");
    std::vector<std::vector<LD> > fresh(nc); std::vector<LD> cond(nc, 0);
    auto cellCheck = [&](int i, const std::vector<double>& up, const std::vector<double>& mine, bool judge) {
        const Cell w = weak(k, *B, *V, q[i], i, up); std::vector<LD> u; if (!luSolve(w.J, w.b, u)) { cond[i] = 1e30L; return; }
        // conditioning: how much the smallest perturbations of the system matter
        std::vector<LD> e(nb), du; LD bs = 0; for (int r = 0; r < nb; ++r) { LD s = w.ab[r]; for (int j = 0; j < nb; ++j) s += w.aJ[r * nb + j] * std::fabs(u[j]); e[r] = s; bs = std::max(bs, s); } LD worst = 0; for (int r = 0; r < nb; ++r) { std::vector<LD> one(nb, 0); one[r] = bs; if (luSolve(w.J, one, du)) for (LD x : du) worst = std::max(worst, std::fabs(x)); } cond[i] = worst; fresh[i] = u;
        if (!judge) return;
        for (int r = 0; r < nb; ++r) { LD s = -w.b[r]; for (int j = 0; j < nb; ++j) s += w.J[r * nb + j] * mine[nb * i + j]; c.check(std::fabs(s) <= 1e-12L * (1 + ref) * bs, "weak-form", "cell %d: test function %d leaves %Lg (terms of size %Lg)", i, r, s, bs); }
    };
    if (!k.l.on) { for (int i = 0; i < nc; ++i) if (!loop[i]) cellCheck(i, t0, t0, true); t = t0; }
    else {
        try { Quiet z; t = run(k, true); } catch (const std::exception& e) { c.fail("limiter-throws", "the limited solution fails: %s", e.what()); }
        c.check((int) t.size() == nb * nc, "size", "%zu coefficients", t.size()); bool hit = false;
        for (int i = 0; i < nc; ++i) {
            if (loop[i]) continue;
            cellCheck(i, k.l.usage == 0 ? t : t0, t0, k.l.usage != 0); if (fresh[i].empty()) continue; std::vector<LD> u = fresh[i]; LD sc = 0; for (LD x : u) sc = std::max(sc, std::fabs(x)); if (k.l.usage) for (int j = 0; j < nb; ++j) u[j] = t0[nb * i + j];
            const std::vector<double>& up = k.l.usage == 2 ? t0 : t; const Lim e = limit(k, *B, q[i], i, u, up); LD ext = 0; for (const Conn& n : q[i]) { for (int p = G.face_nodepos[n.face]; p < G.face_nodepos[n.face + 1]; ++p) for (int x = 0; x < d; ++x) ext = std::max(ext, std::fabs((LD) G.node_coordinates[d * G.face_nodes[p] + x] - G.cell_centroids[d * i + x])); }
            LD ms = 0; for (const Conn& n : q[i]) if (n.other >= 0) for (int j = 0; j < nb; ++j) ms = std::max(ms, std::fabs((LD) t[nb * n.other + j])); const LD mag = (sc + ms) * (1 + ext) * std::pow(1 + ext, d - 1), base = (k.l.usage ? 0 : 1e-12L * cond[i] * (1 + ref)) + 1e-13L * (1 + ref) * mag;
            std::vector<LD> m(t.begin() + nb * i, t.begin() + nb * (i + 1)); const LD av0 = average(k, &u[0], nb), av = average(k, &m[0], nb); hit = hit || e.fac < 1 - 1e-6L;
            // averages
            if (e.lifted && e.lift > base) { c.label("lifted"); const bool ok = std::fabs(av - av0 - e.lift) <= 2 * base || (k.tensor && std::fabs(av - av0 - e.lift / nb) <= 2 * base); c.check(ok, "lift", "cell %d: average %Lg is below the upstream minimum %Lg and became %Lg", i, av0, e.M, av); }
            else if (!e.lifted || e.lift <= base) c.check(std::fabs(av - av0) <= 2 * base, "average", "cell %d: the limiter changed the average from %.17Lg to %.17Lg", i, av0, av);
            // gradients: a multiple of the unlimited one, never steeper, untouched when there is nothing to limit, flat after lifting
            LD dev = 0, du = 0; for (int j = k.tensor ? 0 : 1; j < nb; ++j) { const LD a = k.tensor ? u[j] - av0 : u[j], b = k.tensor ? m[j] - av : m[j]; dev = std::max(dev, std::fabs(b - e.fac * a)); du = std::max(du, std::fabs(a)); }
            LD here = 1e100L; for (const Conn& n : q[i]) here = std::min(here, corner(k, *B, i, n.face, &u[0])); const LD amp = std::fabs(av0 - here) > 0 && e.some && e.fac < 1 && !e.lifted ? du / std::fabs(av0 - here) : e.some && std::fabs(av0 - here) > 0 ? du / std::fabs(av0 - here) : 0;
            if (e.some || std::fabs(av0) > base) c.check(dev <= 4 * base * (1 + amp), "slope", "cell %d: the gradient should be multiplied by %Lg, off by %Lg (allowed %Lg)", i, e.fac, dev, 4 * base * (1 + amp));
            if (e.some && !(k.tensor && e.lifted)) for (const Conn& n : q[i]) { const LD v = corner(k, *B, i, n.face, &m[0]); c.check(v >= e.M - 8 * base * (1 + amp) * (1 + ext * d), "limit", "cell %d: corner value %.17Lg below the upstream minimum %.17Lg", i, v, e.M); }
        }
        c.label("limited", hit);
    }
    if (k.deg == 0) {
        double s = 0, m = 0; for (double x : k.w.q) { s += x; m = std::max(m, x); } if (std::fabs(s) <= 0.005 * m || s == 0) { std::vector<double> f; Opm::TofReorder T(G); { Quiet z; T.solveTof(&k.w.v[0], &k.pv[0], &k.w.q[0], f); } bool ok = true; LD b = 0; for (double x : f) b = std::max(b, (LD) x); for (int i = 0; i < nc; ++i) ok = ok && !loop[i]; if (ok) for (int i = 0; i < nc; ++i) c.check(std::fabs(f[i] - t[i]) <= 1e-10L * (1 + ref) * b, "first-order", "cell %d: %.17g, first-order scheme %.17g", i, t[i], f[i]); c.label("first order", ok); }
    }
    c.label("cvi", k.cvi); c.label("multilinear", k.tensor); c.label("loop", std::count(loop.begin(), loop.end(), 1) > 0); c.nontrivial(any && k.deg == 1 && nc > 1);
}
// constant velocity along an axis from a plane inflow boundary: linear (per layer) time of flight, reproduced exactly
void exact(Gen& g, Ctx& c)
{
    Prob k; k.tensor = g.b(); k.cvi = g.b(); k.deg = 1; CartSpec s = genCart(g, 30, 0, false, 0); k.a.G = makeCart(s); k.a.text = s.str(); const UnstructuredGrid& G = *k.a.G; const int d = G.dimensions, nc = G.number_of_cells, ax = g.i(0, d - 1); const double v = g.logreal(0.1, 10) * (g.b() ? 1 : -1); k.w.v.assign(G.number_of_faces, 0.0); k.w.q.assign(nc, 0.0); k.w.unit = 1;
    for (int f = 0; f < G.number_of_faces; ++f) k.w.v[f] = v * G.face_normals[d * f + ax];
    const int n = s.n[ax]; std::vector<double> phi(n); for (double& x : phi) x = g.b() ? 1.0 : g.real(0.05, 1); int st = 1; for (int q = 0; q < ax; ++q) st *= s.n[q]; k.pv.resize(nc); for (int i = 0; i < nc; ++i) k.pv[i] = phi[(i / st) % n] * G.cell_volumes[i];
    const double* X = &s.x[ax][0]; std::vector<LD> at(n + 1, 0); if (v > 0) for (int q = 0; q < n; ++q) at[q + 1] = at[q] + phi[q] * ((LD) X[q + 1] - X[q]) / v; else for (int q = n; q-- > 0;) at[q] = at[q + 1] + phi[q] * ((LD) X[q + 1] - X[q]) / -v;
    k.l.on = g.b(); k.l.face = g.b(); k.l.usage = g.i(0, 2);
    c.desc() << k.a.text << " axis " << ax << " velocity " << v << " porosity " << show(phi) << (k.tensor ? " multilinear" : " total") << (k.cvi ? " cvi" : "") << (k.l.on ? " limiter " : "") << k.l.face << k.l.usage; c.nontrivial(n > 1); c.label("limiter", k.l.on);
    std::vector<double> t; { Quiet z; t = run(k, k.l.on); } BasisPtr B = mk(G, k.tensor, 1); const int nb = B->numBasisFunc(); LD big = *std::max_element(at.begin(), at.end()), ref = 0, cond = 1; if (k.tensor) for (int q = 0; q < d; ++q) { LD m = 1; for (int j = 0; j + 1 < (int) s.x[q].size(); ++j) { const LD h = s.x[q][j + 1] - s.x[q][j]; m = std::max(m, std::max(h, 1 / h)); } cond *= m * m; } for (int q = 0; q < d; ++q) for (int j = 0; j + 1 < (int) s.x[q].size(); ++j) ref = std::max(ref, (LD) std::max(std::fabs(s.x[q].front()), std::fabs(s.x[q].back())) / (s.x[q][j + 1] - s.x[q][j]));
    for (int i = 0; i < nc; ++i) { std::vector<double> x(d); for (int r = 0; r < 3; ++r) { const int l = (i / st) % n; const double f = r == 0 ? 0.5 : g.real(0, 1); for (int q = 0; q < d; ++q) { int sq = 1; for (int e = 0; e < q; ++e) sq *= s.n[e]; const int lq = (i / sq) % s.n[q]; x[q] = s.x[q][lq] + (q == ax ? f : g.real(0, 1)) * (s.x[q][lq + 1] - s.x[q][lq]); } const LD e = at[l] + (at[l + 1] - at[l]) * ((LD) x[ax] - X[l]) / ((LD) X[l + 1] - X[l]), y = B->evalFunc(i, &t[nb * i], &x[0]); c.check(std::fabs(e - y) <= 1e-11L * (1 + ref * ref) * big * (k.tensor ? 0.1L * cond : 1), "exact", "cell %d: %.17Lg at a point where the time of flight is %.17Lg", i, y, e); } }
}
}
pbt::Spec pbt::spec()
{
    return { "C29", "degree one, flow, more than one cell",
             { "Integrals are those of the library's quadrature of degree 2p, which C05 judges", "Cells on a circulation are solved once in some order; they are not judged", "Cells without flow have no solution; the solver may report an error", "Multilinear functions are only averaged correctly on boxes; they are tested on Cartesian grids" },
             20000, 400000, { { "basis", 1, basis }, { "solve", 4, solve }, { "exact", 2, exact }, { "known_addconstant", 0, known_addconstant } } };
}
