// C25: implicit single-point upwind transport (Newton): residual, Jacobian, converged states.
#include "transgen.hpp"
#include <iostream>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/transport/implicit/TransportSolverTwophaseImplicit.hpp>
extern "C" {
#include <opm/core/transport/minimal/spu_implicit.h>
}

namespace {
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
typedef Opm::SimpleFluid2pWrappingProps TF;
typedef Opm::SinglePointUpwindTwoPhase<TF> Model;
typedef Opm::ImplicitTransportDefault::NewtonVectorCollection<std::vector<double> > Coll;
typedef Opm::ImplicitTransportDefault::JacobianSystem<struct CSRMatrix, Coll> Sys;

struct Prob { AnyGrid a; Fluid fl; HalfTrans ht; Flow w; std::vector<double> pv, src, s0, grav, ht1; std::vector<LD> T; double dt, theta; bool pc; };
LD drive(const Prob& k, int f, double pca, double pcb)
{
    const UnstructuredGrid& G = *k.a.G; const int a = G.face_cells[2 * f], b = G.face_cells[2 * f + 1], d = G.dimensions; LD z = 0;
    if (!k.grav.empty()) for (int q = 0; q < d; ++q) z += (LD) k.grav[q] * ((LD) G.cell_centroids[d * b + q] - G.cell_centroids[d * a + q]);
    return k.T[f] * (((LD) k.fl.rho[0] - k.fl.rho[1]) * z + ((LD) pcb - pca));
}
double pcOf(const Prob& k, int c, double s) { return k.fl.pc.empty() ? 0 : k.fl.pc[c] * (s - 1); }
// R_i(s) with saturation differences ds (which need not be s - s0 outside the range); size: sum of magnitudes
void residual(Ctx& c, const Prob& k, const std::vector<double>& s, const std::vector<double>& ds, std::vector<LD>& r, std::vector<LD>& sz)
{
    const UnstructuredGrid& G = *k.a.G; const int nc = G.number_of_cells; r.assign(nc, 0); sz.assign(nc, 0); std::vector<double> mob(2 * nc);
    for (int i = 0; i < nc; ++i) {
        const double t[2] = { s[i], 1 - s[i] }; for (int p = 0; p < 2; ++p) mob[2 * i + p] = k.fl.mob(i, t, p);
        r[i] = k.pv[i] * (LD) ds[i]; sz[i] = k.pv[i]; const LD f = mob[2 * i] / ((LD) mob[2 * i] + mob[2 * i + 1]);
        r[i] -= k.dt * (k.src[i] > 0 ? (LD) k.src[i] : k.src[i] * f); sz[i] += k.dt * std::fabs(k.src[i]);
    }
    for (int f = 0; f < G.number_of_faces; ++f) {
        const int a = G.face_cells[2 * f], b = G.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue;
        const double pa = pcOf(k, a, s[a]), pb = pcOf(k, b, s[b]); const LD g = drive(k, f, pa, pb), q = k.dt * phaseFlux(c, k.w.v[f], g, &mob[2 * a], &mob[2 * b]);
        LD gm = std::fabs(g) + k.T[f] * (std::fabs(pa) + std::fabs(pb)); if (!k.grav.empty()) { const int d = G.dimensions; LD z = 0; for (int q2 = 0; q2 < d; ++q2) z += std::fabs((LD) k.grav[q2]) * (std::fabs((LD) G.cell_centroids[d * a + q2]) + std::fabs((LD) G.cell_centroids[d * b + q2]) + std::fabs((LD) G.face_centroids[d * f + q2])); gm += k.T[f] * std::fabs(k.fl.rho[0] - k.fl.rho[1]) * z; }
        const LD z = k.dt * (std::fabs(k.w.v[f]) + gm * std::max(mob[2 * a] + mob[2 * a + 1], mob[2 * b] + mob[2 * b + 1]));
        r[a] += q; r[b] -= q; sz[a] += z; sz[b] += z;
    }
}
double slope(const Prob& k, int c, int p) { return k.fl.n[p][c] / (k.fl.hi[c] - k.fl.lo[c]) / k.fl.mu[p]; }
Prob gen(Gen& g, Ctx& c, int maxc)
{
    Prob k; k.a = genGrid(g, 7, maxc); const UnstructuredGrid& G = *k.a.G; const int d = G.dimensions, nc = G.number_of_cells, nf = G.number_of_faces;
    k.fl = genFluid(g, G, true, true); if (g.p(1, 3)) for (int p = 0; p < 2; ++p) for (int i = 0; i < nc; ++i) k.fl.n[p][i] = g.i(1, 3);
    k.fl.own = g.b(); k.ht = halfTrans(G, &k.fl.K[0]); if (k.ht.worst > 1e6L) throw pbt::Discard(); for (LD t : k.ht.t) if (!(t > 0)) throw pbt::Discard();
    k.w = genFlow(g, G); genPorevol(g, nc, k.pv); k.src.resize(nc); for (int i = 0; i < nc; ++i) k.src[i] = k.w.q[i] + k.w.bin[i];
    k.s0 = genSats(g, k.fl); k.T.assign(nf, 0); std::vector<LD> inv(nf, 0); for (int i = 0; i < nc; ++i) for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) inv[G.cell_faces[h]] += 1 / k.ht.t[h]; for (int f = 0; f < nf; ++f) k.T[f] = 1 / inv[f];
    k.ht1.resize(G.cell_facepos[nc]); tpfa_htrans_compute(k.a.G.get(), &k.fl.K[0], &k.ht1[0]);
    if (g.b()) { k.grav.assign(d, 0.0); if (g.b()) k.grav[d - 1] = 1; else for (double& x : k.grav) x = g.real(-1, 1); }
    k.pc = g.p(1, 4); if (k.pc) { k.fl.pc.assign(nc, -1.0); if (g.b()) for (double& x : k.fl.pc) x = -g.logreal(0.1, 10); }
    // scale gravity and capillary pressure against the flow
    const double r = g.logreal(0.1, 10), lam = 1 / std::min(k.fl.mu[0], k.fl.mu[1]); LD m = 0; const std::vector<double> pc0 = k.fl.pc;
    for (int f = 0; f < nf; ++f) if (G.face_cells[2 * f] >= 0 && G.face_cells[2 * f + 1] >= 0) { const int a = G.face_cells[2 * f]; m = std::max(m, std::fabs(drive(k, f, 0, k.pc ? pc0[a] : 0))); }
    if (m > 0) { const double q = (double) (r * k.w.unit / (m * lam)); for (double& x : k.grav) x *= q; for (double& x : k.fl.pc) x *= q; }
    std::vector<double> out(nc, 0.0); LD mx = 0;
    for (int i = 0; i < nc; ++i) out[i] += std::max(0.0, -k.src[i]) * fracSlope(k.fl, i);
    for (int f = 0; f < nf; ++f) for (int s = 0; s < 2; ++s) { const int a = G.face_cells[2 * f + s], b = G.face_cells[2 * f + 1 - s]; if (a < 0 || b < 0) continue; out[a] += std::fabs(k.w.v[f]) * fracSlope(k.fl, a) + (double) std::fabs(drive(k, f, k.pc ? -std::fabs(k.fl.pc[a]) : 0, 0)) * std::max(slope(k, a, 0), slope(k, a, 1)) + (k.pc ? (double) k.T[f] * std::fabs(k.fl.pc[a]) * lam : 0); }
    for (int i = 0; i < nc; ++i) mx = std::max(mx, (LD) out[i] / k.pv[i]);
    k.theta = g.logreal(0.01, 100); k.dt = mx > 0 ? (double) (k.theta / mx) : 1.0;
    c.desc() << k.a.text << " K " << show(k.fl.K, 9) << " mu " << k.fl.mu[0] << " " << k.fl.mu[1] << " rho " << k.fl.rho[0] << " " << k.fl.rho[1] << " g " << show(k.grav) << " n " << show(k.fl.n[0], 6) << show(k.fl.n[1], 6) << " lo " << show(k.fl.lo, 4) << " hi " << show(k.fl.hi, 4) << " pc " << show(k.fl.pc, 4) << (k.fl.own ? " own" : " first") << " pv " << show(k.pv, 40) << " flux " << show(k.w.v, 80) << " src " << show(k.src, 40) << " s " << show(k.s0, 80) << " dt " << k.dt << " theta " << k.theta;
    c.label("gravity", !k.grav.empty()); c.label("capillary", k.pc);
    return k;
}
void solve(Gen& g, Ctx& c)
{
    Prob k = gen(g, c, 30); const UnstructuredGrid& G = *k.a.G; const int nc = G.number_of_cells; const bool old = g.b(); const int maxit = g.i(0, 2) ? 20 : 50;
    Opm::parameter::ParameterGroup q; q.disableOutput(); q.insertParameter("guess_old_solution", old ? "true" : "false"); q.insertParameter("max_it", pbt::fmt("%d", maxit)); if (g.b()) q.insertParameter("max_it_ls", pbt::fmt("%d", g.i(2, 10)));
    c.desc() << (old ? " from the old state" : " from 0.5");
    Opm::TransportSolverTwophaseImplicit S(G, k.fl, k.pv, k.grav.empty() ? 0 : &k.grav[0], k.ht1, q);
    Opm::TwophaseState st; st.init(G, 2); st.saturation() = k.s0; st.faceflux() = k.w.v; const int n = g.i(1, 2); bool moved = false;
    for (int t = 0; t < n; ++t) {
        const std::vector<double> b = st.saturation(), p = st.pressure(), pv(k.pv), src(k.src); std::string out;
        { Quiet w; S.solve(&k.pv[0], &k.src[0], k.dt, st); out = w.s.str(); }
        c.check(st.faceflux() == k.w.v && p == st.pressure() && pv == k.pv && src == k.src, "input", "pressures, fluxes, sources or pore volumes changed");
        const size_t at = out.find("Convergence flag:"); c.check(at != std::string::npos, "report", "no convergence report in: %s", out.c_str()); const int flag = std::atoi(out.c_str() + at + 17);
        c.label(pbt::fmt("flag %d", flag));
        std::vector<double> s(nc), ds(nc); for (int i = 0; i < nc; ++i) { s[i] = st.saturation()[2 * i]; ds[i] = s[i] - b[2 * i]; moved = moved || std::fabs(ds[i]) > 1e-3; c.check(s[i] >= k.fl.lo[i] && s[i] <= k.fl.hi[i], "bounds", "cell %d ends with %.17g outside [%g, %g]", i, s[i], k.fl.lo[i], k.fl.hi[i]); c.check(st.saturation()[2 * i + 1] == 1 - s[i], "sum", "cell %d ends with %.17g and %.17g", i, s[i], st.saturation()[2 * i + 1]); }
        if (flag < 1) { c.check(!(old && k.theta < 0.3), "gives-up", "no convergence on an easy problem"); if (t == 0) throw pbt::Discard(); return; }
        std::vector<LD> r, sz; residual(c, k, s, ds, r, sz); LD big = 0, tot = 0, tal = 0; for (LD x : sz) big = std::max(big, x);
        for (int i = 0; i < nc; ++i) {
            const LD al = 1e-6L * (flag == 1) + (flag == 2) * 5e-7L * 2 * big + (flag == 3) * 1e-8L * 4 * (k.pv[i] * (1 + k.theta) + big) + k.pv[i] * (s[i] == k.fl.lo[i] || s[i] == k.fl.hi[i] ? 1.01e-5L : 0) + (1e-13L + 4e-16L * k.ht.worst) * sz[i];
            c.check(std::fabs(r[i]) <= al, "equation", "flag %d: cell %d goes from %.17g to %.17g, leaving %Lg in its balance (allowed %Lg)", flag, i, b[2 * i], s[i], r[i], al);
            tot += r[i]; tal += al;
        }
        c.check(std::fabs(tot) <= tal, "total", "the total balance is off by %Lg (allowed %Lg)", tot, tal);
    }
    c.label("moved", moved); c.nontrivial(moved && nc > 1);
}
void assemble(Model& M, Opm::ImplicitAssembly<Model>& A, Sys& y, const Prob& k, const TransportSource* src, const Opm::TwophaseState& st, const std::vector<double>& x)
{
    y.vector().writableSolution() = x; { Quiet q; M.initIteration(st, *k.a.G, y); }
    csrmatrix_zero(&y.writableMatrix()); std::fill(y.vector().writableResidual().begin(), y.vector().writableResidual().end(), 0.0);
    A.assemble(st, *k.a.G, src, k.dt, y);
}
void jacobian(Gen& g, Ctx& c)
{
    Prob k = gen(g, c, 12); const UnstructuredGrid& G = *k.a.G; const int nc = G.number_of_cells; TF tf(k.fl);
    Model M(tf, G, k.pv, k.grav.empty() ? 0 : &k.grav[0]); M.initGravityTrans(G, k.ht1); Opm::ImplicitAssembly<Model> A(M); Sys y; Opm::TwophaseState st; st.init(G, 2); st.saturation() = k.s0; st.faceflux() = k.w.v;
    struct Src { TransportSource* p; Src() : p(create_transport_source(2, 2)) {} ~Src() { destroy_transport_source(p); } } src;
    double inj[2] = { 1, 0 }, no[2] = { 0, 0 }; for (int i = 0; i < nc; ++i) if (k.src[i] != 0) append_transport_source(i, 2, 0.0, k.src[i], k.src[i] > 0 ? inj : no, no, src.p);
    { Quiet q; A.createSystem(G, y); M.initStep(st, G, y); }
    std::vector<double> x(nc), s(nc); for (int i = 0; i < nc; ++i) { s[i] = g.b() ? g.real(k.fl.lo[i], k.fl.hi[i]) : g.b() ? k.s0[2 * i] : k.fl.lo[i] + g.i(0, 4) / 4.0 * (k.fl.hi[i] - k.fl.lo[i]); s[i] = std::min(s[i], k.fl.hi[i]); x[i] = s[i] - k.s0[2 * i]; s[i] = std::min(std::max(k.s0[2 * i] + x[i], k.fl.lo[i]), k.fl.hi[i]); }
    c.desc() << " at " << show(s, 20); c.nontrivial(nc > 1);
    assemble(M, A, y, k, src.p, st, x); const CSRMatrix& m = y.matrix(); std::vector<double> J((size_t) nc * nc, 0.0), R = y.vector().residual();
    c.check((int) m.m == nc, "size", "%d rows", (int) m.m);
    for (int i = 0; i < nc; ++i) for (int h = m.ia[i]; h < m.ia[i + 1]; ++h) { c.check(m.ja[h] >= 0 && m.ja[h] < nc && (h == m.ia[i] || m.ja[h - 1] < m.ja[h]), "structure", "row %d: columns not increasing", i); J[(size_t) i * nc + m.ja[h]] += m.sa[h]; }
    std::vector<LD> r, sz; residual(c, k, s, x, r, sz);
    for (int i = 0; i < nc; ++i) c.check(std::fabs(R[i] - r[i]) <= (1e-13L + 4e-16L * k.ht.worst) * sz[i], "residual", "cell %d: residual %.17g instead of %.17Lg", i, R[i], r[i]);
    int ok = 0, skipped = 0; std::vector<char> tie(nc, 0);      // capillary balance without flow: mobilities jump there
    if (k.pc) for (int f = 0; f < G.number_of_faces; ++f) { const int a = G.face_cells[2 * f], b = G.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; const LD m = 1e-5L * k.T[f] * (std::fabs(k.fl.pc[a]) + std::fabs(k.fl.pc[b])); if (std::fabs(drive(k, f, pcOf(k, a, s[a]), pcOf(k, b, s[b]))) <= m && std::fabs(k.w.v[f]) <= m / std::min(k.fl.mu[0], k.fl.mu[1])) tie[a] = tie[b] = 1; }
    for (int j = 0; j < nc; ++j) {
        const double h = 1e-6; if (s[j] - 4 * h < k.fl.lo[j] || s[j] + 4 * h > k.fl.hi[j]) { ++skipped; continue; }
        std::vector<std::vector<double> > R4; for (int e : { -2, -1, 1, 2 }) { std::vector<double> z(x); z[j] += e * h; assemble(M, A, y, k, src.p, st, z); R4.push_back(y.vector().residual()); }
        for (int i = 0; i < nc; ++i) {
            if (tie[i]) { ++skipped; continue; }
            const double lo = (R[i] - R4[0][i]) / (2 * h), hi = (R4[3][i] - R[i]) / (2 * h), ce = (R4[2][i] - R4[1][i]) / (2 * h), sc = (double) sz[i] * (1 + slope(k, j, 0) * k.fl.mu[0] + slope(k, j, 1) * k.fl.mu[1]), al = 1e-3 * std::fabs(ce) + 1e-7 * sc * (1 + k.theta) + 1e-14 * (double) sz[i] / h;
            if (std::fabs(lo - hi) > 1e-3 * (std::fabs(lo) + std::fabs(hi)) + al) { ++skipped; continue; }           // another upwind direction within reach
            ++ok; c.check(std::fabs(J[(size_t) i * nc + j] - ce) <= 3 * al, "jacobian", "d R[%d] / d s[%d] is %.10g, the matrix has %.10g (allowed %.3g)", i, j, ce, J[(size_t) i * nc + j], 3 * al);
        }
    }
    c.label("kinks", skipped > 0); c.label("derivatives", ok > 0);
}
// the C version: tabulated mobilities, unit pore volumes
void dense(int n, int* ia, int* ja, double* sa, double* b, double* x) { DenseSolver s; s.solve(n, 0, ia, ja, sa, b, x); }
struct Tab { int n; double h, x0; std::vector<double> t; LD at(int p, double s) const { const double* q = &t[p * n]; if (s < x0) return q[0]; const int i = (int) ((s - x0) / h); if (i + 1 > n - 1) return q[n - 1]; const LD a = ((LD) s - x0) / h - i; return (1 - a) * q[i] + a * q[i + 1]; } };
void minimal(Gen& g, Ctx& c)
{
    Topo t = genTopo(g, 20); const UnstructuredGrid& G = t.G; const int nc = G.number_of_cells, nf = G.number_of_faces; if (!nf) throw pbt::Discard();
    Flow w = genFlow(g, G, false, false); std::vector<double> gf(nf, 0.0), s0(nc), src(w.q); const int gm = g.i(0, 2); if (gm == 2) { std::fill(w.v.begin(), w.v.end(), 0.0); std::fill(src.begin(), src.end(), 0.0); }
    if (gm) for (double& x : gf) x = g.p(1, 4) ? 0.0 : g.b() ? g.i(-2, 2) : g.real(-3, 3);
    Tab T; T.n = g.i(2, 12); T.h = 1.0 / (T.n - 1); T.x0 = 0; if (g.p(1, 4)) { T.x0 = g.real(0, 0.2); T.h = g.real(0.5, 1) * (1 - T.x0) / (T.n - 1); } T.t.resize(2 * T.n); const double mu = g.logreal(0.2, 5); const int e0 = g.i(1, 3), e1 = g.i(1, 3);
    for (int i = 0; i < T.n; ++i) { const double q = i / (T.n - 1.0); T.t[i] = std::pow(q, e0); T.t[T.n + i] = std::pow(1 - q, e1) / mu; }
    for (double& x : s0) x = g.b() ? g.i(0, 1) : g.real(0, 1);
    std::vector<double> out(nc, 0.0); double mx = 0; for (int i = 0; i < nc; ++i) out[i] = std::fabs(src[i]); for (int f = 0; f < nf; ++f) for (int s = 0; s < 2; ++s) if (G.face_cells[2 * f + s] >= 0) out[G.face_cells[2 * f + s]] += std::fabs(w.v[f]) + std::fabs(gf[f]); for (double x : out) mx = std::max(mx, x);
    const double theta = g.logreal(0.01, 10), dt = mx > 0 ? theta / mx : 1;
    c.desc() << t.str() << " flux " << show(w.v, 60) << " gravity " << show(gf, 60) << " source " << show(src, 40) << " table " << show(T.t) << " from " << T.x0 << " step " << T.h << " s " << show(s0, 40) << " dt " << dt;
    std::vector<double> s(s0), a0(s0), v(w.v), g0(gf), q0(src); double nrm;
    { Quiet z; nrm = spu_implicit(const_cast<UnstructuredGrid*>(&G), &s0[0], &s[0], T.h, T.x0, T.n, &T.t[0], &v[0], &gf[0], &src[0], dt, dense); }
    c.check(a0 == s0 && v == w.v && g0 == gf && q0 == src, "input", "an input array was changed");
    if (!(nrm <= 1e-9)) { c.label("no convergence"); c.check(theta > 0.05 || T.n > 2, "gives-up", "no convergence on an easy problem"); throw pbt::Discard(); }
    std::vector<LD> r(nc), sz(nc); std::vector<double> mob(2 * nc); LD tot = 0, al = 0; bool moved = false;
    for (int i = 0; i < nc; ++i) { for (int p = 0; p < 2; ++p) mob[2 * i + p] = (double) T.at(p, s[i]); const LD f = mob[2 * i] / ((LD) mob[2 * i] + mob[2 * i + 1]); r[i] = (LD) s[i] - s0[i] - dt * (src[i] > 0 ? (LD) src[i] : src[i] * f); sz[i] = 1 + dt * out[i] * (1 + 1 / mu); moved = moved || std::fabs(s[i] - s0[i]) > 1e-3; }
    for (int f = 0; f < nf; ++f) { const int a = G.face_cells[2 * f], b = G.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; const LD q = dt * phaseFlux(c, w.v[f], gf[f], &mob[2 * a], &mob[2 * b]); r[a] += q; r[b] -= q; }
    for (int i = 0; i < nc; ++i) { c.check(s[i] >= 0 && s[i] <= 1, "bounds", "cell %d ends with %.17g", i, s[i]); c.check(std::fabs(r[i]) <= 2e-8L * sz[i], "equation", "cell %d goes from %.17g to %.17g, leaving %Lg in its balance", i, s0[i], s[i], r[i]); tot += r[i]; al += sz[i]; }
    c.check(std::fabs(tot) <= 2e-8L * al, "total", "the total balance is off by %Lg", tot);
    c.label("gravity", gm > 0); c.label("moved", moved); c.nontrivial(moved && nc > 1);
}
}
pbt::Spec pbt::spec()
{
    return { "C25", "more than one cell; a saturation moves by more than 1e-3 (Jacobian: more than one cell)",
             { "Residual tolerances are those of the solver: absolute 1e-6, relative 5e-7, update 1e-8; saturations may leave their range by 1e-5 during the iteration and are then cut off", "The solver reports convergence only in its printed report; states of steps it reports as not converged are judged for bounds only", "Derivatives of relative permeability may be reported with respect to the first phase or to each phase's own saturation", "Capillary pressure is a decreasing linear function" },
             20000, 400000, { { "solve", 3, solve }, { "jacobian", 2, jacobian }, { "minimal", 2, minimal } } };
}
