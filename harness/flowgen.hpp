// Random flow problems: grids, rock, two-phase fluids, wells, sources, boundary conditions, and an
// accurate linear solver, so that what is judged is the discretisation and not a linear solver.
#ifndef VERIF_FLOWGEN_HPP
#define VERIF_FLOWGEN_HPP
#include "polygen.hpp"
#include "cpgen.hpp"
#include <opm/core/linalg/LinearSolverInterface.hpp>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/wells.h>

typedef long double LD;

// Dense LU with equilibration, partial pivoting and iterative refinement in long double.
inline bool luSolve(std::vector<LD> M, const std::vector<LD>& rhs, std::vector<LD>& x)
{
    const size_t n = rhs.size(); std::vector<LD> M0 = M, sc(n); std::vector<size_t> pv(n);
    for (size_t i = 0; i < n; ++i) { LD m = 0; for (size_t j = 0; j < n; ++j) m = std::max(m, std::fabs(M[i * n + j])); if (!(m > 0)) return false; sc[i] = 1 / m; for (size_t j = 0; j < n; ++j) M[i * n + j] *= sc[i]; pv[i] = i; }
    for (size_t k = 0; k < n; ++k) {
        size_t b = k; for (size_t i = k + 1; i < n; ++i) if (std::fabs(M[i * n + k]) > std::fabs(M[b * n + k])) b = i;
        if (!(std::fabs(M[b * n + k]) > 0)) return false;
        if (b != k) { for (size_t j = 0; j < n; ++j) std::swap(M[b * n + j], M[k * n + j]); std::swap(pv[b], pv[k]); }
        for (size_t i = k + 1; i < n; ++i) { const LD f = M[i * n + k]; if (f == 0) continue; const LD q = M[i * n + k] = f / M[k * n + k]; for (size_t j = k + 1; j < n; ++j) M[i * n + j] -= q * M[k * n + j]; }
    }
    x.assign(n, 0);
    for (int it = 0; it < 4; ++it) {
        std::vector<LD> r(n), y(n);
        for (size_t i = 0; i < n; ++i) { LD s = rhs[i]; for (size_t j = 0; j < n; ++j) s -= M0[i * n + j] * x[j]; r[i] = s * sc[i]; }
        for (size_t i = 0; i < n; ++i) { LD s = r[pv[i]]; for (size_t j = 0; j < i; ++j) s -= M[i * n + j] * y[j]; y[i] = s; }
        for (size_t i = n; i-- > 0;) { LD s = y[i]; for (size_t j = i + 1; j < n; ++j) s -= M[i * n + j] * y[j]; y[i] = s / M[i * n + i]; }
        for (size_t i = 0; i < n; ++i) x[i] += y[i];
    }
    for (LD v : x) if (!(std::fabs(v) < 1e300L)) return false;
    return true;
}
struct DenseSolver : Opm::LinearSolverInterface {
    mutable bool singular = false, first = false; mutable int calls = 0; mutable double last = 0;      // last: the norm of the last solution; first: singular in the first call
    using Opm::LinearSolverInterface::solve;
    LinearSolverReport solve(const int n, const int, const int* ia, const int* ja, const double* sa, const double* rhs, double* sol) const
    {
        ++calls; std::vector<LD> M((size_t) n * n, 0), b(rhs, rhs + n), x;
        for (int i = 0; i < n; ++i) for (int k = ia[i]; k < ia[i + 1]; ++k) M[(size_t) i * n + ja[k]] += sa[k];
        LinearSolverReport r = { true, 1, 0.0 };
        bool finite = true; for (LD t : M) finite = finite && std::isfinite(t);
        if (!luSolve(M, b, x)) { singular = singular || finite; first = first || (finite && calls == 1); r.converged = false; x.assign(n, finite ? 0 : NAN); }
        last = 0; for (int i = 0; i < n; ++i) { sol[i] = (double) x[i]; last = std::fabs(sol[i]) <= last ? last : std::fabs(sol[i]); }
        return r;
    }
    void setTolerance(const double) {}
    double getTolerance() const { return 0; }
};

// Two incompressible phases with power-law relative permeabilities, one rock type per cell.
struct Fluid : Opm::IncompPropertiesInterface {
    int d = 0, nc = 0;
    std::vector<double> K, poro;
    double mu[2], rho[2];
    std::vector<double> n[2], lo, hi;          // exponents, saturation range of phase 0, per cell
    std::vector<double> pc;                    // slope of a linear capillary pressure per cell (0: none)
    bool own = false;                          // report derivatives with respect to each phase's own saturation
    int numDimensions() const { return d; }
    int numCells() const { return nc; }
    const double* porosity() const { return &poro[0]; }
    const double* permeability() const { return &K[0]; }
    int numPhases() const { return 2; }
    const double* viscosity() const { return mu; }
    const double* density() const { return rho; }
    const double* surfaceDensity() const { return rho; }
    void kr(int c, double s, double* k, double* dk) const
    {
        const double w = hi[c] - lo[c], t = std::min(1.0, std::max(0.0, (s - lo[c]) / w)), in = (s > lo[c] && s < hi[c]) ? 1 / w : 0;
        k[0] = std::pow(t, n[0][c]); k[1] = std::pow(1 - t, n[1][c]);
        if (dk) { dk[0] = n[0][c] == 1 ? in : n[0][c] * std::pow(t, n[0][c] - 1) * in; dk[1] = -(n[1][c] == 1 ? in : n[1][c] * std::pow(1 - t, n[1][c] - 1) * in); }
    }
    void relperm(const int m, const double* s, const int* cells, double* k, double* dk) const
    {
        for (int i = 0; i < m; ++i) {
            double q[2]; kr(cells[i], s[2 * i], k + 2 * i, q);
            if (dk) { dk[4 * i] = q[0]; dk[4 * i + 1] = own ? 0 : q[1]; dk[4 * i + 2] = 0; dk[4 * i + 3] = own ? -q[1] : 0; }
        }
    }
    void capPress(const int m, const double* s, const int* cells, double* p, double* dp) const
    {
        for (int i = 0; i < m; ++i) {
            const double a = pc.empty() ? 0 : pc[cells[i]];
            p[2 * i] = a * (s[2 * i] - 1); p[2 * i + 1] = 0;
            if (dp) { dp[4 * i] = a; dp[4 * i + 1] = dp[4 * i + 2] = dp[4 * i + 3] = 0; }
        }
    }
    void satRange(const int m, const int* cells, double* smin, double* smax) const
    {
        for (int i = 0; i < m; ++i) { const int c = cells[i]; smin[2 * i] = lo[c]; smax[2 * i] = hi[c]; smin[2 * i + 1] = 1 - hi[c]; smax[2 * i + 1] = 1 - lo[c]; }
    }
    double mob(int c, const double* s, int p) const { double k[2]; kr(c, s[0], k, 0); return k[p] / mu[p]; }
};
inline Fluid genFluid(Gen& g, const UnstructuredGrid& G, bool diagonal, bool ranges, int krmode = -1)
{
    Fluid f; f.d = G.dimensions; f.nc = G.number_of_cells;
    f.K.resize((size_t) f.nc * f.d * f.d); f.poro.resize(f.nc);
    const int kmode = g.i(0, 2);               // uniform isotropic, uniform tensor, per cell
    const double Ks = g.b() ? 1.0 : 1e-13;
    for (int c = 0; c < f.nc; ++c) {
        double* k = &f.K[(size_t) c * f.d * f.d];
        if (kmode == 0 || c == 0) { if (c) std::copy(&f.K[0], &f.K[f.d * f.d], k); else if (kmode == 0) for (int q = 0; q < f.d; ++q) k[q * f.d + q] = Ks; else { genTensor(g, f.d, k, diagonal || g.b(), 0.1, 10.0); for (int q = 0; q < f.d * f.d; ++q) k[q] *= Ks; } }
        else if (kmode == 1) std::copy(&f.K[0], &f.K[f.d * f.d], k);
        else { genTensor(g, f.d, k, diagonal || g.b(), 0.1, 10.0); for (int q = 0; q < f.d * f.d; ++q) k[q] *= Ks; }
        f.poro[c] = c && g.b() ? f.poro[c - 1] : g.real(0.05, 0.5);
    }
    const double mus = Ks == 1.0 ? 1.0 : 1e-3;
    for (int p = 0; p < 2; ++p) { f.mu[p] = mus * (g.b() ? 1.0 : g.logreal(0.1, 10.0)); f.rho[p] = g.b() ? 1000.0 : g.real(1.0, 1500.0); }
    for (int p = 0; p < 2; ++p) f.n[p].assign(f.nc, krmode > 0 ? krmode : 1.0 * g.i(1, 3));
    f.lo.assign(f.nc, 0.0); f.hi.assign(f.nc, 1.0);
    if (ranges && g.p(1, 3)) { const double a = g.real(0, 0.3), b = g.real(0.7, 1.0); f.lo.assign(f.nc, a); f.hi.assign(f.nc, b); if (g.b()) for (int c = 0; c < f.nc; ++c) if (g.b()) { f.lo[c] = 0; f.hi[c] = 1; } }
    return f;
}
inline double genSat(Gen& g, double lo, double hi) { const int m = g.i(0, 3); return m == 0 ? lo : m == 1 ? hi : g.real(lo, hi); }
inline std::vector<double> genSats(Gen& g, const Fluid& f)
{
    std::vector<double> s(2 * f.nc); const int m = g.i(0, 2); const double s0 = g.real(0, 1);
    for (int c = 0; c < f.nc; ++c) { s[2 * c] = m == 0 ? std::min(f.hi[c], f.lo[c] + s0 * (f.hi[c] - f.lo[c])) : genSat(g, f.lo[c], f.hi[c]); s[2 * c + 1] = 1 - s[2 * c]; }
    return s;
}

struct AnyGrid { GridPtr G; std::string text; int kind = 0; };   // 0 Cartesian, 1 polyhedral complex, 2 corner point
// kinds: bit 0 Cartesian, 1 polyhedral complex, 2 corner point
inline AnyGrid genGrid(Gen& g, int kinds = 7, int maxc = 40, int dim = 0)
{
    AnyGrid a;
    for (;;) {
        const int k = g.i(0, 4);
        if (k <= 2 && (kinds & 1)) { CartSpec s = genCart(g, maxc, dim, false, g.p(1, 4)); a.G = makeCart(s); a.text = s.str(); if ((kinds & 2) && g.p(1, 6)) { shuffleFaces(*a.G, g); a.text += " (faces shuffled)"; } return a; }
        if (k == 3 && (kinds & 2)) { const int d = dim ? dim : g.b() ? 2 : 3; PolyOpts o; o.maxcuts = 3; Poly p = genPoly(g, d, o); a.G = p.grid(&g, true); a.text = p.str(); a.kind = 1; return a; }
        if (k == 4 && (kinds & 4) && dim != 2) {
            CpOpts o; o.maxc = maxc; o.wedge = false; CpModel m = genCp(g, o);
            int na = 0; for (int c = 0; c < m.cells(); ++c) na += m.alive(c);
            if (!na) throw pbt::Discard();
            grdecl d = m.decl(); a.G.reset(create_grid_cornerpoint(&d, 0.0)); a.text = m.str(); a.kind = 2; if (!a.G) throw pbt::Discard(); return a;
        }
        if (kinds == 2) { const int d = dim ? dim : g.b() ? 2 : 3; PolyOpts o; o.maxcuts = 3; Poly p = genPoly(g, d, o); a.G = p.grid(&g, true); a.text = p.str(); a.kind = 1; return a; }
        if (k == 0) throw pbt::Discard();
    }
}
inline std::vector<int> boundaryFaces(const UnstructuredGrid& G) { std::vector<int> v; for (int f = 0; f < G.number_of_faces; ++f) if ((G.face_cells[2 * f] < 0) != (G.face_cells[2 * f + 1] < 0)) v.push_back(f); return v; }
inline std::vector<int> components(const UnstructuredGrid& G, int& n)
{
    std::vector<int> comp(G.number_of_cells, -1); n = 0;
    for (int c = 0; c < G.number_of_cells; ++c) {
        if (comp[c] >= 0) continue;
        std::vector<int> st(1, c); comp[c] = n;
        while (!st.empty()) { const int a = st.back(); st.pop_back(); for (int h = G.cell_facepos[a]; h < G.cell_facepos[a + 1]; ++h) { const int f = G.cell_faces[h]; const int b = G.face_cells[2 * f] == a ? G.face_cells[2 * f + 1] : G.face_cells[2 * f]; if (b >= 0 && comp[b] < 0) { comp[b] = n; st.push_back(b); } } }
        ++n;
    }
    return comp;
}

// One-sided transmissibilities and their relative accuracy, per (cell, face).
struct HalfTrans { std::vector<LD> t, cond; LD worst = 1; };
inline HalfTrans halfTrans(const UnstructuredGrid& G, const double* perm)
{
    const int d = G.dimensions; HalfTrans h; h.t.resize(G.cell_facepos[G.number_of_cells]); h.cond.resize(h.t.size());
    for (int c = 0; c < G.number_of_cells; ++c) for (int i = G.cell_facepos[c]; i < G.cell_facepos[c + 1]; ++i) {
        const int f = G.cell_faces[i]; LD s = 0, m = 0, den = 0;
        for (int a = 0; a < d; ++a) { const LD x = (LD) G.face_centroids[d * f + a] - G.cell_centroids[d * c + a]; den += x * x; for (int b = 0; b < d; ++b) { const LD t = x * perm[(size_t) c * d * d + a * d + b] * G.face_normals[d * f + b]; s += t; m += std::fabs(t); } }
        h.t[i] = std::fabs(s) / den; h.cond[i] = s == 0 ? 1e30L : m / std::fabs(s); h.worst = std::max(h.worst, h.cond[i]);
    }
    return h;
}
inline int halfFace(const UnstructuredGrid& G, int c, int f) { for (int i = G.cell_facepos[c]; i < G.cell_facepos[c + 1]; ++i) if (G.cell_faces[i] == f) return i; return -1; }

struct WellsDel { void operator()(Wells* w) const { destroy_wells(w); } };
typedef std::unique_ptr<Wells, WellsDel> WellsPtr;
struct BcDel { void operator()(FlowBoundaryConditions* b) const { flow_conditions_destroy(b); } };
typedef std::unique_ptr<FlowBoundaryConditions, BcDel> BcPtr;
#endif
