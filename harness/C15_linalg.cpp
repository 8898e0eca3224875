// C15: compressed sparse rows and the direct solver.
#include "common.hpp"
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/linalg/call_umfpack.h>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/linalg/LinearSolverFactory.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <fstream>

namespace {
struct CsrDel { void operator()(CSRMatrix* a) const { csrmatrix_delete(a); } };
typedef std::unique_ptr<CSRMatrix, CsrDel> Csr;
struct Sys { int n; std::vector<std::set<int> > pat; std::vector<std::vector<double> > a; };

// Build by counting and pushing in a random order of (row, column).
Csr push(Gen& g, const std::vector<std::set<int> >& pat, bool sort)
{
    const int n = (int) pat.size();
    Csr A(csrmatrix_new_count_nnz(n));
    std::vector<std::pair<int, int> > e;
    for (int i = 0; i < n; ++i) for (int j : pat[i]) e.push_back(std::make_pair(i, j));
    for (auto& p : e) A->ia[p.first + 1] += 1;
    const size_t nnz = csrmatrix_new_elms_pushback(A.get());
    if (nnz != e.size()) throw pbt::Fail("nnz", pbt::fmt("%d entries instead of %d", (int) nnz, (int) e.size()));
    std::vector<int> o = g.b() ? g.perm((int) e.size()) : std::vector<int>();
    for (size_t k = 0; k < e.size(); ++k) { const auto& p = e[o.empty() ? k : o[k]]; A->ja[A->ia[p.first + 1]++] = p.second; }
    if (sort) csrmatrix_sortrows(A.get());
    return A;
}
std::string text(const std::vector<std::set<int> >& p) { std::string s = pbt::fmt("%d rows:", (int) p.size()); for (auto& r : p) { s += " {"; for (int j : r) s += pbt::fmt("%d,", j); s += "}"; } return s; }

void structure(Gen& g, Ctx& c)
{
    const int n = g.p(1, 12) ? g.i(31, 90) : g.size(1, 12), m = g.p(1, 4) ? g.i(1, 2000000000) : n + g.i(0, 6);
    std::vector<std::set<int> > pat(n); int tot = 0;
    for (auto& r : pat) { const int k = g.i(0, 6); for (int q = 0; q < k; ++q) r.insert(g.i(0, m - 1)); tot += (int) r.size(); }
    if (!tot) { pat[g.i(0, n - 1)].insert(0); tot = 1; }
    c.desc() << text(pat); c.nontrivial(tot > 1 && n > 1); c.label("large columns", m > n + 6);
    Csr A = push(g, pat, true);
    c.check(A->m == (size_t) n && A->nnz == (size_t) tot && A->ia[0] == 0 && A->ia[n] == tot, "nnz", "m %d nnz %d ia %d..%d, given %d rows %d entries", (int) A->m, (int) A->nnz, A->ia[0], A->ia[n], n, tot);
    for (int i = 0; i < n; ++i) {
        const std::vector<int> want(pat[i].begin(), pat[i].end());
        c.check(A->ia[i + 1] - A->ia[i] == (int) want.size(), "row", "row %d has %d entries instead of %d", i, A->ia[i + 1] - A->ia[i], (int) want.size());
        for (size_t k = 0; k < want.size(); ++k) {
            c.check(A->ja[A->ia[i] + k] == want[k], "row", "row %d entry %d is column %d instead of %d", i, (int) k, A->ja[A->ia[i] + k], want[k]);
            c.check(csrmatrix_elm_index(i, want[k], A.get()) == A->ia[i] + k, "index", "position of (%d, %d)", i, want[k]);
        }
    }
    std::vector<double> v(tot);
    for (int k = 0; k < tot; ++k) A->sa[k] = v[k] = g.p(1, 5) ? g.real(-1, 1) * 1e300 : g.p(1, 5) ? g.real(-1, 1) * 1e-300 : g.real(-10, 10);
    const std::vector<int> ia(A->ia, A->ia + n + 1), ja(A->ja, A->ja + tot);
    // write: every entry, exactly
    const std::string fn = pbt::scratch() + "/m.txt";
    csrmatrix_write(A.get(), fn.c_str());
    { std::ifstream f(fn.c_str()); int k = 0;
      for (int i = 0; i < n; ++i) for (int j : pat[i]) { long r = 0, q = 0; std::string x; f >> r >> q >> x; c.check(r == i + 1 && q == (long) j + 1 && std::strtod(x.c_str(), 0) == v[k], "write", "entry %d reads (%ld, %ld) %s", k, r, q, x.c_str()); ++k; }
      std::string rest; c.check(!(f >> rest), "write", "extra text in the file"); }
    const std::string fv = pbt::scratch() + "/v.txt"; vector_write(v.size(), &v[0], fv.c_str());
    { std::ifstream f(fv.c_str()); for (int k = 0; k < tot; ++k) { std::string x; f >> x; c.check(std::strtod(x.c_str(), 0) == v[k], "write-vector", "entry %d reads %s", k, x.c_str()); } std::string rest; c.check(!(f >> rest), "write-vector", "extra text"); }
    for (int k = 0; k < tot; ++k) c.check(A->sa[k] == v[k], "write", "writing changed the values");
    csrmatrix_zero(A.get());
    for (int k = 0; k < tot; ++k) c.check(A->sa[k] == 0.0 && A->ja[k] == ja[k], "zero", "entry %d after zeroing", k);
    for (int i = 0; i <= n; ++i) c.check(A->ia[i] == ia[i], "zero", "zeroing changed the structure");
    Csr B(csrmatrix_new_known_nnz(n, tot));
    c.check(B && B->m == (size_t) n && B->nnz == (size_t) tot, "known", "allocation with known size");
    std::copy(ia.begin(), ia.end(), B->ia); for (int i = 0; i < n; ++i) for (int k = ia[i]; k < ia[i + 1]; ++k) B->ja[k] = ja[ia[i + 1] - 1 - (k - ia[i])];
    csrmatrix_sortrows(B.get()); csrmatrix_zero(B.get());
    for (int k = 0; k < tot; ++k) c.check(B->ja[k] == ja[k] && B->sa[k] == 0, "known", "entry %d", k);
    vector_zero(v.size(), &v[0]); for (double x : v) c.check(x == 0, "vector-zero", "not zero");
}
void unwritable(Gen& g, Ctx& c)
{
    std::vector<std::set<int> > pat(1); pat[0].insert(0); Csr A = push(g, pat, true); A->sa[0] = 1;
    c.desc() << "file in a directory that does not exist"; c.nontrivial(g.i(0, 1000) >= 0);
    const std::string fn = pbt::scratch() + "/nodir/m.txt";
    csrmatrix_write(A.get(), fn.c_str()); vector_write(1, A->sa, fn.c_str());
}

// Nonsingular: row-wise (or column-wise) diagonally dominant, permuted and scaled; or any with a well-conditioned dense check.
Sys genSys(Gen& g, int maxn)
{
    Sys s; const int n = s.n = g.size(1, maxn); s.pat.resize(n); s.a.assign(n, std::vector<double>(n, 0.0));
    const int kind = g.i(0, 3);     // 0 dominant, 1 symmetric Laplacian-like, 2 triangular, 3 tridiagonal nonsymmetric
    const std::vector<int> P = g.b() ? g.perm(n) : std::vector<int>(); auto pi = [&](int i) { return P.empty() ? i : P[i]; };
    for (int i = 0; i < n; ++i) {
        const int k = g.i(0, 4);
        for (int q = 0; q < k; ++q) {
            const int j = kind == 3 ? std::max(0, std::min(n - 1, i + (q % 2 ? 1 : -1))) : kind == 2 ? g.i(0, i) : g.i(0, n - 1);
            if (j == i) continue;
            const double v = kind == 1 ? -g.real(0.1, 2) : g.p(1, 8) ? 0.0 : g.real(-2, 2);
            s.a[pi(i)][j] = v; s.pat[pi(i)].insert(j);
            if (kind == 1) { s.a[pi(j)][i] = v; s.pat[pi(j)].insert(i); }
        }
    }
    for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < n; ++j) if (j != i) t += std::fabs(s.a[pi(i)][j]); s.a[pi(i)][i] = (g.b() ? 1 : -1) * (kind == 2 ? g.real(0.5, 2) + 0.2 * t : t + g.real(0.1, 1)); s.pat[pi(i)].insert(i); }
    if (g.b()) for (int i = 0; i < n; ++i) { const double f = g.logreal(1e-12, 1e6); for (double& x : s.a[i]) x *= f; }
    return s;
}
void fill(const Sys& s, CSRMatrix& A) { for (int i = 0; i < s.n; ++i) for (int k = A.ia[i]; k < A.ia[i + 1]; ++k) A.sa[k] = s.a[i][A.ja[k]]; }

std::vector<long double> dense(const Sys& s, const std::vector<double>& b)
{
    const int n = s.n; std::vector<std::vector<long double> > M(n, std::vector<long double>(n + 1));
    for (int i = 0; i < n; ++i) { long double f = 0; for (int j = 0; j < n; ++j) f = std::max(f, (long double) std::fabs(s.a[i][j])); for (int j = 0; j < n; ++j) M[i][j] = s.a[i][j] / f; M[i][n] = b[i] / f; }
    for (int k = 0; k < n; ++k) {
        int p = k; for (int i = k + 1; i < n; ++i) if (fabsl(M[i][k]) > fabsl(M[p][k])) p = i;
        std::swap(M[p], M[k]);
        for (int i = k + 1; i < n; ++i) { const long double f = M[i][k] / M[k][k]; if (f != 0) for (int j = k; j <= n; ++j) M[i][j] -= f * M[k][j]; }
    }
    std::vector<long double> x(n);
    for (int i = n - 1; i >= 0; --i) { long double t = M[i][n]; for (int j = i + 1; j < n; ++j) t -= M[i][j] * x[j]; x[i] = t / M[i][i]; }
    return x;
}
void run(Gen& g, Ctx& c, int maxn)
{
    Sys s = genSys(g, maxn); const int n = s.n;
    Csr A = push(g, s.pat, g.p(3, 4)); fill(s, *A);
    std::vector<double> x0(n), b(n);
    const double bs = g.b() ? 1.0 : g.logreal(1e-10, 1e10);
    for (double& v : b) v = g.p(1, 6) ? 0.0 : bs * g.real(-1, 1);
    // right-hand sides on the scale of the rows
    for (int i = 0; i < n; ++i) { double f = 0; for (double v : s.a[i]) f = std::max(f, std::fabs(v)); b[i] *= f; }
    const int how = g.i(0, 4);
    if (c.wantDesc()) { c.desc() << text(s.pat) << " front end " << how << " b " << show(b); for (int i = 0; i < n && n < 8; ++i) c.desc() << " | " << show(s.a[i]); }
    c.nontrivial(n > 2); c.label(pbt::fmt("front-end-%d", how));
    const std::vector<int> ia(A->ia, A->ia + n + 1), ja(A->ja, A->ja + A->nnz); const std::vector<double> sa(A->sa, A->sa + A->nnz), bb(b);
    std::vector<double> x(n, g.b() ? 0.0 : std::numeric_limits<double>::quiet_NaN());
    for (int rep = 0; rep < 2; ++rep) {
        Opm::LinearSolverInterface::LinearSolverReport r; r.converged = true;
        if (how == 0) call_UMFPACK(A.get(), &b[0], &x[0]);
        else if (how == 1) r = Opm::LinearSolverUmfpack().solve(n, (int) A->nnz, A->ia, A->ja, A->sa, &b[0], &x[0]);
        else if (how == 2) { Opm::LinearSolverUmfpack u; r = static_cast<const Opm::LinearSolverInterface&>(u).solve(A.get(), &b[0], &x[0]); }
        else if (how == 3) { Opm::LinearSolverFactory f; r = f.solve(n, (int) A->nnz, A->ia, A->ja, A->sa, &b[0], &x[0]); }
        else { Opm::parameter::ParameterGroup p; p.disableOutput(); if (g.b()) p.insertParameter("linsolver", "umfpack"); Opm::LinearSolverFactory f(p); Opm::LinearSolverInterface& i = f; r = i.solve(A.get(), &b[0], &x[0]); }
        c.check(r.converged, "converged", "front end %d reports failure", how);
        c.check(b == bb && std::equal(ia.begin(), ia.end(), A->ia) && std::equal(ja.begin(), ja.end(), A->ja) && std::equal(sa.begin(), sa.end(), A->sa), "input-changed", "the matrix or right-hand side was changed");
        double xm = 0; for (double v : x) { c.check(std::isfinite(v), "finite", "solution is not finite"); xm = std::max(xm, std::fabs(v)); }
        for (int i = 0; i < n; ++i) {
            long double t = -b[i], sc = std::fabs(b[i]); double rm = 0;
            for (int j = 0; j < n; ++j) { t += (long double) s.a[i][j] * x[j]; rm = std::max(rm, std::fabs(s.a[i][j])); }
            sc += (long double) rm * xm;
            c.check(fabsl(t) <= 1e-11L * n * sc, "residual", "row %d: residual %Lg, scale %Lg", i, t, sc);
        }
        const std::vector<long double> ref = dense(s, b); long double rmx = 0; for (long double v : ref) rmx = std::max(rmx, fabsl(v));
        for (int i = 0; i < n; ++i) c.check(fabsl(ref[i] - x[i]) <= 1e-7L * rmx, "solution", "x[%d] = %.12g instead of %.12Lg", i, x[i], ref[i]);
        // again with other values and right-hand side
        for (int k = 0; k < n; ++k) b[k] = bb[k] * 0.5; const_cast<std::vector<double>&>(bb) = b;
    }
}
void small(Gen& g, Ctx& c) { run(g, c, 8); }
void large(Gen& g, Ctx& c) { run(g, c, 60); }
void names(Gen& g, Ctx& c)
{
    const std::string nm = g.oneof<const char*>({ "istl", "agmg", "UMFPACK", "", "umfpack ", "pardiso", "umfpack" });
    c.desc() << "linsolver=" << nm; c.nontrivial(true);
    Opm::parameter::ParameterGroup p; p.disableOutput(); p.insertParameter("linsolver", nm);
    bool threw = false; try { Opm::LinearSolverFactory f(p); f.setTolerance(1e-8); f.getTolerance(); } catch (const std::exception&) { threw = true; }
    c.check(threw == (nm != "umfpack"), "solver-name", "linsolver=\"%s\" was %s", nm.c_str(), threw ? "rejected" : "accepted");
}
} // namespace

pbt::Spec pbt::spec()
{
    return { "C15", "random sparsity patterns pushed in any order; values over 600 orders of magnitude for storage; dominant, Laplacian-like, triangular and tridiagonal systems, permuted and row-scaled, rows sorted or not, through all five entry points; non-trivial: more than one row and entry (structure), more than two unknowns (solve)",
             { "systems are nonsingular and well conditioned up to row scaling", "no duplicate entries" },
             50000, 1500000, { { "structure", 5, structure }, { "small", 6, small }, { "large", 1, large }, { "names", 1, names }, { "unwritable", 1, unwritable } } };
}
