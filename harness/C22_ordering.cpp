// C22: strongly connected components and the transport ordering.
#include "cpgen.hpp"
#include <opm/core/transport/reorder/reordersequence.h>
#include <opm/core/transport/reorder/tarjan.h>

namespace {
// reach[i] bit j: j reachable from i
std::vector<std::vector<char> > reach(int n, const std::vector<std::vector<int> >& adj)
{
    std::vector<std::vector<char> > r(n, std::vector<char>(n, 0));
    for (int i = 0; i < n; ++i) {
        std::vector<int> st(1, i); r[i][i] = 1;
        while (!st.empty()) { const int a = st.back(); st.pop_back(); for (int b : adj[a]) if (!r[i][b]) { r[i][b] = 1; st.push_back(b); } }
    }
    return r;
}
// 'dep[i]': vertices that must come before i (or in the same component).
void verify(Ctx& c, int n, const std::vector<std::vector<int> >& dep, const std::vector<int>& seq, const std::vector<int>& comp, int nc)
{
    c.check(nc >= 1 && nc <= n, "components", "%d components of %d vertices", nc, n);
    c.check(comp[0] == 0 && comp[nc] == n, "components", "components span %d..%d of %d vertices", comp[0], comp[nc], n);
    std::vector<int> where(n, -1);
    for (int k = 0; k < nc; ++k) {
        c.check(comp[k] < comp[k + 1], "components", "component %d is empty", k);
        for (int q = comp[k]; q < comp[k + 1]; ++q) {
            c.check(seq[q] >= 0 && seq[q] < n, "sequence", "entry %d is %d", q, seq[q]);
            c.check(where[seq[q]] == -1, "sequence", "vertex %d appears twice", seq[q]); where[seq[q]] = k;
        }
    }
    const auto r = reach(n, dep);
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) c.check((where[i] == where[j]) == (r[i][j] && r[j][i]), "strong", "vertices %d and %d are %sin the same component but are %sstrongly connected", j, i, where[i] == where[j] ? "" : "not ", r[i][j] && r[j][i] ? "" : "not ");
    for (int i = 0; i < n; ++i) for (int j : dep[i]) c.check(where[j] <= where[i], "order", "vertex %d (component %d) comes before its upstream vertex %d (component %d)", i, where[i], j, where[j]);
}
void graph(Gen& g, Ctx& c)
{
    const int n = g.size(1, 40); const int kind = g.i(0, 3);
    std::vector<std::vector<int> > adj(n);
    const int m = g.i(0, kind == 0 ? n : 3 * n);
    for (int k = 0; k < m; ++k) {
        const int a = g.i(0, n - 1), b = kind == 2 ? (a + 1) % n : kind == 3 ? std::max(0, a - g.i(0, 2)) : g.i(0, n - 1);   // self loops and repeated edges included
        adj[a].push_back(b);
    }
    std::vector<int> ia(1, 0), ja; for (auto& r : adj) { ja.insert(ja.end(), r.begin(), r.end()); ia.push_back((int) ja.size()); }
    c.desc() << "ia " << show(ia, 60) << " ja " << show(ja, 120);
    std::vector<int> vert(n, -9), comp(n + 1, -9), work(3 * n, 77); int nc = -1;
    const std::vector<int> i0(ia), j0(ja);
    tarjan(n, &ia[0], ja.data(), &vert[0], &comp[0], &nc, &work[0]);
    c.check(ia == i0 && ja == j0, "input", "the graph was changed");
    c.nontrivial(nc > 1 && nc < n); c.label("single", nc == 1 && n > 1); c.label("acyclic", nc == n && m > 0);
    verify(c, n, adj, vert, comp, nc);
}
void grid(Gen& g, Ctx& c)
{
    GridPtr G; std::string text; CpModel m; CartSpec s;
    if (g.p(1, 3)) { m = genCp(g); grdecl d = m.decl(); G.reset(create_grid_cornerpoint(&d, 0.0)); text = m.str(); }
    else { s = genCart(g, 60); G = makeCart(s); text = s.str(); }
    c.check(!!G, "null", "no grid");
    const UnstructuredGrid& U = *G; const int n = U.number_of_cells, nf = U.number_of_faces;
    const int kind = g.i(0, 3); std::vector<double> flux(nf), pot(n + 1);
    for (double& p : pot) p = kind == 1 ? g.i(0, 3) : g.real(0, 10);
    for (int f = 0; f < nf; ++f) {
        const int a = U.face_cells[2 * f], b = U.face_cells[2 * f + 1];
        if (kind <= 1) flux[f] = pot[a < 0 ? n : a] - pot[b < 0 ? n : b];        // potential flow: no cycles
        else flux[f] = kind == 2 ? g.i(-1, 1) : g.real(-1, 1) * (g.p(1, 4) ? 1e-300 : 1);
        if (g.p(1, 20)) flux[f] = 0;
    }
    if (c.wantDesc()) c.desc() << text << " flux " << show(flux, 150);
    std::vector<std::vector<int> > dep(n);
    for (int f = 0; f < nf; ++f) { const int a = U.face_cells[2 * f], b = U.face_cells[2 * f + 1]; if (a < 0 || b < 0 || flux[f] == 0) continue; if (flux[f] > 0) dep[b].push_back(a); else dep[a].push_back(b); }
    std::vector<int> seq(n, -9), comp(n + 1, -9), ia(n + 1, -9), ja(nf + 1, -9); int nc = -1;
    const std::vector<double> f0(flux);
    const bool withGraph = g.b();
    if (withGraph) compute_sequence_graph(&U, &flux[0], &seq[0], &comp[0], &nc, &ia[0], &ja[0]);
    else compute_sequence(&U, &flux[0], &seq[0], &comp[0], &nc);
    c.check(flux == f0, "input", "the fluxes were changed");
    c.nontrivial(nc > 1 && n > 2); c.label("cycles", nc < n);
    if (kind <= 1) c.check(nc == n, "potential", "%d components of %d cells although the flow has no cycles", nc, n);
    verify(c, n, dep, seq, comp, nc);
    if (withGraph) for (int i = 0; i < n; ++i) {
        std::vector<int> got(ja.begin() + ia[i], ja.begin() + ia[i + 1]), want(dep[i]); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        c.check(got == want, "upwind-graph", "cell %d has upstream cells %s instead of %s", i, show(got).c_str(), show(want).c_str());
    }
}
void chains(Gen& g, Ctx& c)
{
    // long chains and rings: the explicit stacks must hold
    const int n = g.i(1, 3000); const int ring = g.i(0, 2), block = g.i(1, 50);
    std::vector<std::vector<int> > adj(n);
    const bool down = g.b();
    for (int i = 0; i + 1 < n; ++i) { if (down) adj[i + 1].push_back(i); else adj[i].push_back(i + 1); if (ring == 2 && (i + 1) % block) { if (down) adj[i].push_back(i + 1); else adj[i + 1].push_back(i); } }
    if (ring == 1 && n > 1) { if (down) adj[0].push_back(n - 1); else adj[n - 1].push_back(0); }
    std::vector<int> ia(1, 0), ja; for (auto& r : adj) { ja.insert(ja.end(), r.begin(), r.end()); ia.push_back((int) ja.size()); }
    c.desc() << "chain of " << n << " ring " << ring << " block " << block << " down " << down; c.nontrivial(n > 2);
    std::vector<int> vert(n, -9), comp(n + 1, -9), work(3 * n, 77); int nc = -1;
    tarjan(n, &ia[0], ja.data(), &vert[0], &comp[0], &nc, &work[0]);
    const int want = ring == 0 ? n : ring == 1 ? 1 : (n + block - 1) / block;
    c.check(nc == want, "components", "%d components instead of %d", nc, want);
    std::vector<int> where(n, -1);
    for (int k = 0; k < nc; ++k) for (int q = comp[k]; q < comp[k + 1]; ++q) { c.check(vert[q] >= 0 && vert[q] < n && where[vert[q]] == -1, "sequence", "entry %d is %d", q, vert[q]); where[vert[q]] = k; }
    for (int i = 0; i < n; ++i) for (int j : adj[i]) c.check(where[j] <= where[i], "order", "vertex %d before %d", i, j);
}
} // namespace

pbt::Spec pbt::spec()
{
    return { "C22", "random digraphs with self loops and repeated edges, rings, bands and chains of up to 3000 vertices; Cartesian and corner-point grids with potential flow (ties included), random fluxes, integer fluxes, zero and denormal fluxes; non-trivial: more than one component",
             {}, 150000, 3000000, { { "graph", 5, graph }, { "grid", 5, grid }, { "chains", 1, chains } } };
}
