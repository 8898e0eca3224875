// C20: partitions, connected components, hash sets and coarse topology.
#include "common.hpp"
#include <opm/core/pressure/msmfem/partition.h>
#include <opm/core/pressure/msmfem/coarse_conn.h>
#include <opm/core/pressure/msmfem/hash_set.h>
#include <opm/core/pressure/msmfem/dfs.h>
#include <map>

namespace {
// Block of each Cartesian cell: the one-dimensional distributions are contiguous, in order, and as even as possible.
void uniform(Gen& g, Ctx& c)
{
    const int d = g.i(1, 3); int fine[3] = {1,1,1}, coarse[3] = {1,1,1}, tot = 1, nb = 1;
    for (int k = 0; k < d; ++k) { fine[k] = g.size(1, g.p(1, 10) ? 200 : 12); if (tot * fine[k] > 3000) fine[k] = 1; tot *= fine[k]; coarse[k] = g.i(1, fine[k]); nb *= coarse[k]; }
    std::vector<int> idx(tot); for (int q = 0; q < tot; ++q) idx[q] = q;
    if (g.b()) { std::vector<int> s; for (int q : idx) if (g.p(2, 3)) s.push_back(q); if (!s.empty()) idx = s; }     // active cells only
    if (g.p(1, 3)) { const std::vector<int> p = g.perm((int) idx.size()); std::vector<int> s(idx.size()); for (size_t k = 0; k < s.size(); ++k) s[k] = idx[p[k]]; idx = s; }
    c.desc() << d << "D fine " << fine[0] << "x" << fine[1] << "x" << fine[2] << " coarse " << coarse[0] << "x" << coarse[1] << "x" << coarse[2] << " cells " << show(idx);
    c.nontrivial(nb > 1 && nb < tot);
    std::vector<int> p(idx.size(), -99);
    const int r = partition_unif_idx(d, (int) idx.size(), fine, coarse, &idx[0], &p[0]);
    c.check(r == (int) idx.size(), "return", "returned %d for %d cells", r, (int) idx.size());
    // per direction: which coarse index did each fine index get
    std::vector<std::vector<int> > co(d); for (int k = 0; k < d; ++k) co[k].assign(fine[k], -1);
    for (size_t q = 0; q < idx.size(); ++q) {
        c.check(p[q] >= 0 && p[q] < nb, "range", "cell %d is in block %d of %d", idx[q], p[q], nb);
        int i = idx[q], b = p[q];
        for (int k = 0; k < d; ++k) {
            int& t = co[k][i % fine[k]]; const int bk = b % coarse[k];
            c.check(t == -1 || t == bk, "product", "direction %d: index %d is in both %d and %d", k, i % fine[k], t, bk);
            t = bk; i /= fine[k]; b /= coarse[k];
        }
    }
    if ((int) idx.size() == tot) for (int k = 0; k < d; ++k) {
        std::vector<int> cnt(coarse[k], 0);
        for (int q = 0; q < fine[k]; ++q) { ++cnt[co[k][q]]; c.check(q == 0 ? co[k][q] == 0 : co[k][q] == co[k][q - 1] || co[k][q] == co[k][q - 1] + 1, "contiguous", "direction %d", k); }
        const int lo = fine[k] / coarse[k];
        for (int q = 0; q < coarse[k]; ++q) c.check(cnt[q] == lo || cnt[q] == lo + 1, "balanced", "direction %d: %d of %d indices in bin %d of %d", k, cnt[q], fine[k], q, coarse[k]);
    }
}
std::vector<int> genPart(Gen& g, int n) { std::vector<int> p(n); const int m = g.i(1, g.p(1, 8) ? 100000 : std::max(1, 2 * n)); for (int& x : p) x = g.i(0, m - 1); return p; }
void compress(Gen& g, Ctx& c)
{
    const int n = g.size(1, 40); const std::vector<int> p = genPart(g, n); std::vector<int> q(p);
    c.desc() << "p " << show(p, 60);
    std::set<int> used(p.begin(), p.end()); c.nontrivial(used.size() > 1 && *used.rbegin() + 1 > (int) used.size());
    const int m = partition_compress(n, &q[0]);
    c.check(m == (int) used.size() - 1, "compress", "returned %d for %d blocks", m, (int) used.size());
    for (int i = 0; i < n; ++i) { const int r = (int) std::distance(used.begin(), used.find(p[i])); c.check(q[i] == r, "compress", "cell %d is in block %d instead of %d", i, q[i], r); }
    // inverse of either
    const std::vector<int>& w = g.b() ? p : q; const int mx = *std::max_element(w.begin(), w.end());
    int *pi = 0, *inv = 0; const int ok = partition_allocate_inverse(n, mx, &pi, &inv);
    c.check(ok == n && pi && inv, "allocate", "returned %d", ok);
    partition_invert(n, &w[0], pi, inv);
    std::vector<int> loc(n, -1); partition_localidx(mx + 1, pi, inv, &loc[0]);
    std::string bad;
    if (pi[0] != 0 || pi[mx + 1] != n) bad = "extent";
    for (int b = 0; b <= mx && bad.empty(); ++b) for (int k = pi[b]; k < pi[b + 1]; ++k) {
        if (w[inv[k]] != b) bad = pbt::fmt("cell %d listed in block %d", inv[k], b);
        else if (k > pi[b] && inv[k] <= inv[k - 1]) bad = pbt::fmt("block %d not in increasing order", b);
        else if (loc[inv[k]] != k - pi[b]) bad = pbt::fmt("local index of cell %d", inv[k]);
    }
    partition_deallocate_inverse(pi, inv);
    c.check(bad.empty(), "invert", "%s", bad.c_str());
}
struct UF { std::vector<int> p; UF(int n) : p(n) { for (int i = 0; i < n; ++i) p[i] = i; } int find(int a) { while (p[a] != a) a = p[a] = p[p[a]]; return a; } void join(int a, int b) { p[find(a)] = find(b); } };
// Fine neighbourship: of a grid (periodic or not), or an arbitrary multigraph.
struct Graph { int nc; std::vector<int> nb; std::string kind; };
Graph genGraph(Gen& g)
{
    Graph r; const int kind = g.i(0, 2);
    if (kind == 0) { CartSpec s = genCart(g, 60, 0, true); GridPtr G = makeCart(s); r.nc = G->number_of_cells; r.nb.assign(G->face_cells, G->face_cells + 2 * G->number_of_faces); r.kind = "grid " + s.str(); }
    else {
        r.nc = g.size(1, 40); const int m = g.i(1, kind == 1 ? r.nc : 3 * r.nc); r.kind = pbt::fmt("graph %d cells", r.nc);
        for (int k = 0; k < m; ++k) {
            int a = g.i(0, r.nc - 1), b = kind == 1 ? std::min(r.nc - 1, a + 1) : g.i(0, r.nc - 1);
            if (g.p(1, 6) || a == b) b = -1;
            if (g.b()) std::swap(a, b);
            r.nb.push_back(a); r.nb.push_back(b);
        }
    }
    return r;
}
std::vector<int> blocksFor(Gen& g, int nc) { std::vector<int> p(nc); const int m = g.i(1, std::max(1, std::min(nc, g.b() ? 4 : 20))); for (int& x : p) x = g.i(0, m - 1); return p; }

void split(Gen& g, Ctx& c)
{
    const Graph r = genGraph(g); const std::vector<int> p = blocksFor(g, r.nc); std::vector<int> q(p);
    c.desc() << r.kind << " neighbours " << show(r.nb, 120) << " p " << show(p, 60);
    const int nn = (int) r.nb.size() / 2;
    UF u(r.nc); for (int k = 0; k < nn; ++k) { const int a = r.nb[2 * k], b = r.nb[2 * k + 1]; if (a >= 0 && b >= 0 && p[a] == p[b]) u.join(a, b); }
    const int ret = partition_split_disconnected(r.nc, nn, &r.nb[0], &q[0]);
    std::set<int> comps, blocks(p.begin(), p.end()); for (int i = 0; i < r.nc; ++i) comps.insert(u.find(i));
    c.nontrivial(comps.size() > blocks.size());
    c.check(ret == (int) comps.size() - (int) blocks.size(), "split-count", "returned %d, %d components of %d blocks", ret, (int) comps.size(), (int) blocks.size());
    std::map<int, int> c2b; std::map<int, int> b2c;
    for (int i = 0; i < r.nc; ++i) {
        const int k = u.find(i);
        c.check(!c2b.count(k) || c2b[k] == q[i], "split", "cell %d: connected cells of block %d were put in blocks %d and %d", i, p[i], c2b[k], q[i]); c2b[k] = q[i];
        c.check(!b2c.count(q[i]) || b2c[q[i]] == k, "split", "cell %d: block %d is still disconnected", i, q[i]); b2c[q[i]] = k;
    }
    // old numbers survive in one component of each block; new numbers follow the old ones without holes
    const int mx = *std::max_element(p.begin(), p.end());
    for (int b : blocks) { int n = 0; for (auto& e : c2b) if (e.second == b) ++n; c.check(n == 1, "split-keeps", "block %d disappeared", b); }
    for (int i = 0; i < r.nc; ++i) c.check(q[i] == p[i] || (q[i] > mx && q[i] <= mx + ret), "split-keeps", "cell %d moved from block %d to %d", i, p[i], q[i]);
}
void colours(Gen& g, Ctx& c)
{
    const int n = g.size(1, 30); std::vector<std::vector<int> > adj(n); UF u(n);
    const int m = g.i(0, 2 * n); const bool self = g.b(), path = g.b();
    for (int k = 0; k < m; ++k) { const int a = g.i(0, n - 1), b = path ? std::min(a + 1, n - 1) : g.i(0, n - 1); if (a == b && !self) continue; adj[a].push_back(b); if (a != b) adj[b].push_back(a); u.join(a, b); }
    if (self) for (int i = 0; i < n; ++i) if (g.b()) adj[i].insert(adj[i].begin() + g.i(0, (int) adj[i].size()), i);
    std::vector<int> ia(1, 0), ja; for (auto& r : adj) { ja.insert(ja.end(), r.begin(), r.end()); ia.push_back((int) ja.size()); }
    c.desc() << "ia " << show(ia, 60) << " ja " << show(ja, 100);
    std::set<int> comps; for (int i = 0; i < n; ++i) comps.insert(u.find(i));
    c.nontrivial(comps.size() > 1 && (int) comps.size() < n); c.label("self", self);
    const std::vector<int> ia0(ia), ja0(ja);
    ja.shrink_to_fit();
    std::vector<int> col(n, -5), work(2 * n); int nc = -1;
    dfs(n, &ia[0], ja.data(), &nc, &col[0], &work[0]);
    c.check(nc == (int) comps.size(), "colours", "%d colours for %d components", nc, (int) comps.size());
    std::map<int, int> seen;
    for (int i = 0; i < n; ++i) {
        c.check(col[i] >= 0 && col[i] < nc, "colours", "node %d has colour %d", i, col[i]);
        c.check(!seen.count(col[i]) || seen[col[i]] == u.find(i), "colours", "colour %d covers two components", col[i]); seen[col[i]] = u.find(i);
    }
    c.check(ia == ia0 && ja == ja0, "colours", "the graph was changed");
}
void hashset(Gen& g, Ctx& c)
{
    const int cap = g.i(0, 20), n = g.i(0, 60); const int kind = g.i(0, 2);
    hash_set* s = hash_set_allocate(cap); std::set<int> ref; std::vector<int> ins; std::string bad;
    for (int k = 0; k < n && bad.empty(); ++k) {
        const int v = kind == 0 ? g.i(0, 15) : kind == 1 ? g.i(0, 2147483647) : 64 * g.i(0, 100);
        ins.push_back(v);
        const int r = hash_set_insert(v, s); ref.insert(v);
        if (r != v) bad = pbt::fmt("insert of %d returned %d", v, r);
        if (hash_set_count_elms(s) != ref.size()) bad = pbt::fmt("after inserting %d the set counts %d elements instead of %d", v, (int) hash_set_count_elms(s), (int) ref.size());
    }
    std::vector<int> got; for (size_t k = 0; k < s->m; ++k) if (s->s[k] != -1) got.push_back(s->s[k]);
    const bool pow2 = s->m > 0 && (s->m & (s->m - 1)) == 0 && s->m >= ref.size();
    hash_set_deallocate(s);
    c.desc() << "capacity " << cap << " insert " << show(ins, 80); c.nontrivial(ref.size() > 1 && ref.size() < ins.size());
    c.check(bad.empty(), "insert", "%s", bad.c_str());
    std::sort(got.begin(), got.end());
    c.check(got == std::vector<int>(ref.begin(), ref.end()), "elements", "the set holds %s", show(got, 80).c_str());
    c.check(pow2, "capacity", "capacity is not a sufficient power of two");
}
void coarse(Gen& g, Ctx& c)
{
    const Graph r = genGraph(g); std::vector<int> p = blocksFor(g, r.nc);
    const int expect = g.p(1, 4) ? 0 : g.i(1, 12); const int nf = (int) r.nb.size() / 2;
    c.desc() << r.kind << " neighbours " << show(r.nb, 120) << " p " << show(p, 60) << " expected " << expect;
    std::map<std::pair<int, int>, std::set<int> > ref;
    for (int f = 0; f < nf; ++f) { int a = r.nb[2 * f], b = r.nb[2 * f + 1]; a = a < 0 ? -1 : p[a]; b = b < 0 ? -1 : p[b]; if (a != b) ref[std::make_pair(std::min(a, b), std::max(a, b))].insert(f); }
    std::unique_ptr<coarse_topology, void (*)(coarse_topology*)> t(coarse_topology_create(r.nc, nf, expect, &p[0], &r.nb[0]), coarse_topology_destroy);
    c.check(!!t, "null", "no coarse grid");
    const int nb = *std::max_element(p.begin(), p.end()) + 1;
    c.nontrivial(nb > 1 && nb < r.nc);
    c.check(t->nblocks == nb, "blocks", "%d blocks instead of %d", t->nblocks, nb);
    c.check(t->nfaces == (int) ref.size(), "faces", "%d coarse faces instead of %d", t->nfaces, (int) ref.size());
    std::set<std::pair<int, int> > got;
    for (int f = 0; f < t->nfaces; ++f) {
        const int a = t->neighbours[2 * f], b = t->neighbours[2 * f + 1];
        const auto it = ref.find(std::make_pair(std::min(a, b), std::max(a, b)));
        c.check(it != ref.end(), "neighbours", "coarse face %d joins blocks %d and %d, which do not meet", f, a, b);
        c.check(got.insert(it->first).second, "neighbours", "two coarse faces join blocks %d and %d", a, b);
        c.check(a >= 0, "neighbours", "coarse face %d has its first block outside", f);
        if (expect > 0) {
            c.check(t->subfacepos && t->subfaces, "fine-faces", "no list of fine faces");
            std::vector<int> s(t->subfaces + t->subfacepos[f], t->subfaces + t->subfacepos[f + 1]); std::sort(s.begin(), s.end());
            c.check(s == std::vector<int>(it->second.begin(), it->second.end()), "fine-faces", "coarse face %d (blocks %d, %d) consists of fine faces %s, expected %s", f, a, b, show(s).c_str(), show(std::vector<int>(it->second.begin(), it->second.end())).c_str());
        } else c.check(!t->subfacepos && !t->subfaces, "fine-faces", "unrequested list of fine faces");
    }
    for (int b = 0; b < nb; ++b) {
        std::vector<int> l(t->blkfaces + t->blkfacepos[b], t->blkfaces + t->blkfacepos[b + 1]), w;
        for (int f = 0; f < t->nfaces; ++f) if (t->neighbours[2 * f] == b || t->neighbours[2 * f + 1] == b) w.push_back(f);
        std::sort(l.begin(), l.end());
        c.check(l == w, "block-faces", "block %d lists coarse faces %s, has %s", b, show(l).c_str(), show(w).c_str());
    }
}
} // namespace

pbt::Spec pbt::spec()
{
    return { "C20", "logical sizes up to 200 and block counts up to the sizes, all or some cells in any order; partitions with holes; neighbourships of Cartesian grids, chains and arbitrary multigraphs with boundary faces; integer keys of any size; non-trivial: more than one block and fewer blocks than cells, holes, disconnected blocks, several components, or repeated keys",
             { "no more blocks than cells in any direction", "every fine face has a cell on at least one side" },
             300000, 6000000, { { "uniform", 2, uniform }, { "compress", 2, compress }, { "split", 3, split }, { "colours", 2, colours }, { "hashset", 2, hashset }, { "coarse", 4, coarse } } };
}
