// C28: first-order time of flight and tracers: the upwind balance of every cell.
#include "transgen.hpp"
#include <iostream>
#include <opm/core/tof/TofReorder.hpp>

namespace {
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Conn { int face, other; double out; };       // out: flux out of the cell
std::vector<std::vector<Conn> > conns(const UnstructuredGrid& G, const std::vector<double>& v)
{
    std::vector<std::vector<Conn> > r(G.number_of_cells);
    for (int c = 0; c < G.number_of_cells; ++c) for (int h = G.cell_facepos[c]; h < G.cell_facepos[c + 1]; ++h) { const int f = G.cell_faces[h]; const bool a = G.face_cells[2 * f] == c; r[c].push_back({ f, G.face_cells[2 * f + (a ? 1 : 0)], a ? v[f] : -v[f] }); }
    return r;
}
// component of every cell in the directed flow graph
std::vector<int> strong(const std::vector<std::vector<Conn> >& q)
{
    const int n = q.size(); std::vector<std::vector<char> > reach(n, std::vector<char>(n, 0));
    for (int s = 0; s < n; ++s) { std::vector<int> st(1, s); while (!st.empty()) { const int a = st.back(); st.pop_back(); for (const Conn& k : q[a]) if (k.other >= 0 && k.out > 0 && !reach[s][k.other]) { reach[s][k.other] = 1; st.push_back(k.other); } } }
    std::vector<int> id(n, -1); for (int s = 0; s < n; ++s) if (id[s] < 0) { id[s] = s; if (reach[s][s]) for (int t = s + 1; t < n; ++t) if (reach[s][t] && reach[t][s]) id[t] = s; }
    return id;
}
struct Prob { Topo t; Flow w; std::vector<double> pv, src; };
// sources must sum to zero: what flows over the boundary is balanced there
bool balanceBoundary(Gen& g, const UnstructuredGrid& G, Flow& w)
{
    double S = 0; for (double x : w.q) S += x; if (S == 0) return true;
    const std::vector<int> b = boundaryFaces(G); if (b.empty()) return false;
    const int f = b[g.i(0, (int) b.size() - 1)]; const int c = std::max(G.face_cells[2 * f], G.face_cells[2 * f + 1]); w.v[f] += G.face_cells[2 * f] == c ? -S : S; w.q[c] -= S; w.bin[c] += S; return true;
}
void describe(Ctx& c, const Prob& k) { c.desc() << k.t.str() << " flux " << show(k.w.v, 80) << " source " << show(k.src, 40) << " pv " << show(k.pv, 40); }
void upwind(Gen& g, Ctx& c)
{
    Prob k; k.t = genTopo(g, 40); const UnstructuredGrid& G = k.t.G; const int nc = G.number_of_cells; if (!G.number_of_faces) throw pbt::Discard();
    k.w = genFlow(g, G); if (!balanceBoundary(g, G, k.w)) throw pbt::Discard(); k.src = k.w.q; genPorevol(g, nc, k.pv); if (g.p(1, 6)) for (double& x : k.pv) if (g.b()) x = 0; describe(c, k);
    bool any = false; for (double x : k.w.v) any = any || x != 0;
    const bool tracers = g.b(); std::vector<double> tof(g.i(0, 5), 7.0), tr(g.i(0, 5), 7.0); const std::vector<double> v(k.w.v), pv(k.pv), src(k.src);
    Opm::TofReorder T(G); const int rep = g.i(1, 2);
    for (int n = 0; n < rep; ++n) { Quiet q; if (tracers) T.solveTofTracer(&k.w.v[0], &k.pv[0], &k.src[0], tof, tr); else { if (n == 0 && g.b()) { std::vector<double> x, y; T.solveTofTracer(&k.w.v[0], &k.pv[0], &k.src[0], x, y); } T.solveTof(&k.w.v[0], &k.pv[0], &k.src[0], tof); } }
    if (g.p(1, 4)) { // a fresh object gives the same answer
        Opm::TofReorder F(G); std::vector<double> a, b; { Quiet z; if (tracers) F.solveTofTracer(&k.w.v[0], &k.pv[0], &k.src[0], a, b); else F.solveTof(&k.w.v[0], &k.pv[0], &k.src[0], a); }
        for (int i = 0; i < nc; ++i) c.check(tof[i] == a[i] || (tof[i] != tof[i] && a[i] != a[i]), "again", "cell %d: time of flight %.17g, %.17g from a fresh object", i, tof[i], a[i]);
    }
    c.check(v == k.w.v && pv == k.pv && src == k.src, "input", "an input array was changed"); c.check((int) tof.size() == nc, "size", "%zu values for %d cells", tof.size(), nc);
    const auto q = conns(G, k.w.v); const std::vector<int> id = strong(q); std::vector<int> heads; for (int i = 0; i < nc; ++i) if (k.src[i] > 0) heads.push_back(i); const int nt = tracers ? (int) heads.size() : 0; if (tracers) c.check((int) tr.size() == nt * nc, "size", "%zu tracer values for %d sources and %d cells", tr.size(), nt, nc);
    bool loops = false, deep = false, stagnant = false, mixed = false;
    std::vector<char> pure(nc, 1);        // fed by sources only, no circulation anywhere upstream
    for (int r = 0; r <= nc; ++r) for (int i = 0; i < nc; ++i) for (const Conn& x : q[i]) if (x.out < 0 && k.src[i] <= 0 && (x.other < 0 || !pure[x.other] || id[x.other] == id[i])) pure[i] = 0;
    for (int i = 0; i < nc; ++i) {
        LD out = std::max(0.0, -k.src[i]), up = 0, sz = k.pv[i]; bool own = true, in = false;
        for (const Conn& x : q[i]) { if (x.out > 0) out += x.out; else if (x.out < 0) { in = true; if (x.other >= 0) { up -= x.out * (LD) tof[x.other]; sz -= x.out * std::fabs((LD) tof[x.other]); if (id[x.other] == id[i]) own = false; deep = true; } } }
        if (out == 0) { stagnant = true; continue; }
        c.check(tof[i] >= 0, "negative", "cell %d has time of flight %.17g", i, tof[i]);
        if (!own) loops = true;
        else c.check(std::fabs(out * tof[i] - k.pv[i] - up) <= 1e-14L * (sz + out * std::fabs(tof[i])), "balance", "cell %d: outflow %Lg, pore volume %g, upstream %Lg, time of flight %.17g", i, out, k.pv[i], up, tof[i]);
        if (!own) { LD lo = k.pv[i] / out; c.check(tof[i] >= lo * (1 - 1e-12L), "loop", "cell %d on a circulation: time of flight %.17g is less than its own residence time %Lg", i, tof[i], lo); }
        LD sum = 0;
        for (int t = 0; t < nt; ++t) {
            const double y = tr[(size_t) i * nt + t]; sum += y; c.check(y >= 0 && y <= 1 + 1e-12, "tracer-range", "cell %d: tracer %d is %.17g", i, t, y);
            if (k.src[i] > 0) { if (in) mixed = true; c.check(y == (heads[t] == i), "tracer-source", "source cell %d: tracer of source %d is %.17g", i, heads[t], y); }
            else if (own) { LD e = 0; for (const Conn& x : q[i]) if (x.out < 0 && x.other >= 0) e -= x.out * (LD) tr[(size_t) x.other * nt + t]; c.check(std::fabs(out * y - e) <= 1e-13L * out, "tracer-balance", "cell %d: tracer %d is %.17g, brought in %Lg, outflow %Lg", i, t, y, e, out); }
        }
        if (nt && pure[i] ) c.check(std::fabs(sum - 1) <= 1e-12L, "tracer-sum", "cell %d: tracers sum to %.17Lg", i, sum);
        if (nt) c.check(sum <= 1 + 1e-12L, "tracer-sum", "cell %d: tracers sum to %.17Lg", i, sum);
    }
    c.label("circulation", loops); c.label("tracers", nt > 0); c.label("stagnant", stagnant); c.label("source with inflow", mixed); c.label("boundary", std::any_of(k.w.bin.begin(), k.w.bin.end(), [](double x) { return x != 0; })); c.nontrivial(deep && nc > 2);
}
// multidimensional upwinding on logically Cartesian cells
void multidim(Gen& g, Ctx& c)
{
    CartSpec s = genCart(g, 40, g.b() ? 2 : 3, false, g.p(1, 4)); GridPtr P = makeCart(s); const UnstructuredGrid& G = *P; const int nc = G.number_of_cells, d = G.dimensions; std::vector<double> pv;
    Flow w = genFlow(g, G); if (!balanceBoundary(g, G, w)) throw pbt::Discard(); genPorevol(g, nc, pv);
    c.desc() << s.str() << " flux " << show(w.v, 80) << " source " << show(w.q, 40) << " pv " << show(pv, 40);
    std::vector<double> tof; Opm::TofReorder T(G, true); { Quiet q; T.solveTof(&w.v[0], &pv[0], &w.q[0], tof); if (g.b()) {
        // the answer belongs to the arguments: what the same object solved before (here also the reversed flow) leaves no trace
        std::vector<double> rv(w.v), rq(w.q), first(tof); for (double& x : rv) x = -x; for (double& x : rq) x = -x; if (g.b()) T.solveTof(&rv[0], &pv[0], &rq[0], tof); T.solveTof(&w.v[0], &pv[0], &w.q[0], tof);
        for (int i = 0; i < nc; ++i) c.check(tof[i] == first[i] || (tof[i] != tof[i] && first[i] != first[i]), "again", "cell %d: time of flight %.17g at first, %.17g when solved again", i, first[i], tof[i]); } }
    const auto q = conns(G, w.v); const std::vector<int> id = strong(q);
    auto adj = [&](int f, int h) { int n = 0; for (int a = G.face_nodepos[f]; a < G.face_nodepos[f + 1]; ++a) for (int b = G.face_nodepos[h]; b < G.face_nodepos[h + 1]; ++b) n += G.face_nodes[a] == G.face_nodes[b]; return n == d - 1; };
    // own order: a cell is ready when all its upstream cells are done
    std::vector<char> done(nc, 0), bad(nc, 0); std::vector<LD> ft(G.number_of_faces, 0), val(nc, 0); bool more = true, cross = false, loops = false;
    for (int i = 0; i < nc; ++i) for (const Conn& x : q[i]) if (x.other >= 0 && x.out != 0 && id[x.other] == id[i]) { bad[i] = 1; loops = true; }
    while (more) {
        more = false;
        for (int i = 0; i < nc; ++i) {
            if (done[i] || bad[i]) continue; bool ready = true; for (const Conn& x : q[i]) if (x.out < 0 && x.other >= 0 && !done[x.other]) ready = false; if (!ready) continue;
            LD up = pv[i], den = std::max(0.0, -w.q[i]); std::vector<LD> A(q[i].size(), 0), B(q[i].size(), 0);
            for (size_t e = 0; e < q[i].size(); ++e) {
                const Conn& x = q[i][e]; if (x.out < 0) up -= x.out * ft[x.face]; if (!(x.out > 0)) continue;
                int n = 0; for (const Conn& y : q[i]) if (y.face != x.face && adj(x.face, y.face)) { ++n; const LD st = -y.out / (LD) x.out, om = st > 0 ? st / (1 + st) : 0; A[e] += om * ft[y.face]; B[e] += 1 - om; if (om > 0) cross = true; }
                A[e] /= n; B[e] /= n; up -= x.out * A[e]; den += x.out * B[e];
            }
            done[i] = 1; more = true; if (den == 0) { val[i] = -1; continue; }
            val[i] = up / den; for (size_t e = 0; e < q[i].size(); ++e) if (q[i][e].out > 0) ft[q[i][e].face] = A[e] + B[e] * val[i];
        }
    }
    LD big = 0; for (int i = 0; i < nc; ++i) big = std::max(big, val[i]);
    for (int i = 0; i < nc; ++i) {
        if (val[i] < 0) continue;
        if (done[i]) { c.check(std::fabs(tof[i] - val[i]) <= 1e-12L * big, "multidim", "cell %d: time of flight %.17g instead of %.17Lg", i, tof[i], val[i]); c.check(tof[i] >= -1e-12 * (double) big, "negative", "cell %d has time of flight %.17g", i, tof[i]); }
    }
    c.label("across corners", cross); c.label("circulation", loops); c.nontrivial(cross && nc > 2);
    bool threw = false; if (g.p(1, 10)) { try { Quiet z; std::vector<double> a, b; T.solveTofTracer(&w.v[0], &pv[0], &w.q[0], a, b); } catch (const std::exception&) { threw = true; } c.check(threw, "tracer", "tracers with multidimensional upwinding are not implemented, but were accepted"); }
}
}
pbt::Spec pbt::spec()
{
    return { "C28", "more than two cells, flow between cells (multidim: flow from one side face to another)",
             { "Flux fields balance exactly; sources sum to zero as the solver demands", "Cells on a circulation are solved once in some order (the solver says so); their balance is not judged", "Cells without any flow through them have no finite time of flight and no tracer composition", "Multidimensional upwinding is only offered for cells whose faces meet edge to edge (logically Cartesian grids)" },
             150000, 3000000, { { "upwind", 2, upwind }, { "multidim", 1, multidim } } };
}
