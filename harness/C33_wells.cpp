// C33: well container histories against a plain model.
#include "common.hpp"
#include <opm/core/wells.h>
#include <opm/core/wells/WellsManager.hpp>

namespace {
struct Ctrl { WellControlType type; double target; bool hasDistr; std::vector<double> distr; };
struct Well { WellType type; double depth; std::vector<double> comp, WI; std::vector<int> cells; bool hasName; std::string name; std::vector<Ctrl> ctrls; int current; };
typedef std::vector<Well> Model;
typedef std::unique_ptr<Wells, void (*)(Wells*)> Ptr;

double num(Gen& g) { return g.p(1, 6) ? 0.0 : g.p(1, 8) ? -1e100 : g.p(1, 8) ? 1e300 * g.real(-1, 1) : g.real(-1e4, 1e4); }

void same(Ctx& c, const Wells& W, const Model& M, int np, const char* when)
{
    c.check(W.number_of_wells == (int) M.size() && W.number_of_phases == np, "counts", "%s: %d wells of %d phases instead of %d of %d", when, W.number_of_wells, W.number_of_phases, (int) M.size(), np);
    c.check(W.well_connpos[0] == 0, "connections", "%s: first connection at %d", when, W.well_connpos[0]);
    for (size_t w = 0; w < M.size(); ++w) {
        const Well& m = M[w]; const int b = W.well_connpos[w], n = W.well_connpos[w + 1] - b;
        c.check(W.type[w] == m.type && W.depth_ref[w] == m.depth, "well", "%s: well %d has type %d and depth %g", when, (int) w, W.type[w], W.depth_ref[w]);
        for (int p = 0; p < np; ++p) c.check(W.comp_frac[np * w + p] == m.comp[p], "composition", "%s: well %d phase %d: %g instead of %g", when, (int) w, p, W.comp_frac[np * w + p], m.comp[p]);
        c.check(n == (int) m.cells.size(), "connections", "%s: well %d has %d connections instead of %d", when, (int) w, n, (int) m.cells.size());
        for (int k = 0; k < n; ++k) c.check(W.well_cells[b + k] == m.cells[k] && W.WI[b + k] == m.WI[k], "connections", "%s: well %d connection %d is (%d, %g) instead of (%d, %g)", when, (int) w, k, W.well_cells[b + k], W.WI[b + k], m.cells[k], m.WI[k]);
        c.check(m.hasName ? W.name[w] && m.name == W.name[w] : !W.name[w], "name", "%s: well %d is called '%s' instead of '%s'", when, (int) w, W.name[w] ? W.name[w] : "(null)", m.name.c_str());
        const WellControls* q = W.ctrls[w]; c.check(q && q->num == (int) m.ctrls.size() && q->current == m.current, "controls", "%s: well %d has %d controls, current %d, instead of %d, %d", when, (int) w, q ? q->num : -1, q ? q->current : -99, (int) m.ctrls.size(), m.current);
        for (int k = 0; k < q->num; ++k) {
            c.check(q->type[k] == m.ctrls[k].type && q->target[k] == m.ctrls[k].target, "control", "%s: well %d control %d is (%d, %g) instead of (%d, %g)", when, (int) w, k, q->type[k], q->target[k], m.ctrls[k].type, m.ctrls[k].target);
            if (m.ctrls[k].hasDistr) for (int p = 0; p < np; ++p) c.check(q->distr[np * k + p] == m.ctrls[k].distr[p], "distribution", "%s: well %d control %d phase %d: %g instead of %g", when, (int) w, k, p, q->distr[np * k + p], m.ctrls[k].distr[p]);
        }
    }
}

void history(Gen& g, Ctx& c)
{
    const int np = g.i(1, 3), cw = g.i(0, 5), cp = g.i(0, 8), n = g.size(0, 60);
    Ptr W(create_wells(np, cw, cp), destroy_wells); c.check(!!W, "null", "no structure"); Model M;
    c.desc() << np << " phases, capacity " << cw << "/" << cp << ":"; same(c, *W, M, np, "new");
    int adds = 0, ctrls = 0, clears = 0, clones = 0;
    for (int s = 0; s < n; ++s) {
        const int op = M.empty() ? 0 : g.i(0, 9); const int w = M.empty() ? 0 : g.i(0, M.size() - 1);
        if (op <= 2) {
            Well m; m.type = g.b() ? INJECTOR : PRODUCER; m.depth = num(g); const int k = g.p(1, 8) ? 0 : g.i(1, 5); const bool comp = g.i(0, 3), wi = g.i(0, 4); m.hasName = g.i(0, 5); m.current = -1;
            for (int p = 0; p < np; ++p) m.comp.push_back(comp ? g.real(0, 1) : 0.0);
            for (int q = 0; q < k; ++q) { m.cells.push_back(g.i(0, 1000)); m.WI.push_back(wi ? num(g) : 0.0); }
            if (m.hasName) { const int l = g.i(0, 12); for (int q = 0; q < l; ++q) m.name += char(g.i(33, 126)); }
            { std::string name(m.name); std::vector<double> cf(m.comp), WI(m.WI); std::vector<int> cells(m.cells); // the container must copy
              c.check(add_well(m.type, m.depth, k, comp ? &cf[0] : 0, cells.data(), wi ? WI.data() : 0, m.hasName ? name.c_str() : 0, W.get()) != 0, "add", "add_well failed"); }
            M.push_back(m); ++adds; c.desc() << " add(" << k << (m.hasName ? "" : ", unnamed") << (comp ? "" : ", no fractions") << (wi ? "" : ", no indices") << ")";
        } else if (op <= 5) {
            Ctrl q; q.type = g.oneof({ BHP, RESERVOIR_RATE, SURFACE_RATE }); q.target = num(g); q.hasDistr = q.type != BHP || g.i(0, 2); for (int p = 0; p < np; ++p) q.distr.push_back(g.real(-1, 1));
            { std::vector<double> d(q.distr); c.check(append_well_controls(q.type, q.target, q.hasDistr ? &d[0] : 0, w, W.get()) != 0, "append", "append_well_controls failed"); }
            M[w].ctrls.push_back(q); ++ctrls; c.desc() << " control(" << w << (q.hasDistr ? ")" : ", no distribution)");
        } else if (op == 6) { clear_well_controls(w, W.get()); M[w].ctrls.clear(); ++clears; c.desc() << " clear(" << w << ")"; }
        else if (op == 7) { const int k = (int) M[w].ctrls.size(), q = k && g.i(0, 4) ? g.i(0, k - 1) : -1 - g.i(0, 2); set_current_control(w, q, W.get()); M[w].current = q; c.desc() << " current(" << w << ", " << q << ")"; }
        else if (op == 8) { // a copy says the same and is independent
            ++clones; c.desc() << " clone"; const bool man = g.p(1, 3);
            if (man) { Opm::WellsManager m(W.get()); c.check(m.c_wells() && m.c_wells() != W.get(), "clone", "manager does not hold a copy"); same(c, *m.c_wells(), M, np, "managed copy"); }
            else {
                Ptr C(clone_wells(W.get()), destroy_wells); c.check(!!C && C.get() != W.get(), "clone", "no copy"); same(c, *C, M, np, "copy"); const Model old(M); Model* target = &M;
                const bool swap = g.b(); if (swap) { W.swap(C); c.desc() << "(swap)"; }
                for (int w2 = 0; w2 < (int) M.size() && w2 < 2; ++w2) { const double d[3] = { 1, 2, 3 }; append_well_controls(SURFACE_RATE, 17.0 + w2, d, w2, W.get()); Ctrl q; q.type = SURFACE_RATE; q.target = 17.0 + w2; q.hasDistr = true; q.distr.assign(d, d + np); (*target)[w2].ctrls.push_back(q); }
                same(c, *W, M, np, "changed original"); same(c, *C, old, np, "copy after change"); C.reset(); same(c, *W, M, np, "after destruction of the copy");
            }
        } else { Ptr C(clone_wells(0), destroy_wells); c.check(!C, "clone", "copy of nothing"); }
        if (g.p(1, 3) || s == n - 1) same(c, *W, M, np, "history");
    }
    c.nontrivial(adds >= 2 && ctrls >= 2 && (clears || clones)); c.label("clear", clears > 0); c.label("clone", clones > 0); c.label("growth", adds > cw); same(c, *W, M, np, "end");
}
}
pbt::Spec pbt::spec()
{
    return { "C33", "Random histories of up to 60 calls of add_well, append_well_controls, clear_well_controls, set_current_control and clone_wells (also through WellsManager) on containers of any initial capacity, with absent names, fractions, indices and distributions; after (about every third) call everything readable is compared with a list of the arguments given. Non-trivial: two wells, two controls and a clear or clone.",
             { "arguments respect the documented ranges: existing well indices, current control below the number of controls (negative marks none)", "the distribution of a control given without one is not read" },
             200000, 4000000, { { "history", 1, history } } };
}
