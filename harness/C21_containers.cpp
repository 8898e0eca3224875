// C21: boundary-condition and source containers.
#include "cpgen.hpp"
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/pressure/FlowBCManager.hpp>
#include <opm/core/pressure/tpfa/compr_source.h>
#include <opm/core/transport/implicit/transport_source.h>
namespace comprbc {
#include <opm/core/pressure/tpfa/compr_bc.h>
}

namespace {
struct Cond { FlowBCType type; std::vector<int> faces; double value; };
double val(Gen& g) { return g.p(1, 6) ? 0.0 : g.p(1, 6) ? -1e300 * g.real(0, 1) : g.real(-1e7, 1e7); }

void same(Ctx& c, const FlowBoundaryConditions& b, const std::vector<Cond>& ref, size_t step)
{
    c.check(b.nbc == ref.size(), "count", "after step %d: %d conditions instead of %d", (int) step, (int) b.nbc, (int) ref.size());
    c.check(b.cond_pos[0] == 0, "positions", "first condition starts at %d", (int) b.cond_pos[0]);
    for (size_t k = 0; k < ref.size(); ++k) {
        c.check(b.type[k] == ref[k].type && b.value[k] == ref[k].value, "entry", "after step %d condition %d is (type %d, %g), appended (type %d, %g)", (int) step, (int) k, b.type[k], b.value[k], ref[k].type, ref[k].value);
        c.check(b.cond_pos[k + 1] - b.cond_pos[k] == ref[k].faces.size(), "faces", "after step %d condition %d has %d faces instead of %d", (int) step, (int) k, (int) (b.cond_pos[k + 1] - b.cond_pos[k]), (int) ref[k].faces.size());
        for (size_t f = 0; f < ref[k].faces.size(); ++f) c.check(b.face[b.cond_pos[k] + f] == ref[k].faces[f], "faces", "after step %d condition %d face %d", (int) step, (int) k, (int) f);
    }
}
FlowBCType ty(Gen& g) { return g.oneof({ BC_NOFLOW, BC_PRESSURE, BC_FLUX_TOTVOL }); }

void flow(Gen& g, Ctx& c)
{
    const int cap = g.i(0, 6), n = g.size(0, 40);
    const bool viaManager = g.p(1, 3);
    std::unique_ptr<FlowBoundaryConditions, void (*)(FlowBoundaryConditions*)> own(flow_conditions_construct(cap), flow_conditions_destroy);
    Opm::FlowBCManager man;
    FlowBoundaryConditions* b = viaManager ? const_cast<FlowBoundaryConditions*>(man.c_bcs()) : own.get();
    c.check(!!own, "null", "no structure");
    c.desc() << "capacity " << cap << (viaManager ? " manager" : "");
    std::vector<Cond> ref; same(c, *b, ref, 0); int clears = 0, multi = 0;
    for (int k = 0; k < n; ++k) {
        if (g.p(1, 12)) { if (viaManager) man.clear(); else flow_conditions_clear(b); ref.clear(); ++clears; c.desc() << " clear"; }
        else {
            Cond d; d.type = ty(g); d.value = val(g);
            const int m = g.b() ? 1 : !viaManager && b->face && g.p(1, 8) ? 0 : g.size(1, 20); for (int q = 0; q < m; ++q) d.faces.push_back(g.i(0, 100000));
            int ok = 1;
            if (m == 1 && g.b()) { if (viaManager) man.append(d.type, d.faces[0], d.value); else ok = flow_conditions_append(d.type, d.faces[0], d.value, b); }
            else if (viaManager) { d.faces.resize(1); man.append(d.type, d.faces[0], d.value); }
            else { std::vector<int> f(d.faces); f.push_back(-7); ok = flow_conditions_append_multi(d.type, d.faces.size(), &f[0], d.value, b); f.assign(f.size(), -1); ++multi; c.label("condition on no face", m == 0); }
            c.check(ok == 1, "append", "append returned %d", ok);
            c.desc() << " +" << d.type << "/" << d.value << "/" << show(d.faces, 5);
            ref.push_back(d);
        }
        same(c, *b, ref, k + 1);
    }
    c.nontrivial(n > 2 && (clears || multi || n > 8)); c.label("cleared", clears > 0);
}
template <class Append, class Clear, class Check> void list(Gen& g, Ctx& c, Append append, Clear clear, Check check)
{
    const int n = g.size(0, 40); int clears = 0; size_t cnt = 0;
    check(0);
    for (int k = 0; k < n; ++k) { if (g.p(1, 12)) { clear(); cnt = 0; ++clears; c.desc() << " clear"; } else { append(); ++cnt; } check(cnt); }
    c.nontrivial(n > 2); c.label("cleared", clears > 0);
}
void transport(Gen& g, Ctx& c)
{
    const int cap = g.i(-1, 5), np = g.i(1, 3);
    c.check(create_transport_source(cap, 0) == 0 && create_transport_source(cap, -1) == 0, "phases", "a source without phases was created");
    std::unique_ptr<TransportSource, void (*)(TransportSource*)> s(create_transport_source(cap, np), destroy_transport_source);
    c.check(!!s, "null", "no structure"); c.desc() << "transport source capacity " << cap << " phases " << np;
    std::vector<std::vector<double> > ref;
    list(g, c, [&] {
        std::vector<double> r; r.push_back(g.i(0, 100000)); for (int k = 0; k < 2 + 2 * np; ++k) r.push_back(val(g));
        if (g.p(1, 8)) c.check(append_transport_source(1, np + 1, 0, 0, &r[0], &r[0], s.get()) <= 0, "wrong-phases", "a source with %d phases was accepted in a container for %d", np + 1, np);
        c.check(append_transport_source((int) r[0], np, r[1], r[2], &r[3], &r[3 + np], s.get()) > 0, "append", "append failed");
        c.desc() << " +" << show(r, 9); ref.push_back(r);
    }, [&] { clear_transport_source(s.get()); ref.clear(); }, [&](size_t n) {
        c.check(s->nsrc == (int) n && s->nphase == np, "count", "%d sources instead of %d", s->nsrc, (int) n);
        for (size_t k = 0; k < n; ++k) {
            c.check(s->cell[k] == (int) ref[k][0] && s->pressure[k] == ref[k][1] && s->flux[k] == ref[k][2], "entry", "source %d of %d", (int) k, (int) n);
            for (int p = 0; p < np; ++p) c.check(s->saturation[np * k + p] == ref[k][3 + p] && s->surfvolume[np * k + p] == ref[k][3 + np + p], "entry", "source %d of %d phase %d", (int) k, (int) n, p);
        }
    });
}
void compressible(Gen& g, Ctx& c)
{
    const int cap = g.i(-1, 5), np = g.i(1, 3);
    c.check(compr_src_allocate(0, cap) == 0 && compr_src_allocate(-2, cap) == 0, "phases", "a source without phases was created");
    std::unique_ptr<compr_src, void (*)(compr_src*)> s(compr_src_allocate(np, cap), compr_src_deallocate);
    c.check(!!s, "null", "no structure"); c.desc() << "compressible source capacity " << cap << " phases " << np;
    std::vector<std::vector<double> > ref;
    list(g, c, [&] {
        std::vector<double> r; r.push_back(g.i(0, 100000)); for (int k = 0; k < 1 + np; ++k) r.push_back(val(g));
        if (g.p(1, 8)) c.check(append_compr_source_term(1, np + 1, 0, &r[0], s.get()) <= 0, "wrong-phases", "a source with %d phases was accepted in a container for %d", np + 1, np);
        c.check(append_compr_source_term((int) r[0], np, r[1], &r[2], s.get()) > 0, "append", "append failed");
        c.desc() << " +" << show(r, 9); ref.push_back(r);
    }, [&] { clear_compr_source_term(s.get()); ref.clear(); }, [&](size_t n) {
        c.check(s->nsrc == (int) n && s->nphases == np, "count", "%d sources instead of %d", s->nsrc, (int) n);
        for (size_t k = 0; k < n; ++k) {
            c.check(s->cell[k] == (int) ref[k][0] && s->flux[k] == ref[k][1], "entry", "source %d of %d", (int) k, (int) n);
            for (int p = 0; p < np; ++p) c.check(s->saturation[np * k + p] == ref[k][2 + p], "entry", "source %d of %d phase %d", (int) k, (int) n, p);
        }
    });
}
void comprBc(Gen& g, Ctx& c)
{
    const int cap = g.i(-1, 5), np = g.i(1, 3);
    c.check(comprbc::compr_bc_allocate(0, cap) == 0, "phases", "conditions without phases were created");
    std::unique_ptr<comprbc::compr_bc, void (*)(comprbc::compr_bc*)> s(comprbc::compr_bc_allocate(np, cap), comprbc::compr_bc_deallocate);
    c.check(!!s, "null", "no structure"); c.desc() << "compressible conditions capacity " << cap << " phases " << np;
    std::vector<std::vector<double> > ref;
    list(g, c, [&] {
        std::vector<double> r; r.push_back(g.i(0, 100000)); r.push_back(g.b()); for (int k = 0; k < 2 + np; ++k) r.push_back(val(g));
        const auto t = r[1] ? comprbc::BC_RESV : comprbc::BC_PRESSURE;
        if (g.p(1, 8)) c.check(comprbc::compr_bc_append(t, 1, np + 1, 0, 0, &r[0], s.get()) <= 0, "wrong-phases", "a condition with %d phases was accepted in a container for %d", np + 1, np);
        c.check(comprbc::compr_bc_append(t, (int) r[0], np, r[2], r[3], &r[4], s.get()) > 0, "append", "append failed");
        c.desc() << " +" << show(r, 9); ref.push_back(r);
    }, [&] { comprbc::compr_bc_clear(s.get()); ref.clear(); }, [&](size_t n) {
        c.check(s->nbc == (int) n && s->nphases == np, "count", "%d conditions instead of %d", s->nbc, (int) n);
        for (size_t k = 0; k < n; ++k) {
            c.check(s->face[k] == (int) ref[k][0] && s->type[k] == (ref[k][1] ? comprbc::BC_RESV : comprbc::BC_PRESSURE) && s->press[k] == ref[k][2] && s->flux[k] == ref[k][3], "entry", "condition %d of %d", (int) k, (int) n);
            for (int p = 0; p < np; ++p) c.check(s->saturation[np * k + p] == ref[k][4 + p], "entry", "condition %d of %d phase %d", (int) k, (int) n, p);
        }
    });
}
void sides(Gen& g, Ctx& c)
{
    GridPtr G; std::string text; const bool cp = g.b(); double areaScale = 0;
    CpModel m; CartSpec s;
    if (cp) { m = genCp(g); grdecl d = m.decl(); G.reset(create_grid_cornerpoint(&d, 0.0)); text = m.str(); }
    else { s = genCart(g, 60, 0, false, g.i(0, 2)); G = makeCart(s); text = s.str(); }
    c.check(!!G, "null", "no grid");
    if (c.wantDesc()) c.desc() << text;
    const UnstructuredGrid& U = *G; (void) areaScale;
    Opm::FlowBCManager man; std::vector<Cond> ref;
    const int n = g.i(1, 4); bool any = false;
    for (int k = 0; k < n; ++k) {
        const int side = g.i(0, 2 * U.dimensions - 1);
        // geometric selection: outer cells of that side, boundary faces with the matching tag
        std::set<int> want; double area = 0;
        for (int i = 0; i < U.number_of_cells; ++i) {
            int q = U.global_cell ? U.global_cell[i] : i, ijk[3]; for (int d = 0; d < U.dimensions; ++d) { ijk[d] = q % U.cartdims[d]; q /= U.cartdims[d]; }
            if (ijk[side / 2] != (side % 2 ? U.cartdims[side / 2] - 1 : 0)) continue;
            for (int h = U.cell_facepos[i]; h < U.cell_facepos[i + 1]; ++h) if (U.cell_facetag[h] == side) { want.insert(U.cell_faces[h]); area += U.face_areas[U.cell_faces[h]]; }
        }
        if (want.empty()) continue;
        any = true;
        const double v = val(g); const bool pressure = g.b();
        c.desc() << " side " << side << (pressure ? " pressure " : " flux ") << v;
        const size_t before = man.c_bcs()->nbc;
        if (pressure) man.pressureSide(U, (Opm::FlowBCManager::Side) side, v); else man.fluxSide(U, (Opm::FlowBCManager::Side) side, v);
        const FlowBoundaryConditions& b = *man.c_bcs();
        std::set<int> got; double sum = 0;
        for (size_t q = before; q < b.nbc; ++q) {
            c.check(b.type[q] == (pressure ? BC_PRESSURE : BC_FLUX_TOTVOL), "side-type", "side %d: condition of type %d", side, b.type[q]);
            for (size_t f = b.cond_pos[q]; f < b.cond_pos[q + 1]; ++f) {
                c.check(got.insert(b.face[f]).second, "side-faces", "side %d: face %d twice", side, b.face[f]);
                if (pressure) c.check(b.value[q] == v, "side-value", "side %d: pressure %g instead of %g", side, b.value[q], v);
                else { c.check(b.cond_pos[q + 1] - b.cond_pos[q] == 1, "side-faces", "side %d: several faces share one flux", side); c.close(b.value[q], v * (U.face_areas[b.face[f]] / area), 1e-10, 0, "side-value", "side %d face %d flux", side, b.face[f]); sum += b.value[q]; }
            }
        }
        c.check(got == want, "side-faces", "side %d: %d faces instead of %d", side, (int) got.size(), (int) want.size());
        for (int f : got) c.check(U.face_cells[2 * f] == -1 || U.face_cells[2 * f + 1] == -1, "side-boundary", "side %d: face %d is not on the boundary", side, f);
        if (!pressure) c.close(sum, v, 1e-9, 0, "side-total", "side %d total flux", side);
        // earlier conditions untouched
        ref.resize(before); same(c, *std::unique_ptr<FlowBoundaryConditions>(new FlowBoundaryConditions(b)), ref = [&] { std::vector<Cond> r(ref); for (size_t q = before; q < b.nbc; ++q) { Cond d; d.type = b.type[q]; d.value = b.value[q]; d.faces.assign(b.face + b.cond_pos[q], b.face + b.cond_pos[q + 1]); r.push_back(d); } return r; }(), k);
        if (g.p(1, 6)) { man.clear(); ref.clear(); c.desc() << " clear"; }
    }
    c.nontrivial(any && U.number_of_cells > 1); c.label("corner-point", cp);
}
} // namespace

pbt::Spec pbt::spec()
{
    return { "C21", "histories of up to 40 appends (single and multi-face) and clears from any initial capacity, 1-3 phases; all sides of Cartesian, layered and faulted corner-point grids with inactive cells; non-trivial: more than two operations, or a side with faces",
             { "sides without any face are not used (the total flux could not be distributed)" },
             200000, 4000000, { { "flow", 3, flow }, { "transport", 2, transport }, { "compressible", 2, compressible }, { "comprbc", 2, comprBc }, { "sides", 3, sides } } };
}
