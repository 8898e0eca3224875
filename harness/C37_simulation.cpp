// C37: complete two-phase simulations: conservation over the history, bounds, and agreement with the sequence of
// pressure and transport solves they stand for (components judged on their own by C16-C19, C23-C27, C38).
#include "incomp.hpp"
#include "bo2.hpp"
#include <boost/filesystem.hpp>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <opm/core/grid/ColumnExtract.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/pressure/CompressibleTpfa.hpp>
#include <opm/core/pressure/IncompTpfa.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/SimulatorCompressibleTwophase.hpp>
#include <opm/core/simulator/SimulatorIncompTwophase.hpp>
#include <opm/core/simulator/SimulatorReport.hpp>
#include <opm/core/simulator/SimulatorTimer.hpp>
#include <opm/core/transport/implicit/TransportSolverTwophaseImplicit.hpp>
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
#include <opm/core/utility/miscUtilities.hpp>
#include <opm/core/utility/miscUtilitiesBlackoil.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/wells/WellsManager.hpp>

namespace {
const double day = 86400;
// a solver that reports its failures
struct Lin : DenseSolver { using DenseSolver::solve; LinearSolverReport solve(const int n, const int nnz, const int* ia, const int* ja, const double* sa, const double* rhs, double* sol) const { LinearSolverReport r = DenseSolver::solve(n, nnz, ia, ja, sa, rhs, sol); if (!r.converged) throw std::runtime_error("singular system"); return r; } };
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
typedef std::vector<double> Vec;

// ---- what a run leaves behind
struct Snap { int step; Vec s, p, v, z; };
struct Log { std::vector<Snap> snaps; std::vector<Vec> cut, wells; Vec inj, prod, sat; bool threw = false; std::string why; double pv0 = 0, init[2]; bool cross = false, clipped = false; };
std::vector<Vec> table(const std::string& f) { std::ifstream is(f.c_str()); std::vector<Vec> r; std::string l; while (std::getline(is, l)) { std::istringstream k(l); Vec v; std::string t; while (k >> t) v.push_back(std::strtod(t.c_str(), 0)); r.push_back(v); } return r; }
Vec column(Ctx& c, const std::string& f) { c.check(boost::filesystem::exists(f), "output", "%s was not written", f.c_str()); Vec r; for (const Vec& v : table(f)) r.insert(r.end(), v.begin(), v.end()); return r; }
// pairs of numbers printed after a label
std::vector<Vec> printed(const std::string& out, const std::string& label) { std::vector<Vec> r; size_t p = 0; while ((p = out.find(label, p)) != std::string::npos) { p += label.size(); std::istringstream k(out.substr(p, 100)); Vec v; std::string t; for (int i = 0; i < 2 && k >> t; ++i) v.push_back(std::strtod(t.c_str(), 0)); r.push_back(v); } return r; }
void same(Ctx& c, const Vec& a, const Vec& b, double rtol, double scale, const char* what, const char* when) { c.check(a.size() == b.size(), what, "%s: %zu values instead of %zu", when, a.size(), b.size()); for (size_t i = 0; i < a.size(); ++i) c.check(a[i] == b[i] || std::fabs(a[i] - b[i]) <= rtol * (std::fabs(b[i]) + scale), what, "%s: entry %zu is %.17g instead of %.17g", when, i, a[i], b[i]); }
double maxabs(const Vec& v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }

struct Schedule { Vec len; int split; bool deck; std::string text() const { std::ostringstream o; o << len.size() << " steps of "; for (double x : len) o << x << " "; if (split) o << "restarted after " << split; return o.str(); } };
Schedule genSchedule(Gen& g, double dt) { Schedule s; const int n = g.i(1, 4); s.deck = g.b(); for (int i = 0; i < n; ++i) s.len.push_back(dt / day * (s.deck && i ? g.logreal(0.2, 3) : 1)); s.split = s.deck && n > 1 && g.p(1, 3) ? g.i(1, n - 1) : 0; return s; }
void timer(const Schedule& s, int upto, int from, Opm::SimulatorTimer& t)
{
    if (s.deck) { std::ostringstream o; o << "METRIC\nTSTEP\n"; for (int i = 0; i < upto; ++i) o << num(s.len[i]) << ' '; o << "/\n"; std::istringstream is(o.str()); Opm::EclipseGridParser P; P.read(is); t.init(P); }
    else { Opm::parameter::ParameterGroup q; q.disableOutput(); q.insertParameter("num_psteps", std::to_string(upto)); q.insertParameter("stepsize_days", num(s.len[0])); t.init(q); }
    t.setCurrentStepNum(from);
}
// ---- incompressible
struct Options { bool reorder = true, split = false, controls = false; int sub = 1, maxit = 30, piter = 50; double tol = 1e-9, ctol = 1.0, rtol = 0; bool loose = false; int interval = 1; std::string dir; };
// how hard the solvers try; what equals the documented default may be left out
void effort(Gen& g, Options& o, double P)
{
    const int m = g.i(0, 11); if (m <= 2) o.piter = 10; if (m == 2 || m == 3) { o.ctol = 1.0; o.loose = true; } if (m == 4) { o.rtol = P * g.logreal(1e-9, 1e-3); o.loose = true; }
}
void solverParams(Gen& g, Opm::parameter::ParameterGroup& P, const Options& o)
{
    if (o.tol != 1e-9 || g.b()) P.insertParameter("nl_tolerance", num(o.tol)); if (o.maxit != 30 || g.b()) P.insertParameter("nl_maxiter", std::to_string(o.maxit)); if (o.ctol != 1.0 || g.b()) P.insertParameter("nl_pressure_change_tolerance", num(o.ctol));
    if (o.piter != 10 || g.b()) P.insertParameter("nl_pressure_maxiter", std::to_string(o.piter)); if (o.rtol != 0 || g.b()) P.insertParameter("nl_pressure_residual_tolerance", num(o.rtol));
}
bool fixedPressure(const Problem& p) { if (p.bc) for (size_t k = 0; k < p.bc->nbc; ++k) if (p.bc->type[k] == BC_PRESSURE) return true; if (p.W) for (int w = 0; w < p.W->number_of_wells; ++w) { const WellControls* q = p.W->ctrls[w]; if (q->current >= 0 && q->type[q->current] == BHP) return true; } return false; }
void fracs(const Fluid& f, int c, const double* s, double* q) { q[0] = f.mob(c, s, 0); q[1] = f.mob(c, s, 1); const double t = q[0] + q[1]; q[0] /= t; q[1] /= t; }
struct Report { std::vector<Vec> cut, wells; };
void wellRow(const Fluid& f, const Wells& W, const Vec& s, const Opm::WellState& ws, double t, std::vector<Vec>& rows)
{
    Vec r(1, t / day);
    for (int w = 0; w < W.number_of_wells; ++w) { double q = 0, a = 0; for (int i = W.well_connpos[w]; i < W.well_connpos[w + 1]; ++i) { const double x = ws.perfRates()[i] * day; double m[2]; fracs(f, W.well_cells[i], &s[2 * W.well_cells[i]], m); q += x; a += x * (x > 0 ? W.comp_frac[2 * w] : m[0]); } r.push_back(ws.bhp()[w] / 1e5); r.push_back(q); r.push_back(q == 0 ? 0 : a / q); }
    rows.push_back(r);
}
Log reference(const Problem& p, const Opm::RockCompressibility* rock, const Vec& src, const Options& o, const Schedule& sch, Opm::TwophaseState& st, Opm::WellState& ws)
{
    const UnstructuredGrid& G = *p.a.G; const int nc = G.number_of_cells; Log L; Lin lin; Vec pv, pv0, ts; const double* grav = p.grav.empty() ? 0 : &p.grav[0];
    auto volumes = [&]() { Vec v(nc); for (int i = 0; i < nc; ++i) v[i] = G.cell_volumes[i] * p.fl.poro[i] * (rock ? rock->poroMult(st.pressure()[i]) : 1.0); return v; };
    auto snap = [&](int k) { Snap q; q.step = k; q.s = st.saturation(); q.p = st.pressure(); Opm::estimateCellVelocity(G, st.faceflux(), q.v); L.snaps.push_back(q); };
    try {
        Opm::IncompTpfa ps(G, p.fl, rock, lin, o.rtol, o.ctol, o.piter, grav, p.W.get(), src, p.bc.get());
        std::unique_ptr<Opm::TransportSolverTwophaseInterface> tr; Opm::TransportSolverTwophaseReorder* re = 0; pv = pv0 = volumes(); Opm::parameter::ParameterGroup none; none.disableOutput();
        if (o.reorder) tr.reset(re = new Opm::TransportSolverTwophaseReorder(G, p.fl, o.split ? grav : 0, o.tol, o.maxit)); else tr.reset(new Opm::TransportSolverTwophaseImplicit(G, p.fl, pv, grav, ps.getHalfTrans(), none));
        double t = 0, tinj[2] = { 0, 0 }, tprod[2] = { 0, 0 }, sv[2]; L.pv0 = 0; for (double x : pv) L.pv0 += x; Opm::computeSaturatedVol(pv, st.saturation(), L.init);
        L.cut.push_back(Vec(3, 0.0)); if (p.W) wellRow(p.fl, *p.W, st.saturation(), ws, 0, L.wells);
        for (size_t k = 0; k < sch.len.size(); ++k) {
            if (k == 0 || true) snap((int) k);
            const double dt = sch.len[k] * day; const Vec old(st.pressure()); ps.solve(dt, st, ws);
            if (!rock && !fixedPressure(p)) { double a = 0, b = 0, v = 0; for (int i = 0; i < nc; ++i) { a += old[i] * G.cell_volumes[i]; b += st.pressure()[i] * G.cell_volumes[i]; v += G.cell_volumes[i]; } for (double& x : st.pressure()) x += (a - b) / v; for (double& x : ws.bhp()) x += (a - b) / v; }
            if (rock) { pv0 = pv; pv = volumes(); }
            Opm::computeTransportSource(G, src, st.faceflux(), 1.0, p.W.get(), ws.perfRates(), ts);
            if (p.W) for (int w = 0; w < p.W->number_of_wells; ++w) for (int i = p.W->well_connpos[w]; i < p.W->well_connpos[w + 1]; ++i) L.cross = L.cross || (p.W->type[w] != INJECTOR && ws.perfRates()[i] > 0);
            double inj[2] = { 0, 0 }, prod[2] = { 0, 0 };
            for (int q = 0; q < o.sub; ++q) {
                const double h = dt / o.sub; Vec a(nc), b(nc); for (int i = 0; i < nc; ++i) { a[i] = pv0[i] + q * (pv[i] - pv0[i]) / o.sub; b[i] = pv0[i] + (q + 1) * (pv[i] - pv0[i]) / o.sub; } if (!rock) a = b = pv;
                tr->solve(&a[0], &ts[0], h, st);
                if (rock) for (int i = 0; i < nc; ++i) L.clipped = L.clipped || st.saturation()[2 * i] > 1 - 1e-6 || (o.split && (st.saturation()[2 * i] < p.fl.lo[i] || st.saturation()[2 * i] > p.fl.hi[i]));      // segregation works within the fluid's range
                for (int i = 0; i < nc; ++i) { if (ts[i] > 0) inj[0] += ts[i] * h; else if (ts[i] < 0) { double m[2]; fracs(p.fl, i, &st.saturation()[2 * i], m); for (int e = 0; e < 2; ++e) prod[e] -= ts[i] * h * m[e]; } }
                if (re && o.split && grav) re->solveGravity(&b[0], h, st);
                Vec row; row.push_back((t + (q + 1) * h) / day); row.push_back(prod[0] / (prod[0] + prod[1])); row.push_back((tprod[0] + prod[0]) / L.pv0); L.cut.push_back(row); if (p.W) wellRow(p.fl, *p.W, st.saturation(), ws, t + (q + 1) * h, L.wells);
            }
            t += dt; for (int e = 0; e < 2; ++e) { tinj[e] += inj[e]; tprod[e] += prod[e]; } Opm::computeSaturatedVol(pv, st.saturation(), sv);
            for (int e = 0; e < 2; ++e) { L.inj.push_back(tinj[e]); L.prod.push_back(tprod[e]); L.sat.push_back(sv[e]); }
        }
        snap((int) sch.len.size());
    } catch (const pbt::Fail&) { throw; } catch (const std::exception& e) { L.threw = true; L.why = e.what(); }
    return L;
}
void incomp(Gen& g, Ctx& c)
{
    Problem p = gen(g, c, g.b()); const UnstructuredGrid& G = *p.a.G; const int nc = G.number_of_cells; const double* grav = p.grav.empty() ? 0 : &p.grav[0]; Vec src(p.src); if (src.empty()) src.assign(nc, 0.0);
    if (p.fl.hi[0] - p.fl.lo[0] <= 0) throw pbt::Discard();
    Options o; o.reorder = g.i(0, 6); std::unique_ptr<Opm::RockCompressibility> rock;
    if (g.p(1, 4) && o.reorder && !p.singular) { Opm::parameter::ParameterGroup q; q.disableOutput(); q.insertParameter("rock_compressibility_pref", num(g.real(0, 2) * p.P / 1e5)); q.insertParameter("rock_compressibility", num(g.p(1, 6) ? 0.0 : g.logreal(1e-3, 0.1) / p.P * 1e5)); rock.reset(new Opm::RockCompressibility(q)); if (!rock->isActive() && g.b()) rock.reset(); }
    const Opm::RockCompressibility* active = rock && rock->isActive() ? rock.get() : 0;
    o.split = o.reorder && p.a.kind != 1 && G.dimensions == 3 && g.p(1, 3) && (!grav || (p.grav[0] == 0 && p.grav[1] == 0)); o.sub = g.b() ? 1 : g.i(2, 4); o.tol = g.b() ? 1e-9 : 1e-11; o.maxit = g.b() ? 30 : 300; o.ctol = 1e-7 * p.P; effort(g, o, p.P); const bool write = g.p(1, 3); o.interval = g.b() ? 1 : g.i(1, 3);
    Opm::TwophaseState st; st.init(G, 2); st.saturation() = genSats(g, p.fl); for (double& x : st.pressure()) x = p.P * g.real(0.5, 2); Opm::WellState ws; ws.init(p.W.get(), st);
    double dt = 1; // the time scale of the initial flow
    try { Quiet q; Opm::TwophaseState t(st); Opm::WellState u(ws); Lin lin; Opm::IncompTpfa ps(G, p.fl, lin, grav, p.W.get(), src, p.bc.get()); ps.solve(1.0, t, u); Vec ts; Opm::computeTransportSource(G, src, t.faceflux(), 1.0, p.W.get(), u.perfRates(), ts); double m = 0, off = 0; for (int i = 0; i < nc; ++i) { double in = std::fabs(ts[i]), net = ts[i]; for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) { const int f = G.cell_faces[h]; const double v = t.faceflux()[f]; in += std::fabs(v); if (G.face_cells[2 * f] >= 0 && G.face_cells[2 * f + 1] >= 0) net -= G.face_cells[2 * f] == i ? v : -v; } m = std::max(m, in / (G.cell_volumes[i] * p.fl.poro[i])); off = std::max(off, std::fabs(net) / (G.cell_volumes[i] * p.fl.poro[i])); } if (off > 1e-8 * m) { c.label("flow is roundoff"); throw pbt::Discard(); } if (m > 0 && m < 1e30) dt = g.logreal(0.01, 5) / m; double noise = 0, pm = maxabs(t.pressure()) + maxabs(st.pressure()); for (int i = 0; i < nc; ++i) { double T = 0; for (int h = G.cell_facepos[i]; h < G.cell_facepos[i + 1]; ++h) T += std::fabs(ps.getHalfTrans()[h]); const double s[2] = { 0.5, 0.5 }; T *= p.fl.mob(i, s, 0) + p.fl.mob(i, s, 1); noise = std::max(noise, T * pm * 1e-16 * dt / (G.cell_volumes[i] * p.fl.poro[i])); } if (active && noise > 1e-8) { c.label("pressure roundoff moves fluid"); throw pbt::Discard(); } } catch (const pbt::Discard&) { throw; } catch (const std::exception&) { throw pbt::Discard(); }
    Schedule sch = genSchedule(g, dt); c.desc() << "; " << sch.text() << " days, " << o.sub << " substeps" << (o.reorder ? "" : ", implicit") << (o.split ? ", segregation" : "") << (active ? ", compressible rock" : "") << " s " << show(st.saturation()) << " p " << show(st.pressure()) << " tol " << o.tol;
    Opm::TwophaseState rs(st); Opm::WellState rw(ws); Log L; const Vec s0(st.saturation()); { Quiet q; L = reference(p, active, src, o, sch, rs, rw); }
    const Opm::TwophaseState st0(st); const Opm::WellState ws0(ws); // the saturation solver may use up its iterations: it then warns, and goes on
    auto gaveUp = [&]() { if (o.maxit >= 300) return false; Options m(o); m.maxit = 2000; Opm::TwophaseState a(st0); Opm::WellState b(ws0); { Quiet q; reference(p, active, src, m, sch, a, b); } double e = 0; for (size_t i = 0; i < a.saturation().size(); ++i) e = std::max(e, std::fabs(a.saturation()[i] - rs.saturation()[i])); c.label("saturation iterations used up", e > 1e-9); return e > 1e-9; };
    // the simulation
    std::string out; bool threw = false; std::string why; std::string dir;
    Opm::parameter::ParameterGroup P; P.disableOutput(); P.insertParameter("output", write ? "true" : "false"); if (write) { dir = pbt::scratch() + "/sim"; boost::filesystem::remove_all(dir); P.insertParameter("output_dir", dir); const bool vtk = G.dimensions == 3 && g.p(1, 4); if (!vtk || g.b()) P.insertParameter("output_vtk", vtk ? "true" : "false"); c.label("vtk", vtk); if (o.interval > 1 || g.b()) P.insertParameter("output_interval", std::to_string(o.interval)); }
    if (!o.reorder || g.b()) P.insertParameter("use_reorder", o.reorder ? "true" : "false"); if (o.split || g.b()) P.insertParameter("use_segregation_split", o.split ? "true" : "false"); if (o.sub > 1 || g.b()) P.insertParameter("num_transport_substeps", std::to_string(o.sub));
    solverParams(g, P, o);
    Quiet quiet;
    try {
        Lin lin; Opm::WellsManager wm(p.W.get()); const bool wells = p.W.get() != 0; Opm::WellsManager none; Opm::WellsManager& W = wells ? wm : none; bool controls = wells && g.p(1, 4); if (controls) P.insertParameter("check_well_controls", "true"); int from = 0;
        while (from < (int) sch.len.size()) { const int upto = from == 0 && sch.split ? sch.split : (int) sch.len.size(); Opm::SimulatorTimer t; timer(sch, upto, from, t); Opm::SimulatorIncompTwophase sim(P, G, p.fl, rock.get(), W, src, p.bc.get(), lin, grav); const Opm::SimulatorReport rep = sim.run(t, st, ws); c.check(rep.pressure_time >= 0 && rep.transport_time >= 0 && rep.total_time >= rep.pressure_time, "report", "times %g %g %g", rep.pressure_time, rep.transport_time, rep.total_time); c.check(t.done() && t.currentStepNum() == upto, "steps", "the run ended at step %d of %d", t.currentStepNum(), upto); from = upto; }
        out = quiet.s.str();
    } catch (const pbt::Fail&) { throw; } catch (const std::exception& e) { threw = true; why = e.what(); }
    c.check(threw == L.threw, "gives-up", "the simulation %s, its solvers %s: %s%s", threw ? "gave up" : "finished", L.threw ? "gave up" : "finish", why.c_str(), L.why.c_str()); c.label("gave up", threw); if (threw) return;
    const int n = (int) sch.len.size(); c.label("segregation", o.split); c.label("rock", active); c.label("substeps", o.sub > 1); c.label("implicit", !o.reorder); c.label("restarted", sch.split > 0); c.label("several steps", n > 1); bool moved = false; for (int i = 0; i < nc; ++i) moved = moved || std::fabs(st.saturation()[2 * i] - s0[2 * i]) > 1e-3; c.label("moved", moved); c.nontrivial(moved && nc > 1);
    // it is the sequence of its solves
    const double ps = maxabs(rs.pressure()) + maxabs(L.snaps[0].p), fs = maxabs(rs.faceflux()), xt = 1e-6; same(c, st.saturation(), rs.saturation(), xt, 1, "saturation", "final saturations"); same(c, st.pressure(), rs.pressure(), xt, ps, "pressure", "final pressures"); same(c, st.faceflux(), rs.faceflux(), xt, fs, "flux", "final fluxes"); same(c, ws.bhp(), rw.bhp(), xt, ps, "well-pressure", "final well pressures"); same(c, ws.perfRates(), rw.perfRates(), xt, fs + maxabs(rw.perfRates()), "well-rate", "final well rates");
    // bounds
    for (int i = 0; i < nc; ++i) { const double s = st.saturation()[2 * i]; c.check(s + st.saturation()[2 * i + 1] == 1 || std::fabs(s + st.saturation()[2 * i + 1] - 1) < 1e-15, "sum", "saturations of cell %d are %g and %g", i, s, st.saturation()[2 * i + 1]); if (!o.reorder) continue; const double lo = active ? 0 : p.fl.lo[i], hi = active ? 1 : p.fl.hi[i]; c.check(s >= lo - 1e-6 && s <= hi + 1e-6, "bounds", "saturation of cell %d is %.17g, mobile range [%g, %g]", i, s, lo, hi); }
    // balance of each phase over the history, from the fluxes' own totals
    double through = 0; for (int e = 0; e < 2; ++e) through += L.inj[2 * (n - 1) + e] + L.prod[2 * (n - 1) + e];
    c.label("crossflow ignored", L.cross); if (o.reorder && !L.cross && !L.clipped && !(o.loose && active)) for (int e = 0; e < 2; ++e) { double now[2]; Vec pv(nc); for (int i = 0; i < nc; ++i) pv[i] = G.cell_volumes[i] * p.fl.poro[i] * (active ? active->poroMult(st.pressure()[i]) : 1.0); Opm::computeSaturatedVol(pv, st.saturation(), now); const double err = L.init[e] - now[e] + L.inj[2 * (n - 1) + e] - L.prod[2 * (n - 1) + e]; c.check(std::fabs(err) <= 1e-6 * (L.pv0 + through) || gaveUp(), "conservation", "phase %d: %.12g in place at first, %.12g at the end, %.12g injected, %.12g produced", e, L.init[e], now[e], L.inj[2 * (n - 1) + e], L.prod[2 * (n - 1) + e]); }
    // printed report (five digits)
    if (!sch.split) {
        const char* lab[] = { "Saturated volumes:", "Total inj volumes:", "Total prod volumes:", "Init - now - pr + inj:" };
        for (int k = 0; k < 4; ++k) { std::vector<Vec> r = printed(out, lab[k]); c.check((int) r.size() == n, "printed", "'%s' printed %zu times in %d steps", lab[k], r.size(), n); for (int t = 0; t < n; ++t) for (int e = 0; e < 2; ++e) { const double in = L.inj[2 * t + e], pr = L.prod[2 * t + e], sv = L.sat[2 * t + e], want = (k == 0 ? sv : k == 1 ? in : k == 2 ? pr : L.init[e] - sv - pr + in) / L.pv0, sc = std::fabs(want) * 1e-4 + 1e-6 * (1 + through / L.pv0); c.check((int) r[t].size() == 2 && std::fabs(r[t][e] - want) <= sc, "printed", "step %d: '%s' of phase %d is %g instead of %g", t, lab[k], e, r[t].size() == 2 ? r[t][e] : 0, want); } }
    }
    if (!write) return;
    c.label("files");
    for (const Snap& q : L.snaps) {
        const bool end = q.step == n; const bool there = end || q.step % o.interval == 0 || (sch.split && q.step == sch.split); const std::string f = pbt::fmt("/%03d.txt", q.step);
        if (!there) { c.check(!boost::filesystem::exists(dir + "/pressure" + f), "output", "pressure%s was written", f.c_str()); continue; }
        same(c, column(c, dir + "/saturation" + f), q.s, xt, 1, "saturation-file", f.c_str()); same(c, column(c, dir + "/pressure" + f), q.p, xt, ps + maxabs(q.p), "pressure-file", f.c_str()); same(c, column(c, dir + "/velocity" + f), q.v, xt, maxabs(q.v), "velocity-file", f.c_str());
    }
    if (sch.split) return;
    const std::vector<Vec> cut = table(dir + "/watercut.txt"), wr = table(dir + "/wellreport.txt"); c.check(cut.size() == L.cut.size(), "watercut", "%zu water cut records instead of %zu", cut.size(), L.cut.size());
    for (size_t k = 0; k < cut.size(); ++k) { c.check(cut[k].size() == 3, "watercut", "record %zu has %zu numbers", k, cut[k].size()); for (int e = 0; e < 3; ++e) { const double w = L.cut[k][e], tot = L.prod[2 * (n - 1)] + L.prod[2 * (n - 1) + 1]; if (e == 1 && !(tot > 1e-6 * L.pv0)) continue; const double ab = e == 1 ? 2e-5 : 1e-6; c.check((std::isnan(w) && std::isnan(cut[k][e])) || std::fabs(cut[k][e] - w) <= 1e-5 * std::fabs(w) + (e == 0 ? 0 : ab), "watercut", "record %zu of the water cut: %g %g %g, expected %g %g %g", k, cut[k][0], cut[k][1], cut[k][2], L.cut[k][0], L.cut[k][1], L.cut[k][2]); } }
    if (p.W) { c.check(wr.size() == L.wells.size(), "wellreport", "%zu well records instead of %zu", wr.size(), L.wells.size()); const double rsc = maxabs(rw.perfRates()) * day; for (size_t k = 0; k < wr.size(); ++k) { c.check(wr[k].size() == L.wells[k].size(), "wellreport", "record %zu has %zu numbers", k, wr[k].size()); for (size_t e = 0; e < wr[k].size(); ++e) { const double w = L.wells[k][e]; const bool frac = e && e % 3 == 0; if (frac && std::fabs(L.wells[k][e - 1]) < 1e-6 * rsc) continue; c.check(std::fabs(wr[k][e] - w) <= 1e-4 * std::fabs(w) + (e == 0 ? 0 : e % 3 == 1 ? 1e-6 * ps / 1e5 : e % 3 == 2 ? 1e-6 * rsc : 1e-3), "wellreport", "record %zu entry %zu of the well report is %g instead of %g", k, e, wr[k][e], w); } } }
}

// ---- compressible
struct Comp {
    AnyGrid a; Fluid fl; TwoBo bo; HalfTrans ht; Vec grav; WellsPtr W; double P, R, WI0, pvm; bool anchored = false, incompressible = false; std::vector<int> comp; int ncomp = 0;
    std::unique_ptr<Opm::RockCompressibility> rock; double cr = 0, pref = 0; const Opm::RockCompressibility* active() const { return cr != 0 ? rock.get() : 0; }
};
Comp genComp(Gen& g)
{
    Comp k; k.a = genGrid(g, 7, 30); const UnstructuredGrid& G = *k.a.G; const int d = G.dimensions, nc = G.number_of_cells; k.fl = genFluid(g, G, false, true); k.ht = halfTrans(G, &k.fl.K[0]); if (k.ht.worst > 1e6L) throw pbt::Discard(); for (LD t : k.ht.t) if (!(t > 0)) throw pbt::Discard();
    if (k.fl.hi[0] - k.fl.lo[0] <= 0) throw pbt::Discard();
    LD m = 0; for (LD t : k.ht.t) m += t; k.WI0 = (double) (m / k.ht.t.size()); k.P = k.WI0 < 1e-6 ? 1e6 : 1.0; k.R = k.WI0 * k.P / k.fl.mu[0]; k.comp = components(G, k.ncomp); k.pvm = 0; for (int i = 0; i < nc; ++i) k.pvm += k.fl.poro[i] * G.cell_volumes[i]; k.pvm /= nc;
    k.bo.gen(g, k.fl, g.p(5, 6)); for (int q = 0; q < 2; ++q) { k.bo.c[q] *= 0.5 / k.P; k.bo.m[q] /= k.P; }
    if (g.b()) { k.grav.assign(d, 0.0); k.grav[d - 1] = k.P > 1 ? 9.81 : 1e-4; }
    if (g.p(1, 3)) { k.pref = g.real(0, 2) * k.P; k.cr = g.p(1, 6) ? 0.0 : g.logreal(1e-3, 0.1) / k.P; Opm::parameter::ParameterGroup q; q.disableOutput(); q.insertParameter("rock_compressibility_pref", num(k.pref / 1e5)); q.insertParameter("rock_compressibility", num(k.cr * 1e5)); k.rock.reset(new Opm::RockCompressibility(q)); }
    k.incompressible = k.bo.c[0] == 0 && k.bo.c[1] == 0 && k.cr == 0; if (k.incompressible && k.ncomp > 1) throw pbt::Discard();
    if (g.p(7, 8) || k.incompressible) {
        const int nw = g.i(1, 3); k.W.reset(create_wells(2, 0, 0)); const double ones[2] = { 1, 1 }, frac[2] = { 1, 0 }; double sum = 0; int last = -1;
        for (int w = 0; w < nw; ++w) {
            const int np = g.size(1, std::min(nc, 4)); const std::vector<int> pc = g.perm(nc); std::vector<int> cells(pc.begin(), pc.begin() + np); Vec WI(np); for (double& x : WI) x = k.WI0 * g.logreal(0.1, 10); const bool inj = w == 0 ? g.p(3, 4) : g.p(1, 3);
            add_well(inj ? INJECTOR : PRODUCER, G.cell_centroids[d * cells[0] + d - 1] + (g.b() ? 0 : g.real(-3, 3)), np, frac, &cells[0], &WI[0], "W", k.W.get());
            const int n = g.i(1, 2); for (int q = 0; q < n; ++q) { const int t = k.incompressible ? g.i(0, 1) : g.i(0, 2); const double r = k.R * g.real(0, 0.5) * (inj ? 1 : -1); if (t == 0) append_well_controls(BHP, k.P * (inj ? g.real(1.5, 3) : g.real(0, 1)), 0, w, k.W.get()); else if (t == 1) append_well_controls(RESERVOIR_RATE, r, ones, w, k.W.get()); else append_well_controls(SURFACE_RATE, r * k.bo.b0[0], inj && g.b() ? frac : ones, w, k.W.get()); }
            set_current_control(w, g.p(1, 8) ? -1 : g.i(0, n - 1), k.W.get()); const WellControls* q = k.W->ctrls[w]; if (q->current >= 0) { if (q->type[q->current] == BHP) k.anchored = true; else { sum += q->target[q->current]; last = w; } }
        }
        if (k.incompressible && !k.anchored) { if (last < 0) throw pbt::Discard(); WellControls* q = k.W->ctrls[last]; q->target[q->current] -= sum; }
    }
    return k;
}
struct CLog : Log { Vec volinj, volprod; double w0 = 0; std::string cuts, wellrows; Vec balance, inplace; };
CLog referenceComp(const Comp& k, const Options& o, const Schedule& sch, Opm::BlackoilState& st, Opm::WellState& ws)
{
    const UnstructuredGrid& G = *k.a.G; const int nc = G.number_of_cells; CLog L; Lin lin; const double* grav = k.grav.empty() ? 0 : &k.grav[0];
    auto volumes = [&]() { Vec v(nc); for (int i = 0; i < nc; ++i) { const double q = k.cr * (st.pressure()[i] - k.pref); v[i] = G.cell_volumes[i] * k.fl.poro[i] * (1 + q + q * q / 2); } return v; };
    auto content = [&](const Vec& pv, double* w) { w[0] = w[1] = 0; for (int i = 0; i < nc; ++i) for (int e = 0; e < 2; ++e) w[e] += pv[i] * st.surfacevol()[2 * i + e]; };
    auto snap = [&](int n) { Snap q; q.step = n; q.s = st.saturation(); q.p = st.pressure(); q.z = st.surfacevol(); Opm::estimateCellVelocity(G, st.faceflux(), q.v); L.snaps.push_back(q); };
    try {
        Opm::CompressibleTpfa ps(G, k.bo, k.active(), lin, o.rtol, o.ctol, o.piter, grav, k.W.get()); Opm::TransportSolverCompressibleTwophaseReorder tr(G, k.bo, o.tol, o.maxit); std::vector<std::vector<int> > cols; if (o.split && grav) { tr.initGravity(grav); Opm::extractColumn(G, cols); }
        Vec pv = volumes(), src; double t = 0, tinj[2] = { 0, 0 }, tprod[2] = { 0, 0 }, w0[2], w[2]; for (double x : pv) L.pv0 += x; content(pv, w0); L.w0 = w0[0]; Opm::Watercut cut; cut.push(0, 0, 0); Opm::WellReport wr; if (k.W) wr.push(k.bo, *k.W, st.pressure(), st.surfacevol(), st.saturation(), 0, ws.bhp(), ws.perfRates());
        for (size_t n = 0; n < sch.len.size(); ++n) {
            snap((int) n); const double dt = sch.len[n] * day; const Vec old(st.pressure()); ps.solve(dt, st, ws);
            if (k.incompressible && !k.anchored) { double a = 0, b = 0, v = 0; for (int i = 0; i < nc; ++i) { a += old[i] * G.cell_volumes[i]; b += st.pressure()[i] * G.cell_volumes[i]; v += G.cell_volumes[i]; } for (double& x : st.pressure()) x += (a - b) / v; for (double& x : ws.bhp()) x += (a - b) / v; }
            const Vec pv0 = pv; pv = volumes(); double inj[2] = { 0, 0 }, prod[2] = { 0, 0 };
            // injected water as surface volumes, everything produced as reservoir volumes
            src.assign(nc, 0.0); if (k.W) for (int j = 0; j < k.W->number_of_wells; ++j) for (int i = k.W->well_connpos[j]; i < k.W->well_connpos[j + 1]; ++i) { double q = ws.perfRates()[i]; if (q > 0 && k.W->type[j] != INJECTOR) { L.cross = true; q = 0; } src[k.W->well_cells[i]] += q > 0 ? q * k.bo.b(0, ws.perfPress()[i]) : q; }
            for (int u = 0; u < o.sub; ++u) {
                const double h = dt / o.sub; Vec a(nc), b(nc); for (int i = 0; i < nc; ++i) { a[i] = pv0[i] + u * (pv[i] - pv0[i]) / o.sub; b[i] = pv0[i] + (u + 1) * (pv[i] - pv0[i]) / o.sub; }
                tr.solve(&st.faceflux()[0], &st.pressure()[0], &a[0], &b[0], &src[0], h, st.saturation(), st.surfacevol());
                for (int i = 0; i < nc; ++i) { L.clipped = L.clipped || st.saturation()[2 * i] > 1 - 1e-6; if (src[i] > 0) inj[0] += src[i] * h; else if (src[i] < 0) { double q[2]; k.fl.relperm(1, &st.saturation()[2 * i], &i, q, 0); for (int e = 0; e < 2; ++e) q[e] /= k.bo.mu(e, st.pressure()[i]); for (int e = 0; e < 2; ++e) prod[e] -= src[i] * h * q[e] / (q[0] + q[1]) * k.bo.b(e, st.pressure()[i]); } }
                if (o.split && grav) tr.solveGravity(cols, h, st.saturation(), st.surfacevol());
            }
            t += dt; for (int e = 0; e < 2; ++e) { tinj[e] += inj[e]; tprod[e] += prod[e]; } content(pv, w); for (int e = 0; e < 2; ++e) { L.inj.push_back(tinj[e]); L.prod.push_back(tprod[e]); L.sat.push_back(w[e]); L.volinj.push_back(inj[e]); L.volprod.push_back(prod[e]); L.balance.push_back(w0[e] - w[e] - tprod[e] + tinj[e]); }
            cut.push(t, prod[0] / (prod[0] + prod[1]), tprod[0] / L.pv0); if (k.W) wr.push(k.bo, *k.W, st.pressure(), st.surfacevol(), st.saturation(), t, ws.bhp(), ws.perfRates());
        }
        snap((int) sch.len.size()); std::ostringstream a, b; cut.write(a); if (k.W) wr.write(b); L.cuts = a.str(); L.wellrows = b.str();
    } catch (const pbt::Fail&) { throw; } catch (const std::exception& e) { L.threw = true; L.why = e.what(); }
    return L;
}
void texts(Ctx& c, const std::string& f, const std::string& want, double scale, const char* what)
{
    std::istringstream is(want); std::vector<Vec> b; std::string l; while (std::getline(is, l)) { std::istringstream k(l); Vec v; std::string t; while (k >> t) v.push_back(std::strtod(t.c_str(), 0)); b.push_back(v); }
    const std::vector<Vec> a = table(f); c.check(a.size() == b.size(), what, "%zu records instead of %zu", a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i) { c.check(a[i].size() == b[i].size(), what, "record %zu has %zu numbers instead of %zu", i, a[i].size(), b[i].size()); for (size_t j = 0; j < a[i].size(); ++j) if (std::string(what) != "wellreport" || j == 0 || j % 3 || std::fabs(b[i][j - 1]) > 1e-4 * scale) c.check((std::isnan(a[i][j]) && std::isnan(b[i][j])) || std::fabs(a[i][j] - b[i][j]) <= 1e-4 * std::fabs(b[i][j]) + (j ? scale : 0), what, "record %zu, number %zu: %g instead of %g", i, j, a[i][j], b[i][j]); }
}
void comp(Gen& g, Ctx& c)
{
    Comp k = genComp(g); const UnstructuredGrid& G = *k.a.G; const int nc = G.number_of_cells; const double* grav = k.grav.empty() ? 0 : &k.grav[0];
    Options o; o.split = k.a.kind != 1 && G.dimensions == 3 && g.p(1, 3); o.sub = g.b() ? 1 : g.i(2, 4); o.tol = g.b() ? 1e-9 : 1e-11; o.maxit = g.b() ? 30 : 300; o.ctol = 1e-8 * k.P; effort(g, o, k.P); const bool write = g.p(1, 3); o.interval = g.b() ? 1 : g.i(1, 3);
    Opm::BlackoilState st; st.init(G, 2); k.bo.f = &k.fl; st.saturation() = genSats(g, k.fl); st.surfacevol().resize(2 * nc); for (double& x : st.pressure()) x = k.P * g.real(0.8, 1.6); for (int i = 0; i < nc; ++i) for (int q = 0; q < 2; ++q) st.surfacevol()[2 * i + q] = k.bo.b(q, st.pressure()[i]) * st.saturation()[2 * i + q];
    Opm::WellState ws; { Opm::TwophaseState t; t.init(G, 2); t.pressure() = st.pressure(); ws.init(k.W.get(), t); }
    const double dt = k.pvm / k.R * g.logreal(0.003, 1); Schedule sch = genSchedule(g, dt);
    c.desc() << k.a.text << " c=(" << k.bo.c[0] << " " << k.bo.c[1] << ") b0=(" << k.bo.b0[0] << " " << k.bo.b0[1] << ") rock " << k.cr << " wells " << (k.W ? k.W->number_of_wells : 0) << (grav ? " gravity" : "") << "; " << sch.text() << " days, " << o.sub << " substeps" << (o.split ? ", segregation" : "") << " s " << show(st.saturation()) << " p " << show(st.pressure()) << " tol " << o.tol;
    Opm::BlackoilState rs(st); Opm::WellState rw(ws); CLog L; const Vec s0(st.saturation()); { Quiet q; L = referenceComp(k, o, sch, rs, rw); }
    const Opm::BlackoilState st0(st); const Opm::WellState ws0(ws);
    auto gaveUp = [&]() { if (o.maxit >= 300) return false; Options m(o); m.maxit = 2000; Opm::BlackoilState a(st0); Opm::WellState b(ws0); { Quiet q; referenceComp(k, m, sch, a, b); } double e = 0; for (size_t i = 0; i < a.saturation().size(); ++i) e = std::max(e, std::fabs(a.saturation()[i] - rs.saturation()[i])); c.label("saturation iterations used up", e > 1e-9); return e > 1e-9; };
    const Vec src(nc, 0.0); std::string out, why, dir; bool threw = false; Opm::parameter::ParameterGroup P; P.disableOutput(); P.insertParameter("output", write ? "true" : "false"); if (write) { dir = pbt::scratch() + "/sim"; boost::filesystem::remove_all(dir); P.insertParameter("output_dir", dir); const bool vtk = G.dimensions == 3 && g.p(1, 4); if (!vtk || g.b()) P.insertParameter("output_vtk", vtk ? "true" : "false"); if (o.interval > 1 || g.b()) P.insertParameter("output_interval", std::to_string(o.interval)); }
    if (o.split || g.b()) P.insertParameter("use_segregation_split", o.split ? "true" : "false"); if (o.sub > 1 || g.b()) P.insertParameter("num_transport_substeps", std::to_string(o.sub)); solverParams(g, P, o); if (g.p(1, 6)) P.insertParameter("check_well_controls", "true");
    Quiet quiet;
    try {
        Lin lin; Opm::WellsManager wm(k.W.get()), none; Opm::WellsManager& W = k.W ? wm : none; int from = 0;
        while (from < (int) sch.len.size()) { const int upto = from == 0 && sch.split ? sch.split : (int) sch.len.size(); Opm::SimulatorTimer t; timer(sch, upto, from, t); Opm::SimulatorCompressibleTwophase sim(P, G, k.bo, k.rock.get(), W, src, 0, lin, grav); sim.run(t, st, ws); c.check(t.done() && t.currentStepNum() == upto, "steps", "the run ended at step %d of %d", t.currentStepNum(), upto); from = upto; }
        out = quiet.s.str();
    } catch (const pbt::Fail&) { throw; } catch (const std::exception& e) { threw = true; why = e.what(); }
    c.check(threw == L.threw, "gives-up", "the simulation %s, its solvers %s: %s%s", threw ? "gave up" : "finished", L.threw ? "gave up" : "finish", why.c_str(), L.why.c_str()); c.label("gave up", threw); if (threw) return;
    for (double x : rs.pressure()) if (!(std::fabs(x) < 1e3 * k.P)) { c.label("pressure out of range"); throw pbt::Discard(); }
    const int n = (int) sch.len.size(); c.label("segregation", o.split && grav); c.label("rock", k.cr != 0); c.label("substeps", o.sub > 1); c.label("restarted", sch.split > 0); c.label("several steps", n > 1); c.label("incompressible", k.incompressible); c.label("clipped", L.clipped); c.label("crossflow ignored", L.cross); bool moved = false; for (int i = 0; i < nc; ++i) moved = moved || std::fabs(st.saturation()[2 * i] - s0[2 * i]) > 1e-3; c.label("moved", moved); c.nontrivial(moved && nc > 1);
    const double ps = maxabs(rs.pressure()) + maxabs(L.snaps[0].p), fs = maxabs(rs.faceflux()) + maxabs(rw.perfRates()), xt = 1e-6; same(c, st.saturation(), rs.saturation(), xt, 1, "saturation", "final saturations"); same(c, st.surfacevol(), rs.surfacevol(), xt, 1, "surface-volume", "final surface volumes"); same(c, st.pressure(), rs.pressure(), xt, ps, "pressure", "final pressures"); same(c, st.facepressure(), rs.facepressure(), xt, ps, "pressure", "final face pressures"); same(c, st.faceflux(), rs.faceflux(), xt, fs, "flux", "final fluxes"); same(c, ws.bhp(), rw.bhp(), xt, ps, "well-pressure", "final well pressures"); same(c, ws.perfRates(), rw.perfRates(), xt, fs, "well-rate", "final well rates"); same(c, ws.perfPress(), rw.perfPress(), xt, ps, "well-pressure", "final pressures at perforations");
    for (int i = 0; i < nc; ++i) { const double s = st.saturation()[2 * i]; c.check(std::fabs(s + st.saturation()[2 * i + 1] - 1) < 1e-14 && s >= -1e-9 && s <= 1 + 1e-9, "bounds", "saturations of cell %d are %.17g and %.17g", i, s, st.saturation()[2 * i + 1]); for (int q = 0; q < 2; ++q) { const double z = k.bo.b(q, st.pressure()[i]) * st.saturation()[2 * i + q]; c.check(std::fabs(st.surfacevol()[2 * i + q] - z) <= 1e-12 * k.bo.b(q, st.pressure()[i]), "surface-volume", "cell %d holds %.17g of phase %d instead of %.17g", i, st.surfacevol()[2 * i + q], q, z); } }
    double through = 0; for (int t = 0; t < n; ++t) through = std::max(through, L.inj[2 * t] + L.prod[2 * t]); const double scale = L.w0 + through + L.pv0 * k.bo.b0[0];
    if (!o.loose && !L.clipped && !L.cross && !(o.split && grav && k.bo.c[0] != 0)) {      // water balance from the state before and after
        double now = 0; for (int i = 0; i < nc; ++i) { const double q = k.cr * (st.pressure()[i] - k.pref); now += G.cell_volumes[i] * k.fl.poro[i] * (1 + q + q * q / 2) * st.surfacevol()[2 * i]; }
        const double err = L.w0 - now + L.inj[2 * (n - 1)] - L.prod[2 * (n - 1)]; c.check(std::fabs(err) <= 3e-6 * scale || gaveUp(), "conservation", "%.12g of water in place at first, %.12g at the end, %.12g injected, %.12g produced", L.w0, now, L.inj[2 * (n - 1)], L.prod[2 * (n - 1)]);
    }
    if (!sch.split) {
        const char* lab[] = { "Injected surface volumes:", "Produced surface volumes:", "Total inj surface volumes:", "Total prod surface volumes:", "Initial - inplace + inj - prod:" }; const Vec* val[] = { &L.volinj, &L.volprod, &L.inj, &L.prod, &L.balance };
        for (int q = 0; q < 5; ++q) { std::vector<Vec> r = printed(out, lab[q]); c.check((int) r.size() == n, "printed", "'%s' printed %zu times in %d steps", lab[q], r.size(), n); for (int t = 0; t < n; ++t) for (int e = 0; e < 2; ++e) { const double w = (*val[q])[2 * t + e], sc = e ? (L.sat[1] + L.inj[2 * t + 1] + L.prod[2 * t + 1] + L.pv0 * k.bo.b0[1]) : scale; c.check((int) r[t].size() == 2 && std::fabs(r[t][e] - w) <= 1e-4 * std::fabs(w) + 1e-5 * sc * (q == 4 ? 1 : 0) + 1e-7 * sc, "printed", "step %d: '%s' of phase %d is %g instead of %g", t, lab[q], e, r[t].size() == 2 ? r[t][e] : 0, w); } }
    }
    if (!write) return;
    c.label("files");
    for (const Snap& q : L.snaps) {
        const bool end = q.step == n, there = end || q.step % o.interval == 0 || (sch.split && q.step == sch.split); const std::string f = pbt::fmt("/%03d.txt", q.step);
        if (!there) { c.check(!boost::filesystem::exists(dir + "/pressure" + f), "output", "pressure%s was written", f.c_str()); continue; }
        same(c, column(c, dir + "/saturation" + f), q.s, xt, 1, "saturation-file", f.c_str()); same(c, column(c, dir + "/pressure" + f), q.p, xt, ps + maxabs(q.p), "pressure-file", f.c_str()); same(c, column(c, dir + "/surfvolume" + f), q.z, xt, maxabs(q.z), "surfvolume-file", f.c_str()); same(c, column(c, dir + "/velocity" + f), q.v, xt, maxabs(q.v), "velocity-file", f.c_str());
    }
    if (sch.split) return;
    if (std::fabs(L.prod[2 * (n - 1)] + L.prod[2 * (n - 1) + 1]) > 1e-6 * scale || maxabs(L.prod) == 0) texts(c, dir + "/watercut.txt", L.cuts, 1e-5, "watercut");
    if (k.W && maxabs(rw.perfRates()) > 1e-6 * k.R && !L.cross) texts(c, dir + "/wellreport.txt", L.wellrows, 1e-5 * (maxabs(rw.perfRates()) * day + 1), "wellreport");
}
// ---- wells with limits, read from a deck
struct Limit { bool inj; double rate, bhp; };
bool within(const Wells& W, const std::vector<Limit>& lim, const Opm::WellState& ws, double tol, std::string& what)
{
    for (int w = 0; w < W.number_of_wells; ++w) {
        double q = 0; for (int i = W.well_connpos[w]; i < W.well_connpos[w + 1]; ++i) q += ws.perfRates()[i]; const double p = ws.bhp()[w]; const Limit& l = lim[w]; if (W.ctrls[w]->current < 0) continue; const bool byBhp = W.ctrls[w]->type[W.ctrls[w]->current] == BHP;      // the active control is no limit
        if (!byBhp && l.bhp > 0 && (l.inj ? p > l.bhp * (1 + tol) : p < l.bhp * (1 - tol))) { what = pbt::fmt("pressure of well %d is %.10g, limit %.10g", w, p, l.bhp); return false; }
        if (byBhp && l.rate > 0 && std::fabs(q) > l.rate * (1 + tol) + 1e-30) { what = pbt::fmt("rate of well %d is %.10g, limit %.10g", w, q, l.rate); return false; }
    }
    return true;
}
void controls(Gen& g, Ctx& c)
{
    const bool compressible = g.b(); const int nx = g.size(1, 5), ny = g.size(1, 4), nz = g.size(1, 3), nc = nx * ny * nz; const double dx = g.real(10, 50), dz = g.real(2, 10);
    std::unique_ptr<UnstructuredGrid, void (*)(UnstructuredGrid*)> Gp(create_grid_hexa3d(nx, ny, nz, dx, dx, dz), destroy_grid); const UnstructuredGrid& G = *Gp;
    Fluid fl; fl.d = 3; fl.nc = nc; fl.K.assign(9 * nc, 0.0); for (int i = 0; i < nc; ++i) { const double k = i && g.b() ? fl.K[0] : g.logreal(1e-14, 1e-12); for (int a = 0; a < 3; ++a) fl.K[9 * i + 4 * a] = k; fl.poro.push_back(g.real(0.1, 0.4)); } for (int q = 0; q < 2; ++q) { fl.mu[q] = 1e-3 * g.logreal(0.2, 5); fl.rho[q] = q ? g.real(600, 1000) : 1000; fl.n[q].assign(nc, g.i(1, 2)); } fl.lo.assign(nc, 0.0); fl.hi.assign(nc, 1.0);
    TwoBo bo; bo.gen(g, fl, true); bo.f = &fl; for (int q = 0; q < 2; ++q) { bo.b0[q] = g.real(0.8, 1.2); bo.c[q] = g.logreal(1e-10, 1e-8); bo.m[q] = 0; }
    const double P0 = 200e5, gravity[3] = { 0, 0, 9.80665 }; const double* grav = g.b() ? gravity : 0;
    std::ostringstream d, cp, wi, wp; d << "METRIC\nOIL\nWATER\nWELSPECS\n"; std::vector<Limit> lim; const int nw = g.i(1, 4);
    for (int w = 0; w < nw; ++w) {
        Limit l; l.inj = g.b(); const int i = g.i(1, nx), j = g.i(1, ny), k1 = g.i(1, nz), k2 = g.i(k1, nz); const std::string n = "W" + std::to_string(w); d << n << " G " << i << ' ' << j << ' ' << num((k1 - 0.5) * dz) << " OIL /\n"; cp << n << ' ' << i << ' ' << j << ' ' << k1 << ' ' << k2 << " OPEN 1 "; if (g.b()) cp << num(g.logreal(0.5, 50)) << " /\n"; else cp << "1* 0.3 /\n";
        const bool byRate = g.b(); l.rate = byRate || g.p(2, 3) ? g.logreal(0.5, 5000) : -1; l.bhp = !byRate || g.p(3, 4) ? (l.inj ? g.real(210, 500) : g.real(20, 190)) : -1;
        if (l.inj) wi << n << " WATER OPEN " << (byRate ? "RESV" : "BHP") << " 1* " << (l.rate > 0 ? num(l.rate) : "1*") << ' ' << (l.bhp > 0 ? num(l.bhp) : "1*") << " /\n"; else wp << n << " OPEN " << (byRate ? "RESV" : "BHP") << " 4* " << (l.rate > 0 ? num(l.rate) : "1*") << ' ' << (l.bhp > 0 ? num(l.bhp) : "1*") << " /\n";
        if (l.bhp < 0) l.bhp = l.inj ? 6891 : 1;      // documented defaults
        l.rate /= day; l.bhp *= 1e5; lim.push_back(l);
    }
    d << "/\nCOMPDAT\n" << cp.str() << "/\n"; if (!wi.str().empty()) d << "WCONINJE\n" << wi.str() << "/\n"; if (!wp.str().empty()) d << "WCONPROD\n" << wp.str() << "/\n"; const int n = g.i(1, 3); Vec len; d << "TSTEP\n"; for (int i = 0; i < n; ++i) { len.push_back(g.logreal(0.01, 5)); d << num(len.back()) << ' '; } d << "/\n"; c.desc() << (compressible ? "compressible " : "") << nx << "x" << ny << "x" << nz << (grav ? " gravity " : " ") << d.str();
    std::istringstream is(d.str()); Opm::EclipseGridParser deck; { Quiet q; deck.read(is); }
    BcPtr bc; if (!compressible) { bc.reset(flow_conditions_construct(1)); for (int f = 0; f < G.number_of_faces; ++f) if (G.face_cells[2 * f] < 0 && G.face_normals[3 * f] > 0 && G.face_cells[2 * f + 1] % nx == 0) flow_conditions_append(BC_PRESSURE, f, P0, bc.get()); }
    const Vec src(nc, 0.0); Opm::parameter::ParameterGroup P; P.disableOutput(); P.insertParameter("output", "false"); P.insertParameter("nl_pressure_change_tolerance", "1e-3"); P.insertParameter("nl_pressure_maxiter", "50"); P.insertParameter("max_well_control_iterations", std::to_string(g.i(5, 20))); P.insertParameter("nl_maxiter", "300");
    Opm::parameter::ParameterGroup off(P); P.insertParameter("check_well_controls", "true"); Vec s0(2 * nc); for (int i = 0; i < nc; ++i) { s0[2 * i] = g.p(1, 4) ? 0 : g.real(0, 1); s0[2 * i + 1] = 1 - s0[2 * i]; }
    struct Both { std::unique_ptr<Opm::WellsManager> M; Opm::TwophaseState a; Opm::BlackoilState b; Opm::WellState w; } on, no; Lin lin; bool alive = true;
    for (Both* x : { &on, &no }) {
        Quiet q; x->M.reset(new Opm::WellsManager(deck, G, &fl.K[0])); x->a.init(G, 2); x->a.saturation() = s0; x->a.pressure().assign(nc, P0); if (grav) for (int i = 0; i < nc; ++i) x->a.pressure()[i] += 9.80665 * 900 * G.cell_centroids[3 * i + 2];
        x->b.init(G, 2); x->b.saturation() = s0; x->b.pressure() = x->a.pressure(); x->b.surfacevol().resize(2 * nc); for (int i = 0; i < nc; ++i) for (int e = 0; e < 2; ++e) x->b.surfacevol()[2 * i + e] = s0[2 * i + e] * bo.b(e, x->b.pressure()[i]); x->w.init(x->M->c_wells(), x->a);
    }
    auto step = [&](Both& x, const Opm::parameter::ParameterGroup& p, int k, std::string& why) { Quiet q; try { Opm::SimulatorTimer t; std::ostringstream o; o << "METRIC\nTSTEP\n"; for (int i = 0; i <= k; ++i) o << num(len[i]) << ' '; o << "/\n"; std::istringstream s(o.str()); Opm::EclipseGridParser dk; dk.read(s); t.init(dk); t.setCurrentStepNum(k); if (compressible) { Opm::SimulatorCompressibleTwophase sim(p, G, bo, 0, *x.M, src, 0, lin, grav); sim.run(t, x.b, x.w); } else { Opm::SimulatorIncompTwophase sim(p, G, fl, 0, *x.M, src, bc.get(), lin, grav); sim.run(t, x.a, x.w); } return true; } catch (const std::exception&) { why = q.s.str(); return false; } };
    const Wells& W = *on.M->c_wells(); c.check(W.number_of_wells == nw, "wells", "%d wells", W.number_of_wells); bool switched = false;
    for (int k = 0; k < n; ++k) {
        std::vector<int> before; for (int w = 0; w < nw; ++w) before.push_back(W.ctrls[w]->current); std::string why, what; if (!step(on, P, k, why)) { c.label("gave up"); const bool control = why.find("Could not satisfy well conditions") != std::string::npos; c.label("controls not satisfied", control); if (k == 0) throw pbt::Discard(); break; }
        for (int w = 0; w < nw; ++w) switched = switched || before[w] != W.ctrls[w]->current; bool cross = false;
        for (int w = 0; w < nw; ++w) {
            const WellControls* q = W.ctrls[w]; if (q->current < 0) { c.check(false, "shut", "well %d was shut", w); continue; } double r = 0, m = 0; for (int i = W.well_connpos[w]; i < W.well_connpos[w + 1]; ++i) { r += on.w.perfRates()[i]; m += std::fabs(on.w.perfRates()[i]); } const double t = q->target[q->current]; cross = cross || m > 1.0001 * std::fabs(r);
            if (q->type[q->current] == BHP) c.check(std::fabs(on.w.bhp()[w] - t) <= 1e-7 * t, "target", "step %d: well %d is controlled by pressure %.10g and has %.10g", k, w, t, on.w.bhp()[w]); else c.check(std::fabs(r - t) <= 1e-5 * (std::fabs(t) + m), "target", "step %d: well %d is controlled by rate %.10g and has %.10g", k, w, t, r);
        }
        c.check(within(W, lim, on.w, 1e-5, what), "limits", "step %d: %s", k, what.c_str());
        if (alive) {      // limits that are not reached change nothing
            if (!step(no, off, k, why)) { alive = false; continue; } if (!within(*no.M->c_wells(), lim, no.w, -1e-5, what)) { alive = false; c.label("limits reached"); c.check(switched || within(*no.M->c_wells(), lim, no.w, 2e-5, what), "switched", "step %d: %s without checking, yet no control changed", k, what.c_str()); continue; }
            c.check(!switched, "switched", "step %d: controls changed although no limit was reached", k); same(c, compressible ? on.b.pressure() : on.a.pressure(), compressible ? no.b.pressure() : no.a.pressure(), 1e-9, P0, "unchanged", "pressures"); same(c, compressible ? on.b.saturation() : on.a.saturation(), compressible ? no.b.saturation() : no.a.saturation(), 1e-9, 1, "unchanged", "saturations"); same(c, on.w.bhp(), no.w.bhp(), 1e-9, P0, "unchanged", "well pressures");
        }
    }
    c.label("switched", switched); c.label("compressible", compressible); c.nontrivial(switched);
}
}
pbt::Spec pbt::spec()
{
    return { "C37", "incomp/comp: complete simulations by SimulatorIncompTwophase and SimulatorCompressibleTwophase on tensor, polygonal and corner-point grids: wells, sources, boundary conditions, gravity, compressible rock, reordering or implicit transport, segregation splitting, transport substeps, schedules from parameters or TSTEP, restarts. The final state, fluxes and wells are compared with the sequence of pressure and transport solves the run stands for; each phase (compressible: water) is balanced from the state before and after; saturations in bounds; printed volume and mass reports, watercut.txt, wellreport.txt and the state files compared with recomputed values; runs give up exactly when one of their solves does. controls: wells from decks with rate and pressure limits under check_well_controls: after every step each active control holds its target, no limit is exceeded, and limits that are not reached change nothing. Non-trivial: saturations changed by more than 1e-3 on more than one cell (controls: a control was switched).",
             { "the pressure and transport solvers themselves are judged by C16-C19 and C23-C27, well reports by C38", "no balance is asserted where the simulator announces that it ignores crossflow into producers, where compression fills a cell completely, for segregation between cells of different water density, or for the implicit transport solver", "VTK output needs three dimensions", "runs whose flow is roundoff are discarded" },
             30000, 600000, { { "incomp", 3, incomp }, { "comp", 3, comp }, { "controls", 2, controls } } };
}
