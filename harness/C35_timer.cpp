// C35: simulation clock against a list of step lengths and its own calendar.
#include "common.hpp"
#include <iostream>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/simulator/SimulatorTimer.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/utility/StopWatch.hpp>

namespace {
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
// proleptic Gregorian calendar
long days(long y, int m, int d) { y -= m <= 2; const long era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy; }
void date(long z, long& y, int& m, int& d) { const long era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y = yoe + era * 400 + (m <= 2); }
struct Model { std::vector<double> steps; int cur; double total; long start; double time() const { double t = 0; for (int k = 0; k < cur; ++k) t += steps[k]; return t; } };
// atol: reordered sums of the same steps are accepted
void same(Ctx& c, const Opm::SimulatorTimer& T, const Model& m)
{
    const int n = m.steps.size(); c.check(T.numSteps() == n && T.currentStepNum() == m.cur, "step", "step %d of %d instead of %d of %d", T.currentStepNum(), T.numSteps(), m.cur, n);
    c.check(T.done() == (m.cur == n), "done", "done() is %d in step %d of %d", T.done(), m.cur, n);
    double mag = 0; for (double s : m.steps) mag += std::fabs(s); const double t = m.time(), tol = 1e-14 * n * mag; c.check(std::fabs(T.currentTime() - t) <= tol, "time", "current time %.17g instead of %.17g", T.currentTime(), t);
    c.check(std::fabs(T.totalTime() - m.total) <= 1e-14 * (n * mag + std::fabs(m.total)), "total", "total time %.17g instead of %.17g", T.totalTime(), m.total);
    if (m.cur < n) c.check(T.currentStepLength() == m.steps[m.cur], "length", "step %d is %.17g instead of %.17g", m.cur, T.currentStepLength(), m.steps[m.cur]);
    if (t >= 0) {
        // whole seconds; either of two if rounding of the sum decides
        const boost::posix_time::ptime p = T.currentDateTime(); const boost::gregorian::date gd = p.date(); const long s = days(gd.year(), gd.month(), gd.day()) * 86400L + p.time_of_day().total_seconds(), lo = (long) std::floor(std::max(0.0, t - tol)), hi = (long) std::floor(t + tol);
        long y; int mo, d; date(m.start + hi / 86400, y, mo, d);
        c.check(s - m.start * 86400L >= lo && s - m.start * 86400L <= hi, "date", "%ld s after the start the date is %04d-%02d-%02d %ld s; expected %04ld-%02d-%02d %ld s", hi, (int) gd.year(), (int) gd.month(), (int) gd.day(), (long) p.time_of_day().total_seconds(), y, mo, d, hi % 86400);
    }
}
void walk(Gen& g, Ctx& c, Opm::SimulatorTimer& T, Model& m, int ops)
{
    same(c, T, m);
    for (int k = 0; k < ops; ++k) {
        const int n = m.steps.size(), op = g.i(0, 9);
        if (op <= 5) { if (m.cur < n) { Opm::SimulatorTimer& r = ++T; c.check(&r == &T, "increment", "++ returns another timer"); ++m.cur; } }
        else if (op == 6) { const int s = g.i(0, n); T.setCurrentStepNum(s); m.cur = s; c.desc() << " to step " << s; }
        else if (op == 7) { // out of range
            const int s = g.b() ? n + g.i(1, 3) : -g.i(1, 3); bool thrown = false; try { Quiet q; T.setCurrentStepNum(s); } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { thrown = true; }
            c.desc() << " to invalid step " << s; c.label("invalid step"); c.check(thrown, "invalid", "step %d of %d was accepted", s, n);
        } else if (op == 8) { m.total = g.real(0, 1e9); T.setTotalTime(m.total); }
        else if (m.cur < n) { // the report names step, time, length and total in days
            std::ostringstream o; T.report(o); const std::string s = o.str(); auto after = [&](const char* k) { const size_t p = s.find(k); c.check(p != std::string::npos, "report", "no '%s' in the report", k); return std::strtod(s.c_str() + p + std::strlen(k), 0); };
            const double dn = after("Simulation step number"), t = after("Current time (days)"), l = after("Current stepsize (days)"), tt = after("Total time (days)"); auto near = [&](double a, double b) { return std::fabs(a - b) <= 6e-6 * std::fabs(b) + 1e-9; };
            c.check(dn == m.cur && near(t, m.time() / 86400) && near(l, m.steps[m.cur] / 86400) && near(tt, m.total / 86400), "report", "reported step %g time %g length %g total %g; expected %d %g %g %g", dn, t, l, tt, m.cur, m.time() / 86400, m.steps[m.cur] / 86400, m.total / 86400);
        }
        same(c, T, m);
    }
}
void param(Gen& g, Ctx& c)
{
    Opm::SimulatorTimer T; Model m; m.cur = 0; m.total = 0; m.start = days(2012, 1, 1); if (g.p(1, 8)) same(c, T, m);
    Opm::parameter::ParameterGroup p; p.disableOutput(); int n = 1; double d = 1; if (g.i(0, 5)) { n = g.size(0, 40); std::ostringstream o; o << n; p.insertParameter("num_psteps", o.str()); } if (g.i(0, 5)) { d = g.p(1, 4) ? g.i(1, 2000) : g.p(1, 8) ? 0.0 : g.logreal(1e-6, 2e4); std::ostringstream o; o.precision(17); o << d; p.insertParameter("stepsize_days", o.str()); }
    T.init(p); m.steps.assign(n, d * 86400); m.total = n * (d * 86400); c.desc() << n << " steps of " << d << " days:"; c.nontrivial(n > 1); c.label("long", m.total > 2147483648.0);
    walk(g, c, T, m, g.size(0, 40));
    if (g.p(1, 3)) { // initialised anew: nothing of the former schedule remains
        T.setCurrentStepNum(0); m.cur = 0; const int n2 = g.size(0, 40); const double d2 = g.p(1, 3) ? d : g.logreal(1e-6, 2e4); Opm::parameter::ParameterGroup p2; p2.disableOutput(); p2.insertParameter("num_psteps", pbt::fmt("%d", n2)); p2.insertParameter("stepsize_days", pbt::fmt("%.17g", d2));
        c.desc() << " then anew " << n2 << " steps of " << d2 << " days:"; c.label("anew"); T.init(p2); m.steps.assign(n2, d2 * 86400); m.total = n2 * (d2 * 86400); walk(g, c, T, m, g.size(0, 10));
    }
    Opm::SimulatorTimer U; U.init(p); int k = 0; while (!U.done()) { c.check(k < n, "done", "the timer is not done after %d steps", k); ++U; ++k; } c.check(k == n, "done", "done after %d of %d steps", k, n);
}
const char* mon[12] = { "JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC" };
void deck(Gen& g, Ctx& c)
{
    std::ostringstream o; const bool field = g.p(1, 3), st = g.i(0, 3); o << (field ? "FIELD\n" : "METRIC\n"); Model m; m.cur = 0; m.start = days(1983, 1, 1);
    auto dt = [&](long z) { long y; int mo, d; date(z, y, mo, d); const char* q = g.b() ? "'" : ""; o << d << ' ' << q << (mo == 7 && g.b() ? "JLY" : mon[mo - 1]) << q << ' ' << y << " /\n"; };
    if (st) { m.start = days(g.i(1900, 2100), g.i(1, 12), g.i(1, 28)) + (g.p(1, 6) ? g.i(0, 365) : 0); o << "START\n"; dt(m.start); }
    const int ne = g.i(1, 4); std::vector<int> end; double now = 0; bool anyDates = false, big = false;
    for (int e = 0; e < ne; ++e) {
        if (e || g.b()) o << "DENSITY\n 800 1000 1 /\n";
        const int nk = g.i(1, 3);
        for (int k = 0; k < nk; ++k) {
            if (g.b()) { o << "TSTEP\n"; const int q = g.i(1, 4); for (int r = 0; r < q; ++r) { int rep = g.p(1, 4) ? g.i(2, 5) : 1; const double d = g.b() ? g.i(1, 4000) * 0.25 : g.real(0.01, 30); std::ostringstream v; v.precision(17); v << d; if (rep > 1) o << ' ' << rep << '*'; else o << ' '; o << v.str(); if (g.p(1, 5)) o << '\n'; for (int x = 0; x < rep; ++x) { m.steps.push_back(d); now += d; } } o << " /\n"; }
            else { o << "DATES\n"; anyDates = true; const int q = g.i(1, 3); long day = (long) std::ceil(now); for (int r = 0; r < q; ++r) { day += g.p(1, 12) ? g.i(5000, 9000) : g.i(1, 500); dt(m.start + day); m.steps.push_back(day - now); now = day; } o << "/\n"; }
            big = big || now > 24856;
        }
        end.push_back(m.steps.size());
    }
    c.desc() << o.str(); Quiet quiet; Opm::EclipseGridParser P; std::istringstream i(o.str()); P.read(i);
    c.check(P.numberOfEpochs() == ne, "epochs", "%d epochs instead of %d", P.numberOfEpochs(), ne); c.nontrivial(m.steps.size() > 2); c.label("dates", anyDates); c.label("epochs", ne > 1); c.label("beyond 68 years", big);
    for (double& s : m.steps) s *= 86400; const double mag = now * 86400 * 1e-13; auto cmp = [&](const std::vector<double>& a, const std::vector<double>& b) { for (size_t k = 0; k < a.size(); ++k) if (std::fabs(a[k] - b[k]) > mag) return (int) k; return -1; };
    // the whole schedule as the last epoch sees it, then the epoch loop of the simulators
    Opm::SimulatorTimer T; P.setCurrentEpoch(ne - 1); T.init(P); const double total = T.totalTime(); { double s = 0; for (double x : m.steps) s += x; c.check(std::fabs(total - s) <= mag, "total", "total time %.17g instead of %.17g", total, s); }
    c.check(T.numSteps() == (int) m.steps.size(), "steps", "%d steps instead of %d", T.numSteps(), (int) m.steps.size());
    { Opm::SimulatorTimer U(T); std::vector<double> ls; while (!U.done()) { ls.push_back(U.currentStepLength()); ++U; } const int bad = cmp(ls, m.steps); c.check(bad < 0 && ls.size() == m.steps.size(), "lengths", "step %d has length %.17g instead of %.17g", bad, bad < 0 ? 0 : ls[bad], bad < 0 ? 0 : m.steps[bad]); m.steps = ls; }
    Opm::SimulatorTimer S; int step = 0;
    for (int e = 0; e < ne; ++e) {
        P.setCurrentEpoch(e); S.init(P); S.setCurrentStepNum(step); S.setTotalTime(total); Model me(m); me.steps.resize(end[e]); me.cur = step; me.total = total; c.check(S.numSteps() == end[e], "steps", "epoch %d has %d steps instead of %d", e, S.numSteps(), end[e]); same(c, S, me);
        while (!S.done()) { ++S; ++me.cur; same(c, S, me); } step = S.currentStepNum();
    }
    c.check(step == (int) m.steps.size(), "steps", "%d steps visited instead of %d", step, (int) m.steps.size());
    if (g.b()) { m.total = total; m.cur = 0; walk(g, c, T, m, g.size(0, 20)); }
}
// A stop watch against brackets taken with the same clock around every call
void stopwatch(Gen& g, Ctx& c)
{
    struct Span { double a, b; }; const boost::posix_time::ptime t0 = boost::posix_time::microsec_clock::local_time();
    auto now = [&] { return (boost::posix_time::microsec_clock::local_time() - t0).total_microseconds() * 1e-6; };
    Opm::time::StopWatch W; int state = 0; Span start = { 0, 0 }, last = start, last2 = start, stop = start; const int n = g.size(1, 14); bool both = false, stopped = false;
    for (int k = 0; k < n; ++k) {
        if (g.p(1, 4)) { const double t = now() + 1e-6 * g.i(1, 60); while (now() < t) {} }
        const int op = g.i(0, 3); Span s; s.a = now(); double r = 0; bool thrown = false; static const char* nm[] = { "start ", "stop ", "last ", "since " }; c.desc() << nm[op];
        try { Quiet q; switch (op) { case 0: W.start(); break; case 1: W.stop(); break; case 2: r = W.secsSinceLast(); break; default: r = W.secsSinceStart(); } } catch (const std::exception&) { thrown = true; }
        s.b = now(); const bool legal = op == 0 || (op == 1 ? state == 1 : state != 0); c.check(thrown == !legal, "misuse", "operation %d was %s", k, thrown ? "refused" : "accepted"); if (!legal) { c.label("misuse"); continue; }
        if (op == 0) { start = last = last2 = s; state = 1; } else if (op == 1) { stop = s; state = 2; stopped = true; }
        else {
            const Span e = state == 1 ? s : stop; auto within = [&](const Span& f) { return r >= e.a - f.b - 2e-6 && r <= e.b - f.a + 2e-6; };
            if (op == 3) { c.check(within(start), "since-start", "operation %d: %.6f s since the start, expected %.6f to %.6f", k, r, e.a - start.b, e.b - start.a); last2 = e; }       // whether this restarts the other count is left open
            else { c.check(within(last) || within(last2), "since-last", "operation %d: %.6f s since the last call, expected %.6f to %.6f", k, r, e.a - last.b, e.b - last.a); last = last2 = e; }
            both = both || state == 2;
        }
    }
    c.nontrivial(n > 1); c.label("read when stopped", both); c.label("stopped", stopped);
}
}
pbt::Spec pbt::spec()
{
    return { "C35", "Timers from parameters (up to 40 steps from microdays to 55 years) and from decks with up to four epochs of TSTEP (with repeat counts) and DATES records in METRIC or FIELD units, driven through random sequences of ++, setCurrentStepNum (valid and invalid), setTotalTime and report, and through the simulators' epoch loop; step numbers, lengths, times, done() and calendar dates compared with a list of steps and an independent calendar. Stop watches: sequences of calls against brackets taken with the same clock. Non-trivial: more than one step.",
             { "dates in a schedule increase", "the date of a time is its whole seconds after the start date; dates stay below the year 10000", "epoch k's timer holds all steps up to its end, as the simulators' epoch loop expects" },
             250000, 5000000, { { "param", 6, param }, { "deck", 6, deck }, { "stopwatch", 1, stopwatch } } };
}
