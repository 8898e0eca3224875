// C12: bracketing root finders.
#include "pbt.hpp"
#include "config.h"
#include <iostream>
#include <opm/core/utility/RootFinders.hpp>

using pbt::Gen; using pbt::Ctx;

namespace {

// A continuous function with the points at which it was evaluated.
struct F {
    int kind; double root, s, k, off; std::vector<double> px, py; mutable std::vector<double>* calls;
    double raw(double x) const
    {
        const double d = x - root;
        switch (kind) {
        case 0: return s * d;
        case 1: return s * d * (1 + k * d * d);
        case 2: return s * std::tanh(k * d);
        case 3: return s * (std::exp(std::min(k * d, 30.0)) - 1);
        case 4: return s * d * d * d;
        case 5: return s * d * std::fabs(d) + off * s;                        // root moved
        case 6: return s * (d < 0 ? d : k * d);                               // kink at the root
        case 7: return s * d * d / (1 + d * d) * (d < 0 ? -1 : k);            // flat at the root
        case 8: return s * std::pow(std::fabs(d), 0.4) * (d < 0 ? -1 : 1);    // steep at the root
        case 10: return s * (d - 0.7) * (d + 0.1) * (d - 0.2);
        default: {   // piecewise linear with given points (residual of a tabulated relation)
            size_t j = 0; while (j + 2 < px.size() && x > px[j + 1]) ++j;
            return s * (py[j] + (py[j + 1] - py[j]) * (x - px[j]) / (px[j + 1] - px[j])); }
        }
    }
    double operator()(double x) const { if (calls) calls->push_back(x); return raw(x); }
};
F genF(Gen& g, Ctx& c, double a, double b)
{
    F f; f.calls = 0; f.kind = g.i(0, 10); f.root = a + (b - a) * (g.p(1, 8) ? g.oneof({ 0., 1., 0.5, 1e-9 }) : g.real(0, 1)); f.s = (g.b() ? 1 : -1) * g.oneof({ 1., 1., 1e-4, 1e4 }); f.k = g.logreal(0.05, 20) / (f.kind == 3 ? b - a : 1); f.off = g.real(-0.2, 0.2);
    if (f.kind == 1) f.k /= 20;
    if (f.kind == 9) { const int n = g.i(2, 6); f.px.push_back(a); for (int k = 0; k < n; ++k) f.px.push_back(f.px.back() + (b - a) / n); for (int k = 0; k <= n; ++k) f.py.push_back(g.p(1, 5) ? 0 : g.real(-2, 2)); }
    c.desc() << pbt::fmt("f kind %d root %.17g s %g k %g off %g\n", f.kind, f.root, f.s, f.k, f.off); return f;
}
struct Recorder { static bool bracketing, iterations; };
bool Recorder::bracketing, Recorder::iterations;
struct Observed {
    static double handleBracketingFailure(const double x0, const double x1, const double f0, const double f1) { Recorder::bracketing = true; return Opm::ContinueOnError::handleBracketingFailure(x0, x1, f0, f1); }
    static double handleTooManyIterations(const double x0, const double x1, const int m) { Recorder::iterations = true; return Opm::ContinueOnError::handleTooManyIterations(x0, x1, m); }
};
struct CerrGrab { std::ostringstream o; std::streambuf *e, *s; CerrGrab() : e(std::cerr.rdbuf(o.rdbuf())), s(std::cout.rdbuf(o.rdbuf())) {} ~CerrGrab() { std::cerr.rdbuf(e); std::cout.rdbuf(s); } };

template <class P> double call(const F& f, bool guess, double x, double a, double b, int mi, double tol, int& it) { return guess ? Opm::RegulaFalsi<P>::solve(f, x, a, b, mi, tol, it) : Opm::RegulaFalsi<P>::solve(f, a, b, mi, tol, it); }

void solve(Gen& g, Ctx& c)
{
    const double mag = g.oneof({ 1., 1., 1e-3, 1e3 }); double a = g.b() ? 0 : mag * g.real(-2, 2), b = a + mag * (g.b() ? 1 : g.real(0.05, 4)); if (g.p(1, 10)) std::swap(a, b);
    F f = genF(g, c, std::min(a, b), std::max(a, b)); const double tol = g.oneof({ 1e-9, 1e-6, 1e-12, 1e-3, 1e-14 }); const int mi = g.p(1, 4) ? g.i(1, 8) : g.oneof({ 30, 100, 400 }); const bool guess = g.b(); const double x0 = !guess ? a : g.p(1, 4) ? g.oneof({ a, b, f.root }) : a + (b - a) * g.real(0, 1);
    c.desc() << pbt::fmt("[%.17g, %.17g] guess %.17g tol %g max %d\n", a, b, x0, tol, mi); c.label(guess ? "with a guess" : "without a guess"); c.label(pbt::fmt("function %d", f.kind));
    std::vector<double> calls; f.calls = &calls; Recorder::bracketing = Recorder::iterations = false; int it = -1; const double x = call<Observed>(f, guess, x0, a, b, mi, tol, it); f.calls = 0;
    const double lo = std::min(a, b), hi = std::max(a, b), fa = f(a), fb = f(b), macheps = std::numeric_limits<double>::epsilon(), fi = guess ? f(x0) : fa, epsF = tol + macheps * std::max(std::fabs(fi), 1.0), eps = tol + macheps * std::max(std::max(std::fabs(a), std::fabs(b)), 1.0), slack = 8 * macheps * (std::fabs(a) + std::fabs(b));
    c.desc() << pbt::fmt("-> %.17g, f %.3g, %d iterations, %d calls\n", x, f(x), it, (int) calls.size()); c.nontrivial(it >= 2);
    for (double q : calls) c.check(q >= lo - slack && q <= hi + slack, "outside", "the function was called at %.17g, outside [%.17g, %.17g]", q, a, b);
    c.check(x >= lo - slack && x <= hi + slack, "outside", "result %.17g is outside [%.17g, %.17g]", x, a, b);
    const int pre = guess ? 3 : 2; c.check((int) calls.size() <= mi + 1 + pre, "calls", "%d calls with at most %d iterations", (int) calls.size(), mi);
    for (double q : { fa, fb, fi }) if (std::fabs(std::fabs(q) - epsF) < 1e-6 * epsF) throw pbt::Discard();
    const bool small = std::fabs(fa) < epsF || std::fabs(fb) < epsF || std::fabs(fi) < epsF, change = fa * fb < 0 || (guess && (fi * fa < 0 || fi * fb < 0));
    c.check(Recorder::bracketing == (!small && !change), "bracketing", "%s", Recorder::bracketing ? "a bracketing failure was reported although the function changes sign" : "no bracketing failure was reported"); c.label("not bracketed", Recorder::bracketing);
    const bool resolvable = tol >= 1e-12 && std::fabs(f.s) <= 1 && tol > 100 * macheps * (std::fabs(a) + std::fabs(b)) * (1 + f.k);
    // error policies
    int it2 = -1; double y = 0; bool th = false; CerrGrab grab; const int pol = g.i(0, 2);
    try { y = pol == 0 ? call<Opm::ThrowOnError>(f, guess, x0, a, b, mi, tol, it2) : pol == 1 ? call<Opm::WarnAndContinueOnError>(f, guess, x0, a, b, mi, tol, it2) : call<Opm::ContinueOnError>(f, guess, x0, a, b, mi, tol, it2); } catch (const std::exception&) { th = true; }
    const bool failed = Recorder::bracketing || Recorder::iterations;
    if (pol == 0) c.check(th == failed, "policy", "failure %d, thrown %d", failed, th); else { c.check(!th, "policy", "a continuing policy has thrown"); c.check(y == x, "policy", "policies return %.17g and %.17g", x, y); c.check(pol != 1 || grab.o.str().empty() == !failed, "policy", "failure %d, message '%s'", failed, grab.o.str().c_str()); }
    if (Recorder::bracketing) { c.check((x == a || x == b) && std::fabs(f(x)) <= std::min(std::fabs(fa), std::fabs(fb)), "best end", "without a sign change, %.17g (f = %g) was returned; f(a) = %g, f(b) = %g", x, f(x), fa, fb); return; }
    if (Recorder::iterations) { c.check((int) calls.size() > mi, "gave up", "gave up after %d calls, %d iterations are allowed", (int) calls.size(), mi); c.check(!(f.kind <= 3 && resolvable && mi >= 100), "slow", "%d iterations do not suffice for a smooth monotone function", mi); c.label("out of iterations"); c.label("out of 400 iterations", mi == 400); return; }
    c.check(it >= 0 && it <= mi, "iterations", "%d iterations reported, at most %d allowed", it, mi); c.check((int) calls.size() - pre <= it && it <= (int) calls.size(), "iterations", "%d iterations reported for %d calls", it, (int) calls.size());
    if (std::fabs(f(x)) > epsF * 1.000001) { const double w = 1e-9 * eps + slack; c.check(f.raw(x - w) * f.raw(x + w) <= 0, "root", "f(%.17g) = %g and there is no sign change nearby", x, f(x)); c.label("accepted by interval"); }
    if (it > 0) c.label(it <= 8 ? "up to 8 iterations" : it <= 20 ? "9 to 20 iterations" : it <= 60 ? "21 to 60 iterations" : "over 60 iterations");
    if (f.kind <= 3 && resolvable) c.check(it <= 60, "slow", "%d iterations for a smooth monotone function", it);
}

void bracket(Gen& g, Ctx& c)
{
    const double a0 = g.real(-3, 3), b0 = a0 + g.real(0.1, 3); F f = genF(g, c, a0, b0); if (f.kind == 9) f.kind = 0; if (f.kind == 10) f.kind = 1;
    const double x0 = g.p(1, 6) ? f.root : g.real(-6, 6), dx = (g.b() ? 1 : -1) * g.logreal(1e-3, 2); std::vector<double> calls; f.calls = &calls; double a = 0, b = 0; const bool none = g.p(1, 8); c.desc() << pbt::fmt("x0 %.17g dx %g\n", x0, dx);
    if (none) { std::vector<double> cc; auto p = [&](double x) { cc.push_back(x); return 1 + x * x; }; bool th = false; try { Opm::bracketZero(p, x0, dx, a, b); } catch (const std::exception&) { th = true; } c.check(th, "no zero", "a bracket was found for a positive function"); c.label("no zero"); return; }
    bool far = false; try { Opm::bracketZero(f, x0, dx, a, b); } catch (const std::exception&) { far = true; } f.calls = 0; if (far) { c.check(std::fabs(f.raw(f.root + 100)) == 0 || f.raw(f.root - 200) * f.raw(f.root + 200) > 0, "gave up", "no bracket found"); return; }
    c.desc() << pbt::fmt("-> [%.17g, %.17g] after %d calls\n", a, b, (int) calls.size()); c.nontrivial(calls.size() >= 3);
    c.check(a < b, "interval", "[%.17g, %.17g]", a, b); c.check(f(a) * f(b) <= 0, "bracket", "f(%.17g) = %g and f(%.17g) = %g", a, f(a), b, f(b));
    // the ends are points that were looked at, so the bracket can be handed on to a solver
    const double sl = 1e-14 * (std::fabs(a) + std::fabs(b) + std::fabs(x0)); bool ia = false, ib = false; for (double q : calls) { ia = ia || std::fabs(q - a) <= sl; ib = ib || std::fabs(q - b) <= sl; } c.check(ia && ib, "ends", "an end of the bracket was never looked at");
    int it; bool th = false; double r = 0; try { r = Opm::RegulaFalsi<Opm::ThrowOnError>::solve(f, a, b, 500, 1e-7, it); } catch (const std::exception&) { th = true; } if (!th) c.check(r >= a - sl && r <= b + sl, "root", "root %g", r);
}

} // namespace

pbt::Spec pbt::spec()
{
    return { "C12", "solve: eleven families of continuous functions (linear, cubic, tanh, exp, flat, kinked and steep roots, several roots, piecewise linear) over intervals of four magnitudes, tolerances 1e-14..1e-3, iteration limits 1..400, with and without initial guess; every function call is recorded, all error policies are compared; bracket: bracketZero from any start and step. Non-trivial: at least two iterations / three calls.",
        { "functions are finite and of magnitude at most about 1e15", "initial guess inside the interval" },
        1200000, 40000000, { { "solve", 5, solve }, { "bracket", 1, bracket } } };
}
