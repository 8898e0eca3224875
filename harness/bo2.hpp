// Two immiscible compressible phases for the black-oil interfaces: b = b0 exp(c p), mu = mu0 exp(m p), kr from Fluid.
#ifndef VERIF_BO2_HPP
#define VERIF_BO2_HPP
#include "flowgen.hpp"
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
// exp close to 0, linear above 3 and slowly vanishing below -3 (Newton iterations may wander)
inline double bexp(double x, double* d = 0) { double v, e; if (x > 3) { e = std::exp(3.0); v = e * (x - 2); } else if (x < -3) { const double q = 1 / (-2 - x); v = std::exp(-3.0) * q; e = v * q; } else v = e = std::exp(x); if (d) *d = e; return v; }
struct TwoBo : Opm::BlackoilPropertiesInterface {
    const Fluid* f; double b0[2], c[2], m[2];                  // viscosities and densities at zero pressure from the fluid
    int numDimensions() const { return f->d; } int numCells() const { return f->nc; }
    const double* porosity() const { return &f->poro[0]; } const double* permeability() const { return &f->K[0]; }
    int numPhases() const { return 2; } const double* surfaceDensity() const { return f->rho; }
    double b(int q, double p) const { return b0[q] * bexp(c[q] * p); }
    double db(int q, double p) const { double e; bexp(c[q] * p, &e); return b0[q] * c[q] * e; }
    double mu(int q, double p) const { return f->mu[q] * bexp(m[q] * p); }
    double dmu(int q, double p) const { double e; bexp(m[q] * p, &e); return f->mu[q] * m[q] * e; }
    void viscosity(const int n, const double* p, const double*, const int*, double* v, double* dv) const { for (int i = 0; i < n; ++i) for (int q = 0; q < 2; ++q) { v[2 * i + q] = mu(q, p[i]); if (dv) dv[2 * i + q] = dmu(q, p[i]); } }
    void matrix(const int n, const double* p, const double*, const int*, double* A, double* dA) const { for (int i = 0; i < n; ++i) for (int q = 0; q < 2; ++q) for (int r = 0; r < 2; ++r) { A[4 * i + r + 2 * q] = q == r ? b(q, p[i]) : 0; if (dA) dA[4 * i + r + 2 * q] = q == r ? db(q, p[i]) : 0; } }
    void density(const int n, const double* A, double* rho) const { for (int i = 0; i < n; ++i) for (int q = 0; q < 2; ++q) rho[2 * i + q] = A[4 * i + 3 * q] * f->rho[q]; }
    void relperm(const int n, const double* s, const int* cells, double* kr, double* dkr) const { f->relperm(n, s, cells, kr, dkr); }
    void capPress(const int n, const double* s, const int* cells, double* pc, double* dpc) const { f->capPress(n, s, cells, pc, dpc); }
    void satRange(const int n, const int* cells, double* lo, double* hi) const { f->satRange(n, cells, lo, hi); }
    void gen(Gen& g, const Fluid& fl, bool compressible) { f = &fl; for (int q = 0; q < 2; ++q) { b0[q] = g.b() ? 1.0 : g.logreal(0.5, 20); c[q] = compressible ? g.logreal(1e-3, 0.2) : 0; m[q] = compressible ? g.real(-0.1, 0.1) : 0; } }
};
#endif
