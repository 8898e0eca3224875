// C05: cell and face quadratures integrate polynomials exactly.
#include "polygen.hpp"
#include <opm/core/grid/CellQuadrature.hpp>
#include <opm/core/grid/FaceQuadrature.hpp>

namespace {

typedef Poly::P P;

// All monomials of degree <= 2 over a simplex with vertices v[0..n], measure V, relative to o and scaled by 1/L.
void addMoments(std::vector<double>& m, const P* v, int n, double V, const P& o, double L, int d)
{
    std::vector<P> y(n + 1); P s = { { 0, 0, 0 } };
    for (int k = 0; k <= n; ++k) for (int q = 0; q < 3; ++q) { y[k][q] = q < d ? (v[k][q] - o[q]) / L : 0; s[q] += y[k][q]; }
    m[0] += V;
    for (int q = 0; q < d; ++q) m[1 + q] += V * s[q] / (n + 1);
    for (int a = 0; a < d; ++a) for (int b = a; b < d; ++b) {
        double t = s[a] * s[b]; for (int k = 0; k <= n; ++k) t += y[k][a] * y[k][b];
        m[4 + 3 * a + b] += V * t / ((n + 1) * (n + 2));
    }
}
void monomials(double* r, const double* x, const P& o, double L, int d)
{
    double y[3] = { 0, 0, 0 }; for (int q = 0; q < d; ++q) y[q] = (x[q] - o[q]) / L;
    r[0] = 1; for (int q = 0; q < d; ++q) r[1 + q] = y[q];
    for (int a = 0; a < d; ++a) for (int b = a; b < d; ++b) r[4 + 3 * a + b] = y[a] * y[b];
}

template <class Q> void one(Ctx& c, const Q& quad, const char* what, int idx, int deg, const Poly& p, const std::vector<double>& ref, const P& o, double measure,
                            const std::function<double(const double*)>& outside)
{
    const int d = p.d; std::vector<double> m(13, 0.0); double r[13] = { 0 };
    const int n = quad.numQuadPts();
    c.check(n > 0, "points", "%s %d degree %d has %d points", what, idx, deg, n);
    const double e = 1e-12 * (1 + p.shift / p.L);
    for (int k = 0; k < n; ++k) {
        double x[3] = { 0, 0, 0 }; quad.quadPtCoord(k, x); const double w = quad.quadPtWeight(k);
        c.check(w > 0, "weight", "%s %d degree %d point %d has weight %g", what, idx, deg, k, w);
        c.check(outside(x) <= 10 * e * p.L, "inside", "%s %d degree %d point %d is outside by %g", what, idx, deg, k, outside(x));
        monomials(r, x, o, p.L, d);
        for (int q = 0; q < 13; ++q) m[q] += w * r[q];
    }
    const int upto = deg == 0 ? 1 : deg == 1 ? 4 : 13;
    for (int q = 0; q < upto; ++q)
        c.check(std::fabs(m[q] - ref[q]) <= 10 * e * measure, q == 0 ? "sum-of-weights" : q < 4 ? "linear" : "quadratic", "%s %d degree %d: monomial %d integrates to %.17g, exact %.17g (measure %g)", what, idx, deg, q, m[q], ref[q], measure);
}

void run(Gen& g, Ctx& c, int d)
{
    PolyOpts o; o.maxcuts = 3; o.merge = false; o.collinear = d == 3;
    const Poly p = genPoly(g, d, o);
    GridPtr G = p.grid(&g, true);
    c.desc() << p.str();
    c.nontrivial(p.nc > 1 || p.shift > p.L); c.label(d == 3 ? "3D" : "2D"); c.label("nodes on edges", p.collinear);
    for (int i = 0; i < p.nc; ++i) {
        std::vector<double> ref(13, 0.0);
        for (const Poly::Simplex& s : p.simplices(i)) addMoments(ref, s.p, d, s.v, p.ccen[i], p.L, d);
        auto outside = [&](const double* x) {
            double worst = -1e300;
            for (int k = G->cell_facepos[i]; k < G->cell_facepos[i + 1]; ++k) { const int f = G->cell_faces[k]; double r = 0; for (int q = 0; q < d; ++q) r += p.nrm[f][q] / p.area[f] * (x[q] - p.fcen[f][q]); worst = std::max(worst, G->face_cells[2 * f] == i ? r : -r); }
            return worst;
        };
        for (int deg = 0; deg <= 2; ++deg) one(c, Opm::CellQuadrature(*G, i, deg), "cell", i, deg, p, ref, p.ccen[i], p.vol[i], outside);
    }
    for (size_t f = 0; f < p.faces.size(); ++f) {
        std::vector<double> ref(13, 0.0); const std::vector<int>& nd = p.faces[f].nodes;
        if (d == 2) { const P v[2] = { p.X[nd[0]], p.X[nd[1]] }; addMoments(ref, v, 1, p.area[f], p.fcen[f], p.L, 2); }
        else for (size_t k = 1; k + 1 < nd.size(); ++k) {
            const P v[3] = { p.X[nd[0]], p.X[nd[k]], p.X[nd[k + 1]] };
            addMoments(ref, v, 2, 0.5 * Poly::dot(Poly::cross(Poly::sub(v[1], v[0]), Poly::sub(v[2], v[0])), p.nrm[f]) / p.area[f], p.fcen[f], p.L, 3);
        }
        auto outside = [&](const double* x) {
            double r = 0; for (int q = 0; q < d; ++q) r += p.nrm[f][q] / p.area[f] * (x[q] - p.fcen[f][q]);
            double worst = std::fabs(r);
            for (size_t k = 0; k < nd.size(); ++k) {
                const P a = p.X[nd[k]], b = p.X[nd[(k + 1) % nd.size()]], e = Poly::sub(b, a); P xx = { { x[0], x[1], d == 3 ? x[2] : 0.0 } };
                const double le = std::sqrt(Poly::dot(e, e));
                if (d == 2) worst = std::max(worst, std::max(-Poly::dot(Poly::sub(xx, a), e), Poly::dot(Poly::sub(xx, b), e)) / le);
                else worst = std::max(worst, -Poly::dot(Poly::cross(e, Poly::sub(xx, a)), p.nrm[f]) / (p.area[f] * le));
                if (d == 2) break;
            }
            return worst;
        };
        for (int deg = 0; deg <= 2; ++deg) one(c, Opm::FaceQuadrature(*G, (int) f, deg), "face", (int) f, deg, p, ref, p.fcen[f], p.area[f], outside);
    }
    // unsupported degrees are refused
    const int hi = g.i(3, 6); bool t1 = false, t2 = false;
    try { Opm::CellQuadrature q(*G, 0, hi); } catch (const std::exception&) { t1 = true; }
    try { Opm::FaceQuadrature q(*G, 0, hi); } catch (const std::exception&) { t2 = true; }
    c.check(t1 && t2, "unsupported-degree", "degree %d accepted", hi);
}
void q3(Gen& g, Ctx& c) { run(g, c, 3); }
void q2(Gen& g, Ctx& c) { run(g, c, 2); }

} // namespace

pbt::Spec pbt::spec()
{
    return { "C05", "Conforming complexes of convex cells (random plane cuts of an affine box, random numbering, extra nodes on edges) with their exact geometry; every cell and face is integrated with degrees 0, 1, 2 and all monomials up to the degree compared with exact simplex integration. Non-trivial: more than one cell, or a shifted one.",
        { "convex cells with planar faces", "the grid carries exact cell and face centroids (the 2D cell centre computed by compute_geometry is an approximation)" },
        80000, 1600000, { { "3d", 2, q3 }, { "2d", 1, q2 } } };
}
