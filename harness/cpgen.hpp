// Corner-point generator with exact reference geometry.
// Pillars stand on a lattice P(i,j) = o + i*u + j*v (u, v any independent
// vectors, so both handednesses occur); depths are integers (times a power of
// two) and every cell top and bottom is a plane over its parallelogram, chosen
// per column, so volumes, centroids and contact areas are known exactly.
#ifndef VERIF_CPGEN_HPP
#define VERIF_CPGEN_HPP
#include "common.hpp"

struct CpModel {
    int n[3];
    double o[2], u[2], v[2];
    double zscale;                    // power of two
    int zsign;                        // -1: depth axis points up
    double shear[2];                  // x += shear*z (all pillars inclined alike)
    std::vector<long> z;              // integer depth, zcorn layout
    std::vector<int> act; bool use_act;
    std::vector<double> coord, zcorn;
    int nx() const { return n[0]; }
    size_t zi(int i, int j, int k, int di, int dj, int dk) const { return (2 * i + di) + (size_t) 2 * n[0] * ((2 * j + dj) + (size_t) 2 * n[1] * (2 * k + dk)); }
    long zc(int c, int di, int dj, int dk) const { const int i = c % n[0], j = c / n[0] % n[1], k = c / n[0] / n[1]; return z[zi(i, j, k, di, dj, dk)]; }
    long thick(int c, int di, int dj) const { return zc(c, di, dj, 1) - zc(c, di, dj, 0); }
    int cells() const { return n[0] * n[1] * n[2]; }
    bool alive(int c) const { return (!use_act || act[c]) && (thick(c, 0, 0) || thick(c, 1, 0) || thick(c, 0, 1) || thick(c, 1, 1)); }
    double base() const { return std::fabs(u[0] * v[1] - u[1] * v[0]); }
    double volume(int c) const { return base() * zscale * (thick(c, 0, 0) + thick(c, 1, 0) + thick(c, 0, 1) + thick(c, 1, 1)) / 4.0; }
    void centroid(int c, double* r) const
    {
        // 2-point Gauss in both directions is exact for the integrands (degree <= 2 per variable).
        const double gp[2] = { 0.5 - 0.5 / std::sqrt(3.0), 0.5 + 0.5 / std::sqrt(3.0) };
        const int i = c % n[0], j = c / n[0] % n[1];
        double V = 0, m[3] = { 0, 0, 0 };
        for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
            const double s = gp[a], t = gp[b];
            double zz[2];
            for (int d = 0; d < 2; ++d) zz[d] = zscale * (zc(c, 0, 0, d) * (1 - s) * (1 - t) + zc(c, 1, 0, d) * s * (1 - t) + zc(c, 0, 1, d) * (1 - s) * t + zc(c, 1, 1, d) * s * t);
            const double h = zz[1] - zz[0], zm = 0.5 * (zz[0] + zz[1]);
            V += h;
            m[0] += h * (o[0] + (i + s) * u[0] + (j + t) * v[0]); m[1] += h * (o[1] + (i + s) * u[1] + (j + t) * v[1]); m[2] += h * zm;
        }
        for (int q = 0; q < 3; ++q) r[q] = m[q] / V;
        r[2] *= zsign;
        r[0] += shear[0] * r[2]; r[1] += shear[1] * r[2];
    }
    // area factor of a vertical face over a unit of (horizontal length x depth) spanned by e and the pillar direction
    double sideFactor(const double* e) const
    {
        const double a[3] = { e[0], e[1], 0 }, p[3] = { shear[0], shear[1], 1 };
        const double w[3] = { a[1] * p[2] - a[2] * p[1], a[2] * p[0] - a[0] * p[2], a[0] * p[1] - a[1] * p[0] };
        return normn(w, 3);
    }
    // overlap (in depth units, integrated over s in [0,1]) of two strips given by their end depths
    static double overlap(const double* t1, const double* b1, const double* t2, const double* b2)
    {
        std::vector<double> s; s.push_back(0); s.push_back(1);
        const double* L[4] = { t1, b1, t2, b2 };
        for (int p = 0; p < 4; ++p) for (int q = p + 1; q < 4; ++q) {
            const double d0 = L[p][0] - L[q][0], d1 = L[p][1] - L[q][1];
            if ((d0 < 0 && d1 > 0) || (d0 > 0 && d1 < 0)) s.push_back(d0 / (d0 - d1));
        }
        std::sort(s.begin(), s.end());
        auto h = [&](double x) {
            auto at = [&](const double* l) { return l[0] * (1 - x) + l[1] * x; };
            return std::max(0.0, std::min(at(b1), at(b2)) - std::max(at(t1), at(t2)));
        };
        double A = 0;
        for (size_t k = 0; k + 1 < s.size(); ++k) A += (s[k + 1] - s[k]) * 0.5 * (h(s[k]) + h(s[k + 1]));
        return A;
    }
    // side strip of cell c on side 'tag' (0..3): end depths of top and bottom
    void strip(int c, int tag, double* t, double* b) const
    {
        for (int e = 0; e < 2; ++e) {
            const int di = tag < 2 ? tag : e, dj = tag < 2 ? e : tag - 2;
            t[e] = zscale * zc(c, di, dj, 0); b[e] = zscale * zc(c, di, dj, 1);
        }
    }
    double sideArea(int c, int tag) const
    {
        double t[2], b[2]; strip(c, tag, t, b);
        return sideFactor(tag < 2 ? v : u) * 0.5 * ((b[0] - t[0]) + (b[1] - t[1]));
    }
    double contact(int c1, int c2, int tag) const   // c2 is on side 'tag' (1 or 3) of c1
    {
        double t1[2], b1[2], t2[2], b2[2]; strip(c1, tag, t1, b1); strip(c2, tag - 1, t2, b2);
        return sideFactor(tag < 2 ? v : u) * overlap(t1, b1, t2, b2);
    }
    void build()
    {
        coord.clear(); zcorn.resize(z.size());
        for (size_t k = 0; k < z.size(); ++k) zcorn[k] = zsign * zscale * z[k];
        for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i) {
            const double x = o[0] + i * u[0] + j * v[0], y = o[1] + i * u[1] + j * v[1];
            const double za = -256, zb = 256;
            coord.push_back(x + shear[0] * za); coord.push_back(y + shear[1] * za); coord.push_back(za);
            coord.push_back(x + shear[0] * zb); coord.push_back(y + shear[1] * zb); coord.push_back(zb);
        }
    }
    grdecl decl() const
    {
        grdecl g; for (int k = 0; k < 3; ++k) g.dims[k] = n[k];
        g.coord = &coord[0]; g.zcorn = &zcorn[0]; g.actnum = use_act ? &act[0] : 0; g.mapaxes = 0;
        return g;
    }
    std::string str() const
    {
        std::vector<long> zz(z.begin(), z.end());
        return pbt::fmt("%dx%dx%d u=(%g,%g) v=(%g,%g) zsign=%d zscale=%g shear=(%g,%g) z=", n[0], n[1], n[2], u[0], u[1], v[0], v[1], zsign, zscale, shear[0], shear[1]) + show(zz, 200) + (use_act ? " actnum=" + show(act, 60) : "");
    }
};

struct CpOpts { int maxc = 48; bool faults = true, gaps = true, pinch = true, inactive = true, wedge = false, flip = true, shear = true, box = false; int maxn[3] = {4, 4, 4}; };

inline CpModel genCp(Gen& g, const CpOpts& op = CpOpts())
{
    CpModel m;
    int left = op.maxc;
    for (int k = 0; k < 3; ++k) { m.n[k] = g.size(1, std::max(1, std::min(left, op.maxn[k]))); left = std::max(1, left / m.n[k]); }
    const int nx = m.n[0], ny = m.n[1], nz = m.n[2];
    m.o[0] = g.b() ? 0 : g.real(-100, 100); m.o[1] = m.o[0] ? g.real(-100, 100) : 0;
    const double hx = g.oneof({ 1.0, 10.0, 0.5, 64.0 }), hy = g.oneof({ 1.0, 10.0, 0.5, 64.0 });
    m.u[0] = hx; m.u[1] = 0; m.v[0] = 0; m.v[1] = hy;
    if (op.flip) {
        if (!op.box && g.p(1, 3)) { m.u[1] = g.real(-0.4, 0.4) * hy; m.v[0] = g.real(-0.4, 0.4) * hx; }
        if (g.p(1, 4)) { m.v[0] = -m.v[0]; m.v[1] = -m.v[1]; }
        if (g.p(1, 4)) { m.u[0] = -m.u[0]; m.u[1] = -m.u[1]; }
        if (g.p(1, 4)) { std::swap(m.u[0], m.v[0]); std::swap(m.u[1], m.v[1]); }
    }
    m.zscale = g.oneof({ 1.0, 0.5, 4.0, 0.125 });
    m.zsign = op.flip && g.p(1, 4) ? -1 : 1;
    m.shear[0] = op.shear && g.p(1, 4) ? g.real(-1, 1) : 0.0; m.shear[1] = m.shear[0] != 0 ? g.real(-1, 1) : 0.0;
    m.z.assign((size_t) 8 * nx * ny * nz, 0);
    // global surfaces: plane a*i + b*j + c per interface, thickness planes >= 0 over the whole grid
    struct Pl { long a, b, c; };
    const bool flat = op.box || g.p(1, 3);
    auto at = [&](const Pl& p, int i, int j) { return p.a * i + p.b * j + p.c; };
    std::vector<Pl> G(2 * nz);        // top/bottom of each layer
    Pl cur = { flat ? 0 : g.i(-3, 3), flat ? 0 : g.i(-3, 3), g.i(0, 20) };
    for (int k = 0; k < nz; ++k) {
        if (op.gaps && k && g.p(1, 8)) cur.c += g.i(1, 4);
        G[2 * k] = cur;
        Pl t = { flat ? 0 : g.i(-2, 2), flat ? 0 : g.i(-2, 2), 0 };
        // minimal thickness over the lattice 0..nx x 0..ny
        const long mn = std::min(0L, t.a * nx) + std::min(0L, t.b * ny);
        const bool pinch = op.pinch && g.p(1, 6);
        if (pinch) t = { 0, 0, 0 }; else t.c = -mn + (op.wedge && (t.a || t.b) ? 0 : 1) + g.i(0, 5);
        cur.a += t.a; cur.b += t.b; cur.c += t.c;
        G[2 * k + 1] = cur;
    }
    const int fmode = op.faults ? g.i(0, 3) : 0;       // 0 conforming 1 throws 2 planes through the grid 3 independent columns
    const int cut = g.i(0, nx), cut2 = g.i(0, ny);
    const long throw1 = g.i(-8, 8), throw2 = g.i(-8, 8);
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        std::vector<Pl> C(G);
        long thr = 0;
        if (fmode == 1) thr = (i >= cut ? throw1 : 0) + (j >= cut2 ? throw2 : 0);
        else if (fmode == 2) thr = g.i(-6, 6);
        else if (fmode == 3 && !g.p(1, 4)) {
            Pl c = { g.i(-4, 4), g.i(-4, 4), g.i(0, 12) };
            for (int k = 0; k < nz; ++k) {
                if (op.gaps && k && g.p(1, 8)) c.c += g.i(1, 4);
                C[2 * k] = c;
                Pl t = { g.i(-2, 2), g.i(-2, 2), 0 };
                const long mn = std::min(0L, t.a) + std::min(0L, t.b);
                if (op.pinch && g.p(1, 8)) t = { 0, 0, 0 }; else t.c = -mn + (op.wedge && (t.a || t.b) ? 0 : 1) + g.i(0, 4);
                c.a += t.a; c.b += t.b; c.c += t.c;
                C[2 * k + 1] = c;
            }
            // these planes are local to the column
            for (auto& p : C) { p.c -= p.a * i + p.b * j; }
        }
        for (int k = 0; k < nz; ++k) for (int d = 0; d < 2; ++d) for (int b = 0; b < 2; ++b) for (int a = 0; a < 2; ++a)
            m.z[m.zi(i, j, k, a, b, d)] = at(C[2 * k + d], i + a, j + b) + thr;
    }
    m.use_act = op.inactive && g.b();
    m.act.assign(nx * ny * nz, 1);
    if (m.use_act) { const int q = g.i(1, 6); for (auto& a : m.act) a = g.p(1, q + 1) ? 0 : 1; }
    bool any = false; for (int c = 0; c < m.cells(); ++c) any = any || m.alive(c);
    if (!any) throw pbt::Discard();
    m.build();
    return m;
}
#endif
