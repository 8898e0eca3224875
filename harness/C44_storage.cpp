// C44: constructors report a shortage of memory instead of failing later, containers survive one, and everything is given back.
// link: -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free
// leaks: 1500 8000 C04 C07 C08 C09 C15 C16 C17 C18 C19 C20 C21 C23 C24 C25 C28 C29 C30 C31 C33 C34 C37 C39 C40 C41 C42 C43
#include "flowgen.hpp"
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/pressure/tpfa/compr_source.h>
#include <opm/core/pressure/tpfa/compr_quant_general.h>
#include <opm/core/pressure/tpfa/ifs_tpfa.h>
#include <opm/core/transport/implicit/transport_source.h>
#include <opm/core/pressure/msmfem/partition.h>
#include <opm/core/pressure/msmfem/coarse_conn.h>
#include <opm/core/pressure/msmfem/hash_set.h>
#include <opm/core/linalg/sparse_sys.h>
#include <unordered_map>
#include <fstream>
namespace comprbc {
#include <opm/core/pressure/tpfa/compr_bc.h>
}
extern "C" {
#define INJECTOR L_INJECTOR
#define PRODUCER L_PRODUCER
#define BHP L_BHP
#define well_type l_well_type
#define well_controls l_well_controls
#include <opm/core/pressure/tpfa/cfs_tpfa.h>
#include <opm/core/pressure/fsh.h>
#include <opm/core/pressure/mimetic/hybsys.h>
#include <opm/core/pressure/mimetic/hybsys_global.h>
#include <opm/core/pressure/msmfem/coarse_sys.h>
#include <opm/core/pressure/msmfem/ifsh_ms.h>
#undef INJECTOR
#undef PRODUCER
#undef BHP
#undef well_type
#undef well_controls
// declared in cfs_tpfa_residual.h, which clashes with cfs_tpfa.h
struct cfs_tpfa_res_wells { struct Wells* W; struct CompletionData* data; };
struct cfs_tpfa_res_data* cfs_tpfa_res_construct(struct UnstructuredGrid*, struct cfs_tpfa_res_wells*, int);
void cfs_tpfa_res_destroy(struct cfs_tpfa_res_data*);

void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
}

namespace {
// Every block the C code holds; the failAt-th request (and, if sticky, all after it) is refused.
struct Heap {
    std::unordered_map<void*, long> live; long n = 0, failAt = -1; bool sticky = false, on = false, fired = false;
    bool refuse() { const long k = n++; if (failAt < 0 || (sticky ? k < failAt : k != failAt)) return false; fired = true; return true; }
    void start(long k = -1, bool s = false) { n = 0; failAt = k; sticky = s; fired = false; on = true; }
    long stop() { on = false; failAt = -1; return n; }
} H;
}
extern "C" {
void* __wrap_malloc(size_t z) { if (!H.on) return __real_malloc(z); if (H.refuse()) return 0; void* p = __real_malloc(z); std::memset(p, 0xa5, z); H.live[p] = H.n - 1; return p; }
void* __wrap_calloc(size_t a, size_t b) { if (!H.on) return __real_calloc(a, b); if (H.refuse()) return 0; void* p = __real_calloc(a, b); H.live[p] = H.n - 1; return p; }
void* __wrap_realloc(void* q, size_t z) { if (!H.on) return __real_realloc(q, z); if (H.refuse()) return 0; H.live.erase(q); void* p = __real_realloc(q, z); H.live[p] = H.n - 1; return p; }
void __wrap_free(void* p) { if (H.on) H.live.erase(p); __real_free(p); }
}

namespace {
typedef std::vector<double> D; typedef std::vector<int> I;
struct Off { ~Off() { H.stop(); } };
void clean(Ctx& c, const char* name, const char* when)
{
    if (H.live.empty()) return;
    long k = -1; for (auto& q : H.live) k = q.second; const size_t m = H.live.size(); H.live.clear();
    c.fail("leak", "%s: %d blocks (one of them request %ld) still held %s", name, (int) m, k, when);
}
// make() returns an object or null; kill() takes it back.  Every request is refused once, alone and with all that follow.
template <class Make, class Kill> void construct(Ctx& c, const char* name, Make make, Kill kill, bool tolerate = false)
{
    Off off; H.live.clear(); H.start(); auto* p = make(); c.check(p != 0, "construct", "%s fails although there is memory", name); kill(p); const long n = H.stop(); clean(c, name, "after it was destroyed");
    c.check(n < 4000, "requests", "%ld requests", n); const long step = n > 60 ? n / 60 + 1 : 1;
    for (int s = 0; s < 2; ++s) for (long k = 0; k < n; k += step) {
        H.start(k, s); c.desc() << ""; p = make(); const bool fired = H.fired; H.failAt = -1;
        c.check(fired, "requests", "%s does not always make its %ld requests", name, n); c.check(tolerate || p == 0, "reported", "%s: request %ld of %ld refused%s, yet an object is returned", name, k, n, s ? " and all that follow" : "");
        if (p) kill(p); H.stop(); clean(c, name, "after a refused request");
    }
    c.label(name);
}
typedef std::vector<std::string> Tokens;
template <class T> void put(Tokens& t, const T* p, size_t n) { for (size_t k = 0; k < n; ++k) t.push_back(pbt::fmt(sizeof(T) == sizeof(double) ? "%.17g" : "%.0f", (double) p[k])); }
Tokens tokens(const UnstructuredGrid& g, bool tag, bool map)
{
    Tokens t; const size_t d = g.dimensions, nc = g.number_of_cells, nf = g.number_of_faces, nn = g.number_of_nodes;
    const int nfn = g.face_nodepos[nf], ncf = g.cell_facepos[nc];
    const int head[8] = { (int) d, (int) nc, (int) nf, (int) nn, nfn, ncf, tag, map };
    put(t, head, 8); put(t, g.cartdims, d); put(t, g.node_coordinates, d * nn);
    put(t, g.face_nodepos, nf + 1); put(t, g.face_nodes, nfn); put(t, g.face_cells, 2 * nf); put(t, g.face_areas, nf); put(t, g.face_centroids, d * nf); put(t, g.face_normals, d * nf);
    put(t, g.cell_facepos, nc + 1);
    for (int k = 0; k < ncf; ++k) { put(t, g.cell_faces + k, 1); if (tag) put(t, g.cell_facetag + k, 1); }
    if (map) put(t, g.global_cell, nc);
    put(t, g.cell_volumes, nc); put(t, g.cell_centroids, d * nc);
    return t;
}
Wells* genWells(Gen& g, int np, int nc, int maxw)
{
    Wells* W = create_wells(np, g.i(0, 2), g.i(0, 3)); const int nw = g.i(0, maxw);
    for (int w = 0; w < nw; ++w) { const int n = g.i(1, 3); I cells(n); D WI(n, 1.0), f(np, 0.0); for (int& x : cells) x = g.i(0, nc - 1); f[0] = 1; add_well(g.b() ? INJECTOR : PRODUCER, 0.5, n, &f[0], &cells[0], &WI[0], g.b() ? "well" : 0, W); for (int k = g.i(0, 3); k > 0; --k) append_well_controls(SURFACE_RATE, k, &f[0], w, W); }
    return W;
}
void denseSolve(struct CSRMatrix* A, double* b, double* x)
{
    const int n = (int) A->m; std::vector<LD> M((size_t) n * n, 0), r(b, b + n), y; for (int i = 0; i < n; ++i) for (int q = A->ia[i]; q < A->ia[i + 1]; ++q) M[(size_t) i * n + A->ja[q]] += A->sa[q];
    if (!luSolve(M, r, y)) y.assign(n, 0); for (int i = 0; i < n; ++i) x[i] = (double) y[i];
}
// The multiscale solver: construction, a refused one, and the basis fluxes of what is accepted.
void multiscale(Gen& g, Ctx& c)
{
    const int n[3] = { g.i(2, 4), g.i(1, 3), g.i(1, 2) }, nc = n[0] * n[1] * n[2]; GridPtr G(create_grid_cart3d(n[0], n[1], n[2])); const int cut = g.i(1, n[0] - 1); I p(nc); for (int e = 0; e < nc; ++e) p[e] = e % n[0] >= cut; if (g.b() && n[1] > 1) for (int e = 0; e < nc; ++e) if (p[e]) p[e] += (e / n[0]) % n[1] > 0;
    D K(9 * nc, 0.0), src(nc, 0.0), mob(nc); for (int e = 0; e < nc; ++e) { for (int k = 0; k < 3; ++k) K[9 * e + 4 * k] = g.logreal(0.5, 2); mob[e] = g.logreal(0.5, 2); } if (g.b()) { src[0] = 1; src[nc - 1] = -1; }
    c.desc() << n[0] << 'x' << n[1] << 'x' << n[2] << ' ' << show(p, 30); c.nontrivial(nc > 2);
    int unreported = 0;   // coarse_sys_compute_cell_ip()'s two work arrays: documented not to be reported
    construct(c, "ifsh_ms_construct", [&] { ifsh_ms_data* h = ifsh_ms_construct(G.get(), &p[0], &K[0], &src[0], &mob[0], denseSolve); if (h && H.fired) c.check(!H.sticky && ++unreported <= 2, "reported", "a request is refused, yet an object is returned"); return h; }, [](ifsh_ms_data* h) { ifsh_ms_destroy(h); }, true);
}

void solvers(Gen& g, Ctx& c)
{
    AnyGrid a = genGrid(g, 7, 12); UnstructuredGrid& G = *a.G; const int nc = G.number_of_cells, np = g.i(1, 3); WellsPtr W(genWells(g, np, nc, 3)); Wells* w = W->number_of_wells && g.b() ? W.get() : 0;
    for (int e = 0; e < nc; ++e) if (!(G.cell_volumes[e] > 0)) throw pbt::Discard();
    c.desc() << a.text << (w ? pbt::fmt(", %d wells", w->number_of_wells) : std::string(", no wells")) << ", " << np << " phases"; c.nontrivial(nc > 1);
    LegacyWellCompletions lw = { w ? w->number_of_wells : 0, w ? w->well_connpos : 0, w ? w->well_cells : 0 }; well_t* l = w ? &lw : 0; cfs_tpfa_res_wells rw = { w, 0 };
    int mx = 0, tot = G.cell_facepos[nc]; for (int e = 0; e < nc; ++e) mx = std::max(mx, G.cell_facepos[e + 1] - G.cell_facepos[e]);
    switch (g.i(0, 8)) {
    case 0: construct(c, "ifs_tpfa_construct", [&] { return ifs_tpfa_construct(&G, w); }, [](ifs_tpfa_data* p) { ifs_tpfa_destroy(p); }); break;
    case 1: construct(c, "cfs_tpfa_res_construct", [&] { return cfs_tpfa_res_construct(&G, w || g.b() ? &rw : 0, np); }, [](cfs_tpfa_res_data* p) { cfs_tpfa_res_destroy(p); }); break;
    case 2: construct(c, "cfs_tpfa_construct", [&] { return cfs_tpfa_construct(&G, l, np); }, [](cfs_tpfa_data* p) { cfs_tpfa_destroy(p); }); break;
    case 3: construct(c, "ifsh_construct", [&] { return ifsh_construct(&G, l); }, [](fsh_data* p) { fsh_destroy(p); }); break;
    case 4: construct(c, "cfsh_construct", [&] { return cfsh_construct(&G, l); }, [](fsh_data* p) { fsh_destroy(p); }); break;
    case 5: construct(c, "hybsys_define_globconn", [&] { return hybsys_define_globconn(&G, l); }, [](CSRMatrix* p) { csrmatrix_delete(p); }); break;
    case 6: if (g.b()) construct(c, "hybsys_allocate_symm", [&] { return hybsys_allocate_symm(mx, nc, tot); }, [](hybsys* p) { hybsys_free(p); }); else construct(c, "hybsys_allocate_unsymm", [&] { return hybsys_allocate_unsymm(mx, nc, tot); }, [](hybsys* p) { hybsys_free(p); }); break;
    case 7: {
        struct Pair { int *p, *c; }; static Pair q; if (!l) throw pbt::Discard();
        construct(c, "allocate_cell_wells", [&]() -> Pair* { return allocate_cell_wells(nc, l, &q.p, &q.c) ? &q : 0; }, [](Pair* p) { deallocate_cell_wells(p->p, p->c); });
        int *p = 0, *v = 0; c.check(allocate_cell_wells(nc, l, &p, &v) != 0, "construct", "no cell wells"); derive_cell_wells(nc, l, p, v);
        if (g.b()) construct(c, "hybsys_well_allocate_symm", [&] { return hybsys_well_allocate_symm(mx, nc, p); }, [](hybsys_well* h) { hybsys_well_free(h); }); else construct(c, "hybsys_well_allocate_unsymm", [&] { return hybsys_well_allocate_unsymm(mx, nc, p); }, [](hybsys_well* h) { hybsys_well_free(h); });
        deallocate_cell_wells(p, v); break; }
    default: construct(c, "compr_quantities_gen_allocate", [&] { return compr_quantities_gen_allocate(nc, G.number_of_faces, np); }, [](compr_quantities_gen* p) { compr_quantities_gen_deallocate(p); });
    }
}

void grids(Gen& g, Ctx& c)
{
    c.nontrivial(); auto kill = [](UnstructuredGrid* G) { destroy_grid(G); };
    switch (g.i(0, 7)) {
    case 6: { AnyGrid a = genGrid(g, 1, 12); const bool tag = g.b() && a.G->cell_facetag, map = g.b() && a.G->global_cell; const std::string f = pbt::scratch() + "/grid.txt"; { const Tokens t = tokens(*a.G, tag, map); std::ofstream o(f.c_str()); for (const std::string& q : t) o << q << '\n'; } c.desc() << a.text;   // a grid file; the index map is dropped when it cannot be stored, the face tags are not
        construct(c, "read_grid", [&] { UnstructuredGrid* R = read_grid(f.c_str()); if (R && H.fired) c.check(map && !R->global_cell && R->number_of_cells == a.G->number_of_cells && R->cell_volumes[0] == a.G->cell_volumes[0] && R->cell_centroids[0] == a.G->cell_centroids[0], "reported", "a grid is read although a request was refused"); return R; }, kill, map); break; }
    case 0: c.desc() << "empty"; construct(c, "create_grid_empty", [&] { return create_grid_empty(); }, kill); break;
    case 1: { const int d = g.i(2, 3), n = g.i(1, 5), f = g.i(1, 9), fn = g.i(1, 20), cf = g.i(1, 20), nn = g.i(1, 20); c.desc() << d << ' ' << n << ' ' << f << ' ' << fn << ' ' << cf << ' ' << nn; construct(c, "allocate_grid", [&] { return allocate_grid(d, n, f, fn, cf, nn); }, kill); break; }
    case 2: { const int x = g.i(1, 4), y = g.i(1, 4); c.desc() << x << 'x' << y; construct(c, "create_grid_cart2d", [&] { return create_grid_cart2d(x, y, 1.0, 2.0); }, kill); break; }
    case 3: { const int x = g.i(1, 3), y = g.i(1, 3), z = g.i(1, 3); c.desc() << x << 'x' << y << 'x' << z; construct(c, "create_grid_cart3d", [&] { return create_grid_cart3d(x, y, z); }, kill); break; }
    case 4: { const int x = g.i(1, 3), y = g.i(1, 3), z = g.i(1, 3); c.desc() << x << 'x' << y << 'x' << z; construct(c, "create_grid_hexa3d", [&] { return create_grid_hexa3d(x, y, z, 1, 2, 3); }, kill); break; }
    case 5: { CartSpec s = genCart(g, 20, 0, false, g.i(0, 1)); c.desc() << s.str(); construct(c, "create_grid_tensor", [&] { return s.dim == 2 ? create_grid_tensor2d(s.n[0], s.n[1], &s.x[0][0], &s.x[1][0]) : create_grid_tensor3d(s.n[0], s.n[1], s.n[2], &s.x[0][0], &s.x[1][0], &s.x[2][0], s.depthz.empty() ? 0 : &s.depthz[0]); }, kill); break; }
    default: { // no refusals: the corner-point preprocessor does not claim to survive them
        CpModel m = genCp(g); m.build(); grdecl d = m.decl(); c.desc() << m.str(); Off off; H.live.clear(); H.start(); UnstructuredGrid* G = create_grid_cornerpoint(&d, 0.0); destroy_grid(G); H.stop(); clean(c, "create_grid_cornerpoint", "after it was destroyed"); c.label("create_grid_cornerpoint"); }
    }
}

void plain(Gen& g, Ctx& c)
{
    const int np = g.i(1, 3), n = g.i(1, 6), m = g.i(1, 8); c.desc() << np << ' ' << n << ' ' << m; c.nontrivial();
    switch (g.i(0, 13)) {
    case 0: { const int nw = g.i(0, 3), k = g.i(0, 4); construct(c, "create_wells", [&] { return create_wells(np, nw, k); }, [](Wells* W) { destroy_wells(W); }); break; }
    case 1: { WellsPtr W(genWells(g, np, 9, 4)); c.desc() << ", " << W->number_of_wells << " wells"; bool named = false; for (int w = 0; w < W->number_of_wells; ++w) named = named || W->name[w]; construct(c, "clone_wells", [&] { return clone_wells(W.get()); }, [&](Wells* q) { c.check(q->number_of_wells == W->number_of_wells, "clone", "%d wells instead of %d", q->number_of_wells, W->number_of_wells); for (int w = 0; w < W->number_of_wells; ++w) c.check(q->well_connpos[w + 1] == W->well_connpos[w + 1] && q->ctrls[w] && q->ctrls[w]->num == W->ctrls[w]->num && (!q->name[w] || W->name[w]), "clone", "well %d differs", w); destroy_wells(q); }, named); break; }   // a well may lose its name, nothing else
    case 2: construct(c, "csrmatrix_new_count_nnz", [&] { return csrmatrix_new_count_nnz(n); }, [](CSRMatrix* A) { csrmatrix_delete(A); }); break;
    case 3: construct(c, "csrmatrix_new_known_nnz", [&] { return csrmatrix_new_known_nnz(n, m); }, [](CSRMatrix* A) { csrmatrix_delete(A); }); break;
    case 4: { I cnt(n); int tot = 0; for (int& x : cnt) { x = g.i(0, 3); tot += x; } if (!tot) throw pbt::Discard();
        for (int k = -1; k < 2; ++k) { Off off; H.live.clear(); H.start(); CSRMatrix* A = csrmatrix_new_count_nnz(n); for (int i = 0; i < n; ++i) A->ia[i + 1] = cnt[i]; H.start(k, g.b()); const size_t r = csrmatrix_new_elms_pushback(A); H.failAt = -1; c.check(r == (k < 0 ? (size_t) tot : 0), "reported", "csrmatrix_new_elms_pushback: request %d refused, %d returned", k, (int) r); if (k >= 0) c.check(A->ja == 0 && A->sa == 0, "reported", "csrmatrix_new_elms_pushback: half the matrix left"); csrmatrix_delete(A); H.stop(); clean(c, "csrmatrix_new_elms_pushback", "at the end"); }
        c.label("csrmatrix_new_elms_pushback"); break; }
    case 5: construct(c, "flow_conditions_construct", [&] { return flow_conditions_construct(m - 1); }, [](FlowBoundaryConditions* b) { flow_conditions_destroy(b); }); break;
    case 6: construct(c, "compr_src_allocate", [&] { return compr_src_allocate(np, m - 1); }, [](compr_src* b) { compr_src_deallocate(b); }); break;
    case 7: construct(c, "compr_bc_allocate", [&] { return comprbc::compr_bc_allocate(np, m - 1); }, [](comprbc::compr_bc* b) { comprbc::compr_bc_deallocate(b); }); break;
    case 8: construct(c, "create_transport_source", [&] { return create_transport_source(m - 1, np); }, [](TransportSource* b) { destroy_transport_source(b); }); break;
    case 9: construct(c, "hash_set_allocate", [&] { return hash_set_allocate(m); }, [](hash_set* b) { hash_set_deallocate(b); }); break;
    case 10: { static int ok; I p(n), q; for (int& x : p) x = g.i(0, 2 * n); q = p; construct(c, "partition_compress", [&]() -> int* { p = q; const bool r = partition_compress(n, &p[0]) >= 0; if (!r) c.check(p == q, "unchanged", "partition changed although compression failed"); return r ? &ok : 0; }, [](int*) {}); break; }
    case 11: { static int ok; const int fd[3] = { 3, 2, 2 }, cd[3] = { g.i(1, 3), g.i(1, 2), g.i(1, 2) }; I id(12), p(12); for (int k = 0; k < 12; ++k) id[k] = k; construct(c, "partition_unif_idx", [&]() -> int* { return partition_unif_idx(3, 12, fd, cd, &id[0], &p[0]) == 12 ? &ok : 0; }, [](int*) {}); break; }
    case 12: { struct Pair { int *p, *c; }; static Pair q; construct(c, "partition_allocate_inverse", [&]() -> Pair* { q.p = q.c = (int*) &q; const bool r = partition_allocate_inverse(n, m, &q.p, &q.c) == n; if (!r) c.check(!q.p && !q.c, "reported", "partition_allocate_inverse leaves pointers"); return r ? &q : 0; }, [](Pair* p) { partition_deallocate_inverse(p->p, p->c); }); break; }
    default: { // blocks and their topology
        AnyGrid a = genGrid(g, 1, 20); UnstructuredGrid& G = *a.G; const int nc = G.number_of_cells; I p(nc), q; for (int& x : p) x = g.i(0, std::min(nc, 4) - 1); partition_compress(nc, &p[0]); q = p; static int ok; c.desc() << a.text << ' ' << show(p, 30);
        if (g.b()) construct(c, "partition_split_disconnected", [&]() -> int* { p = q; const bool r = partition_split_disconnected(nc, G.number_of_faces, G.face_cells, &p[0]) >= 0; if (!r) c.check(p == q, "unchanged", "partition changed although splitting failed"); return r ? &ok : 0; }, [](int*) {});
        else { const int e = g.i(-1, 12); construct(c, "coarse_topology_create", [&] { return coarse_topology_create(nc, G.number_of_faces, e, &p[0], G.face_cells); }, [](coarse_topology* t) { coarse_topology_destroy(t); }); } }
    }
}

// Containers: a refused append reports failure and changes nothing; all works again afterwards.
struct Entry { int a, b; D v; bool operator==(const Entry& o) const { return a == o.a && b == o.b && v == o.v; } };
template <class Append, class Read> void containers(Gen& g, Ctx& c, const char* name, Append append, Read read, std::vector<Entry> ref, int nops)
{
    int refused = 0;
    for (int k = 0; k < nops; ++k) {
        Entry e; const int at = g.i(0, 1) ? g.i(0, 5) : -1; const bool sticky = g.b(); H.start(at, sticky); const bool ok = append(e); const bool fired = H.fired; H.start();
        c.check(ok == !fired, "reported", "%s: append %d %s although a request was %s", name, k, ok ? "succeeds" : "fails", fired ? "refused" : "not refused"); refused += fired; if (ok) ref.push_back(e);
        std::vector<Entry> now; read(now); c.check(now == ref, "content", "%s: after append %d (%s) the container does not hold what was put in (%d entries, %d expected)", name, k, ok ? "accepted" : "refused", (int) now.size(), (int) ref.size());
    }
    c.nontrivial(refused > 0 && !ref.empty()); c.label(name);
}
void append(Gen& g, Ctx& c)
{
    const int np = g.i(1, 3), cap = g.i(0, 3), n = g.size(1, 20), kind = g.i(0, 5); c.desc() << kind << ' ' << np << " phases, capacity " << cap << ", " << n << " operations"; Off off; H.live.clear(); H.start(); auto val = [&] { return (double) g.i(-9, 9); }; auto vec = [&](int k) { D v(k); for (double& x : v) x = val(); return v; };
    if (kind == 0) { compr_src* s = compr_src_allocate(np, cap); containers(g, c, "append_compr_source_term", [&](Entry& e) { e.a = g.i(0, 9); e.b = 0; e.v = vec(np); e.v.push_back(val()); return append_compr_source_term(e.a, np, e.v[np], &e.v[0], s) > 0; }, [&](std::vector<Entry>& r) { for (int i = 0; i < s->nsrc; ++i) { Entry e = { s->cell[i], 0, D(s->saturation + np * i, s->saturation + np * (i + 1)) }; e.v.push_back(s->flux[i]); r.push_back(e); } }, std::vector<Entry>(), n); compr_src_deallocate(s); }
    else if (kind == 1) { using namespace comprbc; compr_bc* s = compr_bc_allocate(np, cap); containers(g, c, "compr_bc_append", [&](Entry& e) { e.a = g.i(0, 9); e.b = g.i(0, 1); e.v = vec(np); e.v.push_back(val()); e.v.push_back(val()); return compr_bc_append((compr_bc_type) e.b, e.a, np, e.v[np], e.v[np + 1], &e.v[0], s) > 0; }, [&](std::vector<Entry>& r) { for (int i = 0; i < s->nbc; ++i) { Entry e = { s->face[i], (int) s->type[i], D(s->saturation + np * i, s->saturation + np * (i + 1)) }; e.v.push_back(s->press[i]); e.v.push_back(s->flux[i]); r.push_back(e); } }, std::vector<Entry>(), n); compr_bc_deallocate(s); }
    else if (kind == 2) { TransportSource* s = create_transport_source(cap, np); containers(g, c, "append_transport_source", [&](Entry& e) { e.a = g.i(0, 9); e.b = 0; e.v = vec(2 * np); e.v.push_back(val()); e.v.push_back(val()); return append_transport_source(e.a, np, e.v[2 * np], e.v[2 * np + 1], &e.v[0], &e.v[np], s) > 0; }, [&](std::vector<Entry>& r) { for (int i = 0; i < s->nsrc; ++i) { Entry e = { s->cell[i], 0, D(s->saturation + np * i, s->saturation + np * (i + 1)) }; e.v.insert(e.v.end(), s->surfvolume + np * i, s->surfvolume + np * (i + 1)); e.v.push_back(s->pressure[i]); e.v.push_back(s->flux[i]); r.push_back(e); } }, std::vector<Entry>(), n); destroy_transport_source(s); }
    else if (kind == 3) { FlowBoundaryConditions* s = flow_conditions_construct(cap); containers(g, c, "flow_conditions_append", [&](Entry& e) { e.a = g.i(0, 2); e.b = 0; e.v = vec(1 + g.i(1, 4)); I f; for (size_t i = 1; i < e.v.size(); ++i) { e.v[i] = std::fabs(e.v[i]); f.push_back((int) e.v[i]); } if (f.size() == 1 && g.b()) return flow_conditions_append((FlowBCType) e.a, f[0], e.v[0], s) > 0; return flow_conditions_append_multi((FlowBCType) e.a, f.size(), &f[0], e.v[0], s) > 0; },
            [&](std::vector<Entry>& r) { for (size_t i = 0; i < s->nbc; ++i) { Entry e = { (int) s->type[i], 0, D(1, s->value[i]) }; for (size_t k = s->cond_pos[i]; k < s->cond_pos[i + 1]; ++k) e.v.push_back(s->face[k]); r.push_back(e); } }, std::vector<Entry>(), n); flow_conditions_destroy(s); }
    else if (kind == 4) { Wells* W = create_wells(np, cap, g.i(0, 3)); std::map<int, int> hadName; // wells and controls together; a well's name may be lost, nothing else
        int refused = 0; struct Well { int type; double depth; D frac, WI, ctl; I cells; bool name; }; std::vector<Well> ref;
        for (int k = 0; k < n; ++k) {
            const int at = g.b() ? g.i(0, 12) : -1; const bool sticky = g.b();
            if (ref.empty() || g.b()) { Well w; w.type = g.i(0, 1); w.depth = val(); w.frac = vec(np); const int m = g.i(0, 3); w.WI = vec(m); for (int i = 0; i < m; ++i) w.cells.push_back(g.i(0, 9)); w.name = g.b();
                H.start(at, sticky); const bool ok = add_well(w.type ? PRODUCER : INJECTOR, w.depth, m, &w.frac[0], m ? &w.cells[0] : 0, m ? &w.WI[0] : 0, w.name ? "somebody" : 0, W) != 0; const bool fired = H.fired; H.start(); refused += fired;
                c.check(ok || fired, "reported", "well %d was refused although there is memory", (int) ref.size()); if (ok) { if (fired) { c.check(w.name, "reported", "a well was accepted although its storage was refused"); c.check(!W->name[ref.size()], "name", "the name survived although its storage was refused"); w.name = false; } ref.push_back(w); } }
            else { const int w = g.i(0, (int) ref.size() - 1); D d = vec(np); const double t = val(); H.start(at, sticky); const bool ok = append_well_controls(SURFACE_RATE, t, &d[0], w, W) != 0; const bool fired = H.fired; H.start(); refused += fired; c.check(ok == !fired, "reported", "a control was %s although a request was %s", ok ? "accepted" : "refused", fired ? "refused" : "not refused"); if (ok) { ref[w].ctl.push_back(t); ref[w].ctl.insert(ref[w].ctl.end(), d.begin(), d.end()); } }
            c.check(W->number_of_wells == (int) ref.size() && W->number_of_phases == np, "content", "%d wells instead of %d", W->number_of_wells, (int) ref.size());
            for (size_t i = 0; i < ref.size(); ++i) { const Well& w = ref[i]; const int m = w.cells.size(), o = W->well_connpos[i]; bool same = W->well_connpos[i + 1] - o == m && (int) W->type[i] == (int) (w.type ? PRODUCER : INJECTOR) && W->depth_ref[i] == w.depth && std::equal(w.frac.begin(), w.frac.end(), W->comp_frac + np * i) && std::equal(w.cells.begin(), w.cells.end(), W->well_cells + o) && std::equal(w.WI.begin(), w.WI.end(), W->WI + o) && (W->name[i] ? w.name && !std::strcmp(W->name[i], "somebody") : !w.name) && W->ctrls[i] && W->ctrls[i]->num == (int) (w.ctl.size() / (np + 1)); for (int q = 0; same && q < W->ctrls[i]->num; ++q) same = W->ctrls[i]->target[q] == w.ctl[(np + 1) * q] && W->ctrls[i]->type[q] == SURFACE_RATE && std::equal(&w.ctl[(np + 1) * q + 1], &w.ctl[(np + 1) * q + 1] + np, W->ctrls[i]->distr + np * q); c.check(same, "content", "well %d is not as added after operation %d", (int) i, k); }
        }
        c.nontrivial(refused > 0); c.label("add_well and append_well_controls"); destroy_wells(W); }
    else { hash_set* s = hash_set_allocate(cap + 1); std::set<int> ref; int refused = 0; for (int k = 0; k < 3 * n; ++k) { const int e = g.i(0, 40); H.start(g.b() ? 0 : -1, g.b()); const int r = hash_set_insert(e, s); const bool fired = H.fired; H.start(); refused += fired; c.check(fired ? r == -1 : r == e, "reported", "hash_set_insert(%d) returned %d, a request was %s", e, r, fired ? "refused" : "not refused"); if (!fired) ref.insert(e); std::multiset<int> now; for (size_t i = 0; i < s->m; ++i) if (s->s[i] != -1) now.insert(s->s[i]); c.check(now == std::multiset<int>(ref.begin(), ref.end()), "content", "the set has %d elements instead of %d", (int) now.size(), (int) ref.size()); } c.nontrivial(refused > 0); c.label("hash_set_insert"); hash_set_deallocate(s); }
    H.stop(); clean(c, "container", "after it was destroyed");
}
}

pbt::Spec pbt::spec()
{
    return { "C44", "construct: each constructor of the C code (wells, boundary conditions, sources, sparse matrices, hash sets, partitions, coarse topologies, hybrid systems, two-point, hybrid and multiscale solver data, grids of every kind, grid files) is run on generated input once with memory and then with each of its requests refused, alone or with all that follow: it must return NULL (or its documented error) exactly then, leave its outputs as they were, release what it had, touch nothing indeterminate, and its destroy function must release everything. append: histories of insertions into wells, controls, sources, boundary conditions and hash sets with requests refused at random: refused insertions change nothing, accepted ones are complete. Leak mode: the generated cases of the harnesses of C04 ... C43 are run four times each; what is allocated after a run must not grow, also when library calls throw. Non-trivial: more than one cell, or a refused request and an entry.",
        { "requests are counted by wrapping malloc, calloc, realloc and free of the C objects at link time; requests of libc and operator new are not refused", "process_grdecl, mimetic and spu functions do not claim to survive refusals and are not refused", "tolerated as documented: a cloned well may lose its name, read_grid may drop the index map, coarse_sys_compute_cell_ip does not report", "memory is filled with a pattern before use and addresses are watched by AddressSanitizer" }, 20000, 400000, { { "plain", 3, plain }, { "solvers", 3, solvers }, { "grids", 1, grids }, { "multiscale", 1, multiscale }, { "append", 3, append } } };
}
