// C13: SparseTable and SparseVector behave as the containers they model.
#include "pbt.hpp"
#include "config.h"
#include <iterator>
#include <list>
#include <opm/core/utility/SparseTable.hpp>
#include <opm/core/utility/SparseVector.hpp>

using pbt::Gen; using pbt::Ctx;

namespace {

typedef std::vector<std::vector<int> > Rows;
struct Model { Rows rows; bool made; Model() : made(false) {} };

Rows genRows(Gen& g, int maxr) { Rows r(g.size(1, maxr)); for (auto& x : r) { x.resize(g.size(0, 4)); for (auto& v : x) v = g.i(-9, 9); } return r; }
void flat(const Rows& r, std::vector<int>& data, std::vector<int>& sizes) { data.clear(); sizes.clear(); for (auto& x : r) { data.insert(data.end(), x.begin(), x.end()); sizes.push_back((int) x.size()); } }
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

template <class T> void compare(Ctx& c, Opm::SparseTable<T>& t, const Model& m, bool last)
{
    const Opm::SparseTable<T>& ct = t; int nd = 0;
    c.check(t.size() == (int) m.rows.size(), "size", "table has %d rows, expected %d", t.size(), (int) m.rows.size());
    c.check(t.empty() == m.rows.empty(), "empty", "empty() is %d with %d rows", t.empty(), (int) m.rows.size());
    for (int r = 0; r < t.size(); ++r) {
        const std::vector<int>& w = m.rows[r]; c.check(t.rowSize(r) == (int) w.size(), "row size", "row %d has size %d, expected %d", r, t.rowSize(r), (int) w.size());
        c.check((size_t) ct[r].size() == w.size() && (size_t) t[r].size() == w.size(), "row size", "row range %d has another size", r);
        for (size_t k = 0; k < w.size(); ++k, ++nd) { c.check(ct[r][k] == w[k] && t[r][k] == w[k] && ct.data(nd) == w[k], "element", "element %d of row %d is %d, expected %d", (int) k, r, (int) ct[r][k], w[k]); }
    }
    c.check(t.dataSize() == nd, "data size", "dataSize() is %d, expected %d", t.dataSize(), nd);
    if (!last) return;
    const int n = t.size(); for (int bad : { -1, n, n + 3 }) c.check(throws([&] { ct[bad]; }) && throws([&] { t[bad]; }) && throws([&] { ct.rowSize(bad); }), "range", "row %d of %d was given out", bad, n);
}
bool same(const Model& a, const Model& b) { return a.rows == b.rows; }

template <class T> void tableT(Gen& g, Ctx& c)
{
    Opm::SparseTable<T> t[2]; Model m[2]; const int n = g.size(2, 20); c.nontrivial(n >= 4); std::vector<int> data, sizes;
    for (int k = 0; k < n; ++k) {
        const int w = g.i(0, 1); Opm::SparseTable<T>& a = t[w]; Model& ma = m[w];
        switch (g.i(0, 10)) {
        case 0: case 1: case 2: { std::vector<int> row(g.size(0, 4)); for (auto& v : row) v = g.i(-9, 9); c.desc() << w << ": append " << row.size() << "\n"; if (g.b()) { a.appendRow(row.begin(), row.end()); } else { std::list<int> l(row.begin(), row.end()); a.appendRow(l.begin(), l.end()); } ma.rows.push_back(row); c.label("appended", ma.rows.size() > 1); break; }
        case 3: { ma.rows = genRows(g, 6); flat(ma.rows, data, sizes); c.desc() << w << ": assign " << sizes.size() << " rows\n"; a.assign(data.begin(), data.end(), sizes.begin(), sizes.end()); break; }
        case 4: { ma.rows = genRows(g, 6); flat(ma.rows, data, sizes); c.desc() << w << ": construct " << sizes.size() << " rows\n"; a = Opm::SparseTable<T>(data.begin(), data.end(), sizes.begin(), sizes.end()); break; }
        case 5: { ma.rows = genRows(g, 6); flat(ma.rows, data, sizes); c.desc() << w << ": allocate " << sizes.size() << " rows\n"; a.allocate(sizes.begin(), sizes.end());
            for (int r = 0; r < (int) ma.rows.size(); ++r) { c.check(a.rowSize(r) == (int) ma.rows[r].size() && (size_t) a[r].size() == ma.rows[r].size(), "allocate", "row %d has size %d", r, a.rowSize(r)); std::copy(ma.rows[r].begin(), ma.rows[r].end(), a[r].begin()); } c.label("allocated"); break; }
        case 6: c.desc() << "swap\n"; a.swap(t[1 - w]); std::swap(m[0], m[1]); c.label("swapped"); break;
        case 7: c.desc() << w << ": clear\n"; a.clear(); ma.rows.clear(); c.label("cleared"); break;
        case 8: c.desc() << w << ": copy\n"; a = t[1 - w]; ma = m[1 - w]; if (g.b() && a.size() > 0) { const int r = g.i(0, a.size() - 1); if (a.rowSize(r)) { a[r][0] = (T) 7; ma.rows[r][0] = 7; } } break;
        case 9: if (a.size() > 0) { const int r = g.i(0, a.size() - 1); if (a.rowSize(r)) { const int e = g.i(0, a.rowSize(r) - 1), v = g.i(-9, 9); c.desc() << w << ": set " << r << "," << e << "\n"; a[r][e] = (T) v; ma.rows[r][e] = v; c.label("element set"); } } break;
        default: {
            Rows r = genRows(g, 4); flat(r, data, sizes); const int kind = g.i(0, 3); c.desc() << "bad table " << kind << "\n";
            if (kind == 0) data.push_back(1); else if (kind == 1) { if (data.empty()) break; data.pop_back(); } else if (kind == 2) { data.clear(); sizes.clear(); } else { sizes.push_back(1); sizes.push_back(-1); }
            c.check(throws([&] { Opm::SparseTable<T> b(data.begin(), data.end(), sizes.begin(), sizes.end()); }), "bad table", "a table whose row sizes do not match its data was accepted (kind %d)", kind);
            Opm::SparseTable<T> b; c.check(throws([&] { b.assign(data.begin(), data.end(), sizes.begin(), sizes.end()); }), "bad table", "assigning mismatched data was accepted (kind %d)", kind); c.label("bad table"); break; }
        }
        if (g.p(1, 6)) a.reserve(g.i(0, 30), g.i(0, 60));
        compare(c, t[0], m[0], k + 1 == n); compare(c, t[1], m[1], k + 1 == n);
        c.check((t[0] == t[1]) == same(m[0], m[1]), "equality", "equality is %d", t[0] == t[1]); c.label("equal tables", t[0] == t[1] && !t[0].empty());
    }
    if (m[0].rows.size() > 0) { std::ostringstream o; t[0].print(o); std::string s = o.str(); for (auto& ch : s) if (!std::isdigit((unsigned char) ch) && ch != '-') ch = ' '; std::istringstream is(s); std::vector<int> got; int v; while (is >> v) got.push_back(v); std::vector<int> want(1, (int) m[0].rows.size()); int off = 0; want.push_back(0); for (auto& r : m[0].rows) want.push_back(off += (int) r.size()); for (auto& r : m[0].rows) want.insert(want.end(), r.begin(), r.end()); c.check(got == want, "print", "printed table differs:\n%s", o.str().c_str()); }
}
void table(Gen& g, Ctx& c) { if (g.b()) tableT<int>(g, c); else tableT<double>(g, c); }

void vectorS(Gen& g, Ctx& c)
{
    int size = g.size(0, 12); std::map<int, int> m; Opm::SparseVector<int> v = g.b() ? Opm::SparseVector<int>(size) : Opm::SparseVector<int>(); if (v.size() != size) { size = 0; c.check(v.size() == 0 && v.empty(), "default", "default constructed vector has size %d", v.size()); }
    if (g.b()) {
        size = g.size(0, 12); m.clear(); std::vector<int> d, x; for (int k = 0; k < size; ++k) if (g.p(1, 3)) { x.push_back(k); d.push_back(m[k] = g.i(-9, 9)); }
        c.desc() << "construct size " << size << " with " << x.size() << "\n"; v = Opm::SparseVector<int>(size, d.begin(), d.end(), x.begin(), x.end());
        if (!x.empty()) { std::vector<int> y = x, e = d; const int k = g.i(0, 3); if (k == 0) y.back() = size; else if (k == 1) y[0] = -1; else if (k == 2) { y.push_back(y.back()); e.push_back(1); } else e.push_back(3);
            c.check(throws([&] { Opm::SparseVector<int> b(size, e.begin(), e.end(), y.begin(), y.end()); }), "bad vector", "a vector with malformed indices was accepted (kind %d)", k); }
    }
    const int n = g.size(1, 12);
    for (int k = 0; k < n; ++k) {
        switch (g.i(0, 5)) {
        case 0: case 1: case 2: { const int ix = g.i(m.empty() ? 0 : m.rbegin()->first, size + 1) - (g.p(1, 6) ? 1 : 0), e = g.i(-9, 9); const bool ok = ix >= 0 && ix < size && (m.empty() || ix > m.rbegin()->first); c.desc() << "add " << ix << "\n"; c.check(throws([&] { v.addElement(e, ix); }) != ok, "add", "adding element %d to a vector of size %d %s", ix, size, ok ? "failed" : "was accepted"); if (ok) m[ix] = e; c.label("refused element", !ok); break; }
        case 3: if (g.p(1, 3)) { c.desc() << "clear\n"; v.clear(); m.clear(); size = 0; } break;
        case 4: { Opm::SparseVector<int> w = v; c.check(w == v, "equality", "a copy differs"); Opm::SparseVector<int> u(size + 1); c.check(!(u == v), "equality", "vectors of different size compare equal"); if (size > 0 && (m.empty() || m.rbegin()->first < size - 1)) { w.addElement(1, size - 1); c.check(!(w == v), "equality", "vectors with different elements compare equal"); } break; }
        default: break;
        }
        c.check(v.size() == size && v.empty() == (size == 0) && v.nonzeroSize() == (int) m.size(), "size", "size %d (%d), stored %d (%d)", v.size(), size, v.nonzeroSize(), (int) m.size());
        int j = 0; for (auto& e : m) { c.check(v.nonzeroIndex(j) == e.first && v.nonzeroElement(j) == e.second, "stored", "stored element %d is %d at %d", j, v.nonzeroElement(j), v.nonzeroIndex(j)); ++j; }
        for (int i = 0; i < size; ++i) { const int w = m.count(i) ? m[i] : 0; c.check(v.element(i) == w, "element", "element %d is %d, expected %d", i, v.element(i), w); }
        if (k + 1 == n) c.check(throws([&] { v.element(-1); }) && throws([&] { v.element(size); }) && throws([&] { v.nonzeroElement(j); }) && throws([&] { v.nonzeroIndex(-1); }), "range", "access outside the vector");
    }
    c.nontrivial(m.size() >= 2);
}

} // namespace

pbt::Spec pbt::spec()
{
    return { "C13", "table: histories of up to 20 operations (append, assign, construct, allocate and fill, swap, clear, copy, set, malformed input) on two tables, compared completely with a vector of vectors after every step; vector: same for SparseVector against a map. Non-trivial: at least four operations / two stored elements.",
        { "after a refused assignment the table is not used any more" },
        250000, 8000000, { { "table", 2, table }, { "vector", 1, vectorS } } };
}
