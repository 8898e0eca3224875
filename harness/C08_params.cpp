// C08: parameters survive storage, lookup, XML files, parameter files and the command line.
#include "pbt.hpp"
#include "config.h"
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/utility/parameters/ParameterRequirement.hpp>
#include <boost/filesystem.hpp>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>

using pbt::Gen; using pbt::Ctx;
using namespace Opm::parameter;

namespace {

// ------------------------------------------------------------- reference model
struct Node;
typedef std::shared_ptr<Node> NodeP;
struct Node {
    bool group, used; std::string value, type; std::map<std::string, NodeP> kids; Node* parent; std::string path;
    Node() : group(true), used(false), parent(0) {}
};
NodeP leaf(const std::string& v, const std::string& t) { NodeP n(new Node); n->group = false; n->value = v; n->type = t; return n; }
struct ModelError {};

void put(Node& g, const std::string& name, NodeP d)          // an element read from XML
{
    NodeP& slot = g.kids[name];
    if (slot && slot->group && d->group) { for (auto& k : d->kids) put(*slot, k.first, k.second); return; }
    if (d->group) d->parent = &g;
    slot = d;
}
void assign(Node& g, std::string name, const std::string& v)     // name=value
{
    while (!name.empty() && name[0] == '/') name = name.substr(1);
    const size_t p = name.find('/');
    if (p == std::string::npos || p + 1 == name.size()) { g.kids[name.substr(0, p)] = leaf(v, "cmdline"); return; }
    NodeP& k = g.kids[name.substr(0, p)];
    if (!k) { k.reset(new Node); k->parent = &g; k->path = g.path + "/" + name.substr(0, p); }
    else if (!k->group) throw ModelError();
    assign(*k, name.substr(p + 1), v);
}
// Looks a name up: missing names are asked for in the enclosing groups.
NodeP find(Node& g, const std::string& name, std::vector<Node*>& visited, bool& bad)
{
    visited.push_back(&g); bad = false;
    const size_t p = name.find('/'); auto it = g.kids.find(name.substr(0, p));
    if (it == g.kids.end()) { if (g.parent) return find(*g.parent, name, visited, bad); return NodeP(); }
    if (p == std::string::npos) return it->second;
    if (!it->second->group) { bad = true; return NodeP(); }
    return find(*it->second, name.substr(p + 1), visited, bad);
}
bool has(Node& g, const std::string& name)
{
    const size_t p = name.find('/'); auto it = g.kids.find(name.substr(0, p));
    if (it == g.kids.end()) return false;
    return p == std::string::npos ? true : it->second->group && has(*it->second, name.substr(p + 1));
}
bool anyUnused(const Node& g) { if (!g.used) return true; for (auto& k : g.kids) if (k.second->group ? anyUnused(*k.second) : !k.second->used) return true; return false; }
void usage(const Node& g, bool used, std::multiset<std::string>& out)
{
    if (g.used == used) out.insert(g.path);
    for (auto& k : g.kids) if (k.second->group) usage(*k.second, used, out); else if (k.second->used == used) out.insert(g.path + "/" + k.first);
}
void leaves(const Node& g, std::map<std::string, std::string>& out)
{
    if (g.kids.empty()) out[g.path + "/dummy"] = "0";
    for (auto& k : g.kids) if (k.second->group) leaves(*k.second, out); else out[g.path + "/" + k.first] = k.second->value;
}

// ------------------------------------------------------------------ generators
std::string name1(Gen& g) { static const char* n[] = { "a", "b", "c", "num", "x-1", "group", "aa", "Solver_tol" }; return n[g.i(0, g.b() ? 2 : 7)]; }
std::string pathName(Gen& g, int maxd = 3) { std::string s = name1(g); const int d = g.i(0, maxd); for (int k = 0; k < d; ++k) if (g.b()) s += "/" + name1(g); return s; }
enum Kind { INT, REAL, BOOL, WORD, BIG };
struct Val { std::string text; Kind kind; };
Val value(Gen& g)
{
    Val v;
    switch (v.kind = (Kind) g.i(0, 4)) {
    case INT: v.text = pbt::fmt("%d", g.i(g.b() ? -1000000 : -3, g.b() ? 2000000000 : 5)); if (g.p(1, 8)) v.text = "+" + pbt::fmt("%d", g.i(0, 9)); break;
    case REAL: { static const char* f[] = { "%.17g", "%.17e", "%.6f" }; v.text = pbt::fmt(f[g.i(0, 2)], g.real(-1e3, 1e3) + 0.25); break; }
    case BOOL: v.text = g.b() ? "true" : "false"; break;
    case BIG: v.text = g.b() ? "99999999999999" : "-3000000000"; break;
    default: { static const char* w[] = { "", "abc", "True", "x y", "dir/sub/file.txt", "-", "nope", "a,b;c", "e5", " " }; v.text = w[g.i(0, 9)]; break; }
    }
    return v;
}
Kind kindOf(const std::string& t)
{
    if (t == "true" || t == "false") return BOOL;
    char* e; std::strtod(t.c_str(), &e); if (t.empty() || *e || isspace((unsigned char) t[0])) return WORD;
    if (t.find_first_of(".eE") != std::string::npos) return REAL;
    return std::strlen(t.c_str()) > 10 ? BIG : INT;
}

struct Xml { Gen& g; Ctx& c; std::string dir; int nfile; std::string cur; bool utf8; };     // cur: directory of the file being written, below dir
// The text of an attribute; the value it stands for may get further characters.
std::string esc(Xml& x, std::string& s, char quote)
{
    Gen& g = x.g; std::string o; const size_t at = g.p(1, 8) ? g.i(0, (int) s.size()) : std::string::npos; std::string v;
    for (size_t k = 0; k <= s.size(); ++k) {
        if (k == at) switch (g.i(0, 3)) {                      // a character that needs its encoding, an entity of ours, an entity nobody knows
            case 0: o += "\xc3\xa9"; v += "\xc3\xa9"; break;
            case 1: if (x.utf8) { static const char* n[] = { "&#233;", "&#xE9;", "&#8364;", "&#x20ac;", "&#x1F600;" }; static const char* t[] = { "\xc3\xa9", "\xc3\xa9", "\xe2\x82\xac", "\xe2\x82\xac", "\xf0\x9f\x98\x80" }; const int q = g.i(0, 4); o += n[q]; v += t[q]; } else { o += "&#xE9;"; v += "\xe9"; } break;
            case 2: o += "&apos;"; v += "'"; break;
            default: o += "a>b"; v += "a>b"; break;
        }
        if (k == s.size()) break;
        const char ch = s[k]; v += ch;
        if (ch == '&') o += "&amp;"; else if (ch == '<') o += "&lt;"; else if (ch == '>' && g.b()) o += "&gt;"; else if (ch == quote) o += quote == '"' ? "&quot;" : "&apos;"; else if (ch == 'a' && g.p(1, 6)) o += g.b() ? "&#x61;" : "&#97;"; else o += ch;
    }
    s = v; return o;
}
std::string blank(Gen& g) { static const char* w[] = { " ", " ", " ", "  ", "\n  ", "\t" }; return w[g.i(0, 5)]; }
std::string attr(Xml& x, const char* name, std::string text, char q) { Gen& g = x.g; const bool sp = g.p(1, 10); return blank(g) + name + (sp ? " = " : "=") + q + text + q; }
std::string tagged(Xml& x, const std::string& tag, std::vector<std::string> at, bool close)
{
    Gen& g = x.g; if (g.p(1, 8)) at.push_back(" note=\"x\""); const std::vector<int> o = g.perm((int) at.size()); std::string s = "<" + tag; for (int k : o) s += at[k];
    if (g.p(1, 8)) s += blank(g);
    return close ? s + (g.b() ? "/>" : "></" + tag + (g.p(1, 6) ? " >" : ">")) + "\n" : s + ">" + (g.b() ? "\n" : "");
}
std::string body(Xml& x, Node& into, int depth);
std::string newFile(Xml& x, Node& into, int depth)
{
    Gen& g = x.g; const std::string outer = x.cur, sub = g.p(1, 3) ? g.b() ? "sub/" : "other/deep/" : "", name = sub + pbt::fmt("f%d.xml", x.nfile++); const bool u = x.utf8; const int head = g.i(0, 5); std::string h;
    x.cur = outer + sub; boost::filesystem::create_directories(x.dir + "/" + x.cur);
    switch (head) { case 0: h = "<?xml version=\"1.0\"?>\n"; x.utf8 = true; break; case 1: h = "<?xml version='1.0' encoding='UTF-8' ?>\n"; x.utf8 = true; break; case 2: h = "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n"; x.utf8 = false; break; case 3: h = "\xef\xbb\xbf"; x.utf8 = true; break; default: x.utf8 = false; }
    if (g.p(1, 8)) h += "<!-- leading <note> -->\n"; if (g.p(1, 8)) h += "<!DOCTYPE params>\n";
    const std::string root = g.b() ? "ParameterGroup" : "root";
    std::string text = h + "<" + root + (g.p(1, 5) ? " name=\"ignored\"" : "") + ">\n" + body(x, into, depth) + "</" + root + ">" + (g.b() ? "\n" : "");
    x.cur = outer; x.utf8 = u; if (g.p(1, 6)) { std::string t; for (char ch : text) { if (ch == '\n') t += '\r'; t += ch; } text = t; }
    std::ofstream f((x.dir + "/" + outer + name).c_str(), std::ios::binary); f << text; x.c.desc() << "[" << outer + name << "]\n" << text; x.c.label("XML in another directory", !sub.empty()); x.c.label("XML encoding", head < 4);
    return name;
}
std::string body(Xml& x, Node& into, int depth)
{
    Gen& g = x.g; std::string o; const int n = g.size(0, 4);
    for (int k = 0; k < n; ++k) {
        if (g.p(1, 8)) { static const char* junk[] = { "<!-- a comment <b> -->\n", "<!-- <Parameter name=\"a\" type=\"int\" value=\"1\"/> -->\n", "some text\n", "<![CDATA[ <Parameter name=\"a\"/> ]]>\n", "<?other thing?>\n", "<!---->", "<!-- a -> b <Parameter name=\"a\" type=\"int\" value=\"1\"/> - -->", "<![CDATA[ a[b[1]] >2 ]> <Parameter name=\"a\" type=\"int\" value=\"1\"/> ] ]]>\n" }; o += junk[g.i(0, 7)]; }
        const std::string nm = name1(g); const int t = depth > 0 ? g.i(0, 6) : 0; const char q1 = g.p(3, 4) ? '"' : '\'', q2 = g.p(3, 4) ? '"' : '\'';
        if (t <= 3) {
            static const char* ty[] = { "int", "double", "bool", "string", "file", "cmdline" }; Val v = value(g); if (g.p(1, 6)) v.text += "<&\"'>";
            const std::string q = ty[g.i(0, 5)]; std::string type = q; if (q == "file" && v.text.empty()) v.text = "f"; const std::string text = esc(x, v.text, q1); std::string val = v.text;
            if (q == "file") { val = x.dir + "/" + x.cur + val; type = "string"; }
            o += tagged(x, "Parameter", { attr(x, "name", nm, q2), attr(x, "type", q, q2), attr(x, "value", text, q1) }, true);
            put(into, nm, leaf(val, type));
        } else if (t == 4 || t == 5) {
            NodeP d(new Node); d->path = into.path + "/" + nm; d->parent = &into;
            if (t == 4) { const std::string b = body(x, *d, depth - 1); o += tagged(x, "ParameterGroup", { attr(x, "name", nm, q1) }, false) + b + "</ParameterGroup>\n"; }
            else { const std::string f = newFile(x, *d, depth - 1); o += tagged(x, "ParameterGroupFromFile", { attr(x, "name", nm, q1), attr(x, "value", f, q2) }, true); }
            put(into, nm, d);
        } else { const std::string f = newFile(x, into, depth - 1); o += tagged(x, "MergeWithFile", { attr(x, "value", f, q1) }, true); }
    }
    return o;
}

// A parameter file; returns its text and applies it to the model.
std::string paramText(Gen& g, Node& m, bool& error)
{
    std::string o; const int n = g.size(0, 6); error = false;
    for (int k = 0; k < n; ++k) {
        switch (g.i(0, 9)) {
        case 1: o += "// a comment a=5\n"; break;
        case 2: o += "\n"; break;
        case 3: o += "no assignment here\n"; break;
        case 4: o += "a=b=c\n"; break;
        default: {
            const std::string nm = (g.p(1, 4) ? "/" : "") + pathName(g); const Val v = value(g); const bool com = g.p(1, 6); const std::string pad(g.p(1, 4) ? g.i(1, 90) : 1, ' '), note(g.i(0, 100), com && g.b() ? '=' : 'x');
            o += nm + "=" + v.text + (com ? pad + "//" + note : "") + "\n";
            if (!error) { try { assign(m, nm, v.text + (com ? pad : "")); } catch (const ModelError&) { error = true; } } }
        }
    }
    if (g.p(1, 4) && !o.empty()) o.resize(o.size() - 1);
    return o;
}

template <class F> bool throws(F f) { try { f(); } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { return true; } return false; }

struct CoutGrab { std::ostringstream o; std::streambuf* old; CoutGrab() : old(std::cout.rdbuf(o.rdbuf())) {} ~CoutGrab() { std::cout.rdbuf(old); } };

template <class T> struct Expect;
template <> struct Expect<int> { static const char* type() { return "int"; } static int def() { return -77; } static int ok(const Node& n) { const Kind k = kindOf(n.value); return k == INT ? 1 : k == REAL ? -1 : 0; } static bool same(int v, const Node& n) { return v == std::atoi(n.value.c_str()); } };
template <> struct Expect<double> { static const char* type() { return "double"; } static double def() { return -77.5; } static int ok(const Node& n) { const Kind k = kindOf(n.value); return k == INT || k == REAL || k == BIG; } static bool same(double v, const Node& n) { return v == std::strtod(n.value.c_str(), 0); } };
template <> struct Expect<bool> { static const char* type() { return "bool"; } static bool def() { return true; } static int ok(const Node& n) { return kindOf(n.value) == BOOL; } static bool same(bool v, const Node& n) { return v == (n.value == "true"); } };
template <> struct Expect<std::string> { static const char* type() { return "string"; } static std::string def() { return "the default"; } static int ok(const Node&) { return 1; } static bool same(const std::string& v, const Node& n) { return v == n.value; } };

template <class T> void lookup(Gen& g, Ctx& c, const ParameterGroup& pg, Node& m, const std::string& nm, bool dflt)
{
    const char* ty = Expect<T>::type(); (void) g;
    std::vector<Node*> vis; bool bad; NodeP n = find(m, nm, vis, bad);
    for (Node* v : vis) v->used = true;
    int want; const char* why = "";      // 1 value, 0 error, 2 default, -1 either
    if (bad) { want = 0; why = "a parameter is used as a group"; }
    else if (!n) { want = dflt ? 2 : 0; why = "there is no such name"; }
    else if (n->group) { want = 0; why = "it is a group"; }
    else if (n->type != ty && n->type != "cmdline") { want = 0; why = "the type differs"; }
    else { want = Expect<T>::ok(*n); why = "the value is of another type"; if (kindOf(n->value) == WORD && want == 0 && std::string(ty) != "bool") { char* e; const char* s = n->value.c_str(); std::strtod(s, &e); if (e != s) want = -1; } }
    T v = T(); bool th = false;
    try { v = dflt ? pg.getDefault<T>(nm, Expect<T>::def()) : pg.get<T>(nm); } catch (const std::exception&) { th = true; }
    c.desc() << (dflt ? "getDefault<" : "get<") << ty << "> " << nm << (th ? " throws\n" : "\n");
    if (want == -1) { c.label("loosely typed value"); }
    else {
        c.check(th == (want == 0), "lookup", "%s<%s>(\"%s\") %s, but %s", dflt ? "getDefault" : "get", ty, nm.c_str(), th ? "failed" : "returned a value", want == 0 ? why : n ? ("the value is '" + n->value + "'").c_str() : "there is a default");
        if (want == 1) c.check(Expect<T>::same(v, *n), "value", "get<%s>(\"%s\") differs from '%s'", ty, nm.c_str(), n->value.c_str());
        if (want == 2) c.check(v == Expect<T>::def(), "value", "getDefault<%s>(\"%s\") is not the default", ty, nm.c_str());
        c.label("found", want == 1); c.label("default", want == 2); c.label("lookup error", want == 0); c.label("asked a parent", vis.size() > 1 && want == 1 && vis.back()->parent == 0 && nm.find('/') != std::string::npos);
    }
    if (n && !th) n->used = true;
}
// A name worth asking for: a walk down the tree, now and then ending in something that only an enclosing group may have.
std::string treeName(Gen& g, Node& m)
{
    if (g.p(1, 4)) return pathName(g);
    std::string s; Node* n = &m; std::vector<Node*> up(1, n);
    while (n->group && !n->kids.empty()) {
        if (!s.empty() && g.p(1, 3)) break;
        auto it = n->kids.begin(); std::advance(it, g.i(0, (int) n->kids.size() - 1)); s += (s.empty() ? "" : "/") + it->first; n = it->second.get(); up.push_back(n);
    }
    if (s.empty()) return name1(g);
    if (n->group && g.p(2, 3)) { Node* u = up[g.i(0, (int) up.size() - 1)]; if (u->kids.empty()) u = &m; if (u->kids.empty()) return s; auto it = u->kids.begin(); std::advance(it, g.i(0, (int) u->kids.size() - 1)); s += "/" + it->first; }
    return s;
}
void anyLookup(Gen& g, Ctx& c, const ParameterGroup& pg, Node& m, const std::string& nm)
{
    const bool d = g.b(); std::vector<Node*> vis; bool bad; NodeP n = find(m, nm, vis, bad); int t = g.i(0, 3);
    if (n && !n->group && g.p(2, 3)) { const Kind k = kindOf(n->value); t = n->type == "int" ? 0 : n->type == "double" ? 1 : n->type == "bool" ? 2 : n->type == "string" ? 3 : k == INT ? 0 : k == BOOL ? 2 : k == WORD ? 3 : 1; }
    switch (t) { case 0: lookup<int>(g, c, pg, m, nm, d); break; case 1: lookup<double>(g, c, pg, m, nm, d); break; case 2: lookup<bool>(g, c, pg, m, nm, d); break; default: lookup<std::string>(g, c, pg, m, nm, d); break; }
}
// Reads the whole tree without marking anything in the original.
void compareTree(Ctx& c, const ParameterGroup& pg, const Node& m, const char* when)
{
    std::map<std::string, std::string> want; leaves(m, want);
    std::ostringstream o; pg.writeParamToStream(o); std::istringstream is(o.str()); std::string l; size_t n = 0;
    while (std::getline(is, l)) {
        const size_t e = l.find('='); c.check(e != std::string::npos, "written", "%s: line '%s'", when, l.c_str());
        auto it = want.find(l.substr(0, e)); c.check(it != want.end(), "tree", "%s: unexpected parameter '%s'", when, l.substr(0, e).c_str());
        c.check(it->second == l.substr(e + 1), "tree", "%s: %s is '%s', expected '%s'", when, it->first.c_str(), l.substr(e + 1).c_str(), it->second.c_str()); ++n;
    }
    c.check(n == want.size(), "tree", "%s: %d parameters, expected %d", when, (int) n, (int) want.size());
}

void history(Gen& g, Ctx& c)
{
    const std::string dir = pbt::scratch(); Node m; std::unique_ptr<ParameterGroup> pg; int nf = 0;
    if (g.b()) pg.reset(new ParameterGroup);
    else {
        // Command line: files first, then the assignments, in order.
        std::vector<std::string> args(1, "prog"); std::vector<std::pair<std::string, std::string> > as; bool error = false; const int n = g.size(0, 6); std::vector<std::pair<int, std::string> > files;
        for (int k = 0; k < n; ++k) {
            const int t = g.i(0, 7);
            if (t == 0) { const std::string f = pbt::fmt("%s/cmd%d.param", dir.c_str(), nf++); bool e = false; const std::string text = error ? "" : paramText(g, m, e); error = error || e; std::ofstream(f.c_str()) << text; args.push_back(f); c.desc() << "[cmd.param]\n" << text << "\n"; }
            else if (t == 1) { if (!error) { Xml x = { g, c, dir, nf, "", false }; const std::string f = newFile(x, m, 2); nf = x.nfile; args.push_back(dir + "/" + f); } }
            else if (t == 2) { args.push_back(g.b() ? "notes.txt" : "a=b=c"); }
            else { const std::string nm = (g.p(1, 5) ? "/" : "") + pathName(g); const Val v = value(g); args.push_back(nm + "=" + v.text); as.push_back(std::make_pair(nm, v.text)); }
        }
        for (auto& a : as) if (!error) { try { assign(m, a.first, a.second); } catch (const ModelError&) { error = true; } }
        std::vector<const char*> av; for (auto& a : args) { av.push_back(a.c_str()); c.desc() << a << " "; } c.desc() << "\n";
        c.label("command line");
        bool th = false; try { pg.reset(new ParameterGroup((int) av.size(), &av[0], false)); } catch (const std::exception&) { th = true; }
        c.check(th == error, "command line", "reading the command line %s", th ? "failed" : "did not report that a parameter is used as a group");
        if (th) return;
    }
    if (g.b()) pg->disableOutput();
    const int n = g.size(1, 20); c.nontrivial(n >= 3);
    for (int k = 0; k < n; ++k) {
        switch (g.i(0, 9)) {
        case 0: case 1: {
            const std::string nm = (g.p(1, 5) ? std::string(g.i(1, 2), '/') : "") + pathName(g) + (g.p(1, 10) ? "/" : ""); const Val v = value(g); bool err = false; c.desc() << "insert " << nm << "=" << v.text << "\n";
            try { assign(m, nm, v.text); } catch (const ModelError&) { err = true; }
            c.check(throws([&] { pg->insertParameter(nm, v.text); }) == err, "insert", "inserting '%s' %s", nm.c_str(), err ? "below a parameter was accepted" : "failed"); c.label("insert below a parameter", err);
            break; }
        case 2: {
            const std::string f = pbt::fmt("%s/p%d.param", dir.c_str(), nf++); bool err; const std::string t = paramText(g, m, err); { std::ofstream o(f.c_str()); o << t; } c.desc() << "readParam\n" << t << "\n";
            c.check(throws([&] { pg->readParam(f); }) == err, "readParam", "reading the file %s", err ? "did not fail" : "failed"); c.label("parameter file"); break; }
        case 3: { Xml x = { g, c, dir, nf, "", false }; const std::string f = newFile(x, m, 3); nf = x.nfile; c.desc() << "readXML " << f << "\n"; pg->readXML(dir + "/" + f); c.label("XML file"); c.label("several XML files", nf > 2); break; }
        case 4: case 5: { const int r = g.i(1, 3); for (int a = 0; a < r; ++a) anyLookup(g, c, *pg, m, treeName(g, m)); break; }
        case 6: {
            const std::string nm = treeName(g, m); std::vector<Node*> vis; bool bad; NodeP q = find(m, nm, vis, bad); for (Node* v : vis) v->used = true;
            c.desc() << "getGroup " << nm << "\n";
            if (!q || !q->group) { c.check(throws([&] { pg->getGroup(nm); }), "getGroup", "group '%s' does not exist, but was returned", nm.c_str()); break; }
            ParameterGroup sub = pg->getGroup(nm); q->used = true; c.check(sub.path() == q->path, "path", "group has path '%s', expected '%s'", sub.path().c_str(), q->path.c_str());
            compareTree(c, sub, *q, "subgroup"); const int r = g.i(0, 3); for (int a = 0; a < r; ++a) { c.desc() << "  sub: "; anyLookup(g, c, sub, *q, treeName(g, *q)); } c.label("subgroup"); break; }
        case 7: { const std::string nm = treeName(g, m); const bool want = has(m, nm); bool got = false; try { got = pg->has(nm); } catch (const std::bad_cast&) {} c.desc() << "has " << nm << "\n"; c.check(got == want, "has", "has(\"%s\") is %d", nm.c_str(), got); break; }
        case 8: {
            c.desc() << "usage\n"; c.check(pg->anyUnused() == anyUnused(m), "unused", "anyUnused() is %d", !anyUnused(m));
            for (int u = 0; u < 2; ++u) { std::multiset<std::string> want, got; usage(m, u, want); CoutGrab cg; pg->displayUsage(u); std::istringstream is(cg.o.str()); std::string l; while (std::getline(is, l)) got.insert(l);
                if (got != want) { std::string w, h; for (auto& s : want) w += " '" + s + "'"; for (auto& s : got) h += " '" + s + "'"; c.fail("usage", "%s parameters reported:%s, expected:%s", u ? "used" : "unused", h.c_str(), w.c_str()); } }
            break; }
        default: {
            const std::string f = pbt::fmt("%s/w%d.param", dir.c_str(), nf++); c.desc() << "write and read\n"; pg->writeParam(f); std::map<std::string, std::string> l; leaves(m, l); bool clean = true; for (auto& v : l) if (v.second.find("//") != std::string::npos || v.second.find('=') != std::string::npos) clean = false;
            if (clean) { ParameterGroup r; r.disableOutput(); r.readParam(f); Node m2; for (auto& v : l) assign(m2, v.first, v.second); compareTree(c, r, m2, "written and read back"); for (auto& v : l) c.check(r.get<std::string>(v.first.substr(1)) == v.second, "read back", "%s read back as '%s', expected '%s'", v.first.c_str(), r.get<std::string>(v.first.substr(1)).c_str(), v.second.c_str()); c.label("written and read back"); }
            break; }
        }
    }
    compareTree(c, *pg, m, "at the end"); c.label("five or more parameters", [&] { std::map<std::string, std::string> l; leaves(m, l); return l.size() >= 5; }());
}

// ------------------------------------------------------------ requirements
void requirements(Gen& g, Ctx& c)
{
    ParameterGroup pg; pg.disableOutput(); const double x = g.p(1, 4) ? 0 : g.real(-2, 2); pg.insertParameter("x", pbt::fmt("%.17g", x)); const int kind = g.i(0, 8); const bool dflt = g.b(), absent = g.b(); const char* nm = dflt && absent ? "y" : "x"; bool want = false, th = false;
    static const char* words[] = { "", "cell", "face", "node" }; const std::string w = words[g.i(0, 3)]; pg.insertParameter("w", w); const int n = g.i(1, 4); std::vector<std::string> el(words, words + n); bool member = std::find(el.begin(), el.end(), w) != el.end();
    c.desc() << "value " << x << " '" << w << "' requirement " << kind << (dflt ? " with default" : "") << "\n"; c.nontrivial(); c.label(pbt::fmt("requirement %d", kind));
#define TRY(R) do { auto r = R; th = throws([&] { const double v = dflt ? pg.getDefault<double>(nm, x, r) : pg.get<double>(nm, r); c.check(v == x, "value", "got %.17g", v); }); } while (0)
    switch (kind) {
    case 0: want = x > 0; TRY(ParameterRequirementPositive()); break;
    case 1: want = x < 0; TRY(ParameterRequirementNegative()); break;
    case 2: want = x <= 0; TRY(ParameterRequirementNonPositive()); break;
    case 3: want = x >= 0; TRY(ParameterRequirementNonNegative()); break;
    case 4: want = x != 0; TRY(ParameterRequirementNonZero()); break;
    case 5: want = x >= 0 && x <= 1; TRY(ParameterRequirementProbability()); break;
    case 6: want = x >= 0 && x != 0; TRY((ParameterRequirementAnd<ParameterRequirementNonZero, ParameterRequirementNonNegative>(ParameterRequirementNonZero(), ParameterRequirementNonNegative()))); break;
    case 7: want = w != ""; th = throws([&] { const std::string v = dflt ? pg.getDefault<std::string>(absent ? "v" : "w", w, ParameterRequirementNonEmpty()) : pg.get<std::string>("w", ParameterRequirementNonEmpty()); c.check(v == w, "value", "got '%s'", v.c_str()); }); break;
    default: want = member; th = throws([&] { const std::string v = dflt ? pg.getDefault<std::string>(absent ? "v" : "w", w, ParameterRequirementMemberOf(el)) : pg.get<std::string>("w", ParameterRequirementMemberOf(el)); c.check(v == w, "value", "got '%s'", v.c_str()); }); break;
    }
    c.check(th != want, "requirement", "requirement %d %s %g / '%s'", kind, th ? "rejected" : "accepted", x, w.c_str());
}

// --------------------------------------------------------------- bad files
void mutate(Gen& g, Ctx& c)
{
    const std::string dir = pbt::scratch(); const bool xml = g.p(2, 3); std::string t; Node m;
    if (xml) { Xml x = { g, c, dir, 0, "", false }; t = "<ParameterGroup>\n" + body(x, m, 2) + "</ParameterGroup>\n"; } else { bool e; t = paramText(g, m, e); }
    const std::string orig = t; const int nm = g.i(0, 4);
    static const char* frag[] = { "<", ">", "/>", "\"", "&", "&#", "&#x", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "=", "//", "\n", "/", "<Unknown/>", "<Parameter/>", "<ParameterGroup name=\"a/b\"></ParameterGroup>", "<Parameter name=\"a/b\" value=\"1\" type=\"int\"/>", "'", "<MergeWithFile value=\"nosuch.xml\"/>", "=5\n", "text" };
    for (int k = 0; k < nm; ++k) {
        const int len = (int) t.size();
        switch (g.i(0, 4)) {
        case 0: if (len) t.resize(g.i(0, len - 1)); break;
        case 1: if (len) t.erase(g.i(0, len - 1), g.i(1, 12)); break;
        case 2: case 3: t.insert(g.i(0, len), frag[g.i(0, 24)]); break;
        default: if (len) { const int a = g.i(0, len - 1), b = g.i(0, len - 1); t.insert(g.i(0, len), t.substr(a, std::min(30, std::abs(b - a)))); }
        }
    }
    const std::string f = dir + (xml ? "/mut.xml" : "/mut.param"); { std::ofstream o(f.c_str(), std::ios::binary); o << t; }
    c.desc() << t << "\n"; c.nontrivial(t != orig);
    ParameterGroup pg; pg.disableOutput(); bool th = false;
    try { if (xml) pg.readXML(f); else pg.readParam(f); } catch (const std::exception&) { th = true; }
    c.label(th ? "rejected" : "accepted");
    // whatever was read can be walked through
    std::ostringstream o; pg.writeParamToStream(o); pg.anyUnused(); for (int k = 0; k < 3; ++k) { const std::string nm2 = pathName(g); try { pg.get<std::string>(nm2); } catch (const std::exception&) {} try { pg.has(nm2); } catch (const std::exception&) {} }
    if (!th && xml) {       // an XML file that was cut off before its end cannot have been accepted
        if (t.size() < orig.size() && nm == 1 && orig.compare(0, t.size(), t) == 0 && t.find_last_not_of(" \n\t") + 1 < orig.find_last_not_of(" \n\t") + 1) c.fail("truncated", "a truncated XML file was accepted");
    }
}
void missing(Gen& g, Ctx& c)
{
    const std::string dir = pbt::scratch(), f = dir + (g.b() ? "/none.xml" : "/none.param"); const int kind = g.i(0, 3); c.desc() << "kind " << kind << " " << f.substr(dir.size()) << "\n"; c.nontrivial(); const bool xml = f[f.size() - 1] == 'l'; bool th;
    ParameterGroup pg; static const char* bad[] = { "", "<!-- only a comment -->\n", "<ParameterGroup><Parameter name='a'", "<ParameterGroup><Nonsense name='a'/></ParameterGroup>", "<ParameterGroup><MergeWithFile value='gone.xml'/></ParameterGroup>",
        "<ParameterGroup><Parameter name='a' type='int' value='1' value='2'/></ParameterGroup>", "<ParameterGroup><Parameter name='a' type='int' value='1'></ParameterGroup></Parameter>", "<ParameterGroup><Parameter name='a' type='int' value='1/></ParameterGroup>",
        "<ParameterGroup><Parameter name='a' type='int' value'1'/></ParameterGroup>", "<ParameterGroup><Parameter name='a' / ></ParameterGroup>", "<ParameterGroup>", "<ParameterGroup", "<ParameterGroup></Parametergroup>", "no xml at all" };
    if (kind == 0) th = throws([&] { if (xml) pg.readXML(f); else pg.readParam(f); });
    else if (kind == 1) { const char* a[] = { "p", f.c_str() }; th = throws([&] { ParameterGroup q(2, a, false); }); }
    else if (kind == 2) { { std::ofstream o((dir + "/bad.xml").c_str()); o << bad[g.i(0, 13)]; } th = throws([&] { pg.readXML(dir + "/bad.xml"); }); }
    else { static const char* nm[] = { "", "/", "//" }; const std::string n = nm[g.i(0, 2)]; th = throws([&] { pg.insertParameter(n, "5"); }); if (g.b()) { const std::string a = n + "=5"; const char* av[] = { "p", a.c_str() }; th = th && throws([&] { ParameterGroup q(2, av, false); }); } }
    c.check(th, "accepted", "an unreadable file or an empty name was accepted");
}

} // namespace

pbt::Spec pbt::spec()
{
    return { "C08", "history: a parameter group made empty or from a command line (assignments, .param and nested .xml files incl. MergeWithFile and ParameterGroupFromFile), then up to 20 inserts, file reads, typed get/getDefault, subgroup copies with lookups, has, usage reports and write/read round trips, each compared with a tree model; requirement: every requirement class on values at, above and below its limits; mutate: edited files must be read or throw and leave a usable tree; missing: absent, empty, malformed files and empty names must throw. Non-trivial: at least three operations / changed text.",
        { "values contain no newline; for the round trip no '=' and no '//'", "names are non-empty; a group outlives copies of its subgroups; XML files do not include themselves", "numbers followed by other text may be converted or rejected" },
        100000, 3000000, { { "history", 5, history }, { "requirements", 1, requirements }, { "mutate", 3, mutate }, { "missing", 1, missing } } };
}
