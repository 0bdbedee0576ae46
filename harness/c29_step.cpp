// STEP export: every exported text is parsed again and must describe the same curves and surfaces.
#include "lib.h"
#include <fstream>
#include <map>
#include <sstream>
#include <unistd.h>
using namespace cmmcore;
using namespace br;
typedef long double ld;
struct Node { char k = 0; std::string t; double v = 0; int ref = 0; std::vector<Node> sub; }; // k: # reference, r real, i integer, s string, e enumeration, ( list
struct Ent { std::string name; std::vector<Node> a; };
struct File { std::map<int, Ent> e; std::vector<int> order; std::string err; };
struct Parser {
    const std::string& s; size_t i = 0; std::string err;
    void ws() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
    bool is(char ch) { ws(); if (i < s.size() && s[i] == ch) { i++; return true; } return false; }
    int num() { size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (b == i || i - b > 8) { err = "number expected"; return -1; } return std::stoi(s.substr(b, i - b)); }
    Node node() {
        Node n; ws(); if (i >= s.size()) { err = "end of text"; return n; }
        if (s[i] == '#') { i++; n.k = '#'; n.ref = num(); return n; }
        if (s[i] == '\'') { size_t e = s.find('\'', i + 1); if (e == std::string::npos) { err = "open string"; return n; } n.k = 's'; n.t = s.substr(i + 1, e - i - 1); i = e + 1; return n; }
        if (s[i] == '.' && i + 1 < s.size() && isalpha((unsigned char)s[i + 1])) { size_t e = s.find('.', i + 1); if (e == std::string::npos) { err = "open enumeration"; return n; } n.k = 'e'; n.t = s.substr(i, e - i + 1); i = e + 1; return n; }
        if (s[i] == '(') { i++; n.k = '('; if (is(')')) return n; do n.sub.push_back(node()); while (err.empty() && is(',')); if (err.empty() && !is(')')) err = "closing parenthesis expected"; return n; }
        size_t b = i; if (s[i] == '-' || s[i] == '+') i++; size_t d = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (d == i) { err = "value expected at '" + s.substr(b, 12) + "'"; return n; }
        n.k = 'i'; if (i < s.size() && s[i] == '.') { n.k = 'r'; i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (i < s.size() && s[i] == 'E') { i++; if (s[i] == '-' || s[i] == '+') i++; if (num() < 0) return n; } }
        n.t = s.substr(b, i - b); n.v = strtod(n.t.c_str(), nullptr); return n;
    }
    void entity(File& f) {
        if (!is('#')) { err = "entity expected at '" + s.substr(i, 20) + "'"; return; }
        int id = num(); if (err.size()) return; if (!is('=')) { err = "= expected"; return; } ws(); size_t b = i; while (i < s.size() && (isupper((unsigned char)s[i]) || s[i] == '_' || isdigit((unsigned char)s[i]))) i++;
        Ent e; e.name = s.substr(b, i - b); if (e.name.empty()) { err = "name expected"; return; } Node l = node(); if (err.size()) { err = mc::fmt("#%d %s: ", id, e.name.c_str()) + err; return; }
        if (l.k != '(') { err = "list expected"; return; } if (!is(';')) { err = mc::fmt("#%d %s: ; expected", id, e.name.c_str()); return; }
        e.a = l.sub; if (f.e.count(id)) { err = mc::fmt("#%d appears twice", id); return; } f.e[id] = e; f.order.push_back(id);
    }
};
static void refs(const Node& n, std::vector<int>& r) { if (n.k == '#') r.push_back(n.ref); for (auto& s : n.sub) refs(s, r); }
static File parse(const std::string& s) { File f; Parser p{s}; for (;;) { p.ws(); if (p.i >= s.size()) break; p.entity(f); if (p.err.size()) break; } f.err = p.err; if (f.err.empty()) for (auto& [id, e] : f.e) { std::vector<int> r; for (auto& a : e.a) refs(a, r); for (int x : r) if (!f.e.count(x)) { f.err = mc::fmt("#%d %s refers to #%d, which is not written", id, e.name.c_str(), x); return f; } else if (x == id) { f.err = mc::fmt("#%d refers to itself", id); return f; } } return f; }
static const Ent* get(const File& f, const Node& n, const char* name) { if (n.k != '#') return nullptr; auto i = f.e.find(n.ref); return i != f.e.end() && i->second.name == name ? &i->second : nullptr; }
static bool point(const File& f, const Node& n, ref::P3& p) { auto e = get(f, n, "CARTESIAN_POINT"); if (!e || e->a.size() != 2 || e->a[1].k != '(' || e->a[1].sub.size() != 3) return false; for (int d = 0; d < 3; d++) { if (e->a[1].sub[d].k != 'r') return false; p[d] = e->a[1].sub[d].v; } return true; }
static bool knots(const Node& m, const Node& u, std::vector<double>& U) { if (m.k != '(' || u.k != '(' || m.sub.size() != u.sub.size()) return false; U.clear(); for (size_t i = 0; i < m.sub.size(); i++) { if (m.sub[i].k != 'i' || u.sub[i].k != 'r' || m.sub[i].v < 1) return false; if (i && !(u.sub[i].v > u.sub[i - 1].v)) return false; for (int k = 0; k < m.sub[i].v; k++) U.push_back(u.sub[i].v); } return true; }
static ref::H hp(const ref::P3& p, double w) { ref::H h; for (int d = 0; d < 3; d++) h[d] = p[d] * w; h[3] = w; return h; }
static bool curve(const File& f, const Node& n, ref::Curve& c) {
    auto e = get(f, n, "RATIONAL_B_SPLINE_CURVE_WITH_KNOTS"); if (!e || e->a.size() != 10 || e->a[1].k != 'i' || e->a[2].k != '(' || e->a[9].k != '(' || e->a[2].sub.size() != e->a[9].sub.size()) return false;
    c.p = (int)e->a[1].v; if (!knots(e->a[6], e->a[7], c.U)) return false; c.P.clear();
    for (size_t i = 0; i < e->a[2].sub.size(); i++) { ref::P3 p; if (!point(f, e->a[2].sub[i], p) || e->a[9].sub[i].k != 'r') return false; c.P.push_back(hp(p, e->a[9].sub[i].v)); }
    return c.U.size() == c.P.size() + c.p + 1;
}
static bool surface(const File& f, const Node& n, ref::Surf& s) {
    auto e = get(f, n, "RATIONAL_B_SPLINE_SURFACE_WITH_KNOTS"); if (!e || e->a.size() != 14 || e->a[1].k != 'i' || e->a[2].k != 'i' || e->a[3].k != '(' || e->a[13].k != '(' || e->a[3].sub.size() != e->a[13].sub.size()) return false;
    s.p = (int)e->a[1].v; s.q = (int)e->a[2].v; if (!knots(e->a[8], e->a[9], s.U) || !knots(e->a[10], e->a[11], s.V)) return false; s.P.clear();
    for (size_t i = 0; i < e->a[3].sub.size(); i++) { auto &r = e->a[3].sub[i], &w = e->a[13].sub[i]; if (r.k != '(' || w.k != '(' || r.sub.size() != w.sub.size()) return false; std::vector<ref::H> row; for (size_t j = 0; j < r.sub.size(); j++) { ref::P3 p; if (!point(f, r.sub[j], p) || w.sub[j].k != 'r') return false; row.push_back(hp(p, w.sub[j].v)); } s.P.push_back(row); if (row.size() + s.q + 1 != s.V.size()) return false; }
    return s.U.size() == s.P.size() + s.p + 1;
}
static ld d3(const ref::P3& a, const ref::P3& b) { return sqrtl((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
static std::string same(const ref::Curve& a, const ref::Curve& b) {
    if (a.p != b.p) return mc::fmt("degree %d, expected %d", a.p, b.p); if (a.U.size() != b.U.size()) return mc::fmt("%zu knots, expected %zu", a.U.size(), b.U.size());
    for (size_t i = 0; i < a.U.size(); i++) if (!(std::abs(a.U[i] - b.U[i]) <= 1e-15 * std::abs(b.U[i]))) return mc::fmt("knot %zu is %.17g, expected %.17g", i, a.U[i], b.U[i]);
    ld t = 1e-13L * ref::scale(b); for (double x : ref::params(b.U, b.p, 3, false)) if (!(d3(a.eval(x), b.eval(x)) <= t)) return mc::fmt("at %g: ", x) + s3(a.eval(x)) + ", expected " + s3(b.eval(x)); return "";
}
static std::string same(const ref::Surf& a, const ref::Surf& b) {
    if (a.p != b.p || a.q != b.q) return mc::fmt("degrees %d %d", a.p, a.q); if (a.U.size() != b.U.size() || a.V.size() != b.V.size()) return "number of knots";
    for (size_t i = 0; i < a.U.size(); i++) if (!(std::abs(a.U[i] - b.U[i]) <= 1e-15 * std::abs(b.U[i]))) return mc::fmt("u knot %zu is %.17g, expected %.17g", i, a.U[i], b.U[i]);
    for (size_t i = 0; i < a.V.size(); i++) if (!(std::abs(a.V[i] - b.V[i]) <= 1e-15 * std::abs(b.V[i]))) return mc::fmt("v knot %zu is %.17g, expected %.17g", i, a.V[i], b.V[i]);
    ld t = 1e-13L * ref::scale(b); for (double x : ref::params(b.U, b.p, 2, false)) for (double y : ref::params(b.V, b.q, 2, false)) if (!(d3(a.eval(x, y), b.eval(x, y)) <= t)) return mc::fmt("at %g,%g: ", x, y) + s3(a.eval(x, y)) + ", expected " + s3(b.eval(x, y)); return "";
}
// the face of a surface: its edges form a loop along the four sides
static std::string face(const File& f, int sid, const ref::Surf& s) {
    const Ent* face = nullptr; for (auto& [id, e] : f.e) if (e.name == "ADVANCED_FACE" && e.a.size() == 4 && e.a[2].k == '#' && e.a[2].ref == sid) face = &e; if (!face) return "no face on the surface";
    if (face->a[1].k != '(' || face->a[1].sub.size() != 1) return "bounds of the face"; auto b = get(f, face->a[1].sub[0], "FACE_OUTER_BOUND"); if (!b || b->a.size() != 3) return "no outer bound"; auto l = get(f, b->a[1], "EDGE_LOOP"); if (!l || l->a.size() != 2 || l->a[1].sub.size() != 4) return "no loop of 4 edges";
    ld t = 1e-11L * ref::scale(s); std::array<ref::P3, 4> A, B; int side[4] = {0, 0, 0, 0};
    for (int i = 0; i < 4; i++) {
        auto e = get(f, l->a[1].sub[i], "EDGE_CURVE"); if (!e || e->a.size() != 5 || e->a[4].k != 'e') return "edge"; auto v = get(f, e->a[1], "VERTEX_POINT"), w = get(f, e->a[2], "VERTEX_POINT"); ref::Curve c; if (!v || !w || v->a.size() != 2 || w->a.size() != 2 || !point(f, v->a[1], A[i]) || !point(f, w->a[1], B[i]) || !curve(f, e->a[3], c)) return "edge with its vertices and its curve";
        bool fw = e->a[4].t == ".T."; ref::P3 a = c.eval(fw ? c.lo() : c.hi(), !fw), z = c.eval(fw ? c.hi() : c.lo(), fw); if (!(d3(a, A[i]) <= t)) return mc::fmt("edge %d starts at ", i) + s3(A[i]) + ", its curve at " + s3(a); if (!(d3(z, B[i]) <= t)) return mc::fmt("edge %d ends at ", i) + s3(B[i]) + ", its curve at " + s3(z);
        for (int k = 0; k < 4; k++) { bool ok = true; for (int m = 0; m <= 8 && ok; m++) { ld x = c.lo() + (c.hi() - (ld)c.lo()) * m / 8; bool le = m == 8; ref::P3 q = k < 2 ? s.eval(k ? s.uhi() : s.ulo(), x, k == 1, le) : s.eval(x, k == 3 ? s.vhi() : s.vlo(), le, k == 3); ok = d3(q, c.eval(x, le)) <= t; } if (ok) side[i] |= 1 << k; }
        if (!side[i]) return mc::fmt("edge %d is no side of the surface", i);
    }
    for (int i = 0; i < 4; i++) if (!(d3(B[i], A[(i + 1) % 4]) <= t)) return mc::fmt("edge %d ends at ", i) + s3(B[i]) + ", the next one starts at " + s3(A[(i + 1) % 4]);
    if ((side[0] | side[1] | side[2] | side[3]) != 15) return "the edges miss a side"; const Ent* shell = nullptr; for (auto& [id, e] : f.e) if (e.name == "OPEN_SHELL" && e.a.size() == 2 && e.a[1].sub.size() == 1 && get(f, e.a[1].sub[0], "ADVANCED_FACE") == face) shell = &e; if (!shell) return "no shell with the face";
    for (auto& [id, e] : f.e) { const char* w = nullptr; size_t k = 0; if (e.name == "PRODUCT_DEFINITION") { w = "PRODUCT_DEFINITION_FORMATION_WITH_SPECIFIED_SOURCE"; k = 2; } else if (e.name == "PRODUCT_DEFINITION_FORMATION_WITH_SPECIFIED_SOURCE") { w = "PRODUCT"; k = 2; } else if (e.name == "APPLICATION_PROTOCOL_DEFINITION") { w = "APPLICATION_CONTEXT"; k = 3; } else if (e.name == "PRODUCT_DEFINITION_CONTEXT") { w = "APPLICATION_CONTEXT"; k = 1; } if (w && (e.a.size() <= k || !get(f, e.a[k], w))) return mc::fmt("#%d %s refers to the wrong entity", id, e.name.c_str()); }
    return "";
}

void mc_explore(mc::Ctx& c) {
    int L = 4;
    // single curves, and pairs in one stream
    for (int p = 1; p <= (c.thorough ? 5 : 4); p++) for (int kind = 0; kind < 5; kind++) for (int wk = 0; wk < 4; wk++) {
        if (!c.next("curves of degree %d kind %d weights %d", p, kind, wk)) continue;
        c.guard([&] {
            ref::Curve prev; bool have = false;
            for (auto& mult : ref::mult_patterns(c.thorough ? 3 : 2, p)) for (int lay = 0; lay < L; lay++) for (double z : {1., 1. / 3, 1e-5, 1e7}) {
                ref::Curve r = ref::make_curve(p, ref::clamped(p, mult, lay), kind, wk); for (auto& h : r.P) for (int d = 0; d < 3; d++) h[d] = (double)(h[d] * z);
                NURBSCurve s = mk(r); ref::Curve w = back(s); std::ostringstream o; int id = lay * 7 + 1, id0 = id; uint64_t h0 = hash(s); c.at("toSTEP", p, kind, wk); c.trans(); c.state(h0); std::string h = mc::fmt("degree %d kind %d weights %d layout %d scale %g, %zu points", p, kind, wk, lay, z, r.P.size());
                int r1 = 0, first = 0; if (have) first = mk(prev).toSTEP(o, id); int mid = id; r1 = s.toSTEP(o, id); File f = parse(o.str());
                if (f.err.size()) { c.fail("syntax", "%s: %s", h.c_str(), f.err.c_str()); return; } if (f.order.empty() || *std::min_element(f.order.begin(), f.order.end()) < id0 || f.e.rbegin()->first >= id || r1 < mid || r1 >= id) { c.fail("identifiers", "%s: identifiers of the entities", h.c_str()); return; }
                Node n; n.k = '#'; n.ref = r1; ref::Curve g; if (!curve(f, n, g)) { c.fail("curve", "%s: entity #%d is not a complete curve", h.c_str(), r1); return; } std::string d = same(g, w); if (d.size()) { c.fail("geometry", "%s: %s", h.c_str(), d.c_str()); return; }
                if (have) { n.ref = first; if (!curve(f, n, g) || (d = same(g, back(mk(prev)))).size()) { c.fail("first curve", "%s: the curve written before: %s", h.c_str(), d.c_str()); return; } c.tag("two curves in a stream"); }
                if (hash(s) != h0) { c.fail("input", "%s: the curve was changed", h.c_str()); return; } prev = r; have = lay % 2;
            }
        });
    }
    // surfaces: alone, after another one in a stream, and as a file
    for (int p = 1; p <= 3; p++) for (int q = 1; q <= 3; q++) for (int kind = 0; kind < 5; kind++) for (int wk = 0; wk < 4; wk++) {
        if (!c.next("surfaces of degrees %d %d kind %d weights %d", p, q, kind, wk)) continue;
        c.guard([&] {
            auto MU = ref::mult_patterns(c.thorough ? 3 : 2, p), MV = ref::mult_patterns(c.thorough ? 3 : 2, q); int k = 0;
            for (auto& mu : MU) for (auto& mv : MV) for (int lay = 0; lay < L; lay++) { if (!c.thorough && (k++ % 2)) continue;
                ref::Surf r = ref::make_surf(p, q, ref::clamped(p, mu, lay), ref::clamped(q, mv, (lay + 1) % L), kind, wk); NURBSSurface s = mk(r); ref::Surf w = back(s); std::string h = mc::fmt("degrees %d %d kind %d weights %d layout %d, %zux%zu points", p, q, kind, wk, lay, r.P.size(), r.P[0].size());
                std::ostringstream o; int id = 10; uint64_t h0 = hash(s); c.at("toSTEP", p, q, kind, wk); c.trans(); c.state(h0); int r1 = s.toSTEP(o, id); File f = parse(o.str());
                if (f.err.size()) { c.fail("syntax", "%s: %s", h.c_str(), f.err.c_str()); return; } if (*std::min_element(f.order.begin(), f.order.end()) < 10 || f.e.rbegin()->first >= id) { c.fail("identifiers", "%s: identifiers of the entities", h.c_str()); return; }
                Node n; n.k = '#'; n.ref = r1; ref::Surf g; if (!surface(f, n, g)) { c.fail("surface", "%s: entity #%d is not a complete surface", h.c_str(), r1); return; } std::string d = same(g, w); if (d.size()) { c.fail("geometry", "%s: %s", h.c_str(), d.c_str()); return; }
                d = face(f, r1, w); if (d.size()) { c.fail("face", "%s: %s", h.c_str(), d.c_str()); return; } if (hash(s) != h0) { c.fail("input", "%s: the surface was changed", h.c_str()); return; }
                if (lay == 1) { // a second export into the same stream
                    int m = id, r2 = s.toSTEP(o, id); f = parse(o.str()); c.trans(); if (f.err.size() || r2 < m || f.e.rbegin()->first >= id) { c.fail("second export", "%s: %s", h.c_str(), f.err.c_str()); return; } n.ref = r2; if (!surface(f, n, g) || (d = same(g, w)).size()) { c.fail("second export", "%s: %s", h.c_str(), d.c_str()); return; } }
                if (lay == 2) { char dir[] = "/tmp/mc29XXXXXX"; if (!mkdtemp(dir)) throw std::runtime_error("mkdtemp"); std::string fn = std::string(dir) + "/s.step"; { std::ofstream old(fn); old << std::string(100000, 'x'); } s.writeSTEPFile(fn); c.trans(); std::ifstream in(fn); std::stringstream b; b << in.rdbuf(); unlink(fn.c_str()); rmdir(dir); std::string t = b.str();
                    size_t a = t.find("\nDATA;\n"), z = t.find("\nENDSEC;\nEND-ISO-10303-21;\n"); if (t.compare(0, 14, "ISO-10303-21;\n") || a == std::string::npos || z == std::string::npos || z + 27 != t.size() || t.find("HEADER;") > a || t.find("FILE_SCHEMA") > a) { c.fail("file", "%s: structure of the file", h.c_str()); return; }
                    if (t.substr(a + 7, z + 1 - a - 7) != (std::ostringstream(), [&] { std::ostringstream q; int i = 10; s.toSTEP(q, i); return q.str(); }())) { c.fail("file", "%s: the data section differs from the exported entities", h.c_str()); return; } c.tag("files"); }
            }
        });
    }
    if (c.next("a file that cannot be written")) c.guard([&] { ref::Surf r = ref::make_surf(1, 1, ref::clamped(1, {}, 0), ref::clamped(1, {}, 0), 0, 0); bool t = false; c.trans(); try { mk(r).writeSTEPFile("/nonexistent-directory/x.step"); } catch (const std::runtime_error&) { t = true; } if (!t) c.fail("refused", "writing into a directory that does not exist was not reported"); });
    // real numbers
    for (int e = -30; e <= 30; e++) { if (!c.next("real numbers times 1e%d", e)) continue; c.guard([&] { for (double m : {0., 1., -1., 2., 0.1, 1. / 3, 123456789., 0.30000000000000004, 9.999999999999999, -7.25, 65536.}) { double v = m * std::pow(10., e); std::string t = formatReal(v); c.at("formatReal", e); c.trans(); Parser p{t}; Node n = p.node(); if (n.k != 'r' || p.err.size() || p.i != t.size() || n.v != v) { c.fail("real", "%.17g is written as '%s'", v, t.c_str()); return; } } }); }
}
