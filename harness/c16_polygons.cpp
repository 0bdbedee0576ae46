// Planar polygons: relation of convex polygons, separation, point location, edge normals; exact integer oracle.
#include "lib.h"
#include "exact.h"
#include "cmmcore/separability.h"
using namespace br;
using ex::I3;
typedef std::vector<I3> Poly;
static long cr(I3 a, I3 b, I3 c) { return ex::crs(ex::sub(b, a), ex::sub(c, a))[2]; }
static Poly hull(std::vector<I3> p) {   // strict, counter-clockwise
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
    if (p.size() < 3) return p;
    Poly h;
    for (int s = 0; s < 2; s++) {
        size_t st = h.size();
        for (auto& q : p) { while (h.size() >= st + 2 && cr(h[h.size() - 2], h.back(), q) <= 0) h.pop_back(); h.push_back(q); }
        h.pop_back();
        std::reverse(p.begin(), p.end());
    }
    return h;
}
static std::vector<Poly> convex(int n) {   // all convex polygons, segments and points of an n x n grid, up to translation
    std::vector<I3> g; for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) g.push_back({x, y, 0});
    std::set<Poly> S;
    for (uint32_t m = 1; m < 1u << (n * n); m++) {
        std::vector<I3> p; for (int i = 0; i < n * n; i++) if (m >> i & 1) p.push_back(g[i]);
        Poly h = hull(p);
        if (h.size() != p.size()) continue;
        long mx = 99, my = 99; for (auto& q : h) { mx = std::min(mx, q[0]); my = std::min(my, q[1]); }
        if (mx || my) continue;
        S.insert(h);
    }
    return std::vector<Poly>(S.begin(), S.end());
}
struct Map { const char* name; double m[2][2], o[2]; bool exact; };
static const Map maps[] = {
    {"unit grid", {{1, 0}, {0, 1}}, {0, 0}, true}, {"sheared", {{2, 1}, {0, 3}}, {-7, 5}, true}, {"mirrored, steps of 0.25", {{-0.25, 0}, {0, 0.25}}, {0.5, 100}, true},
    {"turned", {{0.8, -0.6}, {0.6, 0.8}}, {0.1, 0.2}, false}, {"steps of 0.01, turned", {{0.0096, 0.0028}, {-0.0028, 0.0096}}, {3.3, 0.7}, false}};
static polygon2 app(const Map& m, const Poly& p) { polygon2 r; for (auto& q : p) r.push_back(vec2(m.m[0][0] * q[0] + m.m[0][1] * q[1] + m.o[0], m.m[1][0] * q[0] + m.m[1][1] * q[1] + m.o[1])); return r; }
static std::string show(const Poly& p) { std::string s; for (auto& q : p) s += mc::fmt("(%ld,%ld)", q[0], q[1]); return s; }
static int relation(const Poly& a, const Poly& b) {   // prisms over the polygons: 0 apart, 1 touching, 2 overlapping
    std::vector<I3> A, B;
    for (auto& q : a) { A.push_back(q); A.push_back({q[0], q[1], 1}); }
    for (auto& q : b) { B.push_back(q); B.push_back({q[0], q[1], 1}); }
    return ex::relation(A, B);
}
static uint64_t ph(const Poly& p, uint64_t h) { for (auto& q : p) h = mc::mix(h, q[0] * 1000 + q[1] + 7777); return h; }
static void pair(mc::Ctx& c, const Poly& a, const Poly& b, int mi, int variant, int rel) {
    const Map& m = maps[mi];
    Poly x = a, y = b;
    if (variant & 1) std::reverse(x.begin(), x.end());
    if (variant & 2) std::reverse(y.begin(), y.end());
    if (variant & 4) { std::rotate(x.begin(), x.begin() + x.size() / 2, x.end()); std::rotate(y.begin(), y.begin() + y.size() / 3, y.end()); }
    if (variant & 8) { for (auto* p : {&x, &y}) { Poly r; for (size_t i = 0; i < p->size(); i++) { I3 u = (*p)[i], v = (*p)[(i + 1) % p->size()], w = ex::add(u, v); r.push_back(u); if (p->size() > 2 && w[0] % 2 == 0 && w[1] % 2 == 0) r.push_back({w[0] / 2, w[1] / 2, 0}); } *p = r; } }
    polygon2 P = app(m, x), Q = app(m, y);
    std::string h = show(x) + " and " + show(y) + " (" + m.name + ")";
    c.at("SAT2D", variant, mi);
    bool s1 = SAT2D(P, Q), s2 = SAT2D(Q, P);
    c.trans(2);
    if (m.exact || rel != 1) {
        if (s1 != (rel == 0)) c.fail(rel ? "sat|apart" : "sat|missed", "%s are %s, SAT2D says %s", h.c_str(), rel == 0 ? "apart" : rel == 1 ? "touching" : "overlapping", s1 ? "separated" : "not separated");
        if (s2 != s1) c.fail("sat|order", "%s: SAT2D depends on the order", h.c_str());
    }
    if (a.size() < 3 || b.size() < 3) return;
    c.at("polygonRelationship2D", variant, mi);
    PolygonRelationship2D r = polygonRelationship2D(P, Q), r2 = polygonRelationship2D(Q, P);
    c.trans(2);
    PolygonRelationship2D w = rel == 0 ? PolygonRelationship2D::DISTANCE : rel == 1 ? PolygonRelationship2D::TOUCH : PolygonRelationship2D::INTERSECT;
    if (m.exact || rel != 1) {
        if (r != w) c.fail(mc::fmt("relation|%d", rel), "%s are %s, reported as %d (0 intersect, 1 touch, 2 distance)", h.c_str(), rel == 0 ? "apart" : rel == 1 ? "touching" : "overlapping", (int)r);
        if (r2 != r) c.fail("relation|order", "%s: the relation depends on the order", h.c_str());
    }
}
static bool on(I3 a, I3 b, I3 p) { return cr(a, b, p) == 0 && std::min(a[0], b[0]) <= p[0] && p[0] <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= p[1] && p[1] <= std::max(a[1], b[1]); }
static int sg(long x) { return (x > 0) - (x < 0); }
static bool cross(I3 a, I3 b, I3 p, I3 q) { return on(a, b, p) || on(a, b, q) || on(p, q, a) || on(p, q, b) || (sg(cr(a, b, p)) * sg(cr(a, b, q)) < 0 && sg(cr(p, q, a)) * sg(cr(p, q, b)) < 0); }
static bool simple(const Poly& p) {
    int n = p.size();
    for (int i = 0; i < n; i++) {
        I3 a = p[i], b = p[(i + 1) % n], d = p[(i + 2) % n];
        if (on(a, b, d) || on(b, d, a)) return false;
        if (cr(a, b, d) == 0 && n == 3) return false;
        for (int j = i + 2; j < n; j++) if ((j + 1) % n != i && cross(a, b, p[j], p[(j + 1) % n])) return false;
    }
    return true;
}
static void locate(mc::Ctx& c, const Poly& p, int lo, int hi) {
    for (int mi = 0; mi < 5; mi++) {
        polygon2 P = app(maps[mi], p);
        Poly d; for (auto& q : p) d.push_back({2 * q[0], 2 * q[1], 0});
        c.at("pointInPolygon2D", p.size(), mi);
        for (int x = lo; x <= hi; x++) for (int y = lo; y <= hi; y++) {
            I3 q{x, y, 0};
            bool bd = false; int wind = 0, n = d.size();
            for (int i = 0; i < n; i++) {
                I3 a = d[i], b = d[(i + 1) % n];
                if (on(a, b, q)) { bd = true; break; }
                if (a[1] <= y && b[1] > y && cr(a, b, q) > 0) wind++;
                if (a[1] > y && b[1] <= y && cr(a, b, q) < 0) wind--;
            }
            if (bd) continue;
            const Map& m = maps[mi];
            vec2 v(m.m[0][0] * x / 2 + m.m[0][1] * y / 2 + m.o[0], m.m[1][0] * x / 2 + m.m[1][1] * y / 2 + m.o[1]);
            bool in = pointInPolygon2D(P, v);
            c.trans();
            if (in != (wind != 0)) { c.fail(in ? "inside|wrong" : "inside|missed", "polygon %s (%s): the point (%g,%g) is reported %s", show(p).c_str(), m.name, x / 2.0, y / 2.0, in ? "inside" : "outside"); return; }
        }
    }
    // normals: one per edge, pointing to the right of it
    for (int mi : {0, 3}) for (int nz = 0; nz < 2; nz++) {
        polygon2 P = app(maps[mi], p);
        std::vector<vec2> N;
        c.at("polygonNormals", p.size(), nz);
        polygonNormals(P, N, nz);
        c.trans();
        if (N.size() != P.size()) { c.fail("normals|count", "%zu normals for %zu edges", N.size(), P.size()); return; }
        for (size_t i = 0; i < P.size(); i++) {
            double ex_ = P[(i + 1) % P.size()].x - P[i].x, ey = P[(i + 1) % P.size()].y - P[i].y, l = nz ? std::sqrt(ex_ * ex_ + ey * ey) : 1;
            if (!mc::near(N[i].x, ey / l, 1e-12) || !mc::near(N[i].y, -ex_ / l, 1e-12)) { c.fail("normals|value", "polygon %s: normal %zu is (%g,%g)", show(p).c_str(), i, N[i].x, N[i].y); return; }
        }
        UnorderedNormal2Set S;
        c.at("polygonUniqueNormals", p.size(), nz);
        polygonUniqueNormals(P, S, nz);
        c.trans();
        for (size_t i = 0; i < P.size(); i++) {
            bool found = false;
            for (auto& s : S) if (std::fabs(s.x * N[i].y - s.y * N[i].x) <= 1e-12 * (1 + s.length() * N[i].length())) found = true;
            if (!found) c.fail("unique|missing", "polygon %s: no normal for edge %zu", show(p).c_str(), i);
        }
        if (S.size() > P.size()) c.fail("unique|count", "polygon %s: %zu normals for %zu edges", show(p).c_str(), S.size(), P.size());
    }
}
void mc_explore(mc::Ctx& c) {
    std::vector<Poly> P3 = convex(3), P4 = convex(4);
    int stride = c.thorough ? 101 : 997, stride3 = c.thorough ? 17 : 61;
    for (size_t i = 0; i < P4.size(); i++) {
        if (!c.next("convex polygon %zu of the 4x4 grid", i)) continue;
        c.guard([&] {
            int z = 0;
            for (size_t j = 0; j < P4.size() + P3.size(); j++) {
                bool small = j >= P4.size();
                if (!small && (i * 7 + j) % stride) continue;
                if (small && (i * 5 + j) % stride3) continue;
                const Poly& b = small ? P3[j - P4.size()] : P4[j];
                for (int dx = -4; dx <= 4; dx++) for (int dy = -4; dy <= 4; dy++, z++) {
                    if (!c.thorough && !small && (dx + 2 * dy + z / 81) % 3) continue;
                    Poly t; for (auto& q : b) t.push_back({q[0] + dx, q[1] + dy, 0});
                    int rel = relation(P4[i], t);
                    c.state(ph(t, ph(P4[i], 1)));
                    pair(c, P4[i], t, 0, z % 16, rel);
                    pair(c, P4[i], t, 1 + z % 4, z / 5 % 16, rel);
                    if (c.cur_failed) return;
                }
            }
        });
    }
    for (size_t i = 0; i < P3.size(); i++) {
        if (!c.next("convex polygon %zu of the 3x3 grid", i)) continue;
        c.guard([&] {
            for (size_t j = 0; j < P3.size(); j++) if (c.thorough || (i * 3 + j) % 10 == 0) for (int dx = -3; dx <= 3; dx++) for (int dy = -3; dy <= 3; dy++) {
                Poly t; for (auto& q : P3[j]) t.push_back({q[0] + dx, q[1] + dy, 0});
                int rel = relation(P3[i], t);
                c.state(ph(t, ph(P3[i], 1)));
                for (int mi = 0; mi < 5; mi++) for (int v = 0; v < 16; v++) if ((v + mi + dx + 32) % (c.thorough ? 8 : 16) == 0) pair(c, P3[i], t, mi, v, rel);
                if (c.cur_failed) return;
            }
        });
    }
    // simple polygons: every sequence of distinct points of a 3x3 grid (4x4 for triangles and quadrangles)
    int L = c.thorough ? 7 : 6;
    for (int n : {3, 4}) for (int a = 0; a < n * n; a++) for (int b = 0; b < n * n; b++) {
        if (a == b) continue;
        if (!c.next("simple polygons of the %dx%d grid starting %d %d", n, n, a, b)) continue;
        c.guard([&] {
            std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& q) {
                if (q.size() >= 3) {
                    Poly p; for (int i : q) p.push_back({i % n, i / n, 0});
                    if (simple(p)) { c.state(ph(p, 2)); locate(c, p, -1, 2 * n - 1); }
                }
                if (c.cur_failed || (int)q.size() >= (n == 3 ? L : L - 2)) return;
                for (int i = 0; i < n * n; i++) { if (std::find(q.begin(), q.end(), i) != q.end()) continue; q.push_back(i); rec(q); q.pop_back(); }
            };
            std::vector<int> q{a, b};
            rec(q);
        });
    }
    if (c.next("refusals")) c.guard([&] {
        polygon2 e, p{vec2(0, 0)};
        for (int k = 0; k < 3; k++) { bool ok = false; try { SAT2D(k & 1 ? p : e, k & 2 ? p : e); } catch (const std::runtime_error&) { ok = true; } if (!ok) c.fail("empty", "SAT2D accepted an empty polygon"); c.trans(); }
        c.state(3);
        if (pointInPolygon2D(e, vec2(0, 0))) c.fail("empty", "a point is inside the empty polygon");
    });
}
