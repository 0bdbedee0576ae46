// Convex hulls of planar and spatial point sets: every subset / sequence of integer grids under affine maps, exact integer oracle.
#include "lib.h"
#include "cmmcore/convexhull.h"
using namespace br;
typedef std::array<int, 3> I3;
static long det3(I3 a, I3 b, I3 c) { return (long)a[0] * (b[1] * c[2] - b[2] * c[1]) - (long)a[1] * (b[0] * c[2] - b[2] * c[0]) + (long)a[2] * (b[0] * c[1] - b[1] * c[0]); }
static I3 sub(I3 a, I3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static I3 crs(I3 a, I3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static bool zero(I3 a) { return !a[0] && !a[1] && !a[2]; }
static long dot(I3 a, I3 b) { return (long)a[0] * b[0] + (long)a[1] * b[1] + (long)a[2] * b[2]; }
static int sgn(long x) { return (x > 0) - (x < 0); }

// An integer grid with, for every grid point, the minimal sets of other grid points whose hull contains it.
struct Grid {
    std::vector<I3> P;
    std::vector<std::vector<uint32_t>> wit;
    Grid(int a, int b, int c) {
        for (int x = 0; x < a; x++) for (int y = 0; y < b; y++) for (int z = 0; z < c; z++) P.push_back({x, y, z});
        int n = P.size();
        wit.resize(n);
        for (int p = 0; p < n; p++) {
            std::vector<uint32_t>& W = wit[p];
            auto add = [&](uint32_t m) { for (uint32_t w : W) if ((w & m) == w) return; W.push_back(m); };
            std::vector<I3> d(n);
            for (int i = 0; i < n; i++) d[i] = sub(P[i], P[p]);
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i != p && j != p && zero(crs(d[i], d[j])) && dot(d[i], d[j]) < 0) add(1u << i | 1u << j);
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) {
                if (i == p || j == p || k == p || det3(d[i], d[j], d[k]) != 0) continue;
                I3 u = crs(d[i], d[j]), v = crs(d[j], d[k]), w = crs(d[k], d[i]);
                if (dot(u, v) > 0 && dot(v, w) > 0 && dot(u, w) > 0) add(1u << i | 1u << j | 1u << k);
            }
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) for (int l = k + 1; l < n; l++) {
                if (i == p || j == p || k == p || l == p) continue;
                int s0 = sgn(det3(d[i], d[j], d[k])), s1 = -sgn(det3(d[i], d[j], d[l])), s2 = sgn(det3(d[i], d[k], d[l])), s3 = -sgn(det3(d[j], d[k], d[l]));
                if (s0 && s0 == s1 && s1 == s2 && s2 == s3) add(1u << i | 1u << j | 1u << k | 1u << l);
            }
        }
    }
    uint32_t extremes(uint32_t S) const {
        uint32_t e = 0;
        for (size_t p = 0; p < P.size(); p++) if (S >> p & 1) {
            bool in = false;
            for (uint32_t w : wit[p]) if ((w & S) == w) { in = true; break; }
            if (!in) e |= 1u << p;
        }
        return e;
    }
    int dim(uint32_t S) const {   // affine dimension
        int a = -1, b = -1, c = -1;
        for (size_t i = 0; i < P.size(); i++) if (S >> i & 1) {
            if (a < 0) a = i;
            else if (b < 0) b = i;
            else if (c < 0) { if (!zero(crs(sub(P[b], P[a]), sub(P[i], P[a])))) c = i; }
            else if (det3(sub(P[b], P[a]), sub(P[c], P[a]), sub(P[i], P[a]))) return 3;
        }
        return c >= 0 ? 2 : b >= 0 ? 1 : 0;
    }
};
struct Map { const char* name; double m[3][3]; double o[3]; bool exact; };
static const Map maps[] = {
    {"unit grid", {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {0, 0, 0}, true},
    {"steps 0.5, 4 and 1, origin (-3,7,100)", {{0.5, 0, 0}, {0, 4, 0}, {0, 0, 1}}, {-3, 7, 100}, true},
    {"sheared", {{1, 2, 0}, {0, 1, 1}, {3, 0, -1}}, {1, -1, 0}, true},
    {"turned", {{0.8, -0.6, 0}, {0.48, 0.64, -0.6}, {0.36, 0.48, 0.8}}, {0.1, 0.2, 0.3}, false},
    {"tenths", {{0.1, 0, 0}, {0, 0.1, 0}, {0, 0, 0.3}}, {0.7, -0.1, 0}, false},
    {"turned, steps of 0.002", {{0.0016, -0.0012, 0}, {0.00096, 0.00128, -0.0012}, {0.00072, 0.00096, 0.0016}}, {0.1, 0.2, 0.3}, false},
    {"turned, far away", {{8, -6, 0}, {4.8, 6.4, -6}, {3.6, 4.8, 8}}, {1000.1, -4000.2, 30.3}, false},
    {"mirrored, times 100", {{0, 100, 0}, {100, 0, 0}, {0, 0, -300}}, {0, 0, 1}, true},
};
static vec3 apply(const Map& m, I3 p) {
    double r[3];
    for (int i = 0; i < 3; i++) r[i] = m.m[i][0] * p[0] + m.m[i][1] * p[1] + m.m[i][2] * p[2] + m.o[i];
    return vec3(r[0], r[1], r[2]);
}
static std::string show(const Grid& g, const std::vector<int>& q) { std::string s; for (int i : q) s += mc::fmt("(%d,%d,%d)", g.P[i][0], g.P[i][1], g.P[i][2]); return s; }

// q: indices into the grid, in input order, repetitions allowed
static void planar(mc::Ctx& c, const Grid& g, const std::vector<int>& q, int mi) {
    const Map& m = maps[mi];
    uint32_t S = 0; for (int i : q) S |= 1u << i;
    uint32_t E = g.extremes(S);
    std::vector<vec2> in, work;
    for (int i : q) { vec3 v = apply(m, g.P[i]); in.push_back(vec2(v.x, v.y)); }
    work = in;
    c.at("convex_hull2d", q.size(), mi);
    std::vector<vec2> h = convex_hull2d(work);
    c.trans();
    std::vector<int> id;
    for (auto& v : h) { int k = -1; for (size_t i = 0; i < q.size() && k < 0; i++) if (in[i].x == v.x && in[i].y == v.y) k = q[i]; id.push_back(k); }
    auto bad = [&](const char* key, const char* what) { c.fail(mc::fmt("2d|%s", key), "2D hull of %s (%s): %s; got %s", show(g, q).c_str(), m.name, what, mc::fmt("%zu points", h.size()).c_str()); };
    uint32_t R = 0;
    for (int k : id) {
        if (k < 0) { bad("foreign", "a hull point is not an input point"); return; }
        if (R >> k & 1) { bad("twice", "a hull point appears twice"); return; }
        R |= 1u << k;
    }
    if (E & ~R) { bad("missing", "an extreme point is missing"); return; }
    if (R & ~E) { bad("extra", "a point that is not extreme is in the hull"); return; }
    // counter-clockwise in the mapped plane
    double sign = m.m[0][0] * m.m[1][1] - m.m[0][1] * m.m[1][0];
    if (id.size() >= 3) for (size_t i = 0; i < id.size(); i++) {
        I3 a = g.P[id[i]], b = g.P[id[(i + 1) % id.size()]], d = g.P[id[(i + 2) % id.size()]];
        if (crs(sub(b, a), sub(d, b))[2] * sign <= 0) { bad("order", "the hull points are not in counter-clockwise order"); return; }
    }
    auto key = [](const vec2& v) { return std::make_pair(v.x, v.y); };
    std::multiset<std::pair<double, double>> x, y;
    for (auto& v : in) x.insert(key(v));
    for (auto& v : work) y.insert(key(v));
    if (q.size() < 3 && x != y) bad("input", "the input points were changed");
    std::vector<vec2> out, keep = in;
    c.at("convex_hull of vec2", q.size(), mi);
    ConvexHullResult r = convex_hull(in, out);
    c.trans();
    ConvexHullResult want = id.size() == 1 ? ConvexHullResult::POINT : id.size() == 2 ? ConvexHullResult::LINE : ConvexHullResult::FLAT;
    if (r != want) bad("class", "wrong classification");
    for (size_t i = 0; i < in.size(); i++) if (in[i].x != keep[i].x || in[i].y != keep[i].y) { bad("const", "the caller's points were reordered"); break; }
    if (out.size() != h.size()) bad("same", "convex_hull and convex_hull2d differ");
}
static void spatial(mc::Ctx& c, const Grid& g, const std::vector<int>& q, int mi) {
    const Map& m = maps[mi];
    uint32_t S = 0; for (int i : q) S |= 1u << i;
    uint32_t E = g.extremes(S);
    int dim = g.dim(S);
    std::vector<vec3> in, out, raw;
    for (int i : q) in.push_back(apply(m, g.P[i]));
    auto ids = [&](const std::vector<vec3>& h, uint32_t& R, bool& dup) {
        R = 0; dup = false;
        for (auto& v : h) {
            int k = -1;
            for (size_t i = 0; i < q.size() && k < 0; i++) if (in[i].x == v.x && in[i].y == v.y && in[i].z == v.z) k = q[i];
            if (k < 0) return false;
            if (R >> k & 1) dup = true;
            R |= 1u << k;
        }
        return true;
    };
    auto bad = [&](const char* key, const char* what, const std::vector<vec3>& h) { c.fail(mc::fmt("3d|%s", key), "3D hull of %s (%s): %s; got %zu points", show(g, q).c_str(), m.name, what, h.size()); };
    uint32_t R; bool dup;
    c.at("convex_hull3d", q.size(), mi);
    convex_hull3d(in, raw);
    c.trans();
    if (!ids(raw, R, dup)) bad("raw-foreign", "convex_hull3d returned a point that is not an input point", raw);
    else if (E & ~R) bad("raw-missing", "convex_hull3d lost an extreme point", raw);
    c.at("convex_hull of vec3", q.size(), mi);
    out.push_back(vec3(99, 99, 99));   // old content is replaced
    ConvexHullResult r = convex_hull(in, out);
    c.trans();
    if (!ids(out, R, dup)) { bad("foreign", "a hull point is not an input point", out); return; }
    if (E & ~R) { bad("missing", "an extreme point is missing", out); return; }
    if (m.exact) {
        ConvexHullResult want = dim == 0 ? ConvexHullResult::POINT : dim == 1 ? ConvexHullResult::LINE : dim == 2 ? ConvexHullResult::FLAT : ConvexHullResult::VOLUME;
        if (r != want) { bad("class", "wrong classification", out); return; }
        if (dim < 3 && R != E) bad("flat-extra", "a flat hull has points that are not extreme", out);
        if (dim < 3 && dup) bad("flat-twice", "a flat hull has repeated points", out);
    } else if (dim == 3 && r != ConvexHullResult::VOLUME) bad("class", "a spatial set is not reported as a volume", out);
}
static uint64_t key(const std::vector<int>& q, int a) { uint64_t h = a + 1; for (int i : q) h = mc::mix(h, i + 1); return h; }
static std::vector<int> members(uint32_t S) { std::vector<int> q; for (int i = 0; i < 32; i++) if (S >> i & 1) q.push_back(i); return q; }
static void orders(std::vector<int> q, int n, const std::function<void(const std::vector<int>&)>& f) {
    f(q);
    if (n > 1 && q.size() > 1) { std::vector<int> r(q.rbegin(), q.rend()); f(r); }
    if (n > 2 && q.size() > 2) { std::vector<int> r; for (size_t i = 0, k = 0; i < q.size(); i++) { r.push_back(q[k % 2 ? q.size() - 1 - k / 2 : k / 2]); k++; } f(r); }
    if (n > 3 && q.size() > 2) { std::vector<int> r; for (size_t i = q.size() / 2; i < q.size(); i++) r.push_back(q[i]); for (size_t i = 0; i < q.size() / 2; i++) r.push_back(q[i]); r.push_back(q[0]); f(r); }
}
void mc_explore(mc::Ctx& c) {
    const int NM = sizeof maps / sizeof *maps;
    static Grid g33(3, 3, 1), g44(4, 4, 1), g222(2, 2, 2), g333(3, 3, 3), g322(3, 2, 2), g332(3, 3, 2), g52(5, 2, 1);
    // 2D: every sequence (with repetitions) of a 3x3 grid
    int L = c.thorough ? 6 : 5;
    for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) {
        if (!c.next("sequences of planar points starting %d %d", a, b)) continue;
        c.guard([&] {
            std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& q) {
                c.state(key(q, 1));
                for (int m = 0; m < NM; m++) if (m == 0 || (int)q.size() < L - 1 || (q[0] + 2 * q.back()) % NM == m) planar(c, g33, q, m);
                if ((int)q.size() < L && !c.cur_failed) for (int i = 0; i < 9; i++) { q.push_back(i); rec(q); q.pop_back(); }
            };
            std::vector<int> q{a};
            if (b == 0) for (int m = 0; m < NM; m++) planar(c, g33, q, m);
            q.push_back(b);
            rec(q);
        });
    }
    // 2D: every subset of a 4x4 grid and of a 5x2 grid
    for (uint32_t hi = 0; hi < 256; hi++) {
        if (!c.next("planar subsets %u", hi)) continue;
        c.guard([&] {
            for (uint32_t lo = 0; lo < 256; lo++) {
                uint32_t S = hi << 8 | lo;
                if (!S) continue;
                c.state(mc::mix(S, 2));
                for (int m = 0; m < NM; m++) orders(members(S), c.thorough ? 4 : 2, [&](const std::vector<int>& q) { planar(c, g44, q, m); });
                if (S < 1024) for (int m = 0; m < NM; m++) orders(members(S), 4, [&](const std::vector<int>& q) { planar(c, g52, q, m); });
                if (c.cur_failed) return;
            }
        });
    }
    // 3D: every sequence of up to 5 corners of a cube (with repetitions), every subset of larger grids in several orders
    int L3 = c.thorough ? 6 : 5;
    for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) {
        if (!c.next("sequences of cube corners starting %d %d", a, b)) continue;
        c.guard([&] {
            std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& q) {
                c.state(key(q, 3));
                for (int m = 0; m < NM; m++) if (m == 0 || (int)q.size() < L3 - 1 || (q[0] + 2 * q.back()) % NM == m) spatial(c, g222, q, m);
                if ((int)q.size() < L3 && !c.cur_failed) for (int i = 0; i < 8; i++) { q.push_back(i); rec(q); q.pop_back(); }
            };
            std::vector<int> q{a};
            if (b == 0) for (int m = 0; m < NM; m++) spatial(c, g222, q, m);
            q.push_back(b);
            rec(q);
        });
    }
    for (uint32_t hi = 0; hi < 64; hi++) {
        if (!c.next("subsets of a 3x2x2 grid %u", hi)) continue;
        c.guard([&] {
            for (uint32_t lo = 0; lo < 64; lo++) {
                uint32_t S = hi << 6 | lo;
                if (!S) continue;
                c.state(mc::mix(S, 4));
                for (int m = 0; m < NM; m++) orders(members(S), 4, [&](const std::vector<int>& q) { spatial(c, g322, q, m); });
                if (c.cur_failed) return;
            }
        });
    }
    for (uint32_t hi = 0; hi < 512; hi++) {
        if (!c.next("subsets of a 3x3x2 grid %u", hi)) continue;
        c.guard([&] {
            for (uint32_t lo = 0; lo < 512; lo++) {
                uint32_t S = hi << 9 | lo;
                if (!S || (!c.thorough && (hi + lo) % 8)) continue;
                c.state(mc::mix(S, 5));
                for (int m = 0; m < NM; m++) if (c.thorough || (hi + lo / 8) % NM == (uint32_t)m) orders(members(S), 2, [&](const std::vector<int>& q) { spatial(c, g332, q, m); });
                if (c.cur_failed) return;
            }
        });
    }
    // subsets of the 3x3x3 grid: all of up to 4 points (thorough: 5), and all complements of up to 3 points
    for (int a = 0; a < 27; a++) for (int b = a; b < 27; b++) {
        if (!c.next("small subsets of a 3x3x3 grid, and complements, %d %d", a, b)) continue;
        c.guard([&] {
            int z = 0;
            for (int d = b; d < 27; d++) for (int e = d; e < 27; e++) for (int f = e; f < (c.thorough ? 27 : e + 1); f++, z++) {
                uint32_t S = 1u << a | 1u << b | 1u << d | 1u << e | 1u << f;
                c.state(mc::mix(S, 6));
                for (int m = 0; m < NM; m++) if (z % NM == m || m == 0) spatial(c, g333, members(S), m);
                uint32_t C = ((1u << 27) - 1) & ~S;
                if (e == d && f == e) for (int m = 0; m < NM; m++) if ((z + a) % NM == m) { orders(members(C), 2, [&](const std::vector<int>& q) { spatial(c, g333, q, m); }); c.state(mc::mix(C, 6)); }
                if (c.cur_failed) return;
            }
        });
    }
    // control nets of small and nearly flat patches: the hull may keep any point, but no corner is lost beyond rounding
    static const double TR[4][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{0.6, -0.8, 0}, {0.8, 0.6, 0}, {0, 0, 1}}, {{0.8, -0.6, 0}, {0.48, 0.64, -0.6}, {0.36, 0.48, 0.8}}, {{0, 0, 1}, {0, 1, 0}, {-1, 0, 0}}};
    for (int p = 2; p <= 5; p++) for (int q = 2; q <= 4; q++) for (int e = 0; e < (c.thorough ? 14 : 10); e++) {
        if (!c.next("nets of %d x %d points, size 2^-%d", p, q, e)) continue;
        c.guard([&] {
            for (int aspect = 0; aspect < 4; aspect++) for (int ka = -2; ka <= 2; ka++) for (int kb = -2; kb <= 2; kb++) for (int kc = 0; kc < 3; kc++) for (int t = 0; t < 4; t++) {
                double sx = ldexp(1.0, -e), sy = sx * std::pow(0.23, aspect);
                std::vector<vec3> pts, hull;
                for (int i = 0; i < p; i++) for (int j = 0; j < q; j++) {
                    double x = 0.1 + sx * i / (p - 1), y = 0.3 + sy * j / (q - 1), z = ka * 0.4 * x * x + kb * 0.7 * y * y + kc * 0.3 * x * y, w[3];
                    for (int k = 0; k < 3; k++) w[k] = TR[t][k][0] * x + TR[t][k][1] * y + TR[t][k][2] * z + (t ? k + 1 : 0);
                    pts.emplace_back(w[0], w[1], w[2]);
                }
                c.at("convex_hull3d", p, q, e, t);
                convex_hull3d(pts, hull); c.trans();
                uint64_t h = 0; for (auto& v : pts) h = mc::mix(h, mc::mix(mc::hd(v.x), mc::mix(mc::hd(v.y), mc::hd(v.z)))); c.state(h);
                std::string d = mc::fmt("net %dx%d size 2^-%d aspect %d curvature %d %d %d turned %d", p, q, e, aspect, ka, kb, kc, t);
                for (auto& v : hull) { bool in = false; for (auto& u : pts) if (u.x == v.x && u.y == v.y && u.z == v.z) in = true; if (!in) { c.fail("foreign", "%s: a hull point is not one of the points", d.c_str()); return; } }
                for (int x = -2; x <= 2; x++) for (int y = -2; y <= 2; y++) for (int z = -2; z <= 2; z++) {
                    double a = -1e300, b = -1e300;
                    for (auto& u : pts) a = std::max(a, u.x * x + u.y * y + u.z * z);
                    for (auto& u : hull) b = std::max(b, u.x * x + u.y * y + u.z * z);
                    if (!(b >= a - 1e-10)) { c.fail("lost", "%s: the hull of %zu of %zu points loses %g in direction %d %d %d", d.c_str(), hull.size(), pts.size(), hull.empty() ? 1e300 : a - b, x, y, z); return; }
                }
            }
        });
    }
    if (c.next("empty sets")) c.guard([&] {
        std::vector<vec3> n, o; std::vector<vec2> n2, o2;
        if (convex_hull(n, o) != ConvexHullResult::EMPTY || !o.empty()) c.fail("empty", "the hull of no points is not empty");
        if (convex_hull(n2, o2) != ConvexHullResult::EMPTY || !o2.empty()) c.fail("empty", "the hull of no planar points is not empty");
        convex_hull3d(n, o); if (!o.empty() || !convex_hull2d(n2).empty()) c.fail("empty", "the hull of no points is not empty");
        c.trans(4); c.state(1);
    });
}
