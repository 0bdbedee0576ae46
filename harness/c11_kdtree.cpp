// KD-tree: every short history of build / insert, all queries against a plain list.
#include "lib.h"
#include "cmmcore/kdtree.h"
using namespace cmmcore;

typedef std::array<double, 3> A3;
static std::vector<A3> alphabet(int lay) {
    if (lay == 0) return {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}, {2, 1, 0}, {1, 2, 2}, {2, 2, 2}};
    if (lay == 1) return {{0, 0, 0}, {0, 0, 0.5}, {0, 0, -2}, {-1, 0, 0.5}, {3, -4, 0.5}, {-1, 7, 0.5}, {-1, 7, 1e5}};
    return {{5, 5, 5}, {5, 5, 5.0000001}, {5, 4.9999999, 5}, {-5, 5, 5}, {1e6, 5, 5}, {5, 1e6, -5}};
}
static vec3 V(const A3& a) { return vec3(a[0], a[1], a[2]); }
static A3 back(const vec3& v) { return {v.x, v.y, v.z}; }
static double d2(const A3& a, const A3& b) { double s = 0; for (int i = 0; i < 3; i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
static std::string str(const std::vector<A3>& v) { std::string s; for (auto& a : v) s += mc::fmt("(%g,%g,%g)", a[0], a[1], a[2]); return s; }

static void verify(mc::Ctx& c, const KDTree3D& t, std::vector<A3> m, const std::vector<A3>& T, const std::vector<std::pair<A3, A3>>& R, const std::string& h) {
    uint64_t st = 5; for (auto& a : m) for (double x : a) st = mc::mix(st, mc::hd(x));
    c.state(mc::mix(st, mc::hs(h)));
    if (t.size() != m.size() || t.empty() != m.empty()) { c.fail("size", "%s: size %zu empty %d, expected %zu", h.c_str(), t.size(), (int)t.empty(), m.size()); return; }
    for (auto& q : T) {
        bool threw = false; A3 g{};
        c.at("nearestNeighbor", q[0], q[1], q[2]);
        try { g = back(t.nearestNeighbor(V(q))); } catch (const std::runtime_error&) { threw = true; }
        c.trans();
        if (threw != m.empty()) { c.fail("nearest|refusal", "%s: %s", h.c_str(), threw ? "refused" : "an empty tree answered"); return; }
        if (threw) continue;
        double best = 1e300; bool member = false;
        for (auto& a : m) { best = std::min(best, d2(a, q)); if (a == g) member = true; }
        if (!member) { c.fail("nearest|foreign", "%s: target (%g,%g,%g) gave (%g,%g,%g), not a stored point", h.c_str(), q[0], q[1], q[2], g[0], g[1], g[2]); return; }
        if (d2(g, q) > best * (1 + 1e-12)) { c.fail("nearest|not-nearest", "%s: target (%g,%g,%g) gave (%g,%g,%g) at %g, nearest is at %g", h.c_str(), q[0], q[1], q[2], g[0], g[1], g[2], d2(g, q), best); return; }
    }
    for (auto& r : R) {
        c.at("rangeSearch", r.first[0], r.first[1], r.first[2]);
        auto v = t.rangeSearch(V(r.first), V(r.second));
        c.trans();
        std::vector<A3> got, exp;
        for (auto& x : v) got.push_back(back(x));
        for (auto& a : m) { bool in = true; for (int d = 0; d < 3; d++) if (a[d] < r.first[d] || a[d] > r.second[d]) in = false; if (in) exp.push_back(a); }
        std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
        if (got != exp) { c.fail("range", "%s: range (%g,%g,%g)-(%g,%g,%g) gave %s expected %s", h.c_str(), r.first[0], r.first[1], r.first[2], r.second[0], r.second[1], r.second[2], str(got).c_str(), str(exp).c_str()); return; }
    }
}
struct Op { bool build; std::vector<int> pts; };
static void replay(mc::Ctx& c, const std::vector<A3>& A, const std::vector<Op>& ops, const std::vector<A3>& T, const std::vector<std::pair<A3, A3>>& R, bool each) {
    KDTree3D t;
    std::vector<A3> m;
    std::string h;
    for (size_t k = 0; k < ops.size(); k++) {
        auto& o = ops[k];
        if (o.build) {
            std::vector<vec3> in; m.clear();
            for (int i : o.pts) { in.push_back(V(A[i])); m.push_back(A[i]); }
            h += " build" + ref::str(o.pts);
            c.at("build", o.pts.size());
            t.build(in);
            std::vector<A3> after, before = m;
            for (auto& x : in) after.push_back(back(x));
            std::sort(after.begin(), after.end()); std::sort(before.begin(), before.end());
            if (after != before) c.fail("build|input", "%s: the input list lost or gained points", h.c_str());
        } else {
            h += mc::fmt(" insert%d", o.pts[0]);
            c.at("insert", o.pts[0]);
            t.insert(V(A[o.pts[0]]));
            m.push_back(A[o.pts[0]]);
        }
        c.trans();
        if (each || k + 1 == ops.size()) verify(c, t, m, T, R, h);
    }
    if (ops.empty()) verify(c, t, m, T, R, "empty");
}
template <class F> static void sequences(int n, int k, F&& f) {
    std::vector<int> s(n, 0);
    for (;;) { f(s); int i = n - 1; while (i >= 0 && ++s[i] == k) s[i--] = 0; if (i < 0) return; }
}
void mc_explore(mc::Ctx& c) {
    for (int lay = 0; lay < 3; lay++) {
        auto A = alphabet(lay);
        int k = A.size();
        std::vector<A3> T = A;
        for (double x : {-1.0, 0.4, 1.5}) for (double y : {0.0, 1.6}) for (double z : {0.25, 3.0}) T.push_back({x, y, z});
        T.push_back({5, 5, 5.00000004}); T.push_back({2e6, 2e6, 0});
        std::vector<std::pair<A3, A3>> R;
        for (double a : {0.0, 1.0}) for (double b : {0.0, 1.0}) for (double z : {0.0, 0.5}) for (double w : {0.0, 1.0, 2.0}) R.push_back({{a, b, z}, {a + w, b + 1, z + w}});
        for (auto& a : A) R.push_back({a, a});
        R.push_back({{-1e9, -1e9, -1e9}, {1e9, 1e9, 1e9}}); R.push_back({{1, 1, 1}, {0, 0, 0}});
        if (c.next("layout %d: empty tree", lay)) c.guard([&] { replay(c, A, {}, T, R, true); replay(c, A, {{true, {}}}, T, R, true); replay(c, A, {{true, {}}, {false, {1}}, {true, {}}, {true, {2, 0}}}, T, R, true); });
        // inserts only
        int maxi = c.thorough ? 6 : 5;
        for (int n = 1; n <= maxi; n++) {
            int pre = std::min(n, 2);
            sequences(pre, k, [&](std::vector<int>& p0) {
                if (!c.next("layout %d: %d inserts starting %s", lay, n, ref::str(p0).c_str())) return;
                c.guard([&] {
                    auto go = [&](const std::vector<int>& p) { std::vector<Op> o; for (int i : p) o.push_back({false, {i}}); replay(c, A, o, T, R, false); };
                    if (n == pre) go(p0);
                    else sequences(n - pre, k, [&](std::vector<int>& r) {
                        if (n >= 5 && (r[n - pre - 1] + r[0] + (n > 5 ? r[1] : 0)) % (n > 5 ? 4 : c.thorough ? 1 : 4)) return;
                        auto p = p0; p.insert(p.end(), r.begin(), r.end()); go(p); });
                });
            });
        }
        // build with every list, then inserts, then a rebuild
        for (int n = 0; n <= 3; n++) for (int ins = 0; ins <= 2; ins++) {
            sequences(std::min(n, 2), k, [&](std::vector<int>& p0) {
                if (!c.next("layout %d: build %d starting %s then %d inserts", lay, n, ref::str(p0).c_str(), ins)) return;
                c.guard([&] {
                    auto go = [&](const std::vector<int>& p) { sequences(ins, k, [&](std::vector<int>& q) {
                        if (n == 3 && ins == 2 && !c.thorough && (q[0] + q[1] + p[2]) % 4) return;
                        std::vector<Op> o{{true, p}}; for (int i : q) o.push_back({false, {i}});
                        if (ins == 1) { o.push_back({true, {q[0]}}); o.push_back({false, {p.empty() ? 0 : p[0]}}); replay(c, A, o, T, R, true); }
                        else replay(c, A, o, T, R, false); }); };
                    if (n <= 2) go(p0); else sequences(1, k, [&](std::vector<int>& r) { auto p = p0; p.push_back(r[0]); go(p); });
                });
            });
        }
        // every order of the whole alphabet (with one duplicate), built at once
        std::vector<int> p; for (int i = 0; i < std::min(k, c.thorough ? 8 : 7); i++) p.push_back(i);
        long z = 0;
        do { if (z++ % 720) continue;
             if (!c.next("layout %d: orders of %zu points from %s", lay, p.size(), ref::str(p).c_str())) continue;
             c.guard([&] { auto r = p; for (int i = 0; i < 720; i++) { auto q = r; q.push_back(r[2]); replay(c, A, {{true, i % 2 ? q : r}, {false, {r[0]}}}, T, R, false); if (!std::next_permutation(r.begin(), r.end())) break; } });
        } while (std::next_permutation(p.begin(), p.end()));
        // larger point sets
        for (int n = 10; n <= 60; n += 10) for (int s = 1; s <= 3; s++) {
            if (!c.next("layout %d: %d points stride %d", lay, n, s)) continue;
            c.guard([&] {
                std::vector<A3> B; for (int i = 0; i < n; i++) B.push_back({(double)((i * s * 7) % 11), (double)((i * 5) % (6 + s)), (double)((i * i + s) % 5) * 0.5});
                std::vector<int> all(n); for (int i = 0; i < n; i++) all[i] = i;
                std::vector<Op> o{{true, all}}, o2; for (int i = 0; i < n; i += 4) o.push_back({false, {i}}); for (int i : all) o2.push_back({false, {i}});
                std::vector<A3> T2 = T; for (double x = -0.5; x < 12; x += 1.7) for (double y = 0; y < 8; y += 1.3) for (double w = -1; w < 4; w += 0.9) T2.push_back({x, y, w});
                std::vector<std::pair<A3, A3>> R2 = R; for (double x = 0; x < 11; x += 2.5) for (double y = 0; y < 8; y += 2) for (double w = 0; w < 2; w += 0.5) R2.push_back({{x, y, w}, {x + 3, y + 2.5, w + 1}});
                replay(c, B, o, T2, R2, true); replay(c, B, o2, T2, R2, false);
            });
        }
    }
}
