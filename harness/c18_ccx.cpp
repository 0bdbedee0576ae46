// Curve/curve intersection: constructed crossings are found, everything reported is a meeting point, apart curves give nothing.
#include "lib.h"
#include "cmmcore/ccx.h"
using namespace br;
typedef std::vector<std::pair<double, double>> Res;
static NURBSCurve moved(const NURBSCurve& c, vec3 d, const double R[3][3]) {
    std::vector<vec4> p = c.control_points;
    for (auto& q : p) { double x = q.x / q.w, y = q.y / q.w, z = q.z / q.w; q = vec4((R[0][0] * x + R[0][1] * y + R[0][2] * z + d.x) * q.w, (R[1][0] * x + R[1][1] * y + R[1][2] * z + d.y) * q.w, (R[2][0] * x + R[2][1] * y + R[2][2] * z + d.z) * q.w, q.w); }
    return NURBSCurve(p, c.get_degree(), c.knots, false);
}
static const double ID[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
static const double ROT[4][3][3] = {{{0, -1, 0}, {1, 0, 0}, {0, 0, 1}}, {{0.6, -0.8, 0}, {0.8, 0.6, 0}, {0, 0, 1}}, {{0, 0, 1}, {0, 1, 0}, {-1, 0, 0}}, {{0.8, -0.6, 0}, {0.48, 0.64, -0.6}, {0.36, 0.48, 0.8}}};
static vec3 at(const ref::Curve& r, double t) { auto p = r.eval(t); return vec3((double)p[0], (double)p[1], (double)p[2]); }
// expected: parameter pairs at which the curves meet
static void run(mc::Ctx& c, NURBSCurve a, NURBSCurve b, double tol, const Res& expected, bool none, const std::string& h, double R = 3) {
    NURBSCurve a0 = a, b0 = b;
    Res res{{-12345.0, 54321.0}};                 // results are appended
    c.at("ccx", tol);
    ccx(a, b, tol, res);
    c.trans(); c.state(hash(b, hash(a, mc::hd(tol))));
    if (res.empty() || res[0].first != -12345.0 || res[0].second != 54321.0) { c.fail("kept", "%s: results collected before were lost", h.c_str()); return; }
    res.erase(res.begin());
    if (hash(a) != hash(a0) || hash(b) != hash(b0)) c.fail("inputs", "%s: the curves were changed", h.c_str());
    if (none && !res.empty()) { c.fail("phantom", "%s: %zu intersections reported for curves that are apart", h.c_str(), res.size()); return; }
    ref::Curve ra = back(a0), rb = back(b0);
    auto ia = a0.interval(), ib = b0.interval();
    size_t k = 0;
    for (auto& r : res) {
        if (!(r.first >= ia[0] && r.first <= ia[1] && r.second >= ib[0] && r.second <= ib[1])) { c.fail("domain", "%s: parameters %.17g %.17g outside the domains", h.c_str(), r.first, r.second); return; }
        if (++k > 4000) break;
        double d = (at(ra, r.first) - at(rb, r.second)).length();
        if (!(d <= 2 * tol + 1e-9)) { c.fail("apart", "%s: the points at the reported parameters %.9g, %.9g are %g apart (tolerance %g)", h.c_str(), r.first, r.second, d, tol); return; }
    }
    // the reported parameter must be at the crossing: the curve stays near the point all the way between the two
    auto near = [&](const ref::Curve& r, double t, double u, vec3 p) { for (int i = 0; i <= 8; i++) if (!((at(r, t + (u - t) * i / 8) - p).length() <= R * tol)) return false; return true; };
    for (auto& e : expected) {
        bool found = false;
        vec3 p = at(ra, e.first);
        for (auto& r : res) if (near(ra, r.first, e.first, p) && near(rb, r.second, e.second, p)) { found = true; break; }
        if (!found) { c.fail("lost", "%s: the crossing at %.9g, %.9g is not reported (%zu are, tolerance %g)", h.c_str(), e.first, e.second, res.size(), tol); return; }
    }
}
void mc_explore(mc::Ctx& c) {
    // lines and polylines of a planar grid: all pairs, exact crossings
    struct Pt { int x, y; };
    std::vector<Pt> g; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) g.push_back({x, y});
    auto cr = [](Pt a, Pt b, Pt d) { return (long)(b.x - a.x) * (d.y - a.y) - (long)(b.y - a.y) * (d.x - a.x); };
    auto poly = [&](const std::vector<int>& q, double z) { std::vector<vec4> p; for (int i : q) p.push_back(vec4(g[i].x, g[i].y, z, 1)); return NURBSCurve(p, 1, false); };
    for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) for (int k = 0; k < 9; k++) {
        if (i == j || j == k) continue;
        if (!c.next("polyline %d %d %d of the 3x3 grid", i, j, k)) continue;
        c.guard([&] {
            int z = 0;
            for (int p = 0; p < 9; p++) for (int q = 0; q < 9; q++) for (int r = -1; r < 9; r++, z++) {
                if (p == q || q == r) continue;
                if ((i + j * 3 + k * 5 + z) % (c.thorough ? 5 : 53)) continue;
                std::vector<int> A{i, j, k}, B{p, q}; if (r >= 0) B.push_back(r);
                NURBSCurve a = poly(A, 0), b = poly(B, 0);
                Res e; bool any = false, overlap = false;
                for (size_t s = 0; s + 1 < A.size(); s++) for (size_t t = 0; t + 1 < B.size(); t++) {
                    Pt u = g[A[s]], v = g[A[s + 1]], w = g[B[t]], x = g[B[t + 1]];
                    long c1 = cr(u, v, w), c2 = cr(u, v, x), c3 = cr(w, x, u), c4 = cr(w, x, v);
                    auto on = [&](Pt m, Pt n, Pt o) { return cr(m, n, o) == 0 && std::min(m.x, n.x) <= o.x && o.x <= std::max(m.x, n.x) && std::min(m.y, n.y) <= o.y && o.y <= std::max(m.y, n.y); };
                    if (!c1 && !c2 && (on(w, x, u) + on(w, x, v) + on(u, v, w) + on(u, v, x) > 1)) overlap = true;
                    auto par = [](Pt m, Pt n, Pt o) { return n.x != m.x ? (double)(o.x - m.x) / (n.x - m.x) : (double)(o.y - m.y) / (n.y - m.y); };
                    double ka = a.knots[s + 1], kb = b.knots[t + 1], la = a.knots[s + 2] - ka, lb = b.knots[t + 2] - kb;
                    if (on(w, x, u)) { e.push_back({ka, kb + lb * par(w, x, u)}); any = true; }
                    if (on(w, x, v)) { e.push_back({ka + la, kb + lb * par(w, x, v)}); any = true; }
                    if (on(u, v, w)) { e.push_back({ka + la * par(u, v, w), kb}); any = true; }
                    if (on(u, v, x)) { e.push_back({ka + la * par(u, v, x), kb + lb}); any = true; }
                    if (c1 * c2 < 0 && c3 * c4 < 0) { e.push_back({ka + la * c3 / (double)(c3 - c4), kb + lb * c1 / (double)(c1 - c2)}); any = true; }
                }
                std::string h = mc::fmt("polylines %d %d %d and %d %d %d", i, j, k, p, q, r);
                double tol = overlap ? 5e-2 : z % 2 ? 1e-3 : 1e-2;
                run(c, a, b, tol, e, !any, h, overlap ? 10 : 3);
                run(c, a, poly(B, z % 3 ? 0.2 : 2.5 * tol), tol, {}, true, h + " in planes apart");
                if (c.cur_failed) return;
            }
        });
    }
    // curves brought into contact at every pair of parameters of a family
    std::vector<std::pair<std::string, NURBSCurve>> F;
    for (int p = 1; p <= 4; p++) for (auto& m : ref::mult_patterns(1, p)) for (int lay : {0, 1}) for (int kind = 0; kind < 5; kind++) for (int wk : {0, 1})
        if (!(kind == 4 && p == 1) && (lay == 0 || wk == 0)) F.push_back({mc::fmt("degree %d mult %s layout %d net %d weights %d", p, ref::str(m).c_str(), lay, kind, wk), mk(ref::make_curve(p, ref::clamped(p, m, lay), kind, wk))});
    size_t n = F.size();
    for (size_t i = 0; i < n; i++) {
        if (!c.next("%s against the family", F[i].first.c_str())) continue;
        c.guard([&] {
            NURBSCurve a = F[i].second;
            ref::Curve ra = back(a);
            if (c.thorough ? false : i % 3) return;
            for (size_t j = i % 7; j < n; j += c.thorough ? 7 : 23) for (int R = 0; R < 4; R++) {
                if (!c.thorough && (i + j + R) % 2) continue;
                NURBSCurve b0 = moved(F[j].second, vec3(0, 0, 0), ROT[R]);
                ref::Curve rb = back(b0);
                auto ia = a.interval(), ib = b0.interval();
                for (int s = 0; s < 3; s++) {
                    static const double f[5] = {0.07, 0.29, 0.46, 0.81, 0.93};
                    double t0 = ia[0] + (ia[1] - ia[0]) * f[(s * 2 + i) % 5], s0 = ib[0] + (ib[1] - ib[0]) * f[(s + j + R) % 5];
                    NURBSCurve b = moved(b0, at(ra, t0) - at(rb, s0), ID);
                    double size = 0; for (auto& q : a.control_points) size = std::max(size, vec3(q.x / q.w, q.y / q.w, q.z / q.w).length());
                    double tol = std::max(1.0, size) * 2e-3;
                    run(c, a, b, tol, {{t0, s0}}, false, F[i].first + " and " + F[j].first + mc::fmt(" turned %d, meeting at %g, %g", R, t0, s0));
                    c.tag("contacts constructed");
                    if (c.cur_failed) return;
                }
                NURBSCurve far = moved(b0, vec3(0, 0, 1e4), ID);
                run(c, a, far, 1e-3, {}, true, F[i].first + " and a far curve");
            }
        });
    }
    // circles (rational quadratics) and lines: exact crossings, tangency, misses
    auto circle = [](double x, double y, double r) {
        double s = std::sqrt(0.5); int q[9][2] = {{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}, {1, 0}};
        std::vector<vec4> p; for (int i = 0; i < 9; i++) { double w = i % 2 ? s : 1; p.push_back(vec4((x + r * q[i][0]) * w, (y + r * q[i][1]) * w, 0, w)); }
        return NURBSCurve(p, 2, {0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4}, false);
    };
    for (int k = -14; k <= 14; k++) {
        if (!c.next("a circle and lines at height %d/12, circles at distance", k)) continue;
        c.guard([&] {
            for (double r : {1.0, 2.5}) for (int v = 0; v < 2; v++) {
                double y = k / 12.0 * r;
                NURBSCurve C = circle(0.5, -0.25, r);
                NURBSCurve l = v ? NURBSCurve({vec4(0.5 + y, -0.25 - 4, 0, 1), vec4(0.5 + y, -0.25 + 4, 0, 1)}, 1, false) : NURBSCurve({vec4(0.5 - 4, -0.25 + y, 0, 1), vec4(0.5 + 4, -0.25 + y, 0, 1)}, 1, false);
                double d2 = r * r - y * y, tol = 1e-3;
                std::string h = mc::fmt("circle of radius %g and %s line at offset %g", r, v ? "vertical" : "horizontal", y);
                NURBSCurve a = C, b = l; Res res;
                c.at("ccx", k); ccx(a, b, tol, res); c.trans(); c.state(mc::mix(hash(l), hash(C)));
                if (d2 < -0.05) { if (!res.empty()) c.fail("circle|phantom", "%s: %zu intersections", h.c_str(), res.size()); continue; }
                for (int sgn : {-1, 1}) {
                    if (d2 < 0) continue;
                    double x = sgn * std::sqrt(d2); bool found = false;
                    vec3 e(v ? 0.5 + y : 0.5 + x, v ? -0.25 + x : -0.25 + y, 0);
                    for (auto& q : res) { vec3 p; C.evaluate(q.first, p); vec3 p2; l.evaluate(q.second, p2); if ((p - e).length() < 3 * tol + (d2 == 0 ? 0.1 : 0) && (p2 - e).length() < 3 * tol + (d2 == 0 ? 0.1 : 0)) found = true; }
                    if (!found) c.fail("circle|lost", "%s: the crossing (%g,%g) is not reported", h.c_str(), e.x, e.y);
                }
                for (auto& q : res) { vec3 p; C.evaluate(q.first, p); vec3 p2; l.evaluate(q.second, p2); if ((p - p2).length() > 2 * tol + 1e-9) c.fail("circle|apart", "%s: reported points are %g apart", h.c_str(), (p - p2).length()); if (d2 > 0.1) { double off = std::fabs((v ? p.y + 0.25 : p.x - 0.5)); if (std::fabs(off - std::sqrt(d2)) > 20 * tol) c.fail("circle|place", "%s: a reported point is away from both crossings", h.c_str()); } }
            }
        });
    }
}
