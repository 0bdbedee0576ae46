// Curve/surface intersection: constructed crossings are found, everything reported is a common point.
#include "lib.h"
#include "cmmcore/csx.h"
using namespace br;
struct Hit { double t, u, v; };
static vec3 at(const ref::Curve& r, double t) { auto p = r.eval(t); return vec3((double)p[0], (double)p[1], (double)p[2]); }
static vec3 at(const ref::Surf& r, double u, double v) { auto p = r.eval(u, v); return vec3((double)p[0], (double)p[1], (double)p[2]); }
static void run(mc::Ctx& c, const NURBSCurve& a, const NURBSSurface& s, double tol, const std::vector<Hit>& expected, bool none, const std::string& h) {
    uint64_t h0 = hash(a), h1 = hash(s);
    c.at("csx", tol);
    CSXIntersections res;
    res.emplace_back(CSXType::TRANSVERSAL, vec3(9e9, 0, 0), Vector<3>{1, 2, 3});
    csx(a, s, res, tol);
    static int turn = 0; if (turn++ % 8 == 0) { // the form that returns the list gives the same one
        auto r2 = csx(a, s, tol); bool same = r2.size() == res.size(); for (size_t i = 0; same && i < r2.size(); i++) same = std::get<0>(r2[i]) == std::get<0>(res[i]) && std::get<1>(r2[i]) == std::get<1>(res[i]) && std::get<2>(r2[i]) == std::get<2>(res[i]);
        if (!same) { c.fail("forms", "%s: the two forms of the search give %zu and %zu intersections", h.c_str(), res.size(), r2.size()); return; }
    }
    c.trans(); c.state(mc::mix(mc::mix(h0, h1), mc::hd(tol)));
    if (hash(a) != h0 || hash(s) != h1) c.fail("inputs", "%s: the inputs were changed", h.c_str());
    if (none && !res.empty()) { c.fail("phantom", "%s: %zu intersections reported although they are apart", h.c_str(), res.size()); return; }
    ref::Curve ra = back(a); ref::Surf rs = back(s);
    auto ia = a.interval(); auto is = s._interval;
    size_t n = 0;
    for (auto& [type, pt, par] : res) {
        if (!(par[0] >= ia[0] && par[0] <= ia[1] && par[1] >= is[0][0] && par[1] <= is[0][1] && par[2] >= is[1][0] && par[2] <= is[1][1])) { c.fail("domain", "%s: parameters %.12g %.12g %.12g outside the domains", h.c_str(), par[0], par[1], par[2]); return; }
        if (++n > 500) break;
        vec3 p = at(ra, par[0]), q = at(rs, par[1], par[2]);
        if (!((p - q).length() <= tol * 1.0001 + 1e-9)) { c.fail("apart", "%s: curve and surface are %g apart at the reported parameters (tolerance %g)", h.c_str(), (p - q).length(), tol); return; }
        { // how they meet there, with a margin of three around the tolerance
            auto T = ra.der(par[0], 1), SU = rs.der(par[1], par[2], 0), SV = rs.der(par[1], par[2], 1);
            vec3 tt((double)T[0], (double)T[1], (double)T[2]), su((double)SU[0], (double)SU[1], (double)SU[2]), sv((double)SV[0], (double)SV[1], (double)SV[2]), nn = su.cross(sv);
            if (nn.length() > 1e-3 * su.length() * sv.length() && nn.length() > 1e-6 && tt.length() > 1e-6) {
                double x = std::fabs(tt.dot(nn)) / nn.length(), hi = std::max(x, x / tt.length()), lo = std::min(x, x / tt.length());
                if (lo > 3 * tol || hi < tol / 3) {
                    bool touch = hi < tol / 3; c.tag(touch ? "touching contacts classified" : "crossings classified");
                    if ((type == CSXType::DEGENERATE) != touch) { c.fail("type", "%s: the contact at t=%.9g (u,v)=(%.9g,%.9g) is reported as %s (tangent times normal %g)", h.c_str(), par[0], par[1], par[2], touch ? "transversal" : "degenerate", x); return; }
                }
            }
        }
        if (!((p - pt).length() <= 1e-9 * (1 + p.length()))) { c.fail("point", "%s: the reported point is not the curve's point", h.c_str()); return; }
    }
    for (auto& e : expected) {
        bool found = false; vec3 p = at(ra, e.t);
        for (auto& [type, pt, par] : res) if ((pt - p).length() <= 10 * tol) { found = true; break; }
        // a contact on the boundary may hide behind another crossing that is known only within the tolerance
        bool edge = std::min({std::fabs(e.t - ia[0]), std::fabs(e.t - ia[1]), std::fabs(e.u - is[0][0]), std::fabs(e.u - is[0][1]), std::fabs(e.v - is[1][0]), std::fabs(e.v - is[1][1])}) < 1e-9;
        if (edge && !found) c.tag("boundary contacts not found");
        if (!found && edge && !res.empty()) continue;
        if (!found) { c.fail("lost", "%s: the crossing at t=%.9g (u,v)=(%.9g,%.9g) is not reported (%zu are, tolerance %g)", h.c_str(), e.t, e.u, e.v, res.size(), tol); return; }
    }
    if (!none && res.size() > 4 * expected.size()) c.tag("many duplicates", 1);
    if (!expected.empty()) c.tag(mc::fmt("reported %zu for %zu", std::min<size_t>(res.size(), 9), expected.size()).c_str());
}
// Bezier control values of a polynomial given by its power coefficients on [0,1]
static std::vector<double> bez(std::vector<double> a, int d) {
    a.resize(d + 1); std::vector<double> b(d + 1, 0.0);
    auto C = [](int n, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; };
    for (int i = 0; i <= d; i++) for (int j = 0; j <= i; j++) b[i] += C(i, j) / C(d, j) * a[j];
    return b;
}
static NURBSSurface patch(int p, int q, double x0, double x1, double y0, double y1, double z) {
    std::vector<std::vector<vec4>> P(p + 1, std::vector<vec4>(q + 1));
    for (int i = 0; i <= p; i++) for (int j = 0; j <= q; j++) P[i][j] = vec4(x0 + (x1 - x0) * i / p, y0 + (y1 - y0) * j / q, z, 1);
    return NURBSSurface(P, {p, q});
}
void mc_explore(mc::Ctx& c) {
    // graph curves with chosen roots over plane patches
    static const double R[7] = {0.11, 0.23, 0.37, 0.5, 0.62, 0.78, 0.9};
    for (int set = 1; set < 128; set++) {
        int k = __builtin_popcount(set); if (k > 4) continue;
        if (!c.next("curve with roots %x over plane patches", set)) continue;
        c.guard([&] {
            std::vector<double> roots; for (int i = 0; i < 7; i++) if (set >> i & 1) roots.push_back(R[i]);
            std::vector<double> a{1}; for (double r : roots) { std::vector<double> n(a.size() + 1, 0.0); for (size_t i = 0; i < a.size(); i++) { n[i + 1] += a[i]; n[i] -= a[i] * r; } a = n; }
            int d = std::max<int>(1, roots.size());
            for (int deg = d; deg <= d + 1; deg++) for (double sc : {1.0, 8.0, 60.0}) for (int v = 0; v < 4; v++) {
                auto b = bez(a, deg); std::vector<vec4> P;
                for (int i = 0; i <= deg; i++) { double x = (double)i / deg; P.push_back(vec4(10 * x, v & 1 ? 3 + 4 * x : 5, b[i] * sc, 1)); }
                NURBSCurve cu(P, deg, false);
                for (int w = 0; w < 3; w++) {
                    double x0 = w == 1 ? 3.05 : -1, x1 = w == 2 ? 5.7 : 11;
                    NURBSSurface s = v & 2 ? patch(3, 2, x0, x1, 0.5, 9.75, 0) : patch(1, 1, x0, x1, 0.5, 9.75, 0);
                    std::vector<Hit> e;
                    for (double r : roots) if (10 * r > x0 && 10 * r < x1) { double sl = 1; for (double o : roots) if (o != r) sl *= (r - o); if (std::fabs(sl) * sc < 0.05) continue; e.push_back({r, (10 * r - x0) / (x1 - x0), 0.5}); }
                    run(c, cu, s, 1e-3, e, false, mc::fmt("roots %x degree %d height %g variant %d window %d", set, deg, sc, v, w));
                    if (c.cur_failed) return;
                }
                NURBSSurface s = patch(2, 2, -1, 11, 0.5, 9.75, -100);
                run(c, cu, s, 1e-3, {}, true, mc::fmt("roots %x and a plane below", set));
            }
        });
    }
    // curves that touch a plane or lie in it
    for (int k = 1; k <= 19; k += c.thorough ? 1 : 3) {
        if (!c.next("a curve that touches a plane at parameter %d/20", k)) continue;
        c.guard([&] {
            double r = k / 20.0;
            for (int deg = 2; deg <= 4; deg++) for (double sc : {1.0, 8.0}) for (int other = 0; other < 2; other++) {
                if (other && deg < 3) continue;
                double o = r < 0.5 ? 0.93 : 0.07; // one more root, crossed there
                std::vector<double> a = other ? std::vector<double>{-r * r * o, r * r + 2 * r * o, -(2 * r + o), 1} : std::vector<double>{r * r, -2 * r, 1};
                auto b = bez(a, deg); std::vector<vec4> P; for (int i = 0; i <= deg; i++) P.push_back(vec4(10.0 * i / deg, 5, b[i] * sc, 1));
                NURBSCurve cu(P, deg, false);
                std::vector<Hit> e; if (other) e.push_back({o, (10 * o + 1) / 12, 0.5});
                run(c, cu, patch(1 + deg % 2, 1, -1, 11, 0.5, 9.75, 0), 1e-3, e, false, mc::fmt("touching at %g degree %d height %g%s", r, deg, sc, other ? " and crossing" : ""));
                if (c.cur_failed) return;
            }
        });
    }
    // pairs of a curve and a surface family, moved so that they meet at chosen parameters
    static const double ROT[4][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{0.6, -0.8, 0}, {0.8, 0.6, 0}, {0, 0, 1}}, {{0, 0, 1}, {0, 1, 0}, {-1, 0, 0}}, {{0.8, -0.6, 0}, {0.48, 0.64, -0.6}, {0.36, 0.48, 0.8}}};
    struct FC { std::string n; ref::Curve r; }; struct FS { std::string n; ref::Surf r; };
    std::vector<FC> FCs; std::vector<FS> FSs;
    for (int p = 1; p <= 4; p++) for (auto& m : ref::mult_patterns(1, std::max(1, p - 1))) for (int lay : {0, 1}) for (int kind : {0, 1}) for (int wk : {0, 1})
        FCs.push_back({mc::fmt("curve degree %d mult %s layout %d net %d weights %d", p, ref::str(m).c_str(), lay, kind, wk), ref::make_curve(p, ref::clamped(p, m, lay), kind, wk)});
    for (int p = 1; p <= 3; p++) for (int q = 1; q <= 3; q++) for (int in = 0; in < 3; in++) for (int kind : {0, 1}) for (int wk : {0, 1}) {
        std::vector<int> a = in == 1 ? std::vector<int>{1} : std::vector<int>{}, b = in == 2 ? std::vector<int>{1} : std::vector<int>{};
        FSs.push_back({mc::fmt("surface degrees %d,%d inner knots %d net %d weights %d", p, q, in, kind, wk), ref::make_surf(p, q, ref::clamped(p, a, in), ref::clamped(q, b, 0), kind, wk)});
    }
    for (size_t i = 0; i < FSs.size(); i++) {
        if (!c.next("%s against the curves", FSs[i].n.c_str())) continue;
        c.guard([&] {
            NURBSSurface s = mk(FSs[i].r); const ref::Surf& rs = FSs[i].r;
            for (size_t j = i % 5; j < FCs.size(); j += c.thorough ? 3 : 19) for (int R = 0; R < 4; R++) {
                if (!c.thorough && (i + j + R) % 2) continue;
                ref::Curve rc = FCs[j].r;
                for (auto& h : rc.P) { ref::H g = h; for (int k = 0; k < 3; k++) h[k] = ROT[R][k][0] * g[0] + ROT[R][k][1] * g[1] + ROT[R][k][2] * g[2]; }
                static const double f[8] = {0.13, 0.31, 0.5, 0.72, 0.88, 0.25, 0, 1};
                double t = rc.lo() + (rc.hi() - rc.lo()) * f[(i + R) % 8], u = rs.ulo() + (rs.uhi() - rs.ulo()) * f[(j + R) % 8], v = rs.vlo() + (rs.vhi() - rs.vlo()) * f[(i + j + R) % 8];
                vec3 d = at(rs, u, v) - at(rc, t);
                for (auto& h : rc.P) { h[0] += d.x * h[3]; h[1] += d.y * h[3]; h[2] += d.z * h[3]; }
                auto T = rc.der(t, 1), SU = rs.der(u, v, 0), SV = rs.der(u, v, 1);
                vec3 tt((double)T[0], (double)T[1], (double)T[2]), su((double)SU[0], (double)SU[1], (double)SU[2]), sv((double)SV[0], (double)SV[1], (double)SV[2]);
                vec3 nn = su.cross(sv);
                bool clear = std::fabs(tt.dot(nn)) > 0.1 * tt.length() * nn.length() && nn.length() > 0.1 * su.length() * sv.length() && tt.length() > 1e-2 && nn.length() > 1e-3;
                c.tag(clear ? "constructed crossings" : "constructed shallow contacts");
                std::vector<Hit> e; if (clear) e.push_back({t, u, v});
                run(c, mk(rc), s, 1e-3, e, false, FSs[i].n + " and " + FCs[j].n + mc::fmt(" turned %d meeting at %g,(%g,%g)", R, t, u, v));
                if (c.cur_failed) return;
            }
        });
    }
    // a line through a sphere of rational patches, exactly two crossings; and curves that start on the surface
    {
        double w = std::sqrt(0.5);
        for (int k = -9; k <= 9; k++) {
            if (!c.next("lines at height %d/10 through a cylinder and a cone", k)) continue;
            c.guard([&] {
                for (double r : {1.0, 20.0}) for (double top : {1.0, 0.5}) for (int dir = 0; dir < 4; dir++) {
                    int q[9][2] = {{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}, {1, 0}};
                    std::vector<std::vector<vec4>> P(9, std::vector<vec4>(2));
                    for (int i = 0; i < 9; i++) for (int j = 0; j < 2; j++) { double ww = i % 2 ? w : 1, rr = j ? r * top : r; P[i][j] = vec4(rr * q[i][0] * ww, rr * q[i][1] * ww, (j ? r : -r) * ww, ww); }
                    NURBSSurface s(P, {2, 1}, {0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4}, {0, 0, 1, 1});
                    double z = 0.073 * r * (k + 0.37), y = 0.091 * r * k + 0.013 * r, rad = r * (1 + (top - 1) * (z + r) / (2 * r)), cs = dir == 0 ? 1 : dir == 1 ? 0.8 : dir == 2 ? 0.28 : 0, sn = std::sqrt(1 - cs * cs);
                    if (std::fabs(y) > 0.97 * rad) continue;
                    double x = std::sqrt(rad * rad - y * y), L = 3 * r;
                    auto pt = [&](double a) { return vec4(a * cs - y * sn, a * sn + y * cs, z, 1); };
                    NURBSCurve l({pt(-L), pt(L)}, 1, false);
                    l.knots = {0, 0, 1, 1}; l.update_interval();
                    for (double tol : {1e-3, 1e-5}) run(c, l, s, tol * r, {{0.5 - x / (2 * L), 0, 0}, {0.5 + x / (2 * L), 0, 0}}, false, mc::fmt("line at height %d through a %s of radius %g, direction %d", k, top == 1 ? "cylinder" : "cone", r, dir));
                    NURBSCurve miss({vec4(-L, y, r * 1.01, 1), vec4(L, y, r * 1.01, 1)}, 1, false);
                    run(c, miss, s, 1e-3 * r, {}, true, "line above");
                }
            });
        }
    }
}
