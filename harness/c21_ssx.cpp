// Start points of the surface/surface intersection: at least one on every branch, all of them common points.
#include "graph.h"
#include "cmmcore/ssx.h"
using namespace br; using namespace gr;
static vec3 V(const ref::P3& p) { return vec3((double)p[0], (double)p[1], (double)p[2]); }
struct Branches { int nx, ny; std::vector<int> label; int count = 0; std::vector<int> size; bool bad = false; Rect r; };
// branches of h=0 in the rectangle, by cells with a change of sign that are joined over edges with a change of sign
template <class F, class GX, class GY> static Branches branches(const F& val_, const GX& dx_, const GY& dy_, const Rect& r) {
    Branches b; b.r = r; b.nx = 57; b.ny = 61;
    b.label.assign(b.nx * b.ny, -1);
    auto X = [&](int i) { return r.x0 + (ld)(r.x1 - r.x0) * i / b.nx; }; auto Y = [&](int j) { return r.y0 + (ld)(r.y1 - r.y0) * j / b.ny; };
    std::vector<char> s((b.nx + 1) * (b.ny + 1));
    auto S = [&](int i, int j) { return s[i * (b.ny + 1) + j]; };
    for (int i = 0; i <= b.nx; i++) for (int j = 0; j <= b.ny; j++) s[i * (b.ny + 1) + j] = val_(X(i), Y(j)) > 0;
    ld cell = std::max((r.x1 - r.x0) / b.nx, (r.y1 - r.y0) / b.ny);
    auto cut = [&](int i, int j) { int n = S(i, j) + S(i + 1, j) + S(i, j + 1) + S(i + 1, j + 1); return n > 0 && n < 4; };
    for (int i = 0; i < b.nx; i++) for (int j = 0; j < b.ny; j++) {
        ld x = (X(i) + X(i + 1)) / 2, y = (Y(j) + Y(j + 1)) / 2, gx = dx_(x, y), gy = dy_(x, y), g = sqrtl(gx * gx + gy * gy);
        if (fabsl(val_(x, y)) < 0.02L + 2 * cell * cell && g < 0.2L) b.bad = true;          // nearly singular
        if (!cut(i, j) && fabsl(val_(x, y)) < 1e-3L) b.bad = true;
    }
    for (int i = 0; i < b.nx; i++) for (int j = 0; j < b.ny; j++) if (cut(i, j) && b.label[i * b.ny + j] < 0) {
        std::vector<std::pair<int, int>> st{{i, j}}; b.label[i * b.ny + j] = b.count; int n = 0;
        while (!st.empty()) {
            auto [p, q] = st.back(); st.pop_back(); n++;
            auto go = [&](int a, int c, bool edge) { if (edge && a >= 0 && c >= 0 && a < b.nx && c < b.ny && b.label[a * b.ny + c] < 0) { b.label[a * b.ny + c] = b.count; st.push_back({a, c}); } };
            go(p - 1, q, S(p, q) != S(p, q + 1)); go(p + 1, q, S(p + 1, q) != S(p + 1, q + 1)); go(p, q - 1, S(p, q) != S(p + 1, q)); go(p, q + 1, S(p, q + 1) != S(p + 1, q + 1));
        }
        b.size.push_back(n); b.count++;
    }
    return b;
}
static Branches branches(const G& h, const Rect& r) { return branches([&](ld x, ld y) { return val(h, x, y); }, [&](ld x, ld y) { return dx(h, x, y); }, [&](ld x, ld y) { return dy(h, x, y); }, r); }
static void run(mc::Ctx& c, const NURBSSurface& a, const NURBSSurface& b, const Branches* br, bool apart, double tol, const std::string& h) {
    uint64_t h0 = hash(a), h1 = hash(b);
    c.at("findStartIntersectionPoints", tol);
    Intersection res;
    findStartIntersectionPoints(a, b, tol, res);
    c.trans(); c.state(mc::mix(mc::mix(h0, h1), mc::hd(tol)));
    if (hash(a) != h0 || hash(b) != h1) c.fail("inputs", "%s: the surfaces were changed", h.c_str());
    if (apart && (!res.patches.empty() || !res.points.empty())) { c.fail("phantom", "%s: %zu pieces and %zu points although the surfaces are apart", h.c_str(), res.patches.size(), res.points.size()); return; }
    ref::Surf ra = back(a), rb = back(b);
    std::vector<std::array<double, 2>> seen;
    auto check = [&](double u, double v, double s, double t, const vec3& p, double eps, const char* what) {
        if (!(u >= ra.ulo() && u <= ra.uhi() && v >= ra.vlo() && v <= ra.vhi() && s >= rb.ulo() && s <= rb.uhi() && t >= rb.vlo() && t <= rb.vhi())) { c.fail("domain", "%s: %s at (%.9g,%.9g) (%.9g,%.9g), outside the domains", h.c_str(), what, u, v, s, t); return false; }
        vec3 P = V(ra.eval(u, v)), Q = V(rb.eval(s, t));
        if (!((P - p).length() <= eps) || !((Q - p).length() <= eps)) { c.fail("off", "%s: %s %s is %g and %g away from the surfaces at its parameters (tolerance %g)", h.c_str(), what, s3(p).c_str(), (P - p).length(), (Q - p).length(), tol); return false; }
        seen.push_back({u, v});
        return true;
    };
    for (auto& p : res.patches) for (auto* e : {&p.start, &p.end})
        if (!check(e->surface1_params[0], e->surface1_params[1], e->surface2_params[0], e->surface2_params[1], e->point, tol * 1.001 + 1e-9, "the end of a piece")) return;
    for (auto& p : res.points) if (!check(p.uv1.x, p.uv1.y, p.uv2.x, p.uv2.y, p.xyz, 4 * tol, "a point")) return;
    if (!br) return;
    std::vector<int> hit(br->count, 0);
    for (auto& s : seen) {
        int i = (int)((s[0] - br->r.x0) / (br->r.x1 - br->r.x0) * br->nx), j = (int)((s[1] - br->r.y0) / (br->r.y1 - br->r.y0) * br->ny);
        for (int k = -2; k <= 2; k++) for (int l = -2; l <= 2; l++) { int x = i + k, y = j + l; if (x >= 0 && y >= 0 && x < br->nx && y < br->ny && br->label[x * br->ny + y] >= 0) hit[br->label[x * br->ny + y]] = 1; }
    }
    for (int k = 0; k < br->count; k++) if (!hit[k]) {
        if (br->size[k] < 6) { c.tag("short branch not hit"); continue; }
        int at = 0; while (br->label[at] != k) at++;
        c.fail("lost", "%s: the branch of %d cells through about (%.4g,%.4g) has no point (%d branches, %zu pieces, %zu points, tolerance %g)", h.c_str(), br->size[k], br->r.x0 + (br->r.x1 - br->r.x0) * (at / br->ny + 0.5) / br->nx, br->r.y0 + (br->r.y1 - br->r.y0) * (at % br->ny + 0.5) / br->ny, br->count, res.patches.size(), res.points.size(), tol); return;
    }
    c.tag(mc::fmt("%d branches", br->count).c_str());
}
// the surface whose branches are known comes second: no branch is lost
static void second(mc::Ctx& c, const NURBSSurface& B, const NURBSSurface& A, const Branches& b, double tol, const std::string& h) {
    Intersection res; c.at("findStartIntersectionPoints (swapped)"); findStartIntersectionPoints(B, A, tol, res); c.trans(); std::vector<int> hit(b.count, 0);
    auto see = [&](double u, double v) { int i = (int)((u - b.r.x0) / (b.r.x1 - b.r.x0) * b.nx), j = (int)((v - b.r.y0) / (b.r.y1 - b.r.y0) * b.ny); for (int k = -2; k <= 2; k++) for (int l = -2; l <= 2; l++) { int x = i + k, y = j + l; if (x >= 0 && y >= 0 && x < b.nx && y < b.ny && b.label[x * b.ny + y] >= 0) hit[b.label[x * b.ny + y]] = 1; } };
    for (auto& t : res.patches) { see(t.start.surface2_params[0], t.start.surface2_params[1]); see(t.end.surface2_params[0], t.end.surface2_params[1]); }
    for (auto& t : res.points) see(t.uv2.x, t.uv2.y);
    for (int k = 0; k < b.count; k++) if (!hit[k] && b.size[k] >= 6) { c.fail("lost", "%s, the plane first: a branch of %d cells has no point (%d branches, %zu pieces, %zu points)", h.c_str(), b.size[k], b.count, res.patches.size(), res.points.size()); return; }
}
void mc_explore(mc::Ctx& c) {
    auto& gs = graphs(); auto& rs = rects();
    size_t n = 0, stride = c.thorough ? 1 : 97;
    for (size_t i = 0; i < gs.size(); i++) for (size_t j = 0; j < gs.size(); j++) if (i != j) for (size_t a = 0; a < rs.size(); a++) for (size_t b = 0; b < rs.size(); b++)
        for (int k = 0; k < 4; k++) {
            if (n++ % stride) continue;
            if (!c.next("graph %zu over rectangle %zu, graph %zu over rectangle %zu, representation %d", i, a, j, b, k)) continue;
            c.guard([&] {
                Rect r{std::max(rs[a].x0, rs[b].x0), std::min(rs[a].x1, rs[b].x1), std::max(rs[a].y0, rs[b].y0), std::min(rs[a].y1, rs[b].y1)};
                int m = (int)(n / stride) % 5;
                double tol = n % 3 || a == 6 || b == 6 ? 1e-3 : 1e-2;
                auto A = mk(surf(gs[i], rs[a], rep(gs[i], k), m)), B = mk(surf(gs[j], rs[b], rep(gs[j], (k * 3 + 1) % 4), m));
                std::string h = mc::fmt("graphs %zu/%zu and %zu/%zu, placed %d", i, a, j, b, m);
                if (r.x1 - r.x0 < 0.02 || r.y1 - r.y0 < 0.02) { run(c, A, B, nullptr, false, tol, h); return; }
                Branches br = branches(diff(gs[i], gs[j]), r);
                bool deg = false; crossings(gs[i], rs[a], gs[j], rs[b], deg); crossings(gs[j], rs[b], gs[i], rs[a], deg);
                if (deg) { c.tag("a branch along an edge"); return; }
                if (br.bad) { c.tag("nearly singular"); if (c.thorough || n % 2) run(c, A, B, nullptr, false, 2e-2, h + " nearly touching"); return; }   // what is reported holds all the same
                run(c, A, B, &br, false, tol, h);
            });
        }
    for (size_t i = 0; i < gs.size(); i++) for (int m = 0; m < 5; m++) {
        if (!c.next("graph %zu and itself raised, placed %d", i, m)) continue;
        c.guard([&] { G up = gs[i]; up.t.push_back({0.3, 0, 0}); run(c, mk(surf(gs[i], rs[0], rep(gs[i], m % 4), m)), mk(surf(up, rs[1], rep(up, 0), m)), nullptr, true, 1e-3, mc::fmt("graph %zu raised, placed %d", i, m)); });
    }
    // a net of several patches that rises and falls over a plane: loops that lie inside one patch or run through several
    for (int p = 2; p <= 3; p++) for (int bits = 1; bits < 512; bits++) for (int var = 0; var < 8; var++) {
        if (__builtin_popcount(bits) > (c.thorough ? 2 : 1) && (bits * 7 + var + p) % (c.thorough ? 12 : 211)) continue;
        if (!c.next("waves of degree %d, pattern %d, variant %d", p, bits, var)) continue;
        c.guard([&] {
            std::vector<double> U = var & 4 ? ref::clamped(p, {p}, 0) : ref::clamped(p, std::vector<int>(4 - p, 1), 0); const int n = U.size() - p - 1; std::vector<double> W = ref::clamped(2, {2}, 2); int mm = W.size() - 3; 
            ref::Surf s; s.p = p; s.q = 2; s.U = U; s.V = W; s.P.resize(n);
            for (int i = 0; i < n; i++) for (int j = 0; j < mm; j++) {
                ld x = 0, y = 0; for (int k = 1; k <= p; k++) x += U[i + k]; for (int k = 1; k <= 2; k++) y += W[j + k]; x /= p; y /= 2; y *= 2;
                bool up = i > 0 && i < n - 1 && j > 0 && j < mm - 1 && (bits >> ((i - 1) * 3 / (n - 2) * 3 + (j - 1))) & 1;
                s.P[i].push_back({x, y, (ld)(up ? 2 : 0), 1});
            }
            ld level = var & 1 ? 0.23L : 0.55L, tilt = var & 2 ? 0.07L : 0; Rect r{(double)U.front(), (double)U.back(), 0, 2};
            auto z = [&](ld x, ld y) { return s.eval((double)x, (double)(y / 2))[2] - level - tilt * (x - 1); };
            const ld e = 1e-5L; auto zx = [&](ld x, ld y) { return (z(x + e, y) - z(x - e, y)) / (2 * e); }; auto zy = [&](ld x, ld y) { return (z(x, y + e) - z(x, y - e)) / (2 * e); };
            Branches b = branches(z, zx, zy, r); std::string h = mc::fmt("waves of degree %d, pattern %d, variant %d", p, bits, var);
            NURBSSurface A = mk(s); auto P = [&](ld x, ld y) { return vec4((double)x, (double)y, (double)(level + tilt * (x - 1)), 1); };
            ld x1 = r.x1 + 0.4L, xm = (x1 - 0.3L) / 2; std::vector<std::vector<vec4>> q{{P(-0.3L, -0.2L), P(-0.3L, 2.3L)}, {P(xm, -0.2L), P(xm, 2.3L)}, {P(x1, -0.2L), P(x1, 2.3L)}};
            NURBSSurface B(q, {1, 1}, {0, 0, 1, 4, 4}, {-1, -1, 0, 0}); bool ok = !b.bad;
            b.r = {A._interval[0][0], A._interval[0][1], A._interval[1][0], A._interval[1][1]};
            if (!ok) c.tag("nearly singular wave");
            run(c, A, B, ok ? &b : nullptr, false, 1e-2, h);
            if (ok) second(c, B, A, b, 1e-2, h); // the plane first: its parameters follow x and y, in two pieces
        });
    }
    // rings that lie inside one quarter, or one quarter of a quarter, of both surfaces
    for (int lv = 0; lv < 2; lv++) for (int q1 = 0; q1 < (lv ? 16 : 4); q1++) for (int q2 = 0; q2 < (lv ? 16 : 4); q2++) for (int two = 0; two < 2; two++) {
        if (lv && !c.thorough && (q1 * 5 + q2 * 3 + two) % 7) continue;
        if (two && lv) continue;
        if (!c.next("ring in part %d and part %d of %d%s", q1, q2, lv ? 16 : 4, two ? ", two rings" : "")) continue;
        c.guard([&] {
            int n = lv ? 4 : 2; ld a = (q1 / n + 0.5L) / n, e0 = (q1 % n + 0.5L) / n, a2 = (q2 / n + 0.5L) / n, e2 = (q2 % n + 0.5L) / n, rad = (lv ? 0.07L : 0.13L), K = lv ? 9 : 4;
            ref::Surf s; s.p = two ? 4 : 2; s.q = 2; s.U = ref::clamped(s.p, {}, 0); s.V = ref::clamped(2, {}, 0);
            ld bx[5] = {K * a * a, K * (a * a - a), K * (1 - a) * (1 - a), 0, 0};
            if (two) { ld M = 55; // M (x-a)^2 (x-a')^2, two valleys
                ld o = 1 - a, f1[3] = {a * a, a * a - a, (1 - a) * (1 - a)}, f2[3] = {o * o, o * o - o, (1 - o) * (1 - o)}; static const int b2[3] = {1, 2, 1}, b4[5] = {1, 4, 6, 4, 1};
                for (auto& x : bx) x = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) bx[i + j] += M * b2[i] * b2[j] * f1[i] * f2[j]; for (int i = 0; i < 5; i++) bx[i] /= b4[i]; }
            ld by[3] = {K * e0 * e0, K * (e0 * e0 - e0), K * (1 - e0) * (1 - e0)}, level = K * rad * rad;
            s.P.resize(s.p + 1); for (int i = 0; i <= s.p; i++) for (int j = 0; j < 3; j++) s.P[i].push_back({(ld)i / s.p, (ld)j / 2, bx[i] + by[j], 1});
            Rect r{0, 1, 0, 1}; ld tilt = 0.05L * (q2 % 3 - 1);
            auto z = [&](ld x, ld y) { return s.eval((double)x, (double)y)[2] - level - tilt * (x - a); };
            const ld e = 1e-5L; auto in = [](ld x) { return std::min(std::max(x, 1e-5L), 1 - 1e-5L); };
            auto zx = [&](ld x, ld y) { return (z(in(x) + e, y) - z(in(x) - e, y)) / (2 * e); }; auto zy = [&](ld x, ld y) { return (z(x, in(y) + e) - z(x, in(y) - e)) / (2 * e); };
            Branches b = branches(z, zx, zy, r); if (b.count != (two ? 2 : 1) || b.bad) { c.tag("ring not used"); return; }
            // the plane, a rectangle of the same size or twice as large, with the ring in part q2
            ld L = lv ? 1.0L : 1.1L; auto P = [&](ld u, ld v) { ld x = a + (u - a2) * L, y = e0 + (v - e2) * L; return vec4((double)x, (double)y, (double)(level + tilt * (x - a)), 1); };
            NURBSSurface A = mk(s), B(std::vector<std::vector<vec4>>{{P(0, 0), P(0, 1)}, {P(1, 0), P(1, 1)}}, {1, 1}, {0, 0, 1, 1}, {0, 0, 1, 1});
            if (two) B = NURBSSurface(std::vector<std::vector<vec4>>{{P(-1.2, -1.2), P(-1.2, 2.2)}, {P(2.2, -1.2), P(2.2, 2.2)}}, {1, 1}, {0, 0, 1, 1}, {0, 0, 1, 1});
            std::string h = mc::fmt("ring in part %d and part %d of %d, %d rings", q1, q2, n * n, b.count);
            for (double tol : {1e-2, 1e-3}) {
                run(c, A, B, &b, false, tol, h); if (c.cur_failed) return;
                second(c, B, A, b, tol, h); if (c.cur_failed) return;
            }
        });
    }
    // surfaces no larger than the tolerance are reported as one point, with parameters of their own domains
    for (int k = 0; k < 8; k++) for (double size : {1e-3, 1e-2, 0.3}) {
        if (!c.next("small surfaces %d of size %g", k, size)) continue;
        c.guard([&] {
            auto K = [&](double a, double b, int f) { return f ? std::vector<double>{a, a, b, b} : std::vector<double>{}; }; double d = size;
            NURBSSurface a(std::vector<std::vector<vec3>>{{vec3(0, 0, 0), vec3(0, d, 0)}, {vec3(d, 0, 0), vec3(d, d, 0.1 * d)}}, {1, 1}, K(-3, -1, k & 1), K(5, 9, k & 2));
            NURBSSurface b(std::vector<std::vector<vec3>>{{vec3(0, d / 2, -d / 2), vec3(0, d / 2, d / 2)}, {vec3(d, d / 2, -d / 2), vec3(d, d / 2, d / 2)}}, {1, 1}, K(0, 4, k & 4), K(7, 8, k & 1));
            for (double f : {1.0, 1.5, 0.4, 0.1}) { run(c, a, b, nullptr, false, f * size * 1.2, mc::fmt("small surfaces %d of size %g, tolerance %g", k, size, f * size * 1.2));
                Intersection res; findStartIntersectionPoints(a, b, f * size * 1.2, res); c.trans(); if (res.points.empty() && res.patches.empty()) c.fail("lost", "small surfaces %d of size %g at tolerance %g: nothing found", k, size, f * size * 1.2); }
        });
    }
}
