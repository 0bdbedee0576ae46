// Point inversion by Newton iteration on curves and surfaces, against the same iteration with exact derivatives in long double.
#include "lib.h"
#include "cmmcore/ssx.h"
using namespace br;
using ref::ld; using ref::P3;
static ld dt(const P3& a, const P3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static P3 sub(const P3& a, const P3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static ld len(const P3& a) { return sqrtl(dt(a, a)); }
static vec3 v3(const P3& p) { return vec3((double)p[0], (double)p[1], (double)p[2]); }
// same span of all knots in the interior, with room for the difference quotients
static bool inside(ld t, ld lo, ld hi) { return t > lo + 1e-3L && t < hi - 1e-3L; }
static void span(const std::vector<double>& U, ld t, ld& lo, ld& hi) { lo = -1e300L; hi = 1e300L; for (double k : U) { if (k <= t) lo = std::max<ld>(lo, k); else hi = std::min<ld>(hi, k); } }
static const double T1[2] = {1e-7, 1e-3};

static bool curve_case(mc::Ctx& c, const ref::Curve& r, const NURBSCurve& s, ld t, ld off, int dir, const std::string& h, int& used) {
    ld lo, hi; span(r.U, t, lo, hi); if (!inside(t, lo, hi)) return true;
    P3 P = r.eval(t), D = r.der(t, 1); ld L = len(D); if (L < 1e-2L) return true;
    P3 n = dir ? P3{-D[1], D[0], 0} : P3{D[2], 0, -D[0]}; ld ln = len(n); if (off != 0) { if (ln < 1e-3L) return true; for (int i = 0; i < 3; i++) P[i] += off * n[i] / ln; }
    vec3 p = v3(P);
    for (int q = 0; q < 7; q++) {
        static const ld Q[7] = {0, 0.02L, -0.02L, 0.1L, -0.1L, 0.25L, -0.25L}; ld u = t + Q[q] * (hi - lo), u0 = u; if (!inside(u, lo, hi)) continue;
        bool good = true; ld last = 0.6L * (hi - lo); bool conv = false; P3 X{}; ld dmin = 1e300L, dmax = 0;
        for (int k = 0; k < 40 && good; k++) {
            X = sub(r.eval(u), P); P3 d1 = r.der(u, 1), d2 = r.der(u, 2); ld f = dt(d1, X), g = dt(d2, X) + dt(d1, d1);
            if (!(g > 0.2L * dt(d1, d1))) { good = false; break; }
            ld st = f / g; dmin = std::min(dmin, len(d1)); dmax = std::max(dmax, len(d1));
            if ((fabsl(st) > 0.5L * last && fabsl(st) > 1e-12L) || dmax > 2 * dmin) { good = false; break; } last = fabsl(st); u -= st; if (!inside(u, lo, hi) || len(r.der(u, 1)) < 1e-2L) { good = false; break; }
            if (last < 1e-14L) { conv = true; break; }
        }
        if (!good || !conv) continue;
        X = sub(r.eval(u), P); used++;
        for (double tol : T1) for (double tol2 : {1e-7, 1e-4}) {
            c.at("point_inversion_curve", (long)(t * 100), q); c.trans();
            double g = point_inversion_curve(s, p, (double)u0, tol, tol2, 100);
            P3 Y = sub(r.eval(g), P), d1 = r.der(g, 1); ld dist = len(Y), cs = dist > 0 ? fabsl(dt(Y, d1)) / (dist * len(d1)) : 0, away = fabsl(g - u) * len(d1);
            if (!(dist <= 1.01L * tol) && !(cs <= 2 * tol2) && !(away <= 2 * tol + 1e-9L)) { c.fail("curve", "%s: from %.6Lg towards the point %.3Lg off the curve at %.6Lg, tolerances %g %g: parameter %.12g, where the point is %.6Lg away at cosine %.3Lg; expected %.12Lg", h.c_str(), u0, off, t, tol, tol2, g, dist, cs, u); return false; }
            if (!(fabsl(g - u) <= 0.3L * (hi - lo))) { c.fail("curve far", "%s: from %.6Lg towards %.6Lg: parameter %.12g", h.c_str(), u0, t, g); return false; }
        }
        // no iterations: the start
        if (point_inversion_curve(s, p, (double)u0, 1e-7, 1e-7, 0) != (double)u0) { c.fail("start", "%s: without iterations the start is not returned", h.c_str()); return false; }
    }
    return true;
}
static bool surf_case(mc::Ctx& c, const ref::Surf& r, const NURBSSurface& s, ld a, ld b, ld off, const std::string& h, int& used) {
    ld lo, hi, lo2, hi2; span(r.U, a, lo, hi); span(r.V, b, lo2, hi2); if (!inside(a, lo, hi) || !inside(b, lo2, hi2)) return true;
    P3 P = r.eval(a, b), A = r.der(a, b, 0), B = r.der(a, b, 1), N{A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]};
    ld ln = len(N); if (ln < 1e-2L) return true; for (int i = 0; i < 3; i++) P[i] += off * N[i] / ln;
    vec3 p = v3(P);
    for (int q = 0; q < 9; q++) {
        static const ld Q[9][2] = {{0, 0}, {0.05L, 0}, {0, -0.05L}, {0.05L, 0.05L}, {-0.05L, -0.05L}, {0.15L, -0.1L}, {-0.15L, 0.1L}, {-0.2L, -0.2L}, {0.2L, 0.02L}};
        ld u = a + Q[q][0] * (hi - lo), v = b + Q[q][1] * (hi2 - lo2), u0 = u, v0 = v; if (!inside(u, lo, hi) || !inside(v, lo2, hi2)) continue;
        bool good = true, conv = false; ld last = 1e300L, emin = 1e300L, emax = 0, gmin = 1e300L, gmax = 0, su = 0.3L * (hi - lo), sv = 0.3L * (hi2 - lo2); P3 X{}, d1{}, d2{}; int steps = 0;
        for (int k = 0; k < 60; k++) {
            X = sub(r.eval(u, v), P); d1 = r.der(u, v, 0); d2 = r.der(u, v, 1); ld f = dt(d1, X), g = dt(d2, X), E = dt(d1, d1), F = dt(d1, d2), G = dt(d2, d2), W = E * G - F * F; steps = k;
            if (!(W > 1e-3L * E * G) || W < 1e-4L) { good = false; break; }
            ld x = (f * G - F * g) / W, y = (E * g - F * f) / W, st = fabsl(x) * sqrtl(E) + fabsl(y) * sqrtl(G);
            emin = std::min(emin, E); emax = std::max(emax, E); gmin = std::min(gmin, G); gmax = std::max(gmax, G);
            if ((st > 0.5L * last && st > 1e-12L) || emax > 4 * emin || gmax > 4 * gmin || fabsl(x) > su || fabsl(y) > sv) { good = false; break; } last = st; u -= x; v -= y; if (!inside(u, lo, hi) || !inside(v, lo2, hi2)) { good = false; break; }
            if (st < 1e-13L) { conv = true; break; }
        }
        if (!good || !conv) continue;
        used++; (void)steps;
        for (double tol : T1) for (int k = 0; k < 2; k++) {
            double tol2 = k ? tol : 1e-6;
            std::array<double, 2> g; vec2 w(5, 6); c.trans();
            if (k) { c.at("improve_uv_robust", q); improve_uv_robust(s, vec2((double)u0, (double)v0), v3(r.der(u0, v0, 0)), v3(r.der(u0, v0, 1)), v3(r.eval(u0, v0)), p, w, tol); g = {w.x, w.y}; }
            else { c.at("point_inversion_surface", q); g = point_inversion_surface(s, p, (double)u0, (double)v0, tol, tol2, 100); }
            P3 Y = sub(r.eval(g[0], g[1]), P); d1 = r.der(g[0], g[1], 0); d2 = r.der(g[0], g[1], 1); ld dist = len(Y), c1 = dist > 0 ? fabsl(dt(Y, d1)) / (dist * len(d1)) : 0, c2 = dist > 0 ? fabsl(dt(Y, d2)) / (dist * len(d2)) : 0, away = fabsl(g[0] - u) * len(d1) + fabsl(g[1] - v) * len(d2);
            if (!(dist <= 1.01L * tol) && !(std::max(c1, c2) <= 2 * tol2 + 1e-8L) && !(away <= 3 * tol + 1e-8L)) { c.fail("surface", "%s: from (%.6Lg,%.6Lg) towards the point %.3Lg off the surface at (%.6Lg,%.6Lg), tolerances %g %g: (%.12g,%.12g), where the point is %.6Lg away at cosines %.3Lg, %.3Lg; expected (%.12Lg,%.12Lg)", h.c_str(), u0, v0, off, a, b, tol, tol2, g[0], g[1], dist, c1, c2, u, v); return false; }
            if (!(fabsl(g[0] - u) <= 0.3L * (hi - lo)) || !(fabsl(g[1] - v) <= 0.3L * (hi2 - lo2))) { c.fail("surface far", "%s: from (%.6Lg,%.6Lg) towards (%.6Lg,%.6Lg): (%.12g,%.12g)", h.c_str(), u0, v0, a, b, g[0], g[1]); return false; }
        }
    }
    return true;
}
void mc_explore(mc::Ctx& c) {
    int M = c.thorough ? 6 : 4;
    std::vector<ld> F{0.1L, 0.45L, 0.72L}; if (c.thorough) F = {0.1L, 0.3L, 0.45L, 0.55L, 0.72L, 0.9L};
    for (int p = 1; p <= M; p++) for (int kind = 0; kind < 5; kind++) for (int wk = 0; wk < 4; wk++) {
        if (!c.next("curves of degree %d kind %d weights %d", p, kind, wk)) continue;
        c.guard([&] {
            for (auto& mult : ref::mult_patterns(p, 2)) for (int lay = 0; lay < (c.thorough ? 3 : 2); lay++) {
                ref::Curve r = ref::make_curve(p, ref::clamped(p, mult, lay), kind, wk); NURBSCurve s = mk(r); c.state(hash(s)); uint64_t h0 = hash(s); int used = 0;
                std::string h = mc::fmt("degree %d kind %d weights %d layout %d, %zu points", p, kind, wk, lay, r.P.size());
                auto U = ref::distinct(r.U); for (size_t k = 0; k + 1 < U.size(); k++) for (ld f : F) for (ld off : {0.L, 0.02L, -0.3L}) for (int dir = 0; dir < (off != 0 ? 2 : 1); dir++) if (!curve_case(c, r, s, U[k] + f * (U[k + 1] - U[k]), off, dir, h, used)) return;
                if (hash(s) != h0) { c.fail("input", "%s: the curve was changed", h.c_str()); return; }
                c.tag(used ? "curves with starts" : "curves without starts");
            }
        });
    }
    int S = c.thorough ? 4 : 3;
    for (int p = 1; p <= S; p++) for (int q = 1; q <= S; q++) for (int kind = 0; kind < 5; kind++) for (int wk = 0; wk < 4; wk++) {
        if (!c.next("surfaces of degree %d,%d kind %d weights %d", p, q, kind, wk)) continue;
        c.guard([&] {
            for (int lay = 0; lay < 2; lay++) {
                std::vector<int> mu, mv; if (lay) { mu = {1}; if (q > 1) mv = {1, 1}; }
                ref::Surf r = ref::make_surf(p, q, ref::clamped(p, mu, lay), ref::clamped(q, mv, 0), kind, wk); NURBSSurface s = mk(r); c.state(hash(s)); uint64_t h0 = hash(s); int used = 0;
                std::string h = mc::fmt("degree %d,%d kind %d weights %d layout %d", p, q, kind, wk, lay);
                auto U = ref::distinct(r.U), V = ref::distinct(r.V);
                for (size_t i = 0; i + 1 < U.size(); i++) for (size_t j = 0; j + 1 < V.size(); j++) for (ld f : F) for (ld g : {0.2L, 0.5L, 0.85L}) for (ld off : {0.L, 0.01L, -0.1L}) if (!surf_case(c, r, s, U[i] + f * (U[i + 1] - U[i]), V[j] + g * (V[j + 1] - V[j]), off, h, used)) return;
                if (hash(s) != h0) { c.fail("input", "%s: the surface was changed", h.c_str()); return; }
                c.tag(used ? "surfaces with starts" : "surfaces without starts");
            }
        });
    }
}
