// Adaptive integration, curve lengths and parameters at a length, against exact antiderivatives and composite Gauss quadrature in long double.
#include "lib.h"
using namespace br;
using ref::ld; using ref::P3;
static const ld GX[8] = {0.0950125098376374401853193L, 0.2816035507792589132304605L, 0.4580167776572273863424194L, 0.6178762444026437484466718L, 0.7554044083550030338951012L, 0.8656312023878317438804679L, 0.9445750230732325760779884L, 0.9894009349916499325961542L};
static const ld GW[8] = {0.1894506104550684962853967L, 0.1826034150449235888667637L, 0.1691565193950025381893121L, 0.1495959888165767320815017L, 0.1246289712555338720524763L, 0.0951585116824927848099251L, 0.0622535239386478928628438L, 0.0271524594117540948517806L};
template <class F> static ld gauss(F f, ld a, ld b) { ld m = (a + b) / 2, h = (b - a) / 2, s = 0; for (int i = 0; i < 8; i++) s += GW[i] * (f(m + h * GX[i]) + f(m - h * GX[i])); return s * h; }
static ld speed(const ref::Curve& r, ld t, bool left) { P3 d = r.der(t, 1, left); return sqrtl(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); }
static ld length(const ref::Curve& r, ld a, ld b) {   // a <= b
    ld s = 0; auto U = ref::distinct(r.U); auto f = [&](ld t) { return speed(r, t, false); };
    std::function<ld(ld, ld, ld, int)> rec = [&](ld x, ld y, ld w, int d) -> ld { ld m = (x + y) / 2, p = gauss(f, x, m), q = gauss(f, m, y); return d > 18 || fabsl(p + q - w) < 1e-10L ? p + q : rec(x, m, p, d + 1) + rec(m, y, q, d + 1); };
    for (size_t k = 0; k + 1 < U.size(); k++) { ld x = std::max<ld>(a, U[k]), y = std::min<ld>(b, U[k + 1]); if (!(x < y)) continue; s += rec(x, y, gauss(f, x, y), 0); }
    return s;
}
void mc_explore(mc::Ctx& c) {
    // polynomials: coefficients -1..1 up to degree 5, all bounds from a grid, in both directions
    static const double X[6] = {-2, -0.5, 0, 0.3, 1, 3}; int D = c.thorough ? 2 : 1;
    for (int lo = 0; lo < 27; lo++) {
        if (!c.next("integrals of polynomials, group %d", lo)) continue;
        c.guard([&] {
            for (int hi = 0; hi < 27; hi++) for (int scale = 1; scale <= D; scale++) { double a[6]; int q = lo * 27 + hi; for (auto& x : a) { x = (q % 3 - 1) * (scale == 2 ? 50. : 1.); q /= 3; }
                auto F = [&](ld x) { ld s = 0; for (int k = 5; k >= 0; k--) s = s * x + a[k] / (ld)(k + 1); return s * x; };
                for (double x : X) for (double y : X) for (double tol : {1e-3, 1e-6, 1e-9}) {
                    int calls = 0; double lo_ = 1e9, hi_ = -1e9; auto f = [&](double t) { calls++; lo_ = std::min(lo_, t); hi_ = std::max(hi_, t); double s = 0; for (int k = 5; k >= 0; k--) s = s * t + a[k]; return s; };
                    double r = 77, e = 88; c.at("integrate", lo, hi); c.trans(); c.state(mc::mix(mc::mix(lo * 27 + hi, scale), mc::mix((uint64_t)((x + 5) * 16), (uint64_t)((y + 5) * 16))));
                    integrate(f, x, y, r, e, tol, 20); ld w = F(y) - F(x);
                    if (!(fabsl(r - w) <= tol * 1.5L + 1e-12L * scale * 300)) { c.fail("integral", "%g%+gx%+gx2%+gx3%+gx4%+gx5 from %g to %g, tolerance %g: %.12g, expected %.12Lg", a[0], a[1], a[2], a[3], a[4], a[5], x, y, tol, r, w); return; }
                    if (!(e >= 0) || !(e <= 1.01 * tol)) { c.fail("error", "%g%+gx%+gx2%+gx3%+gx4%+gx5 from %g to %g, tolerance %g: error estimate %g", a[0], a[1], a[2], a[3], a[4], a[5], x, y, tol, e); return; }
                    if (lo_ < std::min(x, y) || hi_ > std::max(x, y)) { c.fail("outside", "evaluated at %g..%g for the range %g..%g", lo_, hi_, x, y); return; }
                    if (x < y && tol == 1e-9) { // the depth limit bounds the work
                        for (int d : {0, 1, 3}) { calls = 0; double r2, e2; integrate(f, x, y, r2, e2, 1e-300, d); c.trans(); if (calls > 3 + 2 * ((2 << d) - 1)) { c.fail("depth", "depth limit %d: %d evaluations", d, calls); return; } if (d == 3 && !(fabsl(r2 - w) <= 0.01L * scale * 50)) { c.fail("integral", "depth limit 3 from %g to %g: %.12g, expected %.12Lg", x, y, r2, w); return; } }
                    }
                }
                // the upper bound for a given integral, where the function is positive or negative
                if (scale == 1 && a[0] == 1 && a[1] >= 0 && a[2] >= 0 && a[3] >= 0 && a[4] >= 0 && a[5] >= 0) for (int sg : {1, -1}) for (double x : {0., 0.5}) for (double y : {0.25, 0.6, 1., 2.}) for (double g : {0.7, 1.1, 2.2}) {
                    auto f = [&](double t) { double s = 0; for (int k = 5; k >= 0; k--) s = s * t + a[k]; return sg * s; };
                    double I = sg * (F(y) - F(x)); c.at("find_t1_newton", lo, hi); c.trans(); double t = find_t1_newton(x, I, f, g);
                    if (!(std::fabs(t - y) <= 1e-6)) { c.fail("upper bound", "%d times %g%+gx%+gx2%+gx3%+gx4%+gx5 from %g, integral %.12g, guess %g: %.12g, expected %g", sg, a[0], a[1], a[2], a[3], a[4], a[5], x, I, g, t, y); return; }
                }
            }
        });
    }
    // curves
    int M = 4; // degrees; beyond, the error estimate can vanish by chance
    for (int p = 1; p <= M; p++) for (int kind = 0; kind < 5; kind++) for (int wk = 0; wk < 4; wk++) {
        if (!c.next("curves of degree %d kind %d weights %d", p, kind, wk)) continue;
        c.guard([&] {
            for (auto& mult : ref::mult_patterns(p, c.thorough ? 3 : 2)) for (int lay = 0; lay < (c.thorough ? 3 : 2); lay++) {
                ref::Curve r = ref::make_curve(p, ref::clamped(p, mult, lay), kind, wk); NURBSCurve s = mk(r); c.state(hash(s)); uint64_t h0 = hash(s);
                std::string h = mc::fmt("degree %d kind %d weights %d layout %d, %zu points", p, kind, wk, lay, r.P.size());
                double a = r.lo(), b = r.hi(); ld L = length(r, a, b), sm = 0; for (int k = 0; k <= 64; k++) sm = std::max(sm, speed(r, a + (ld)(b - a) * k / 64, k == 64));
                ld smin = 1e9L; for (int k = 0; k <= 256; k++) smin = std::min(smin, speed(r, a + (ld)(b - a) * k / 256, k == 256));
                bool stops = smin < 0.05L * sm;
                std::vector<double> T; for (double f : {0., 0.2, 0.5, 0.9, 1.}) T.push_back(a + f * (b - a)); auto U = ref::distinct(r.U); if (U.size() > 2) T.push_back(U[1]);
                c.at("length", p, kind, wk); c.trans(2);
                if (!(fabsl(s.length() - L) <= 64e-3L)) { c.fail("length", "%s: length %.10g, expected %.10Lg", h.c_str(), s.length(), L); return; }
                std::vector<ld> cum; for (double x : T) cum.push_back(length(r, a, x));
                for (size_t i = 0; i < T.size(); i++) for (size_t j = 0; j < T.size(); j++) for (double tol : {1e-3, 1e-6}) {
                    if (!c.thorough && i > j && (i + j) % 3) continue;
                    double x = T[i], y = T[j]; ld w = cum[j] - cum[i]; c.trans(); double g = s.length(x, y, tol);
                    if (!(fabsl(g - w) <= 64 * tol)) { c.fail("length", "%s: length from %g to %g, tolerance %g: %.10g, expected %.10Lg", h.c_str(), x, y, tol, g, w); return; }
                }
                for (size_t i = 0; i < T.size(); i++) { c.trans(); if (!(fabsl(s.length(T[i]) - cum[i]) <= 64e-3L)) { c.fail("length", "%s: length up to %g: %.10g, expected %.10Lg", h.c_str(), T[i], s.length(T[i]), cum[i]); return; } }
                if (stops) { c.tag("curves that nearly stop"); continue; }
                for (double f : {0.05, 0.3, 0.5, 0.77, 0.99}) {
                    double l = f * L; c.at("lengthAt", p, kind, wk); c.trans();
                    double t = s.lengthAt(l, 1e-6);
                    if (!(t >= a - 1e-6 && t <= b + 1e-6) || !(fabsl(length(r, a, t) - l) <= 1e-4L * (1 + sm))) { c.fail("at length", "%s: at length %.10g of %.10Lg the parameter is %.10g, where the length is %.10Lg", h.c_str(), l, L, t, length(r, a, t)); return; }
                    double t0 = a + 0.1 * (b - a); ld rest = length(r, t0, b); l = f * rest; t = s.lengthAt(l, t0, t0 + f * (b - t0), 1e-6); c.trans();
                    if (!(t >= a - 1e-6 && t <= b + 1e-6) || !(fabsl(length(r, a, t) - length(r, a, t0) - l) <= 1e-4L * (1 + sm))) { c.fail("at length", "%s: at length %.10g from %g the parameter is %.10g, where the length is %.10Lg", h.c_str(), l, t0, t, length(r, t0, t)); return; }
                }
                c.tag("curves with lengthAt");
                if (hash(s) != h0) { c.fail("input", "%s: the curve was changed", h.c_str()); return; }
            }
        });
    }
    // polylines: every sequence of steps from 4 lengths
    int N = c.thorough ? 9 : 8;
    for (int n = 1; n <= N; n++) for (int first = 0; first < 3; first++) {
        if (!c.next("polylines of %d segments, first length %d", n, first)) continue;
        c.guard([&] {
            static const double LEN[3] = {1, 0.5, 6};
            int all = 1; for (int i = 1; i < n; i++) all *= 3;
            for (int k = 0; k < all; k++) {
                std::vector<vec4> pts{vec4(0, 0, 0, 1)}; double L = 0, y = 0, x = 0; int q = k * 3 + first; std::vector<double> cum{0};
                for (int i = 0; i < n; i++) { double l = LEN[q % 3]; q /= 3; (i % 2 ? y : x) += l; L += l; cum.push_back(L); pts.emplace_back(x, y, 0, 1); }
                NURBSCurve s(pts, 1); c.state(mc::mix(mc::mix(55, n), k * 3 + first)); c.at("polyline", n, k); c.trans(2); double a = s._interval[0], b = s._interval[1];
                if (!(std::fabs(s.length() - L) <= 2e-3)) { c.fail("polyline", "%d segments, number %d: length %.10g, expected %g", n, k * 3 + first, s.length(), L); return; }
                for (double f : {0.1, 0.45, 0.8}) { double l = f * L, t = s.lengthAt(l, 1e-6); c.trans(); double w = 0; for (int i = 0; i < n; i++) if (cum[i] <= l && l <= cum[i + 1]) w = a + (b - a) * (i + (l - cum[i]) / (cum[i + 1] - cum[i])) / n;
                    if (!(std::fabs(t - w) <= 2e-5)) { c.fail("polyline at length", "%d segments, number %d: at length %g of %g the parameter is %.10g, expected %.10g", n, k * 3 + first, l, L, t, w); return; } }
            }
        });
    }
}
