// The bounded scalar minimiser against every strictly unimodal function (its values chosen by an adversary, all choices explored),
// and the Newton minimiser against functions with known minima.
#include "mc.h"
#include <stdexcept>
#include "cmmcore/minimize_scalar.h"
#include "cmmcore/newthon2.h"
using namespace cmmcore;
typedef long double ld;

struct Adversary {
    std::map<double, double> v;      // points asked for, and the values given
    std::vector<int> path, width; size_t pos = 0;
    bool outside = false; double lo, hi; int calls = 0;
    int choose(int n) { if (n <= 1) return 0; if (pos == path.size()) { path.push_back(0); width.push_back(n); } return path[pos++]; }
    bool next() { path.resize(pos); width.resize(pos); while (!path.empty()) { if (++path.back() < width.back()) return true; path.pop_back(); width.pop_back(); } return false; }
    void restart() { v.clear(); pos = 0; outside = false; calls = 0; }
    double operator()(double x) {
        calls++; if (!(x >= lo && x <= hi)) outside = true;
        auto f = v.find(x); if (f != v.end()) return f->second;
        if (v.empty()) return v[x] = 0;
        auto m = v.begin(); for (auto i = v.begin(); i != v.end(); ++i) if (i->second < m->second) m = i;
        auto r = v.upper_bound(x); double c[4]; int n = 0;
        if (r == v.begin()) {                                   // left of all points
            double a = r->second; c[n++] = a + 0.25; c[n++] = a + 4; if (r == m) { c[n++] = a - 0.25; c[n++] = a - 4; }
        } else if (r == v.end()) {
            auto l = std::prev(r); double a = l->second; c[n++] = a + 0.25; c[n++] = a + 4; if (l == m) { c[n++] = a - 0.25; c[n++] = a - 4; }
        } else {
            auto l = std::prev(r); double a = l->second, b = r->second, low = std::min(a, b), d = std::fabs(a - b);
            c[n++] = low + d * 0.125; c[n++] = low + d * 0.875;
            if (l == m || r == m) { c[n++] = low - 0.25; c[n++] = low - 4; }
        }
        return v[x] = c[choose(n)];
    }
};
static bool unimodal(mc::Ctx& c, double lo, double hi, double xatol, int maxiter, const char* h) {
    Adversary A; A.lo = lo; A.hi = hi; uint64_t runs = 0;
    do {
        A.restart(); OptimizeResult<double> r{};
        c.at("minimize_scalar_bounded", maxiter); 
        minimize_scalar_bounded<double>([&](double x) { return A(x); }, {lo, hi}, r, xatol, maxiter);
        runs++; c.trans(); uint64_t k = mc::mix(mc::mix((uint64_t)(lo * 64 + 4096), (uint64_t)(hi * 64 + 4096)), maxiter); for (auto& q : A.v) k = mc::mix(k, mc::mix((uint64_t)(q.first * 1e9), (uint64_t)(q.second * 4096))); c.state(k);
        std::string p; for (int x : A.path) p += std::to_string(x); p = mc::fmt("%s, answers %s", h, p.c_str());
        if (A.outside) { c.fail("outside", "%s: the function was evaluated outside the bounds", p.c_str()); return false; }
        if (r.nfev != A.calls || r.nit != r.nfev) { c.fail("count", "%s: %d evaluations, and %d were reported", p.c_str(), A.calls, r.nfev); return false; }
        if (A.calls > std::max(maxiter, 1) + (maxiter < 2)) { c.fail("limit", "%s: %d evaluations", p.c_str(), A.calls); return false; }
        auto f = A.v.find(r.x); if (f == A.v.end() || f->second != r.fun) { c.fail("value", "%s: x = %.12g, fun = %g were not evaluated so", p.c_str(), r.x, r.fun); return false; }
        for (auto& q : A.v) if (q.second < r.fun) { c.fail("best", "%s: the result is %g at %.12g, but %g was seen at %.12g", p.c_str(), r.fun, r.x, q.second, q.first); return false; }
        if (r.success != (r.status == 0) || (r.status != 0 && r.status != 1) || (r.status == 1 && A.calls < maxiter)) { c.fail("status", "%s: status %d after %d evaluations", p.c_str(), r.status, A.calls); return false; }
        if (r.success) {
            double tol = 2 * (std::sqrt(2.2e-16) * std::fabs(r.x) + xatol / 3) * (1 + 1e-9), left = f == A.v.begin() ? lo : std::prev(f)->first, right = std::next(f) == A.v.end() ? hi : std::next(f)->first;
            if (r.x - left > tol || right - r.x > tol) { c.fail("bracket", "%s: found %.12g, but the minimum may be anywhere between %.12g and %.12g", p.c_str(), r.x, left, right); return false; }
        }
        c.tag(r.success ? "converged" : "stopped at the limit");
    } while (A.next());
    return true;
}
template <size_t N> struct Fn { std::function<double(const Vector<N>&)> f; std::string name; };
template <size_t N> static bool newton(mc::Ctx& c, const std::function<double(const Vector<N>&)>& f, const Vector<N>& x0, const Vector<N>* min, double tol, const std::string& h) {
    long calls = 0; auto g = [&](const Vector<N>& x) { calls++; return f(x); };
    Vector<N> s = x0; c.at("newtonsMethod", N); c.trans();
    Vector<N> r = newtonsMethod<N>(g, s);
    std::string st = "("; for (auto x : x0) st += mc::fmt("%.6g ", x); st += ") -> ("; for (auto x : r) st += mc::fmt("%.10g ", x); st += ")";
    if (!(f(r) <= f(x0) + 1e-9 * (1 + std::fabs(f(x0))))) { c.fail("ascent", "%s: %s, from %.12g to %.12g", h.c_str(), st.c_str(), f(x0), f(r)); return false; }
    if (min) for (size_t i = 0; i < N; i++) if (!(std::fabs(r[i] - (*min)[i]) <= tol)) { c.fail("minimum", "%s: %s, the minimum has coordinate %zu at %.10g", h.c_str(), st.c_str(), i, (*min)[i]); return false; }
    if (newtonsMethod<N>(g, s, 1e-5, 0) != x0) { c.fail("start", "%s: without iterations the start is not returned", h.c_str()); return false; }
    return true;
}
void mc_explore(mc::Ctx& c) {
    // every unimodal function
    static const double B[][2] = {{0, 1}, {-2, 1}, {0.5, 8}, {-1, -0.75}, {0, 1000}};
    for (auto& b : B) for (double rel : {0.5, 0.2, 0.08, 0.03, 0.01}) for (int mi : {1, 2, 3, 5, 8, 11}) {
        if (!c.thorough && (mi == 11 )) mi = 10;
        if (!c.next("unimodal functions on [%g,%g], tolerance %g, at most %d evaluations", b[0], b[1], rel * (b[1] - b[0]), mi)) continue;
        c.guard([&] { unimodal(c, b[0], b[1], rel * (b[1] - b[0]), mi, mc::fmt("[%g,%g] tolerance %g limit %d", b[0], b[1], rel * (b[1] - b[0]), mi).c_str()); });
    }
    // known shapes to full depth, default tolerance
    for (int b = 0; b < 5; b++) for (int e = 0; e < 5; e++) {
        if (!c.next("shape %d on [%g,%g]", e, B[b][0], B[b][1])) continue;
        c.guard([&] {
            int S = c.thorough ? 4000 : 800; double lo = B[b][0], hi = B[b][1];
            for (int k = -5; k <= S + 5; k++) for (double skew : {1., 7.}) for (double xatol : {1e-5, 1e-8}) {
                double m = lo + (hi - lo) * k / S, w = std::min(std::max(m, lo), hi); OptimizeResult<double> r{}; double best = 1e300; int calls = 0; bool out = false;
                auto f = [&](double x) { calls++; if (x < lo || x > hi) out = true; double d = x < m ? (m - x) * skew : x - m, y; switch (e) { case 0: y = d; break; case 1: y = d * d; break; case 2: y = std::sqrt(d); break; case 3: y = d * d * d * d; break; default: y = d < 0.1 * (hi - lo) ? d * d : d; if (d >= 0.1 * (hi - lo)) y = d + 10 + (hi - lo) * (hi - lo); } best = std::min(best, y); return y; };
                c.at("minimize_scalar_bounded", b, e, k); c.trans(); c.state(mc::mix(mc::mix(b, e), mc::mix(mc::mix(k + 5, (uint64_t)skew), xatol < 1e-6)));
                minimize_scalar_bounded<double>(f, {lo, hi}, r, xatol);
                int n = calls; std::string h = mc::fmt("shape %d with its minimum at %.10g on [%g,%g], tolerance %g", e, w, lo, hi, xatol);
                if (!r.success || r.status != 0) { c.fail("success", "%s: status %d", h.c_str(), r.status); return; }
                if (out || r.nfev != n) { c.fail("count", "%s: evaluated outside, or %d evaluations reported as %d", h.c_str(), n, r.nfev); return; }
                if (r.fun != best || r.fun != f(r.x)) { c.fail("best", "%s: fun = %g at %.10g, %g was seen", h.c_str(), r.fun, r.x, best); return; }
                if (!(std::fabs(r.x - w) <= 1.01 * (xatol + 3 * std::sqrt(2.2e-16) * std::fabs(w)))) { c.fail("minimum", "%s: found %.12g", h.c_str(), r.x); return; }
                if (n > 400) { c.fail("slow", "%s: %d evaluations", h.c_str(), n); return; }
            }
        });
    }
    if (c.next("bounds that are refused, a point, functions without numbers")) c.guard([&] {
        double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN(); static const double V[6] = {0, 1, -1, inf, -inf, nan};
        for (double a : V) for (double b : V) { OptimizeResult<double> r{}; bool t = false; int n = 0; c.trans(); c.state(mc::mix((uint64_t)(a == a ? std::max(-9., std::min(9., a)) + 20 : 99), (uint64_t)(b == b ? std::max(-9., std::min(9., b)) + 20 : 99))); c.at("minimize_scalar_bounded");
            try { minimize_scalar_bounded<double>([&](double x) { n++; return x * x; }, {a, b}, r); } catch (const std::invalid_argument&) { t = true; }
            bool bad = !std::isfinite(a) || !std::isfinite(b) || a > b; if (t != bad || (bad && n)) { c.fail("bounds", "[%g,%g] was %s", a, b, t ? "refused" : "taken"); return; }
            if (!bad && (!r.success || r.x < a || r.x > b || std::fabs(r.x - std::min(std::max(0., a), b)) > 2e-5)) { c.fail("bounds", "[%g,%g]: x = %g", a, b, r.x); return; }
            if (!bad) { OptimizeResult<double> q{}; minimize_scalar_bounded<double>([&](double) { return nan; }, {a, b}, q); if (q.success || q.status != 2) { c.fail("nan", "[%g,%g]: a function without numbers gave status %d", a, b, q.status); return; } }
        }
    });
    // Newton: quadratics with every small positive definite form
    std::vector<double> G{-7, -1, 0, 0.5, 30};
    for (int a = 1; a <= 5; a++) for (int b = 1; b <= 5; b++) {
        if (!c.next("quadratics with diagonal %d %d", a, b)) continue;
        c.guard([&] {
            for (int m = 0; m < 4; m++) { Vector<1> mn{m * 1.5 - 2}; for (double x : G) { c.state(mc::mix(mc::mix(a, b), mc::mix(m, (uint64_t)(x * 2 + 100)))); if (!newton<1>(c, [&](const Vector<1>& p) { return a * (p[0] - mn[0]) * (p[0] - mn[0]) / b - 3; }, {x}, &mn, 2e-4, mc::fmt("%d/%d (x - %g)^2", a, b, mn[0]))) return; } }
            for (int e = -4; e <= 4; e++) if (e * e < a * b) for (int m = 0; m < 3; m++) { Vector<2> mn{m - 1., 2. - m * m}; for (double x : G) for (double y : G) { c.state(mc::mix(mc::mix(mc::mix(a, b), mc::mix(e, m)), mc::mix((uint64_t)(x * 2 + 100), (uint64_t)(y * 2 + 100)))); if (!newton<2>(c, [&](const Vector<2>& p) { double u = p[0] - mn[0], v = p[1] - mn[1]; return a * u * u + 2 * e * u * v + b * v * v; }, {x, y}, &mn, 2e-4, mc::fmt("form %d %d %d", a, e, b))) return; } }
            for (int d = 1; d <= 3; d++) for (int o = 0; o < 27; o++) { int e = o % 3 - 1, f = o / 3 % 3 - 1, g = o / 9 - 1; int det = a * (b * d - g * g) - e * (e * d - g * f) + f * (e * g - b * f); if (a * b - e * e <= 0 || det <= 0) continue;
                Vector<3> mn{0.25, -1, 3}; for (double x : {-7., 0.5, 30.}) for (double y : {-1., 3.}) for (double z : {0., 9.}) { c.state(mc::mix(mc::mix(mc::mix(a, b), mc::mix(d, o)), mc::mix((uint64_t)(x * 2 + 100), (uint64_t)(y * 8 + z)))); if (!newton<3>(c, [&](const Vector<3>& p) { double u = p[0] - mn[0], v = p[1] - mn[1], w = p[2] - mn[2]; return a * u * u + b * v * v + d * w * w + 2 * (e * u * v + f * u * w + g * v * w) + 1; }, {x, y, z}, &mn, 5e-4, mc::fmt("form %d %d %d, %d %d %d", a, b, d, e, f, g))) return; } }
        });
    }
    // several minima, valleys, saddles, flat minima
    int R = c.thorough ? 12 : 6;
    for (int k = 0; k < 6; k++) for (int i = -R; i <= R; i++) {
        if (!c.next("landscape %d, starts in column %d", k, i)) continue;
        c.guard([&] {
            for (int j = -R; j <= R; j++) {
                double s = 3. / R; Vector<2> x0{i * s + 0.01, j * s - 0.02}, m1{1, 1}; c.state(mc::mix(mc::mix(777, k), mc::mix(i + 50, j + 50)));
                auto f = [&](const Vector<2>& p) -> double { double x = p[0], y = p[1]; switch (k) {
                    case 0: return (1 - x) * (1 - x) + 100 * (y - x * x) * (y - x * x);
                    case 1: return (x * x - 1) * (x * x - 1) + (y * y - 1) * (y * y - 1);
                    case 2: return x * x * x * x + y * y;
                    case 3: return std::exp(x) + std::exp(-x) + std::cosh(y - 1);
                    case 4: return x * x - std::cos(3 * y);
                    default: return 1 + (x - y) * (x - y) + 0.1 * x * x; } };
                if (!newton<2>(c, f, x0, k == 0 ? &m1 : nullptr, 1e-3, mc::fmt("landscape %d", k))) return;
                Vector<2> r = newtonsMethod<2>(f, x0); double h = 1e-6, gx = (f({r[0] + h, r[1]}) - f({r[0] - h, r[1]})) / (2 * h), gy = (f({r[0], r[1] + h}) - f({r[0], r[1] - h})) / (2 * h);
                if (!(std::fabs(gx) < 5e-3) || !(std::fabs(gy) < 5e-3)) { c.fail("stationary", "landscape %d from (%g,%g): stopped at (%.10g,%.10g), where the gradient is (%g,%g)", k, x0[0], x0[1], r[0], r[1], gx, gy); return; }
                // derivatives by differences
                auto gr = computeGradient<2>(f, x0); auto H = computeHessian<2>(f, x0); c.trans(2); ld e = 1e-3; auto F = [&](ld a, ld b) { return (ld)f({(double)(x0[0] + a), (double)(x0[1] + b)}); };
                ld D[5] = {(F(e, 0) - F(-e, 0)) / (2 * e), (F(0, e) - F(0, -e)) / (2 * e), (F(e, 0) - 2 * F(0, 0) + F(-e, 0)) / (e * e), (F(0, e) - 2 * F(0, 0) + F(0, -e)) / (e * e), (F(e, e) - F(e, -e) - F(-e, e) + F(-e, -e)) / (4 * e * e)};
                double got[5] = {gr[0], gr[1], H[0][0], H[1][1], H[0][1]}; for (int q = 0; q < 5; q++) if (!(std::fabs(got[q] - D[q]) <= 2e-3 * (1 + fabsl(D[q]) + std::fabs(f(x0)) * 0.1)) || H[1][0] != H[0][1]) { c.fail("differences", "landscape %d at (%g,%g): derivative %d is %.8g, expected %.8Lg", k, x0[0], x0[1], q, got[q], D[q]); return; }
            }
        });
    }
    // functions that are not defined everywhere: the search ends, and at a point where the function is defined if the start was
    for (int k = 0; k < 4; k++) {
        if (!c.next("partly defined function %d", k)) continue;
        c.guard([&] {
            for (int i = -8; i <= 8; i++) for (int j = -8; j <= 8; j++) {
                Vector<2> x0{i * 0.5, j * 0.5}; c.state(mc::mix(mc::mix(888, k), mc::mix(i + 50, j + 50))); long n = 0;
                auto f = [&](const Vector<2>& p) -> double { n++; double x = p[0], y = p[1]; switch (k) { case 0: return x - std::log(x) + y * y; case 1: return x * x + std::sqrt(y); case 2: return x * x + y * y > 4 ? std::numeric_limits<double>::infinity() : x + y; default: return x < 0 ? std::numeric_limits<double>::quiet_NaN() : (x - 1) * (x - 1) + (y - 1) * (y - 1); } };
                c.at("newtonsMethod", k, i, j); c.trans(); Vector<2> r = newtonsMethod<2>(f, x0); double f0 = f(x0);
                if (std::isfinite(f0) && !(f(r) <= f0 + 1e-9)) { c.fail("undefined", "function %d from (%g,%g): ended at (%g,%g) with %g", k, x0[0], x0[1], r[0], r[1], f(r)); return; }
            }
        });
    }
}
