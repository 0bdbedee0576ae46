// Curve derivatives: analytic, finite-difference and derivative-curve forms against the definition.
#include "lib.h"
using namespace br;
typedef ref::ld ld;

static ld mag(const ref::P3& a) { return std::max({fabsl(a[0]), fabsl(a[1]), fabsl(a[2])}); }
// accept the right or the left limit (they differ only at knots where the derivative jumps)
static bool either(const vec3& got, const ref::Curve& r, double t, int k, ld rel, ld abs0) {
    ref::P3 a = r.der(t, k, false);
    if (same(got, a, rel * (1 + mag(a)) + abs0)) return true;
    if (t <= r.lo()) return false;
    ref::P3 b = r.der(t, k, true);
    return same(got, b, rel * (1 + mag(b)) + abs0);
}

static void one(mc::Ctx& c, int p, const std::vector<double>& U, int kind, int wk, const char* fam) {
    ref::Curve r = ref::make_curve(p, U, kind, wk);
    NURBSCurve crv = mk(r);
    c.state(hash(crv));
    ld sc = ref::scale(r);
    auto D = ref::distinct(U);
    double minspan = 1e300;
    for (size_t i = 1; i < D.size(); i++) minspan = std::min(minspan, D[i] - D[i - 1]);
    auto ts = ref::params(U, p, c.thorough ? 3 : 2, false);
    vec3 d(3, 4, 5);
    std::vector<vec3> v(3, vec3(9, 9, 9));
    for (double t : ts) {
        c.at("derivative", t);
        crv.derivative(t, d);
        c.trans();
        ld rel = 1e-8L;
        ld abs1 = 1e-11L * sc / minspan, abs2 = abs1 / minspan;
        if (!either(d, r, t, 1, rel, abs1)) { auto e = r.der(t, 1); c.fail(std::string("derivative|") + fam, "t=%.17g got %s expected %s", t, s3(d).c_str(), s3(e).c_str()); }
        // list form: orders 0..n-1
        for (int n = 1; n <= p + 2; n++) {
            if (n > 4 && n < p + 2) continue;
            c.at("derivative-list", t, n);
            v.assign(n == 2 ? 7 : 0, vec3(1, 2, 3));
            crv.derivative(t, v, n);
            c.trans();
            if ((int)v.size() != n) { c.fail("derivative-list-size", "asked %d orders, got %zu", n, v.size()); continue; }
            for (int k = 0; k < n; k++) {
                ld ab = k == 0 ? 1e-9L * sc : k == 1 ? abs1 : k == 2 ? abs2 : k == 3 ? abs2 / minspan : 1e-13L * sc * powl(2 * p / minspan, k);
                if (!either(v[k], r, t, k, 1e-7L, ab)) { auto e = r.der(t, k); c.fail("derivative-list|order" + std::to_string(k), "t=%.17g n=%d got %s expected %s", t, n, s3(v[k]).c_str(), s3(e).c_str()); }
            }
        }
        v.assign(2, vec3(0, 0, 0));
        crv.derivative(t, v);
        c.trans();
        if (v.size() != 2 || !either(v[1], r, t, 1, rel, abs1)) c.fail("derivative-list-presized", "t=%.17g", t);
    }
    // finite differences: only inside a span, far enough from its ends for the step of 1e-5
    for (size_t i = 0; i + 1 < D.size(); i++) {
        if (D[i] < r.lo() || D[i + 1] > r.hi() || D[i + 1] - D[i] < 0.05) continue;
        for (int k = 1; k <= 2; k++) {
            double t = D[i] + (D[i + 1] - D[i]) * k / 3.0;
            ref::P3 e1 = r.der(t, 1), e2 = r.der(t, 2), e3 = r.der(t, 3);
            vec3 a, b, d0, d1, d2;
            c.at("derivative_fdm", t);
            crv.derivative_fdm(t, a);
            crv.second_derivative_fdm(t, b);
            crv.derivatives(t, d0, d1, d2);
            c.trans(3);
            ld t1 = 1e-9L * sc + 1e-6L * mag(e1) + 1e-9L * mag(e3) + 1e-10L, t2 = 4e-5L * sc + 1e-4L * mag(e2) + 1e-4L * mag(e3) + 1e-6L;
            if (!same(a, e1, t1)) c.fail("derivative_fdm", "t=%.17g got %s expected %s", t, s3(a).c_str(), s3(e1).c_str());
            if (!same(b, e2, t2)) c.fail("second_derivative_fdm", "t=%.17g got %s expected %s", t, s3(b).c_str(), s3(e2).c_str());
            if (!same(d0, r.eval(t), 1e-10L * sc)) c.fail("derivatives|0", "t=%.17g", t);
            if (!same(d1, e1, t1)) c.fail("derivatives|1", "t=%.17g got %s expected %s", t, s3(d1).c_str(), s3(e1).c_str());
            if (!same(d2, e2, t2)) c.fail("derivatives|2", "t=%.17g got %s expected %s", t, s3(d2).c_str(), s3(e2).c_str());
        }
    }
    // the derivative curve, and its derivative curve, down to degree 1 (polynomial curves)
    if (wk == 0) {
        NURBSCurve cur = crv;
        NURBSCurve reused(std::vector<vec4>{vec4(1, 1, 1, 2), vec4(2, 2, 2, 2), vec4(0, 0, 1, 2)}, 2);
        for (int k = 1; k < p && k <= 3; k++) {
            // the k-th derivative curve exists where the curve is C^(k-1): no interior knot of multiplicity > p-k+1
            bool ok = true;
            for (double x : D) if (x > r.lo() && x < r.hi() && (int)std::count(U.begin(), U.end(), x) > p - k + 1) ok = false;
            if (!ok) break;
            c.at("get_derivative", k);
            NURBSCurve nx = cur.get_derivative();
            cur.get_derivative(reused);
            c.trans();
            c.state(hash(nx));
            std::string e = invalid(nx);
            if (!e.empty()) { c.fail("derivative-curve-invalid", "order %d: %s", k, e.c_str()); break; }
            if (nx._degree != p - k) c.fail("derivative-curve-degree", "order %d: degree %d", k, nx._degree);
            e = invalid(reused);
            if (!e.empty() || hash(reused) != hash(nx)) c.fail("derivative-curve-out-parameter", "order %d: result differs from the returned curve %s", k, e.c_str());
            ld ab = 1e-11L * sc; for (int q = 0; q < k; q++) ab /= minspan;
            for (double t : ts) {
                vec3 w; nx.evaluate(t, w); c.trans();
                if (!either(w, r, t, k, 1e-7L, ab)) { auto x = r.der(t, k); c.fail("derivative-curve", "order %d t=%.17g got %s expected %s", k, t, s3(w).c_str(), s3(x).c_str()); }
            }
            cur = nx;
        }
    }
}

void mc_explore(mc::Ctx& c) {
    for (int p = 1; p <= 8; p++) {
        int maxk = p <= 2 ? 3 : p <= 3 ? (c.thorough ? 3 : 2) : p <= 5 ? 2 : (c.thorough ? 2 : 1);
        for (auto& m : ref::mult_patterns(maxk, p))
            for (int lay = 0; lay < ref::kLayouts; lay++) {
                if (!c.next("degree %d interior multiplicities %s layout %d", p, ref::str(m).c_str(), lay)) continue;
                c.guard([&] {
                    auto U = ref::clamped(p, m, lay);
                    for (int kind = 0; kind < ref::kKinds; kind++) for (int wk = 0; wk < ref::kWeights; wk++) one(c, p, U, kind, wk, "clamped");
                });
            }
        for (int extra = 1; extra <= 3; extra++)
            for (int lay = 0; lay < ref::kLayouts; lay++) {
                if (!c.next("degree %d unclamped, %d spans, layout %d", p, extra, lay)) continue;
                c.guard([&] {
                    std::vector<double> U;
                    for (int i = 0; i < 2 * p + 1 + extra; i++) U.push_back(ref::knot_value(lay, i, 2 * p + extra));
                    for (int kind = 0; kind < 3; kind++) for (int wk = 0; wk < ref::kWeights; wk++) one(c, p, U, kind, wk, "unclamped");
                });
            }
    }
    // periodic curves: derivative agrees at the seam
    for (int p = 1; p <= 5; p++)
        for (int n = p + 1; n <= p + 4; n++) {
            if (!c.next("periodic degree %d points %d", p, n)) continue;
            c.guard([&] {
                for (int kind = 0; kind < 3; kind++) for (int wk = 0; wk < ref::kWeights; wk++) {
                    std::vector<vec4> cp;
                    for (int i = 0; i < n; i++) { auto h = ref::hp(kind, wk, i); cp.push_back(vec4((double)h[0], (double)h[1], (double)h[2], (double)h[3])); }
                    NURBSCurve k(cp, p, true);
                    ref::Curve r = back(k);
                    if (!(r.hi() > r.lo())) continue;
                    c.state(hash(k));
                    for (double t : ref::params(r.U, p, 2, false)) {
                        vec3 d; c.at("periodic derivative", t); k.derivative(t, d); c.trans();
                        if (!either(d, r, t, 1, 1e-8L, 1e-10L * ref::scale(r))) c.fail("derivative|periodic", "t=%.17g got %s", t, s3(d).c_str());
                    }
                }
            });
        }
}
