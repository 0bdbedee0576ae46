// Power form, Bezier form, partial derivatives and normals of polynomial patches, and the Gauss map built from them.
#include "lib.h"
#include "cmmcore/gauss_map.h"
using namespace br;
using ref::ld; using ref::P3;
using T3 = std::vector<std::vector<P3>>;     // power coefficients
static ld C(int n, int k) { ld r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }
static T3 power(const ref::Surf& s) {
    int n = s.P.size(), m = s.P[0].size(); T3 r(n, std::vector<P3>(m, P3{0, 0, 0}));
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int a = i; a < n; a++) for (int b = j; b < m; b++) {
        ld f = C(n - 1, a) * C(a, i) * ((a - i) % 2 ? -1 : 1) * C(m - 1, b) * C(b, j) * ((b - j) % 2 ? -1 : 1);
        for (int d = 0; d < 3; d++) r[a][b][d] += f * s.P[i][j][d] / s.P[i][j][3];
    }
    return r;
}
static T3 du(const T3& a) { T3 r; for (size_t i = 1; i < a.size(); i++) { r.push_back(a[i]); for (auto& p : r.back()) for (auto& x : p) x *= i; } return r; }
static T3 dv(const T3& a) { T3 r(a.size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 1; j < a[i].size(); j++) { r[i].push_back(a[i][j]); for (auto& x : r[i].back()) x *= j; } return r; }
static P3 ev(const T3& a, ld s, ld t) { P3 r{0, 0, 0}; for (size_t i = a.size(); i-- > 0;) { P3 q{0, 0, 0}; for (size_t j = a[i].size(); j-- > 0;) for (int d = 0; d < 3; d++) q[d] = q[d] * t + a[i][j][d]; for (int d = 0; d < 3; d++) r[d] = r[d] * s + q[d]; } return r; }
static P3 crs(const P3& a, const P3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static T3 normal(const T3& a) {
    T3 u = du(a), v = dv(a); T3 r(u.size() + v.size() - 1, std::vector<P3>(u[0].size() + v[0].size() - 1, P3{0, 0, 0}));
    for (size_t i = 0; i < u.size(); i++) for (size_t j = 0; j < u[0].size(); j++) for (size_t k = 0; k < v.size(); k++) for (size_t l = 0; l < v[0].size(); l++) { P3 x = crs(u[i][j], v[k][l]); for (int d = 0; d < 3; d++) r[i + k][j + l][d] += x[d]; }
    return r;
}
static ld mag(const T3& a) { ld s = 1; for (auto& r : a) for (auto& p : r) for (auto x : p) s = std::max(s, fabsl(x)); return s; }
static const ld G[5] = {0, 0.125L, 0.5L, 0.8125L, 1};
static bool near(mc::Ctx& c, const char* key, const std::string& h, ld s, ld t, const P3& got, const P3& want, ld tol) {
    for (int d = 0; d < 3; d++) if (!(fabsl(got[d] - want[d]) <= tol)) { c.fail(key, "%s: at (%.4Lg,%.4Lg) the value is %s, expected %s", h.c_str(), s, t, s3(got).c_str(), s3(want).c_str()); return false; }
    return true;
}
static bool mono(mc::Ctx& c, const Monomial2D& m, const T3& want, const std::string& h, ld slack = 0) {
    if ((size_t)m.n != m.coefficients.size() || m.coefficients.empty() || (size_t)m.m != m.coefficients[0].size()) { c.fail("shape", "%s: n, m = %d, %d do not fit the coefficients", h.c_str(), m.n, m.m); return false; }
    for (auto& r : m.coefficients) if (r.size() != m.coefficients[0].size()) { c.fail("shape", "%s: rows of different lengths", h.c_str()); return false; }
    T3 got(m.coefficients.size()); for (size_t i = 0; i < got.size(); i++) for (auto& p : m.coefficients[i]) got[i].push_back({p.x, p.y, p.z});
    ld tol = 1e-11L * mag(want) * got.size() + slack;
    for (ld s : G) for (ld t : G) if (!near(c, "power form", h, s, t, ev(got, s, t), ev(want, s, t), tol)) return false;
    return true;
}
static bool bez(mc::Ctx& c, const NURBSSurface& s, const T3& want, const std::string& h, ld slack = 0) {
    std::string e = invalid(s); if (!e.empty()) { c.fail("invalid", "%s: %s", h.c_str(), e.c_str()); return false; }
    ref::Surf r = back(s); ld tol = 1e-10L * mag(want) * r.P.size() + slack;
    if (r.ulo() != 0 || r.uhi() != 1 || r.vlo() != 0 || r.vhi() != 1) { c.fail("domain", "%s: the Bezier form is not over the unit square", h.c_str()); return false; }
    for (ld a : G) for (ld b : G) {
        if (!near(c, "Bezier form", h, a, b, r.eval(a, b), ev(want, a, b), tol)) return false;
        if (s._degree[0] > 8 || s._degree[1] > 8) continue;   // the documented limit of point evaluation (CMMCORE_MAX_DEGREE)
        vec3 v; s.evaluate((double)a, (double)b, v);
        if (!near(c, "Bezier form evaluated", h, a, b, {v.x, v.y, v.z}, ev(want, a, b), tol)) return false;
    }
    return true;
}
void mc_explore(mc::Ctx& c) {
    int M = c.thorough ? 6 : 5;
    // the tables behind all of it: binomial coefficients, and the change of basis in exact integers
    if (c.next("binomial coefficients and basis matrices")) c.guard([&] {
        long long B[31][31] = {}; for (int n = 0; n <= 30; n++) for (int k = 0; k <= n; k++) B[n][k] = k == 0 || k == n ? 1 : B[n - 1][k - 1] + B[n - 1][k];
        for (int n = 0; n <= 30; n++) for (int k = 0; k <= 30; k++) { c.at("binomial_coefficient", n, k); c.trans(); c.state(mc::mix(n, k)); if (binomial_coefficient(n, k) != B[n][k]) { c.fail("binomial", "%d over %d: %d, expected %lld", n, k, binomial_coefficient(n, k), B[n][k]); return; } }
        for (int n = 0; n <= 20; n++) { c.at("bpmat", n); MatrixD m = bpmat(n); c.trans(); if ((int)m.rows != n + 1 || (int)m.cols != n + 1) { c.fail("basis", "degree %d: %zu x %zu", n, (size_t)m.rows, (size_t)m.cols); return; }
            for (int j = 0; j <= n; j++) for (int k = 0; k <= n; k++) { double w = k <= j ? ((j - k) % 2 ? -1. : 1.) * (double)B[n][j] * (double)B[j][k] : 0.; if (!(std::fabs(m(j, k) - w) <= 1e-15 * std::fabs(w))) { c.fail("basis", "degree %d, entry %d %d: %.17g, expected %.17g", n, j, k, m(j, k), w); return; } } }
    });
    auto patch = [](int p, int q, int kind, bool weight) {
        std::vector<double> U(p + 1, kind == 1 ? -1.5 : 0), V(q + 1, kind == 2 ? 0.25 : 0); U.insert(U.end(), p + 1, kind == 1 ? 2 : 1); V.insert(V.end(), q + 1, kind == 2 ? 4 : 1);
        ref::Surf r = ref::make_surf(p, q, U, V, kind, 0);
        if (weight) for (auto& row : r.P) for (auto& h : row) for (auto& x : h) x *= 2;
        return r;
    };
    for (int p = 1; p <= M; p++) for (int q = 1; q <= M; q++) for (int kind = 0; kind < 5; kind++) {
        if (!c.next("patch of degree %d,%d kind %d", p, q, kind)) continue;
        c.guard([&] {
            for (int w = 0; w < 2; w++) {
                ref::Surf r = patch(p, q, kind, w); auto s = mk(r); T3 want = power(r);
                std::string h = mc::fmt("degree %d,%d kind %d weight %d", p, q, kind, w + 1);
                c.state(hash(s)); uint64_t h0 = hash(s);
                c.at("Monomial2D", p, q, kind);
                Monomial2D m(s); c.trans(); if (!mono(c, m, want, h)) return;
                NURBSSurface b; m.to_bezier(b); c.trans(); if (!bez(c, b, want, h + ", back to Bezier form")) return;
                // all mixed partial derivatives
                for (int i = 0; i <= p; i++) { T3 wi = want; Monomial2D mi(m); for (int k = 0; k < i; k++) { Monomial2D t; mi.computePartialDerivative(SurfaceParameter::U, t); mi = t; wi = du(wi); }
                    for (int j = 0; j <= q; j++) {
                        ld slack = 1e-13L * mag(want); for (int k = 0; k < i; k++) slack *= p - k; for (int k = 0; k < j; k++) slack *= q - k;   // rounding of the coefficients, differentiated
                        if (!mono(c, mi, wi, h + mc::fmt(", derivative %d,%d", i, j), slack)) return;
                        c.trans(2); NURBSSurface d; if (i < p && j < q) mi.to_bezier(d);
                        if (i < p && j < q && !bez(c, d, wi, h + mc::fmt(", derivative %d,%d in Bezier form", i, j), slack * 10)) return;
                        if (j < q) { Monomial2D t; mi.computePartialDerivative(SurfaceParameter::V, t); mi = t; wi = dv(wi); }
                    } }
                T3 wn = normal(want);
                Monomial2D n; m.computeNormal(n); c.trans(); if (!mono(c, n, wn, h + ", normal")) return;
                auto g = gaussMap(s); c.trans(); if (!bez(c, g, wn, h + ", Gauss map")) return;
                GaussMap gm; gm.build(s); GaussMap g2(s); c.trans(2);
                for (auto* x : {&gm, &g2}) {
                    if (!bez(c, x->surf, wn, h + ", GaussMap")) return;
                    if (x->pts.size() != x->surf._size[0] * x->surf._size[1] || x->pts_inv.size() != x->pts.size()) { c.fail("points", "%s: the Gauss map has %zu points and %zu opposite ones", h.c_str(), x->pts.size(), x->pts_inv.size()); return; }
                    for (size_t k = 0; k < x->pts.size(); k++) { auto& v = x->surf._control_points[k / x->surf._size[1]][k % x->surf._size[1]]; auto a = x->pts[k], i = x->pts_inv[k]; if (a.x != v.x || a.y != v.y || a.z != v.z || i.x != -a.x || i.y != -a.y || i.z != -a.z) { c.fail("points", "%s: the points of the Gauss map are not its control points and their opposites", h.c_str()); return; } }
                }
                // quarters, and the quarters of a quarter (whose domain no longer starts at 0)
                auto quarters = [&](GaussMap& from, ld width, GaussMap* q4) -> bool {
                    from.subdivide(q4[0], q4[1], q4[2], q4[3]); c.trans();
                    ref::Surf fr = back(from.surf); ld fu = fr.ulo(), fv = fr.vlo();
                    double umin[4], vmin[4];
                    for (int k = 0; k < 4; k++) {
                        auto& x = q4[k]; ref::Surf rr = back(x.surf); umin[k] = rr.ulo(); vmin[k] = rr.vlo(); ld tol = 1e-10L * mag(wn) * rr.P.size();
                        if (fabsl(rr.uhi() - rr.ulo() - width) > 1e-12L || fabsl(rr.vhi() - rr.vlo() - width) > 1e-12L) { c.fail("quarter", "%s: quarter %d of the Gauss map has the wrong domain", h.c_str(), k); return false; }
                        if (rr.ulo() < fu - 1e-12L || rr.vlo() < fv - 1e-12L || rr.uhi() > fu + 2 * width + 1e-12L || rr.vhi() > fv + 2 * width + 1e-12L) { c.fail("quarter", "%s: quarter %d of the Gauss map leaves the domain", h.c_str(), k); return false; }
                        for (ld a : G) for (ld e : G) { ld u = rr.ulo() + a * width, v = rr.vlo() + e * width; if (!near(c, "quarter", h, u, v, rr.eval(u, v, a == 1, e == 1), ev(wn, u, v), tol)) return false; }
                        if (x.pts.size() != x.surf._size[0] * x.surf._size[1] || x.pts_inv.size() != x.pts.size()) { c.fail("quarter", "%s: quarter %d of the Gauss map has %zu points", h.c_str(), k, x.pts.size()); return false; }
                        for (size_t z = 0; z < x.pts.size(); z++) { auto& v = x.surf._control_points[z / x.surf._size[1]][z % x.surf._size[1]]; if (x.pts[z].x != v.x || x.pts[z].y != v.y || x.pts[z].z != v.z || x.pts_inv[z].x != -v.x || x.pts_inv[z].y != -v.y || x.pts_inv[z].z != -v.z) { c.fail("quarter", "%s: point %zu of quarter %d is not its surface's", h.c_str(), z, k); return false; } }
                        for (int l = 0; l < k; l++) if (umin[l] == umin[k] && vmin[l] == vmin[k]) { c.fail("quarter", "%s: quarters %d and %d are the same", h.c_str(), l, k); return false; }
                    }
                    return true;
                };
                GaussMap q4[4]; if (!quarters(gm, 0.5L, q4)) return;
                for (int k = 0; k < 4; k++) { GaussMap q16[4]; if (!quarters(q4[k], 0.25L, q16)) return; }
                if (hash(s) != h0) { c.fail("input", "%s: the surface was changed", h.c_str()); return; }
            }
        });
    }
    // histories: results are written into objects that held something else
    static const int D[][4] = {{2, 3, 1, 1}, {1, 1, 3, 2}, {2, 2, 2, 1}, {3, 1, 1, 3}, {1, 2, 2, 2}};
    const int OPS = 11; int L = c.thorough ? 4 : 3;
    for (auto& d : D) for (int first = 0; first < OPS; first++) {
        if (!c.next("histories over patches %d,%d and %d,%d from operation %d", d[0], d[1], d[2], d[3], first)) continue;
        c.guard([&] {
            ref::Surf ra = patch(d[0], d[1], 2, false), rb = patch(d[2], d[3], 3, false);
            auto sa = mk(ra), sb = mk(rb); T3 wa = power(ra), wb = power(rb);
            struct St { Monomial2D A, B, R; NURBSSurface S; T3 wa, wb, wr, ws; };
            std::function<void(const St&, int, std::string)> rec = [&](const St& st, int depth, std::string path) {
                for (int o = 0; o < OPS; o++) {
                    if (depth == 0 && o != first) continue;
                    St n = st;
                    static const char* N[OPS] = {"R=normal(A)", "R=normal(B)", "R=du(A)", "R=dv(B)", "R=A", "R=B", "S=bezier(R)", "S=bezier(A)", "S=bezier(B)", "A=R", "R.set"};
                    if ((o == 6 || o == 9) && (n.wr.empty() || n.wr.size() < 2 || n.wr[0].size() < 2)) continue;
                    std::string h = path + " " + N[o]; c.at(N[o], depth);
                    switch (o) {
                        case 0: n.A.computeNormal(n.R); n.wr = normal(n.wa); break;
                        case 1: n.B.computeNormal(n.R); n.wr = normal(n.wb); break;
                        case 2: n.A.computePartialDerivative(SurfaceParameter::U, n.R); n.wr = du(n.wa); break;
                        case 3: n.B.computePartialDerivative(SurfaceParameter::V, n.R); n.wr = dv(n.wb); break;
                        case 4: n.R = n.A; n.wr = n.wa; break;
                        case 5: n.R = n.B; n.wr = n.wb; break;
                        case 6: n.R.to_bezier(n.S); n.ws = n.wr; break;
                        case 7: n.A.to_bezier(n.S); n.ws = n.wa; break;
                        case 8: n.B.to_bezier(n.S); n.ws = n.wb; break;
                        case 9: n.A = n.R; n.wa = n.wr; break;
                        case 10: { Tensor2D<vec3> t = n.B.coefficients; n.R.set(t); n.wr = n.wb; if (!(t == n.B.coefficients)) c.fail("argument", "set() changes the coefficients it is given"); break; }
                    }
                    c.trans(); uint64_t k = mc::mix(depth, o); for (char ch : path) k = mc::mix(k, ch); c.state(k);
                    if (!mono(c, n.A, n.wa, h + ": A") || !mono(c, n.B, n.wb, h + ": B")) return;
                    if (!n.wr.empty() && !mono(c, n.R, n.wr, h + ": R")) return;
                    if (!n.ws.empty() && !bez(c, n.S, n.ws, h + ": S")) return;
                    if (depth + 1 < L) rec(n, depth + 1, h);
                    if (c.cur_failed) return;
                }
            };
            St s0{Monomial2D(sa), Monomial2D(sb), {}, {}, wa, wb, {}, {}};
            s0.S = mk(patch(3, 3, 1, true));
            rec(s0, 0, mc::fmt("%d,%d %d,%d:", d[0], d[1], d[2], d[3]));
        });
    }
}
