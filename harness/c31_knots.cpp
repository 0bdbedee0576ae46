// Knot vectors: spans, multiplicities, generated knots, accessors, and the removal of knots.
#include "lib.h"
#include <algorithm>
using namespace cmmcore;
using namespace br;
typedef long double ld;
static std::string kv(const std::vector<double>& U) { std::string s = "["; for (double u : U) s += mc::fmt("%.12g ", u); return s + "]"; }
static ld dist(const ref::H& a, const vec4& b) { return sqrtl((a[0] - b.x) * (a[0] - b.x) + (a[1] - b.y) * (a[1] - b.y) + (a[2] - b.z) * (a[2] - b.z) + (a[3] - b.w) * (a[3] - b.w)); }
// reference insertion of a knot once (Boehm), on homogeneous points
static ref::Curve insert(const ref::Curve& c, double u) {
    ref::Curve r = c; int k = c.p; while (k + 1 < (int)c.P.size() && c.U[k + 1] <= u) k++;
    r.U.insert(r.U.begin() + k + 1, u); r.P.assign(c.P.size() + 1, {});
    for (int i = 0; i < (int)r.P.size(); i++) { ld a = i <= k - c.p ? 1 : i > k ? 0 : ((ld)u - c.U[i]) / ((ld)c.U[i + c.p] - c.U[i]); for (int d = 0; d < 4; d++) r.P[i][d] = (a > 0 ? a * c.P[std::min(i, (int)c.P.size() - 1)][d] : 0) + (a < 1 ? (1 - a) * c.P[i - 1][d] : 0); }
    return r;
}
static std::vector<vec4> pts(const ref::Curve& c) { std::vector<vec4> v; for (auto& h : c.P) v.push_back(vec4((double)h[0], (double)h[1], (double)h[2], (double)h[3])); return v; }

void mc_explore(mc::Ctx& c) {
    // spans and multiplicities
    for (int p = 1; p <= (c.thorough ? 7 : 5); p++) for (int lay = 0; lay < 5; lay++) {
        if (!c.next("knots of degree %d layout %d", p, lay)) continue;
        c.guard([&] {
            for (auto& mult : ref::mult_patterns(c.thorough ? 4 : 3, p + 1)) {
                auto U = ref::clamped(p, mult, lay); int n = (int)U.size() - p - 2; auto D = ref::distinct(U); c.state(mc::mix(p * 10 + lay, std::hash<std::string>()(kv(U))));
                std::vector<double> q, uk; std::vector<int> m; c.at("knots", p, lay); c.trans(3); m.assign(3, 7); q.assign(2, 5.); getKnotMultiplicities(U, q, m); std::vector<double> W; for (size_t i = 0; i < q.size() && i < m.size(); i++) for (int k = 0; k < m[i]; k++) W.push_back(q[i]);
                if (q.size() != m.size() || W != U || q != D) { c.fail("multiplicities", "%s: %s", kv(U).c_str(), kv(q).c_str()); return; }
                auto V = U; uniqueKnots(V, uk); if (uk != D || V != U) { c.fail("unique", "%s: %s", kv(U).c_str(), kv(uk).c_str()); return; }
                for (size_t i = 0; i < D.size(); i++) { int k = (int)std::count(U.begin(), U.end(), D[i]); if (find_multiplicity(D[i], U) != k) { c.fail("multiplicity", "%s at %.17g: %d", kv(U).c_str(), D[i], find_multiplicity(D[i], U)); return; } if (i + 1 < D.size()) { double x = D[i] + (D[i + 1] - D[i]) * 0.5; if (find_multiplicity(x, U)) { c.fail("multiplicity", "%s at %.17g: %d", kv(U).c_str(), x, find_multiplicity(x, U)); return; } } }
                for (double u : D) for (double gap : {1e-9, 1e-7, 1e-5, 1e-3}) for (int sg : {-1, 1}) { double x = u + sg * gap * std::max(1., std::fabs(u)); int k = (int)std::count(U.begin(), U.end(), x); c.trans(); if (find_multiplicity(x, U) != k) { c.fail("multiplicity|near", "%s at %.17g, %g from a knot: %d", kv(U).c_str(), x, gap, find_multiplicity(x, U)); return; } }
                for (size_t i = 0; i < D.size(); i++) for (double f : {0., 1e-9, 0.5, 1 - 1e-9}) { if (i + 1 == D.size() && f > 0) continue; double x = i + 1 < D.size() ? D[i] + (D[i + 1] - D[i]) * f : D[i]; int s = find_span(n, p, x, U, false), w = p; while (w < n && U[w + 1] <= x) w++; c.trans();
                    if (s != w) { c.fail("span", "%s degree %d at %.17g: span %d, expected %d", kv(U).c_str(), p, x, s, w); return; } }
            }
        });
    }
    // generated knots and accessors
    for (int p = 1; p <= 7; p++) for (int n = p + 1; n <= p + (c.thorough ? 12 : 8); n++) {
        if (!c.next("generated knots, degree %d, %d points", p, n)) continue;
        c.guard([&] {
            std::vector<vec4> P; for (int i = 0; i < n; i++) P.push_back(vec4(i, i % 3, -i % 2, 1)); std::vector<vec3> P3; for (auto& x : P) P3.push_back(vec3(x.x, x.y, x.z)); std::vector<double> W; for (int i = 0; i < n + p + 1; i++) W.push_back(std::min(std::max(i - p, 0), n - p));
            NURBSCurve a(P, p), b(P3, p), d(P, p, false); c.at("generated", p, n); c.trans(3); c.state(mc::mix(p, n));
            for (auto* k : {&a, &b, &d}) { if (k->get_knots() != W || k->get_degree() != p || k->interval()[0] != 0 || k->interval()[1] != n - p || k->get_control_points().size() != (size_t)n) { c.fail("generated", "degree %d, %d points: %s, domain %g..%g", p, n, kv(k->get_knots()).c_str(), k->interval()[0], k->interval()[1]); return; } for (int i = 0; i < n; i++) if (!(k->get_control_points()[i] == P[i])) { c.fail("points", "degree %d: point %d of %d", p, i, n); return; } std::vector<vec3> o, &o2 = k->get_control_points3d(o), o3 = k->get_control_points3d(); if (&o2 != &o || o.size() != (size_t)n || o3.size() != (size_t)n) { c.fail("points", "degree %d: %zu points of %d", p, o.size(), n); return; } for (int i = 0; i < n; i++) if (!(o[i] == P3[i]) || !(o3[i] == P3[i])) { c.fail("points", "degree %d: point %d of %d", p, i, n); return; } }
            // replaced knots move the domain; more points renew the knots; the box follows the points
            auto U = W; for (auto& u : U) u = u * 0.5 - 3; auto U2 = U; a.set_knots(U2); c.trans(); if (U2 != U) { c.fail("argument", "degree %d, %d points: the given knots changed", p, n); return; } if (a.get_knots() != U || a.interval()[0] != -3 || a.interval()[1] != (n - p) * 0.5 - 3) { c.fail("replaced", "degree %d, %d points: domain %g..%g", p, n, a.interval()[0], a.interval()[1]); return; }
            for (int more = -1; more <= 3; more++) { if (n + more < p + 1) continue; std::vector<vec4> Q; for (int i = 0; i < n + more; i++) Q.push_back(vec4(i * 2, i % 2 ? 5 : -1, 1, 1)); NURBSCurve e(P, p); auto kept = U; e.set_knots(kept); e.set_control_points(Q); c.trans(); auto want = U; if (more) { want.clear(); for (int i = 0; i < n + more + p + 1; i++) want.push_back(std::min(std::max(i - p, 0), n + more - p)); }
                if (e.get_knots() != want || e.interval()[0] != want.front() || e.interval()[1] != want.back() || e.get_control_points().size() != Q.size()) { c.fail("new points", "degree %d, %d points replaced by %zu: knots %s", p, n, Q.size(), kv(e.get_knots()).c_str()); return; } auto bb = e.aabb(); if (bb.min.x > 0 || bb.max.x < (n + more - 1) * 2 || bb.min.y > -1 || bb.max.y < 5) { c.fail("new box", "degree %d, %d points replaced by %zu: box %s %s", p, n, Q.size(), s3(bb.min).c_str(), s3(bb.max).c_str()); return; } }
            // a curve turned into another one step by step
            for (int q = 1; q <= 4; q++) for (int m = q + 1; m <= q + 4; m++) { if (2 * q + 2 > n + p + 1) continue;
                std::vector<vec4> Q; for (int i = 0; i < m; i++) { double w = 1 + i % 3 * 0.5; Q.push_back(vec4(i * 3 * w, (i * i % 5) * w, (2 - i) * w, w)); } std::vector<double> Y; for (int i = 0; i < m + q + 1; i++) Y.push_back(1 + 0.5 * std::min(std::max(i - q, 0), m - q));
                NURBSCurve e(P, p); e.set_degree(q); c.at("set_degree", p, n, q, m); c.trans(); if (e.get_degree() != q || e.interval()[0] != W.front() || e.interval()[1] != W.back()) { c.fail("set degree", "degree %d, %d points, given degree %d: degree %d, domain %g..%g", p, n, q, e.get_degree(), e.interval()[0], e.interval()[1]); return; }
                e.set_control_points(Q); e.set_knots(Y); c.trans(2); NURBSCurve w(Q, q); w.set_knots(Y);
                if (e.get_knots() != Y || e.interval() != w.interval()) { c.fail("set degree", "degree %d, %d points turned into degree %d, %d points: domain %g..%g", p, n, q, m, e.interval()[0], e.interval()[1]); return; }
                for (int t = 0; t <= 8; t++) { double x = 1 + 0.5 * (m - q) * t / 8; vec3 g, h; e.evaluate(x, g); w.evaluate(x, h); c.trans(2); if (!(g == h)) { c.fail("set degree", "degree %d, %d points turned into degree %d, %d points: at %g %s, the fresh curve %s", p, n, q, m, x, s3(g).c_str(), s3(h).c_str()); return; } } }
            // periodic curves of these points: uniform knots
            NURBSCurve g(P, p, true); c.trans(); auto& K = g.get_knots(); bool ok = K.size() == g.get_control_points().size() + p + 1; for (size_t i = 0; ok && i < K.size(); i++) ok = K[i] == (double)i - p; if (!ok || !g.is_periodic()) { c.fail("periodic", "degree %d, %d points: %s", p, n, kv(K).c_str()); return; }
        });
    }
    for (int p = 1; p <= 4; p++) for (int q = 1; q <= 4; q++) {
        if (!c.next("surface accessors, degrees %d %d", p, q)) continue;
        c.guard([&] { for (int nu = p + 1; nu <= p + 4; nu++) for (int nv = q + 1; nv <= q + 4; nv++) { std::vector<std::vector<vec4>> P(nu, std::vector<vec4>(nv)); for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) P[i][j] = vec4(i, j, i * j % 3, 1 + (i + j) % 2); NURBSSurface s(P, {p, q}); const NURBSSurface& t = s; c.at("surface", p, q); c.trans(); c.state(mc::mix(p * 10 + q, nu * 10 + nv)); std::vector<double> U, V; for (int i = 0; i < nu + p + 1; i++) U.push_back(std::min(std::max(i - p, 0), nu - p)); for (int i = 0; i < nv + q + 1; i++) V.push_back(std::min(std::max(i - q, 0), nv - q));
            auto I = t.interval(); if (t.knots_u() != U || t.knots_v() != V || s.knots_u() != U || s.knots_v() != V || t.shape() != std::array<size_t, 2>{(size_t)nu, (size_t)nv} || s.shape() != t.shape() || I[0][0] != 0 || I[0][1] != nu - p || I[1][0] != 0 || I[1][1] != nv - q || s.interval() != I) { c.fail("surface", "degrees %d %d, %dx%d points: knots %s %s", p, q, nu, nv, kv(t.knots_u()).c_str(), kv(t.knots_v()).c_str()); return; }
            auto f = t.control_points3d(); for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) { vec3 w = P[i][j].to_vec3(); if (!(t.control_points()[i][j] == P[i][j]) || !(s.control_points()[i][j] == P[i][j]) || !(f[i][j] == w)) { c.fail("surface points", "degrees %d %d, %dx%d points: point %d %d", p, q, nu, nv, i, j); return; } } } });
    }
    // removal undoes insertion, never changes the curve, and leaves what cannot be removed
    for (int p = 1; p <= (c.thorough ? 6 : 5); p++) for (int kind = 0; kind < 5; kind++) for (int wk = 0; wk < 4; wk++) {
        if (!c.next("removal, degree %d kind %d weights %d", p, kind, wk)) continue;
        c.guard([&] {
            for (auto& mult : ref::mult_patterns(c.thorough ? 3 : 2, p)) for (int lay = 0; lay < 3; lay++) {
                ref::Curve r = ref::make_curve(p, ref::clamped(p, mult, lay), kind, wk); auto D = ref::distinct(r.U); ld sc = 1; for (auto& h : r.P) for (int d = 0; d < 4; d++) sc = std::max(sc, fabsl(h[d])); double tol = (double)(1e-8L * sc); std::vector<double> X = D; for (size_t i = 0; i + 1 < D.size(); i++) X.push_back(D[i] + (D[i + 1] - D[i]) * 0.375);
                for (double u : X) { int s0 = (int)std::count(r.U.begin(), r.U.end(), u); bool end = u == D.front() || u == D.back(); ref::Curve ins = r;
                    for (int m = 0; s0 + m <= p || m == 0; m++) {
                        if (m) { if (end) break; ins = insert(ins, u); }
                        for (int num = 1; num <= m + 2; num++) { std::string h = mc::fmt("degree %d kind %d weights %d knots %s, %g inserted %d times, removed %d times", p, kind, wk, kv(r.U).c_str(), u, m, num); auto P = pts(ins), P0 = P; c.at("knot_removal", p, m, num); c.trans(); c.state(mc::mix(mc::mix(p * 100 + kind * 10 + wk, (uint64_t)(u * 4096)), mc::mix(std::hash<std::string>()(kv(ins.U)), num)));
                            auto R = knot_removal(p, ins.U, P, u, tol, num); int t = (int)P.size() - (int)R.size(); if (t < 0 || t > num || t > s0 + m || (end && t)) { c.fail("count", "%s: %d of %zu points are left", h.c_str(), (int)R.size(), P.size()); return; }
                            if (t < std::min(num, m)) { c.fail("kept", "%s: only %d are removed", h.c_str(), t); return; }
                            ref::Curve g = r; g.U = ins.U; for (int k = 0; k < t; k++) g.U.erase(std::find(g.U.begin(), g.U.end(), u)); g.P.clear(); for (auto& v : R) g.P.push_back({v.x, v.y, v.z, v.w});
                            if (t <= m) { ref::Curve e = r; for (int k = 0; k < m - t; k++) e = insert(e, u); for (size_t i = 0; i < R.size(); i++) if (!(dist(e.P[i], R[i]) <= 1e-6L * sc)) { c.fail("points", "%s: point %zu differs by %.3Lg", h.c_str(), i, dist(e.P[i], R[i])); return; } if (!t) for (size_t i = 0; i < R.size(); i++) if (R[i].x != P0[i].x || R[i].y != P0[i].y || R[i].z != P0[i].z || R[i].w != P0[i].w) { c.fail("unremoved", "%s: nothing is removed, but point %zu changed", h.c_str(), i); return; } }
                            else for (int k = 0; k <= 16; k++) { ld x = r.lo() + ((ld)r.hi() - r.lo()) * k / 16; auto a = r.hom(x, 0, k == 16), b = g.hom(x, 0, k == 16); for (int d = 0; d < 4; d++) if (!(fabsl(a[d] - b[d]) <= 1e-6L * sc)) { c.fail("shape", "%s: the curve moves by %.3Lg at %Lg", h.c_str(), fabsl(a[d] - b[d]), x); return; } c.tag("superfluous knots"); }
                            if (t) c.tag("removed"); else c.tag("kept");
                        }
                    }
                    // a parameter that is no knot
                }
                for (size_t i = 0; i + 1 < D.size(); i++) { double u = D[i] + (D[i + 1] - D[i]) * 0.25; auto P = pts(r); c.trans(); auto R = knot_removal(p, r.U, P, u, tol, 2); bool same = R.size() == P.size(); for (size_t k = 0; same && k < P.size(); k++) same = R[k].x == P[k].x && R[k].y == P[k].y && R[k].z == P[k].z && R[k].w == P[k].w; if (!same) { c.fail("no knot", "degree %d knots %s: %g, which is no knot, was removed", p, kv(r.U).c_str(), u); return; } }
            }
        });
    }
}
