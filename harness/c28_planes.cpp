// Planes and their intersections, closest points on lines, segments, triangles and simplices, distances of segments.
#include "lib.h"
#include "cmmcore/plane.h"
#include "cmmcore/closest_point.h"
#include "cmmcore/numeric_utils.h"
#include "cmmcore/gjk.h"
using namespace cmmcore;
typedef long double ld;
typedef std::array<int, 3> I3i;
struct L3 { ld x, y, z; };
static L3 l(const vec3& a) { return {a.x, a.y, a.z}; }
static L3 operator-(L3 a, L3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static L3 operator+(L3 a, L3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static L3 operator*(L3 a, ld s) { return {a.x * s, a.y * s, a.z * s}; }
static ld dt(L3 a, L3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static L3 cr(L3 a, L3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static ld len(L3 a) { return sqrtl(dt(a, a)); }
static bool ok(const vec3& a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }
static std::string s(const vec3& a) { return mc::fmt("(%.10g,%.10g,%.10g)", a.x, a.y, a.z); }
static L3 segp(L3 p, L3 a, L3 b) { L3 d = b - a; ld q = dt(d, d); if (q == 0) return a; ld t = dt(p - a, d) / q; t = t < 0 ? 0 : t > 1 ? 1 : t; return a + d * t; }
static ld trid(L3 p, L3 a, L3 b, L3 c) {
    ld m = std::min({len(p - segp(p, a, b)), len(p - segp(p, b, c)), len(p - segp(p, c, a))}); L3 n = cr(b - a, c - a); ld q = dt(n, n); if (q == 0) return m;
    if (dt(cr(b - a, p - a), n) >= 0 && dt(cr(c - b, p - b), n) >= 0 && dt(cr(a - c, p - c), n) >= 0) m = std::min(m, fabsl(dt(p - a, n)) / sqrtl(q)); return m;
}
static ld segd(L3 a, L3 b, L3 c, L3 d) {
    ld m = std::min({len(a - segp(a, c, d)), len(b - segp(b, c, d)), len(c - segp(c, a, b)), len(d - segp(d, a, b))}); L3 u = b - a, v = d - c, n = cr(u, v); ld q = dt(n, n); if (q == 0) return m;
    ld t = dt(cr(c - a, v), n) / q, w = dt(cr(c - a, u), n) / q; if (t >= 0 && t <= 1 && w >= 0 && w <= 1) m = std::min(m, fabsl(dt(c - a, n)) / sqrtl(q)); return m;
}
static vec3 grid(int i, int n, int lo) { return {(double)(i % n + lo), (double)(i / n % n + lo), (double)(i / n / n + lo)}; }

void mc_explore(mc::Ctx& c) {
    const double Z[3] = {1, 1. / 4096, 1024};
    // planes: a plane by its equation, by an origin and a normal, by three points
    int N = c.thorough ? 7 : 5;
    for (int i = 0; i < N * N * N; i++) {
        if (!c.next("planes with normal %d", i)) continue;
        c.guard([&] {
            vec3 n = grid(i, N, -N / 2); if (n.x == 0 && n.y == 0 && n.z == 0) return;
            for (int ctor = 0; ctor < 4; ctor++) for (int z = 0; z < 3; z++) for (int o = 0; o < 27; o++) {
                vec3 nn = n * Z[z], org = grid(o, 3, -1) * (ctor == 2 ? Z[z] : 1.); plane p;
                if (ctor == 0) p = plane(nn.x, nn.y, nn.z, -(nn.x * org.x + nn.y * org.y + nn.z * org.z));
                else if (ctor == 1) p = plane(org, nn);
                else if (ctor == 2) { // three points: the normal is that of the triangle
                    vec3 u = std::abs(n.x) + std::abs(n.y) > 0 ? vec3(-n.y, n.x, 0) : vec3(0, -n.z, n.y), v = n.cross(u); if (u.sqLength() == 0) { u = vec3(1, 0, 0); v = n.cross(u); }
                    p = plane(std::tuple<vec3, vec3, vec3>(org, org + u * Z[z], org + v * Z[z])); nn = n; }
                else { if (o) continue; org = vec3(0, 0, 0); p = plane(nn); }
                std::string h = mc::fmt("%s normal %s through %s", ctor == 0 ? "equation," : ctor == 1 ? "origin and normal," : ctor == 2 ? "three points," : "normal only,", s(nn).c_str(), s(org).c_str());
                c.at("plane", ctor, z); c.trans(3); c.state(mc::mix(mc::mix(i, ctor), mc::mix(z, o))); L3 un = l(n) * (1 / len(l(n)));
                if (!(len(l(p.normal) - un) <= 1e-12L)) { c.fail("normal", "%s: unit normal %s", h.c_str(), s(p.normal).c_str()); return; }
                if (!(fabsl(dt(l(p.origin) - l(org), un)) <= 1e-9L * Z[z == 2 ? 2 : 0])) { c.fail("origin", "%s: origin %s", h.c_str(), s(p.origin).c_str()); return; }
                std::vector<vec3> Q; for (int q = 0; q < 27; q++) Q.push_back(grid((q * 5 + o) % 125, 5, -2)); std::vector<double> D; p.signedDistance(Q, D);
                for (size_t q = 0; q < Q.size(); q++) { ld w = dt(l(Q[q]) - l(org), un); if (!(fabsl(p.signedDistance(Q[q]) - w) <= 1e-9L) || D[q] != p.signedDistance(Q[q])) { c.fail("distance", "%s: the distance of %s is %.12g (in a list: %.12g), expected %.12Lg", h.c_str(), s(Q[q]).c_str(), p.signedDistance(Q[q]), D[q], w); return; } }
                if (ctor == 2 && z == 2) continue; // rounding of large coordinates
                // segments and rays
                for (int q = 0; q < 27; q++) for (int r = 0; r < 27; r++) { if (q == r) continue;
                    vec3 A = grid(q, 3, -1), B = grid(r, 3, -1), X(7, 7, 7), Y(7, 7, 7); ld da = dt(l(A) - l(org), l(n)), db = dt(l(B) - l(org), l(n)); c.at("plane segment", ctor, z); c.trans(2);
                    if (ctor == 2 && z && (fabsl(da) < 1e-9L || fabsl(db) < 1e-9L || fabsl(da - db) < 1e-9L)) continue;
                    bool e = (da <= 0 && db >= 0) || (da >= 0 && db <= 0), par = da == db && da != 0; bool g = p.planeLineIntersection(A, B, X), k = p.planeRayIntersection(A, B - A, Y);
                    if (ctor == 2 ? (fabsl(da) > 1e-9L && fabsl(db) > 1e-9L && fabsl(da - db) > 1e-9L && g != e) : g != e) { c.fail("segment", "%s: segment %s %s %s", h.c_str(), s(A).c_str(), s(B).c_str(), g ? "meets the plane" : "does not meet the plane"); return; }
                    if (g && (!(fabsl(dt(l(X) - l(org), un)) <= 1e-9L) || !(len(l(X) - segp(l(X), l(A), l(B))) <= 1e-9L))) { c.fail("segment point", "%s: segment %s %s meets the plane at %s", h.c_str(), s(A).c_str(), s(B).c_str(), s(X).c_str()); return; }
                    if (k == par && !(ctor == 2 && fabsl(da - db) < 1e-9L)) { c.fail("ray", "%s: the line of %s %s %s", h.c_str(), s(A).c_str(), s(B).c_str(), k ? "meets the plane" : "does not meet the plane"); return; }
                    if (k && (!(fabsl(dt(l(Y) - l(org), un)) <= 1e-8L) || !(len(cr(l(Y) - l(A), l(B) - l(A))) <= 1e-8L))) { c.fail("ray point", "%s: the line of %s %s meets the plane at %s", h.c_str(), s(A).c_str(), s(B).c_str(), s(Y).c_str()); return; }
                }
                c.tag("planes");
            }
        });
    }
    // planes that meet at a small angle
    for (int i = 0; i < N * N * N; i++) {
        if (!c.next("planes at small angles, first normal %d", i)) continue;
        c.guard([&] {
            vec3 n = grid(i, N, -N / 2); if (n.x == 0 && n.y == 0 && n.z == 0) return;
            for (int j = 0; j < 27; j++) for (int e = 1; e <= 20; e++) for (int z = 0; z < 3; z++) for (double d2 : {-1., 0., 1.}) {
                vec3 m = n + grid(j, 3, -1) * std::ldexp(1., -e), a = n * Z[z], b = m * Z[(z * 2) % 3], X, Y; L3 k = cr(l(n), l(m)); ld sn = sqrtl(dt(k, k) / dt(l(n), l(n)) / dt(l(m), l(m))); if (sn == 0) continue;
                plane p(a.x, a.y, a.z, 0), q(b.x, b.y, b.z, d2 / 64 * Z[(z * 2) % 3]); c.at("two close planes", i, j, e); c.trans(); c.state(mc::mix(mc::mix(i, j), mc::mix(e * 3 + z, (uint64_t)(d2 + 2))));
                if (!p.planePlaneIntersection(q, X, Y)) { c.fail("close planes", "planes %s 0 and %s %g at an angle of %.2Lg: do not meet", s(a).c_str(), s(b).c_str(), d2 / 64, sn); return; }
                ld t = 1e-13L / sn * (1 + 1 / sn); // the line moves by the rounding over the angle
                for (auto& P : {X, Y}) if (!ok(P) || !(fabsl(dt(l(P), l(n))) <= t) || !(fabsl(dt(l(P), l(m)) + d2 / 64) <= t)) { c.fail("close planes point", "planes %s 0 and %s %g at an angle of %.2Lg: point %s", s(a).c_str(), s(b).c_str(), d2 / 64, sn, s(P).c_str()); return; }
                if (!(len(l(X) - l(Y)) > 0)) { c.fail("close planes line", "planes %s 0 and %s %g: both points are %s", s(a).c_str(), s(b).c_str(), d2 / 64, s(X).c_str()); return; }
            }
        });
    }
    // pairs and triples of planes
    std::vector<vec3> NN; int K = c.thorough ? 5 : 3; for (int i = 0; i < K * K * K; i++) { vec3 n = grid(i, K, -K / 2); if (n.x || n.y || n.z) NN.push_back(n); } if (!c.thorough) for (double a : {2., -3.}) for (int k = 0; k < 3; k++) { vec3 n(1, -1, 0.5); n[k] = a; NN.push_back(n); }
    for (size_t i = 0; i < NN.size(); i++) {
        if (!c.next("pairs of planes, first %zu", i)) continue;
        c.guard([&] {
            for (size_t j = 0; j < NN.size(); j++) for (double d1 : {-1., 0., 2.}) for (double d2 : {-1., 0., 3.}) for (int z = 0; z < 3; z++) {
                vec3 a = NN[i] * Z[z], b = NN[j] * Z[(z * 2) % 3]; plane p(a.x, a.y, a.z, d1 * Z[z]), q(b.x, b.y, b.z, d2 * Z[(z * 2) % 3]); vec3 X, Y; L3 k = cr(l(NN[i]), l(NN[j])); bool e = dt(k, k) != 0; c.at("two planes", i, j); c.trans(); c.state(mc::mix(i * 1000 + j, (uint64_t)((d1 + 2) * 100 + (d2 + 2) * 10 + z)));
                bool g = p.planePlaneIntersection(q, X, Y); if (g != e) { c.fail("two planes", "planes %s %g and %s %g: %s", s(a).c_str(), d1, s(b).c_str(), d2, g ? "meet" : "do not meet"); return; }
                if (g) for (auto& P : {X, Y}) if (!ok(P) || !(fabsl(dt(l(P), l(NN[i])) + d1) <= 1e-9L) || !(fabsl(dt(l(P), l(NN[j])) + d2) <= 1e-9L)) { c.fail("two planes point", "planes %s %g and %s %g: point %s", s(a).c_str(), d1, s(b).c_str(), d2, s(P).c_str()); return; }
                if (g && !(len(l(X) - l(Y)) > 1e-3L)) { c.fail("two planes line", "planes %s %g and %s %g: both points are %s", s(a).c_str(), d1, s(b).c_str(), d2, s(X).c_str()); return; }
                if (d1 != 2) continue;
                for (size_t m = 0; m < NN.size(); m += c.thorough ? 3 : 1) { plane r(NN[m].x, NN[m].y, NN[m].z, 1); bool e3 = dt(k, l(NN[m])) != 0; c.at("three planes", i, j, m); c.trans(); bool g3 = p.planePlanePlaneIntersection(q, r, X);
                    if (g3 != e3) { c.fail("three planes", "planes %s %g, %s %g and %s 1: %s", s(a).c_str(), d1, s(b).c_str(), d2, s(NN[m]).c_str(), g3 ? "one point" : "no point"); return; }
                    if (g3 && (!(fabsl(dt(l(X), l(NN[i])) + d1) <= 1e-9L) || !(fabsl(dt(l(X), l(NN[j])) + d2) <= 1e-9L) || !(fabsl(dt(l(X), l(NN[m])) + 1) <= 1e-9L))) { c.fail("three planes point", "planes %s %g, %s %g and %s 1: %s", s(a).c_str(), d1, s(b).c_str(), d2, s(NN[m]).c_str(), s(X).c_str()); return; }
                }
            }
        });
    }
    // frames
    int G = c.thorough ? 4 : 3, T = G * G * G;
    for (int i = 0; i < T; i++) {
        if (!c.next("frames with first point %d", i)) continue;
        c.guard([&] {
            for (int j = 0; j < T; j++) for (int k = 0; k < T; k++) {
                vec3 A = grid(i, G, -1), B = grid(j, G, -1), C = grid(k, G, -1); L3 n = cr(l(B) - l(A), l(C) - l(A)); if (dt(n, n) == 0) continue;
                cplane p(std::tuple<vec3, vec3, vec3>(A, B, C)); std::string h = "frame " + s(A) + " " + s(B) + " " + s(C); c.at("frame", i, j, k); c.trans(4); c.state(mc::mix(i, mc::mix(j, k)));
                if (!(len(l(p.origin) - l(A)) <= 1e-12L) || !(len(l(p.xaxis) - (l(B) - l(A)) * (1 / len(l(B) - l(A)))) <= 1e-12L)) { c.fail("frame", "%s: origin %s, x axis %s", h.c_str(), s(p.origin).c_str(), s(p.xaxis).c_str()); return; }
                if (!(len(l(p.yaxis) - cr(l(p.normal), l(p.xaxis))) <= 1e-12L) || !(fabsl(len(l(p.yaxis)) - 1) <= 1e-12L) || !(len(l(p.normal) - n * (1 / len(n))) <= 1e-12L)) { c.fail("frame axes", "%s: y axis %s, normal %s", h.c_str(), s(p.yaxis).c_str(), s(p.normal).c_str()); return; }
                std::vector<vec3> Q{A, B, C, vec3(1, -2, 3), vec3(0, 0, 0)}, R; p.evaluateInv(Q, R);
                for (size_t q = 0; q < Q.size(); q++) { vec3 u, x; p.evaluateInv(Q[q], u); p.evaluate(u.x, u.y, x); L3 w = l(x) + l(p.normal) * u.z;
                    if (u.x != R[q].x || u.y != R[q].y || u.z != R[q].z || !(len(w - l(Q[q])) <= 1e-12L) || (q < 3 && !(std::abs(u.z) <= 1e-12)) || !(std::abs(p.signedDistance(Q[q]) - u.z) <= 1e-12)) { c.fail("frame coordinates", "%s: %s has coordinates %s, in a list %s, and distance %.12g", h.c_str(), s(Q[q]).c_str(), s(u).c_str(), s(R[q]).c_str(), p.signedDistance(Q[q])); return; } }
            }
        });
    }
    // points of one plane; the equation through three of them
    for (int i = 0; i < 27; i++) {
        if (!c.next("points of one plane, first %d", i)) continue;
        c.guard([&] {
            I3i a{i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1}; auto at = [](int k) { return I3i{k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1}; };
            auto V = [](const I3i& p, double z) { return vec3(p[0] * z, p[1] * z, p[2] * z); };
            for (int j = 0; j < 27; j++) for (int k = 0; k < 27; k++) {
                I3i b = at(j), d = at(k), u{b[0] - a[0], b[1] - a[1], b[2] - a[2]}, v{d[0] - a[0], d[1] - a[1], d[2] - a[2]};
                long n[3] = {(long)u[1] * v[2] - u[2] * v[1], (long)u[2] * v[0] - u[0] * v[2], (long)u[0] * v[1] - u[1] * v[0]};
                vec4 e(7, 7, 7, 7); c.at("plane_eq_from_pts", i, j, k); plane_eq_from_pts(V(a, 1), V(b, 1), V(d, 1), e); c.trans();
                for (int q = 0; q < 27; q++) {
                    I3i x = at(q); double w = n[0] * (x[0] - a[0]) + n[1] * (x[1] - a[1]) + n[2] * (x[2] - a[2]), g = planeSignedDistance(V(x, 1), e); c.trans();
                    if (g != w) { c.fail("equation", "plane through %s %s %s at %s: %g, expected %g", s(V(a, 1)).c_str(), s(V(b, 1)).c_str(), s(V(d, 1)).c_str(), s(V(x, 1)).c_str(), g, w); return; }
                }
                if (k < j) continue;
                for (int q = 0; q < 27; q++) for (int r = -1; r < (c.thorough ? 27 : 9); r++) {
                    std::vector<I3i> S{a, b, d, at(q)}; if (r >= 0) S.push_back(at(c.thorough ? r : (r * 3 + q + k) % 27));
                    bool flat = true; // every four of them
                    for (size_t m = 0; m < S.size() && flat; m++) for (size_t l = m + 1; l < S.size() && flat; l++) for (size_t o = l + 1; o < S.size() && flat; o++) for (size_t t = o + 1; t < S.size() && flat; t++) {
                        long M[3][3]; for (int x = 0; x < 3; x++) { M[0][x] = S[l][x] - S[m][x]; M[1][x] = S[o][x] - S[m][x]; M[2][x] = S[t][x] - S[m][x]; }
                        flat = M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]) == 0;
                    }
                    std::rotate(S.begin(), S.begin() + (i + j + q) % S.size(), S.end());
                    for (double z : {1.0, 1024.0}) {
                        std::vector<vec3> P; for (auto& x : S) P.push_back(V(x, z)); c.at("isPtsCoplanar", i, j * 27 + k, q, r); c.trans(); bool g = isPtsCoplanar(P, 1e-9 * z);
                        if (z == 1) c.state(mc::mix(mc::mix(i, j), mc::mix(k, mc::mix(q, r + 1))));
                        if (g != flat || isPtsCoplanar({P[0], P[1], P[2]}) != true) { std::string h; for (auto& x : P) h += s(x); c.fail("coplanar", "%s: %s", h.c_str(), g ? "called coplanar" : "called not coplanar"); return; }
                    }
                }
            }
        });
    }
    // closest points
    for (int i = 0; i < T; i++) {
        if (!c.next("closest points, first %d", i)) continue;
        c.guard([&] {
            vec3 A = grid(i, G, -1);
            for (int j = 0; j < T; j++) for (int z = 0; z < 3; z++) for (int q = 0; q < 64; q++) {
                vec3 a = A * Z[z], b = grid(j, G, -1) * Z[z], P = (grid(q, 4, -1) * 0.75 + vec3(0.25, 0, 0.125)) * Z[z]; ld w = len(l(P) - segp(l(P), l(a), l(b))), tol = 1e-9L * Z[z]; c.at("segment", i, j, q); c.trans(3); c.state(mc::mix(i * 100 + j, q * 3 + z));
                vec3 R = closestPointOnSegm(P, a, b), O = closestPointOnSegm(a - P, b - P), R2; closestPointOnSegm(P, a, b, R2);
                if (!(fabsl(len(l(P) - l(R)) - w) <= tol) || !(len(l(R) - segp(l(R), l(a), l(b))) <= tol) || !(len(l(R) - l(R2)) <= tol)) { c.fail("segment", "segment %s %s: closest to %s is %s", s(a).c_str(), s(b).c_str(), s(P).c_str(), s(R).c_str()); return; }
                if (!(len(l(O) + l(P) - l(R)) <= tol)) { c.fail("segment to origin", "segment %s %s: closest to the origin is %s", s(a - P).c_str(), s(b - P).c_str(), s(O).c_str()); return; }
                R = closestPointOnLine(P, a, b); R2 = closestPointOnRay(P, a, b - a); L3 d = l(b) - l(a);
                if (!ok(R) || !(fabsl(dt(l(P) - l(R), d)) <= tol * Z[z]) || !(len(cr(l(R) - l(a), d)) <= tol * Z[z]) || !(len(l(R) - l(R2)) <= tol) || (j == i && !(len(l(R) - l(a)) <= tol))) { c.fail("line", "line %s %s: closest to %s is %s", s(a).c_str(), s(b).c_str(), s(P).c_str(), s(R).c_str()); return; }
            }
            // triangles
            for (int j = 0; j < T; j++) for (int k = 0; k < T; k++) for (int q = 0; q < 64; q++) for (int z = 0; z < (q % 4 ? 1 : 3); z++) {
                vec3 a = A * Z[z], b = grid(j, G, -1) * Z[z], d = grid(k, G, -1) * Z[z], P = (grid(q, 4, -1) * 0.75 + vec3(0.25, q % 3 * 0.25, 0.125)) * Z[z]; ld w = trid(l(P), l(a), l(b), l(d)), tol = 1e-9L * Z[z]; c.at("triangle", i, j, k, q); c.trans();
                vec3 R = closestPointOnTriangle(P, a, b, d);
                if (!ok(R) || !(fabsl(len(l(P) - l(R)) - w) <= tol) || !(trid(l(R), l(a), l(b), l(d)) <= tol)) { L3 n = cr(l(b) - l(a), l(d) - l(a)); c.fail(dt(n, n) == 0 ? "flat triangle" : "triangle", "triangle %s %s %s: closest to %s is %s, distance %.10Lg, expected %.10Lg", s(a).c_str(), s(b).c_str(), s(d).c_str(), s(P).c_str(), s(R).c_str(), len(l(P) - l(R)), w); return; }
            }
            c.tag("closest points");
        });
    }
    // two segments
    for (int i = 0; i < T; i++) {
        if (!c.next("two segments, first %d", i)) continue;
        c.guard([&] {
            vec3 A = grid(i, G, 0);
            for (int j = 0; j < T; j++) for (int k = 0; k < T; k++) for (int m = 0; m < T; m++) for (int z = 0; z < ((k + m) % 5 ? 1 : 3); z++) {
                double off = (j + k) % 3 ? 0 : 0.5; vec3 a = A * Z[z], b = grid(j, G, 0) * Z[z], p = (grid(k, G, 0) + vec3(off, off / 2, -off)) * Z[z], q = (grid(m, G, 0) + vec3(off, off / 2, -off)) * Z[z]; double t = 7, u = 7; vec3 X, Y; c.at("segments", i, j, k, m); c.trans(2);
                double g = segmentsDistance(a, b, p, q, t, u, X, Y); ld w = segd(l(a), l(b), l(p), l(q)), tol = 1e-9L * Z[z];
                std::string h = mc::fmt("segments"); if (!(fabsl(g - w) <= tol) || segmentsDistance(a, b, p, q) != g) { c.fail("segments", "segments %s %s and %s %s: distance %.10g, expected %.10Lg", s(a).c_str(), s(b).c_str(), s(p).c_str(), s(q).c_str(), g, w); return; }
                if (!(t >= 0 && t <= 1 && u >= 0 && u <= 1) || !(len(l(X) - l(a) - (l(b) - l(a)) * t) <= tol) || !(len(l(Y) - l(p) - (l(q) - l(p)) * u) <= tol) || !(fabsl(len(l(X) - l(Y)) - g) <= tol)) { c.fail("segments points", "segments %s %s and %s %s: %s at %g, %s at %g", s(a).c_str(), s(b).c_str(), s(p).c_str(), s(q).c_str(), s(X).c_str(), t, s(Y).c_str(), u); return; }
            }
        });
    }
    // simplices against the origin
    for (int i = 0; i < T; i++) {
        if (!c.next("simplices, first %d", i)) continue;
        c.guard([&] {
            for (int j = 0; j < T; j++) for (int k = 0; k < T; k++) for (int m = 0; m < T; m++) {
                vec3 sh(0.375, -0.25 + (m % 4), 0.125 * (k % 3)); std::vector<vec3> V{grid(i, G, -1) + sh, grid(j, G, -1) + sh, grid(k, G, -1) + sh, grid(m, G, -1) + sh}; int n = 1 + (i + j + k + m) % 4; if (n < 4) { V.resize(n); }
                L3 o{0, 0, 0}; ld w; c.at("simplex", i, j, k, m); c.trans();
                if (n == 1) w = len(l(V[0])); else if (n == 2) w = len(segp(o, l(V[0]), l(V[1]))); else if (n == 3) w = trid(o, l(V[0]), l(V[1]), l(V[2]));
                else { w = std::min({trid(o, l(V[0]), l(V[1]), l(V[2])), trid(o, l(V[0]), l(V[1]), l(V[3])), trid(o, l(V[0]), l(V[2]), l(V[3])), trid(o, l(V[1]), l(V[2]), l(V[3]))}); L3 q = cr(l(V[1]) - l(V[0]), l(V[2]) - l(V[0])); if (dt(q, l(V[3]) - l(V[0])) == 0) continue; }
                vec3 R = closestPoint(V); if (!ok(R) || !(fabsl(len(l(R)) - w) <= 1e-9L)) { c.fail("simplex", "simplex %s ..., %d points: closest to the origin is %s at %.10Lg, expected %.10Lg", s(V[0]).c_str(), n, s(R).c_str(), len(l(R)), w); return; }
            }
        });
    }
    // central projection to the plane z = 0
    for (int i = 0; i < 125; i++) {
        if (!c.next("projection from %d", i)) continue;
        c.guard([&] { vec3 O = grid(i, 5, -2); for (int j = 0; j < 343; j++) { vec3 P = grid(j, 7, -3); vec2 r(9, 9); if (P.z == O.z) { centerProjectionToXY(O, P, r); c.trans(); if (r.x != P.x || r.y != P.y) { c.fail("projection", "the point %s level with the center %s goes to %g %g", s(P).c_str(), s(O).c_str(), r.x, r.y); return; } continue; } c.at("projection", i, j); c.trans(); centerProjectionToXY(O, P, r); L3 R{r.x, r.y, 0};
            if (!(len(cr(R - l(O), l(P) - l(O))) <= 1e-9L)) { c.fail("projection", "%s from %s: (%.10g,%.10g)", s(P).c_str(), s(O).c_str(), r.x, r.y); return; } } });
    }
}
