// Vector types: algebra, access, unit vectors, collinearity, equality and hashing, spherical coordinates, columns.
#include "lib.h"
#include <sstream>
#include <unordered_map>
#include "cmmcore/utils.h"
#include "cmmcore/cm_hash.h"
using namespace cmmcore;
typedef long double ld;
template <class V> struct Dim; template <> struct Dim<vec2> { enum { n = 2 }; }; template <> struct Dim<vec3> { enum { n = 3 }; }; template <> struct Dim<vec4> { enum { n = 4 }; };
static vec2 mk2(const double* a) { return vec2(a[0], a[1]); }
static vec3 mk3(const double* a) { return vec3(a[0], a[1], a[2]); }
static vec4 mk4(const double* a) { return vec4(a[0], a[1], a[2], a[3]); }
template <class V> static V mkv(const double* a) { if constexpr (Dim<V>::n == 2) return mk2(a); else if constexpr (Dim<V>::n == 3) return mk3(a); else return mk4(a); }
template <class V> static std::string str(const V& v) { std::string s = "("; for (int d = 0; d < Dim<V>::n; d++) s += mc::fmt(d ? ",%.9g" : "%.9g", v[d]); return s + ")"; }
template <class V> static bool eq(const V& v, const ld* w, ld tol = 0) { for (int d = 0; d < Dim<V>::n; d++) if (!(fabsl(v[d] - w[d]) <= tol * (1 + fabsl(w[d])))) return false; return true; }
static double val(int k) { static const double v[] = {0, 1, -1, 2, 0.5, -3}; return v[k]; }

template <class V> static bool pairs(mc::Ctx& c, const double* a, const double* b) {
    const int n = Dim<V>::n; const V x = mkv<V>(a), y = mkv<V>(b); ld w[4], q = 0, dt = 0, sx = 0, sy = 0; V z; std::string h = str(x) + " and " + str(y); c.at("algebra", n); c.trans(10);
#define BAD(key, ...) do { c.fail(key, __VA_ARGS__); return false; } while (0)
    for (int d = 0; d < n; d++) { if (x[d] != a[d]) BAD("access", "component %d of %s", d, str(x).c_str()); dt += (ld)a[d] * b[d]; q += ((ld)a[d] - b[d]) * ((ld)a[d] - b[d]); sx += (ld)a[d] * a[d]; sy += (ld)b[d] * b[d]; }
    if ((int)x.size() != n) BAD("size", "size of %s is %zu", str(x).c_str(), x.size());
    for (size_t d : {(size_t)n, (size_t)n + 1, (size_t)-1}) { bool t = false; try { (void)x[d]; } catch (const std::exception&) { t = true; } bool u = false; V m = x; try { m[d] = 1; } catch (const std::exception&) { u = true; } if (!t || !u) BAD("access", "component %zu of %s was not refused", d, str(x).c_str()); }
    for (int d = 0; d < n; d++) w[d] = (ld)a[d] - b[d]; if (!eq(x - y, w)) BAD("difference", "%s: %s", h.c_str(), str(x - y).c_str()); z = x; z -= y; if (!eq(z, w)) BAD("difference", "%s: %s (-=)", h.c_str(), str(z).c_str());
    for (int d = 0; d < n; d++) w[d] = (ld)a[d] + b[d]; z = x; z += y; if (!eq(z, w)) BAD("sum", "%s: %s (+=)", h.c_str(), str(z).c_str()); if constexpr (n > 2) { if (!eq(x + y, w)) BAD("sum", "%s: %s", h.c_str(), str(x + y).c_str()); V r; x.add(y, r); if (!eq(r, w)) BAD("sum", "%s: %s (add)", h.c_str(), str(r).c_str()); r = x; r.add(y, r); if (!eq(r, w)) BAD("sum", "%s: %s (add in place)", h.c_str(), str(r).c_str()); x.sub(y, r); for (int d = 0; d < n; d++) w[d] = (ld)a[d] - b[d]; if (!eq(r, w)) BAD("difference", "%s: %s (sub)", h.c_str(), str(r).c_str()); r = y; x.sub(r, r); if (!eq(r, w)) BAD("difference", "%s: %s (sub in place)", h.c_str(), str(r).c_str()); }
    for (int d = 0; d < n; d++) w[d] = (ld)a[d] * b[d]; if (!eq(x * y, w)) BAD("product", "%s: %s", h.c_str(), str(x * y).c_str());
    for (int d = 0; d < n; d++) w[d] = -(ld)a[d]; if (!eq(-x, w)) BAD("negation", "%s: %s", str(x).c_str(), str(-x).c_str());
    double s = b[0]; for (int d = 0; d < n; d++) w[d] = (ld)a[d] * s; if (!eq(x * s, w)) BAD("scaling", "%s by %g: %s", str(x).c_str(), s, str(x * s).c_str()); if constexpr (n < 4) { z = x; z *= s; if (!eq(z, w)) BAD("scaling", "%s by %g: %s (*=)", str(x).c_str(), s, str(z).c_str()); }
    if (s != 0) { for (int d = 0; d < n; d++) w[d] = (ld)a[d] / s; if constexpr (n < 4) { z = x; z /= s; if (!eq(z, w, 1e-15L)) BAD("division", "%s by %g: %s (/=)", str(x).c_str(), s, str(z).c_str()); } if constexpr (n > 2) if (!eq(x / s, w, 1e-15L)) BAD("division", "%s by %g: %s", str(x).c_str(), s, str(x / s).c_str()); }
    if (x.dot(y) != (double)dt || x.sqLength() != (double)sx || !(fabsl(x.length() - sqrtl(sx)) <= 1e-15L * (1 + sx)) || !(fabsl(x.distance(y) - sqrtl(q)) <= 1e-15L * (1 + q)) || x.distanceSq(y) != (double)q) BAD("lengths", "%s: product %.12g, lengths %.12g %.12g, distances %.12g %.12g", h.c_str(), x.dot(y), x.sqLength(), x.length(), x.distance(y), x.distanceSq(y));
    bool same = true; for (int d = 0; d < n; d++) same &= a[d] == b[d]; if ((x == y) != same) BAD("equality", "%s: %s", h.c_str(), x == y ? "equal" : "different"); z.set(x); if (!(z == x)) BAD("assignment", "%s: %s", str(x).c_str(), str(z).c_str());
    if (sy != 0) { V p = x.project(y); ld f = dt / sy; for (int d = 0; d < n; d++) w[d] = b[d] * f; if (!eq(p, w, 1e-14L)) BAD("projection", "%s: %s", h.c_str(), str(p).c_str()); }
    if constexpr (n < 4) if (sx != 0) { V u = x.unit(); z = x; z.unitize(); for (int d = 0; d < n; d++) w[d] = a[d] / sqrtl(sx); if (!eq(u, w, 1e-15L) || !eq(z, w, 1e-15L)) BAD("unit vector", "%s: %s, %s", str(x).c_str(), str(u).c_str(), str(z).c_str());
        if (sy != 0) { ld k = sx * sy - dt * dt; if (x.collinear(y) != (k == 0)) BAD("collinear", "%s: %s", h.c_str(), x.collinear(y) ? "collinear" : "not collinear"); if ((CMMCORE_VEC_PARALLEL(x, y)) != (k == 0 && dt > 0)) BAD("parallel", "%s", h.c_str()); } }
    if constexpr (n == 3) { ld k[3] = {(ld)a[1] * b[2] - (ld)a[2] * b[1], (ld)a[2] * b[0] - (ld)a[0] * b[2], (ld)a[0] * b[1] - (ld)a[1] * b[0]}; vec3 r; x.cross(y, r); if (!eq(x.cross(y), k) || !eq(r, k)) BAD("cross product", "%s: %s, %s", h.c_str(), str(x.cross(y)).c_str(), str(r).c_str()); if (x.dot(b[0], b[1], b[2]) != (double)dt || dot(x, y) != (double)dt || dist2(x, y) != (double)q || mag2(x) != (double)sx || !(fabsl(dist(x, y) - sqrtl(q)) <= 1e-15L * (1 + q))) BAD("lengths", "%s: free functions", h.c_str()); }
    { std::array<double, n> arr; for (int d = 0; d < n; d++) arr[d] = a[d]; V f(arr), g = mkv<V>(b), v1(a[0]); g.set(arr); c.trans(4); // every way of making one
      for (int d = 0; d < n; d++) if (f[d] != a[d] || g[d] != a[d] || v1[d] != a[0] || arr[d] != a[d]) BAD("construction", "from an array or a value: %s %s %s", str(f).c_str(), str(g).c_str(), str(v1).c_str());
      if constexpr (n > 2) { V zero; for (int d = 0; d < n; d++) if (zero[d] != 0) BAD("construction", "the default vector is %s", str(zero).c_str()); }
      if constexpr (n == 2) { V ft(x, y), h1 = y, h2 = y; h1.set(a[0]); h2.set(a[0], a[1]); if (ft[0] != b[0] - a[0] || ft[1] != b[1] - a[1] || h1[0] != a[0] || h1[1] != a[0] || !(h2 == x)) BAD("construction", "%s: %s %s %s", h.c_str(), str(ft).c_str(), str(h1).c_str(), str(h2).c_str()); }
      if constexpr (n == 3) { V k = y; k.set(a[0], a[1], a[2]); if (!(k == x)) BAD("construction", "%s: %s", str(x).c_str(), str(k).c_str()); }
      if constexpr (n == 4) { V k = y; k.set(a[0], a[1], a[2], a[3]); V cp(k); if (!(k == x) || !(cp == x)) BAD("construction", "%s: %s %s", str(x).c_str(), str(k).c_str(), str(cp).c_str());
        if (a[3] != 0) { // the product of the points; of points with weight 1 in either form
            ld e[3] = {(ld)a[0] / a[3], (ld)a[1] / a[3], (ld)a[2] / a[3]}, k3[3] = {e[1] * b[2] - e[2] * b[1], e[2] * b[0] - e[0] * b[2], e[0] * b[1] - e[1] * b[0]}; vec3 y3(b[0], b[1], b[2]), r; x.cross(y3, r); if (!eq(r, k3, 1e-14L) || !eq(x.cross(y3), k3, 1e-14L)) BAD("cross product", "%s: %s", h.c_str(), str(r).c_str());
            if (b[3] != 0) { ld q3[4] = {e[1] * b[2] / b[3] - e[2] * b[1] / b[3], e[2] * b[0] / b[3] - e[0] * b[2] / b[3], e[0] * b[1] / b[3] - e[1] * b[0] / b[3], 1}; vec4 r4(7); x.cross(y, r4); if (!eq(r4, q3, 1e-14L) || (a[3] == 1 && b[3] == 1 && !eq(x.cross(y), q3, 1e-14L))) BAD("cross product", "%s: %s", h.c_str(), str(r4).c_str()); }
            V u = x.unit(), m = x; m.unitize(); for (int d = 0; d < 4; d++) if (u[d] != m[d]) BAD("unit vector", "%s: %s, in place %s", str(x).c_str(), str(u).c_str(), str(m).c_str()); } }
    }
    if constexpr (n == 3) {
        vec3 r(7, 7, 7); vectorProjection(x, y, r); ld f = sy != 0 ? dt / sy : 0; for (int d = 0; d < 3; d++) w[d] = b[d] * f; if (!eq(r, w, 1e-14L) || !eq(vectorProjection(x, y), w, 1e-14L)) BAD("projection", "%s: %s (vectorProjection)", h.c_str(), str(r).c_str());
        double m0 = 7, m1 = 7, m2 = 7; assign(x, m0, m1, m2); if (m0 != a[0] || m1 != a[1] || m2 != a[2] || mag2(x) != (double)sx || dot(x, y) != (double)dt || dist2(x, y) != (double)q || !(fabsl(dist(x, y) - sqrtl(q)) <= 1e-15L * (1 + q))) BAD("functions", "%s: %g %g, %g %g", h.c_str(), mag2(x), dot(x, y), dist2(x, y), dist(x, y));
        for (int d = 0; d < 3; d++) w[d] = (ld)b[0] * a[d]; if (!eq(b[0] * x, w)) BAD("scaling", "%s by %g from the left", str(x).c_str(), b[0]);
        for (size_t k = 0; k <= 7; k++) { // products with a list of every length
            double X[7], Y[7], Z[7], R[9]; for (int i = 0; i < 7; i++) { X[i] = b[i % 3] + i; Y[i] = b[(i + 1) % 3] - i; Z[i] = b[(i * 2) % 3] * (i + 1); } for (auto& t : R) t = 77;
            Vectors3 l{k, X, Y, Z}; dot_product(x, l, R + 1); if (R[0] != 77 || R[k + 1] != 77) BAD("products", "%zu products with %s: written past the list", k, str(x).c_str());
            for (size_t i = 0; i < k; i++) if (R[i + 1] != a[0] * X[i] + a[1] * Y[i] + a[2] * Z[i]) BAD("products", "product %zu of %zu with %s: %g", i, k, str(x).c_str(), R[i + 1]);
        }
    }
    { std::ostringstream os; os << x; std::string t = "["; for (int d = 0; d < n; d++) { std::ostringstream o; o << a[d]; t += (d ? "," : "") + o.str(); } if (os.str() != t + "]") BAD("text", "%s is written %s", str(x).c_str(), os.str().c_str()); }
    if constexpr (n == 2) { if (cross(x, y) != (double)((ld)a[0] * b[1] - (ld)a[1] * b[0]) || dot(x, y) != (double)dt || (sy != 0 && !(fabsl(x.projection(y) - dt / sy) <= 1e-14L))) BAD("cross product", "%s", h.c_str()); }
    if constexpr (n == 4) if (a[3] != 0) { ld e[3] = {(ld)a[0] / a[3], (ld)a[1] / a[3], (ld)a[2] / a[3]}; vec3 r; x.to_vec3(r); if (!eq(x.to_vec3(), e, 2e-16L) || !eq(r, e, 2e-16L)) BAD("point", "%s: %s", str(x).c_str(), str(r).c_str()); vec4 k; k.set(r); if (k.w != 1 || k.x != r.x || k.y != r.y || k.z != r.z) BAD("point", "%s from a point", str(k).c_str()); }
    return true;
}
template <class V> static void all(mc::Ctx& c, int base, int first) {
    const int n = Dim<V>::n; int tot = 1; for (int d = 1; d < n; d++) tot *= base; double a[4], b[4];
    for (int i = 0; i < tot; i++) { int k = i; a[0] = val(first); for (int d = 1; d < n; d++) { a[d] = val(k % base); k /= base; } for (int j = 0; j < tot * base; j++) { k = j; for (int d = 0; d < n; d++) { b[d] = val(k % base); k /= base; } c.state(mc::mix(mc::mix(n, first), mc::mix(i, j))); if (!pairs<V>(c, a, b)) return; } }
}
void mc_explore(mc::Ctx& c) {
    for (int f = 0; f < 6; f++) { if (c.next("vectors of 2 components, first %g", val(f))) c.guard([&] { all<vec2>(c, 6, f); }); if (c.next("vectors of 3 components, first %g", val(f))) c.guard([&] { all<vec3>(c, c.thorough ? 6 : 5, f); }); if (c.next("vectors of 4 components, first %g", val(f))) c.guard([&] { all<vec4>(c, c.thorough ? 6 : 4, f); }); }
    // directions that are not exact in binary: multiples of one vector are collinear, its neighbours are not
    int M = c.thorough ? 9 : 7;
    for (int i = 0; i < M; i++) { if (!c.next("directions %d", i)) continue; c.guard([&] { for (int j = 0; j < M; j++) for (int k = 0; k < M; k++) { vec3 v(i - M / 2, j - M / 2, k - M / 2); if (v.sqLength() == 0) continue; for (double m : {1. / 3, -7., 1e-4, -1e5, 0.1}) { c.at("collinear", i, j, k); c.trans(3); vec3 w = v * m;
        if (!v.collinear(w) || !w.collinear(v)) { c.fail("collinear", "%s and its multiple %s are not collinear", str(v).c_str(), str(w).c_str()); return; } if ((CMMCORE_VEC_PARALLEL(v, w)) != (m > 0)) { c.fail("parallel", "%s and %s", str(v).c_str(), str(w).c_str()); return; }
        for (int d = 0; d < 3; d++) { vec3 z = w; z[d] += 1e-5 * w.length(); ld k2 = v.cross(z).sqLength() / (v.sqLength() * z.sqLength()); if (k2 > 1e-12 && v.collinear(z)) { c.fail("collinear", "%s and %s are collinear", str(v).c_str(), str(z).c_str()); return; } }
        if (v.z == 0) { vec2 p(v.x, v.y), q(w.x, w.y); if (!p.collinear(q)) { c.fail("collinear", "%s and its multiple %s are not collinear", str(p).c_str(), str(q).c_str()); return; } }
        vec3 u = w.unit(); if (!(std::abs(u.length() - 1) <= 1e-15)) { c.fail("unit vector", "%s has length %.17g", str(u).c_str(), u.length()); return; } c.state(mc::mix(mc::mix(i, j), mc::mix(k, (uint64_t)(m * 1e6)))); } } }); }
    // zero vectors
    if (c.next("zero vectors")) c.guard([&] { bool t = false, u = false, w = false; c.trans(4); vec2 z(0, 0), y(1, 2); try { z.unit(); } catch (const std::invalid_argument&) { t = true; } try { z.unitize(); } catch (const std::invalid_argument&) { u = true; } try { y /= 0; } catch (const std::invalid_argument&) { w = true; } vec3 v(0, 0, 0); v.unitize(); if (!t || !u || !w || v.x != 0 || v.y != 0 || v.z != 0) c.fail("zero", "the direction of a zero vector"); });
    // equality and hashing of points: an equivalence, equal points have equal hashes, one entry per class, far points differ
    const double H[] = {0., -0., 0.01, -0.01, 0.0666, 0.0667, 0.2, 1. / 15, -1. / 15, 0.9999, 1., 1.0001, 5.5, -5.5, 1e6};
    const int HN = 15;
    for (int i = 0; i < HN; i++) { if (!c.next("hashing, first %g", H[i])) continue; c.guard([&] {
        Vec3Hash h3; Vec3Equal e3; Vec2Hash h2; Vec2Equal e2; std::vector<vec3> A; std::vector<vec2> B; int K = c.thorough ? HN : 8; for (int j = 0; j < K; j++) { B.push_back(vec2(H[i], H[(j * 2) % HN])); for (int k = 0; k < K; k++) A.push_back(vec3(H[i], H[(j * 2) % HN], H[(k * 2 + 1) % HN])); } for (int j = 0; j < HN; j++) { A.push_back(vec3(H[j], H[2], H[3])); B.push_back(vec2(H[j], H[2])); }
        for (auto& x : A) for (auto& y : A) { c.trans(); c.at("hash"); bool e = e3(x, y); if (e != e3(y, x) || !e3(x, x) || (e && h3(x) != h3(y))) { c.fail("hash", "%s and %s: equal %d/%d, hashes %zu %zu", str(x).c_str(), str(y).c_str(), e, e3(y, x), h3(x), h3(y)); return; } if (!e && x == y) { c.fail("hash", "%s and %s are one point, but not equal", str(x).c_str(), str(y).c_str()); return; } if (e && x.distance(y) > 0.25) { c.fail("hash", "%s and %s are equal", str(x).c_str(), str(y).c_str()); return; } if (e) for (auto& z : A) if (e3(y, z) != e3(x, z)) { c.fail("hash", "equality of %s, %s, %s is not transitive", str(x).c_str(), str(y).c_str(), str(z).c_str()); return; } }
        for (auto& x : B) for (auto& y : B) { c.trans(); bool e = e2(x, y); if (e != e2(y, x) || !e2(x, x) || (e && h2(x) != h2(y)) || (!e && x == y) || (e && x.distance(y) > 0.25)) { c.fail("hash", "%s and %s: equal %d/%d, hashes %zu %zu", str(x).c_str(), str(y).c_str(), e, e2(y, x), h2(x), h2(y)); return; } PairDoubleHash_t hp; PairDoubleEqual_t ep; std::pair<double, double> p(x.x, x.y), q(y.x, y.y); if (ep(p, q) != (p == q) || (p == q && hp(p) != hp(q))) { c.fail("pair hash", "%s and %s", str(x).c_str(), str(y).c_str()); return; } }
        Vec3UnorderedMap m; int n = 0; std::vector<vec3> rep; for (auto& x : A) { bool known = false; for (auto& r : rep) known |= e3(r, x); if (!known) rep.push_back(x); m[x] = n++; } c.state(m.size()); if (m.size() != rep.size()) { c.fail("map", "%zu entries for %zu classes of points", m.size(), rep.size()); return; } for (auto& x : A) { auto it = m.find(x); int last = -1; for (size_t k = 0; k < A.size(); k++) if (e3(A[k], x)) last = (int)k; if (it == m.end() || it->second != last) { c.fail("map", "the entry of %s", str(x).c_str()); return; } } }); }
    // spherical coordinates
    for (int i = 0; i < 9; i++) { if (!c.next("spherical coordinates %d", i)) continue; c.guard([&] { std::vector<vec3> Q; for (int j = 0; j < 9; j++) for (int k = 0; k < 9; k++) for (double m : {1., 1e-3, 700.}) { vec3 v((i - 4) * m, (j - 4) * m, (k - 4) * m); if (v.sqLength() == 0) continue; Q.push_back(v); vec3 s, w, n; vec2 t; c.at("spherical", i, j, k); c.trans(3); cartesian_to_spherical(v, s); spherical_to_cartesian(s, w); cartesian_to_spherical(v, t); spherical_to_cartesian(t, n); c.state(mc::mix(i * 81 + j * 9 + k, (uint64_t)(m * 1000)));
        if (!(w.distance(v) <= 1e-14 * v.length()) || !(std::abs(s.x - v.length()) <= 1e-14 * v.length()) || !(s.y >= 0 && s.y <= M_PI) || !(std::abs(s.z) <= M_PI)) { c.fail("spherical", "%s: %s, back %s", str(v).c_str(), str(s).c_str(), str(w).c_str()); return; } if (!(n.distance(v.unit()) <= 1e-14)) { c.fail("spherical", "%s: angles %s, back %s", str(v).c_str(), str(t).c_str(), str(n).c_str()); return; } }
        std::vector<vec2> R(3); cartesian_to_spherical(Q, R); if (R.size() != Q.size()) { c.fail("spherical list", "%zu angles for %zu points", R.size(), Q.size()); return; } for (size_t k = 0; k < Q.size(); k++) { vec2 t; cartesian_to_spherical(Q[k], t); if (t.x != R[k].x || t.y != R[k].y) { c.fail("spherical list", "%s: %s in a list, %s alone", str(Q[k]).c_str(), str(R[k]).c_str(), str(t).c_str()); return; } } }); }
    // columns of rows, also of unequal length
    int R = c.thorough ? 5 : 4;
    for (int rows = 1; rows <= R + 1; rows++) { if (!c.next("columns of %d rows", rows)) continue; c.guard([&] { int tot = 1; for (int i = 0; i < rows; i++) tot *= R; for (int q = 0; q < tot; q++) { std::vector<std::vector<double>> m; int k = q; size_t mn = 99; for (int i = 0; i < rows; i++) { m.push_back({}); int w = k % R + 1; k /= R; mn = std::min(mn, (size_t)w); for (int j = 0; j < w; j++) m.back().push_back(i * 100 + j); }
        for (size_t col = 0; col < (size_t)R + 2; col++) { std::vector<double> o{5, 5, 5, 5, 5, 5, 5, 5, 5}; bool t = false; c.at("column", rows, q, col); c.trans(); c.state(mc::mix(rows, mc::mix(q, col))); try { vectorColumn(m, col, o); } catch (const std::out_of_range&) { t = true; } if (t != (col >= mn)) { c.fail("column", "column %zu of %d rows, the shortest of %zu: %s", col, rows, mn, t ? "refused" : "not refused"); return; } if (!t) { bool ok = o.size() == (size_t)rows; for (int i = 0; ok && i < rows; i++) ok = o[i] == m[i][col]; if (!ok) { c.fail("column", "column %zu of %d rows", col, rows); return; } } } } }); }
    // the spacing of numbers
    for (int e = -320; e <= 300; e += c.thorough ? 1 : 5) { if (!c.next("spacing at 1e%d", e)) continue; c.guard([&] { for (double m : {1., -1., 3.7, -9.99}) { double x = m * std::pow(10., e), s = calc_epsilon(x); c.trans(); if (!(s >= 0) || !(s <= std::abs(x) * 2.3e-16 + 1e-300) || (x != 0 && std::abs(x) > 1e-300 && !(s > 0)) || calc_epsilon(-x) != s) { c.fail("spacing", "%g: %g", x, s); return; } } }); }
}
