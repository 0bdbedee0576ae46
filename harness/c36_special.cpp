// Special numbers: every operation of the library, with every number of its input in turn (and, deeper, every pair) replaced by a
// not-a-number, an infinity, or a number near the ends of the range. It ends, reads and writes only its own memory,
// and refuses, if it does, with a standard exception.
#include <algorithm>
#include <unordered_map>
#include <list>
#include "lib.h"
#include "cmmcore/ssx.h"
#include "cmmcore/csx.h"
#include "cmmcore/ccx.h"
#include "cmmcore/bvh.hpp"
#include "cmmcore/kdtree.h"
#include "cmmcore/polyline.h"
#include "cmmcore/convexhull.h"
#include "cmmcore/separability.h"
#include "cmmcore/gauss_map.h"
#include "cmmcore/monomial.h"
#include "cmmcore/integrate.h"
#include "cmmcore/minimize_scalar.h"
#include "cmmcore/newthon2.h"
#include "cmmcore/plane.h"
#include "cmmcore/closest_point.h"
#include "cmmcore/numeric_utils.h"
#include "cmmcore/serialization.h"
#ifdef GJK_H_PART
#endif
using namespace cmmcore;
typedef std::vector<double> D;
struct Op { const char* name; D base; void (*run)(const D&); bool search; };
static double sink;
static void use(const vec3& v) { sink += v.x; }
static vec3 v3(const D& d, size_t i) { return vec3(d[i], d[i + 1], d[i + 2]); }
static std::vector<vec3> pts(const D& d, size_t at, size_t n) { std::vector<vec3> r; for (size_t i = 0; i < n; i++) r.push_back(v3(d, at + 3 * i)); return r; }
static NURBSCurve curve(const D& d, size_t at, size_t n, int p) { std::vector<vec4> r; for (size_t i = 0; i < n; i++) r.push_back(vec4(d[at + 4 * i], d[at + 4 * i + 1], d[at + 4 * i + 2], d[at + 4 * i + 3])); return NURBSCurve(r, p, false); }
static NURBSSurface surf(const D& d, size_t at, int n, int m, int p, int q) { std::vector<std::vector<vec4>> r(n, std::vector<vec4>(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { size_t k = at + 4 * (i * m + j); r[i][j] = vec4(d[k], d[k + 1], d[k + 2], d[k + 3]); } return NURBSSurface(r, {p, q}); }
static const D C1 = {0, 0, 0, 1, 1, 2, 0, 1, 2, -1, 0.5, 1, 3, 1, 0, 1}, C2 = {0, 1, 0, 1, 1, -1, 0, 1, 2, 2, 0, 1, 3, -1, 0.5, 1};
static const D S1 = {0, 0, 0, 1, 0, 1, 0.3, 1, 0, 2, 0, 1, 1, 0, 0.2, 1, 1, 1, 1, 1, 1, 2, 0.1, 1, 2, 0, 0, 1, 2, 1, 0.2, 1, 2, 2, 0, 1};
static const D S2 = {0, 1, -1, 1, 0, 1.2, 2, 1, 2, 1, -1, 1, 2, 0.8, 2, 1};
static D cat(D a, const D& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

static std::vector<Op> ops() {
    std::vector<Op> r;
    auto add = [&](const char* n, D b, void (*f)(const D&)) { std::string m = n; r.push_back({n, b, f, m.find("intersection") != std::string::npos || m == "start points"}); };
    add("curve at a parameter", cat({0.4}, C1), [](const D& d) {
        auto k = curve(d, 1, 4, 2); double t = d[0]; vec3 a; k.evaluate(t, a); use(a); k.derivative(t, a); use(a); std::vector<vec3> v(4); k.derivative(t, v, 3); use(v[2]); vec3 e, f; k.derivatives(t, a, e, f); use(f);
        k.derivative_fdm(t, a); use(a); sink += k.length(0.1, t, 1e-6); sink += k.length(); auto q = k.get_derivative(); q.evaluate(t, a); use(a); use(k.aabb().min); });
    add("length to parameter", cat({0.4}, C1), [](const D& d) { auto k = curve(d, 1, 4, 2); sink += k.lengthAt(d[0]); });
    add("curve changed", cat({0.4}, C1), [](const D& d) {
        auto k = curve(d, 1, 4, 2), k2 = k; vec3 a; try { auto p = k.split(d[0]); p.first.evaluate(0.1, a); p.second.evaluate(0.9, a); use(a); } catch (const std::exception&) {}
        try { k2.insert_knot(d[0], 1); k2.evaluate(0.3, a); use(a); } catch (const std::exception&) {}
        std::vector<NURBSCurve> b; k.decompose(b); for (auto& x : b) { x.evaluate(0.2, a); use(a); } k.normalize_knots(); NURBSCurve o, other = curve(d, 1, 4, 2); k.join(other, o); int id = 1; std::ostringstream s; k.toSTEP(s, id); });
    add("curve with knots", cat({0, 0, 0, 0.5, 1, 1, 1, 0.4}, C1), [](const D& d) { // knots stay sorted or the curve is not one
        D U(d.begin(), d.begin() + 7); if (!(U.front() < U.back()) || !std::is_sorted(U.begin(), U.end()) || std::any_of(U.begin(), U.end(), [](double x) { return x != x; })) return;
        auto k = curve(d, 8, 4, 2); k.set_knots(U); vec3 a; k.evaluate(d[7], a); k.derivative(d[7], a); use(a); try { auto p = k.split(d[7]); p.second.evaluate(d[7], a); } catch (const std::exception&) {}
        std::vector<NURBSCurve> b; k.decompose(b); try { k.insert_knot(d[7], 1); } catch (const std::exception&) {} k.normalize_knots(); });
    add("surface at parameters", cat({0.4, 0.3}, S1), [](const D& d) {
        auto s = surf(d, 2, 3, 3, 2, 2); vec3 a; double u = d[0], v = d[1]; s.evaluate(u, v, a); use(a); s.derivative_u(u, v, a); use(a); s.derivative_v(u, v, a); use(a); s.normal(u, v, a); use(a);
        use(s.bbox().min); auto q = s.get_derivative(0); q.evaluate(u, v, a); use(a); auto g = gaussMap(s); g.evaluate(u, v, a); use(a); });
    add("surface changed", cat({0.4, 0.3}, S1), [](const D& d) {
        auto s = surf(d, 2, 3, 3, 2, 2); vec3 a; auto f = [&](auto&& g) { try { g(); } catch (const std::exception&) {} };
        f([&] { auto p = s.split_surface_u(d[0]); p.second.evaluate(0.5, 0.5, a); }); f([&] { auto p = s.split_surface_v(d[1]); p.second.evaluate(0.5, 0.5, a); });
        f([&] { auto p = s.subdivide(d[0], d[1]); p[3].evaluate(0.5, 0.5, a); }); f([&] { auto t = s; t.insert_knot_u(d[0], 1); t.insert_knot_v(d[1], 2); t.evaluate(0.5, 0.5, a); });
        f([&] { auto k = extract_isocurve(s, d[0], SurfaceParameter::U); k.evaluate(d[1], a); use(a); }); f([&] { auto k = extract_isocurve(s, d[1], SurfaceParameter::V); k.evaluate(d[0], a); use(a); });
        std::vector<NURBSSurface> b; s.decompose(b); std::array<NURBSCurve, 4> e; extract_surface_boundaries(s, e); int id = 1; std::ostringstream o; s.toSTEP(o, id); });
    add("curve/curve intersection", cat({1e-3}, cat(C1, C2)), [](const D& d) { auto a = curve(d, 1, 4, 2), b = curve(d, 17, 4, 2); std::vector<std::pair<double, double>> r; ccx(a, b, d[0], r); sink += r.size(); });
    add("curve/surface intersection", cat({1e-3}, cat(C1, S1)), [](const D& d) { auto a = curve(d, 1, 4, 2); auto s = surf(d, 17, 3, 3, 2, 2); CSXIntersections r; csx(a, s, r, d[0]); sink += r.size(); });
    add("boundary intersection", cat({1e-3}, cat(S1, S2)), [](const D& d) { auto a = surf(d, 1, 3, 3, 2, 2), b = surf(d, 37, 2, 2, 1, 1); std::vector<IntersectionPoint> r; find_boundary_intersections(a, b, r, d[0]); std::vector<std::vector<IntersectionPoint>> g; sort_boundary_intersections(r, g); sink += g.size(); });
    add("start points", cat({1e-2}, cat(S1, S2)), [](const D& d) { auto a = surf(d, 1, 3, 3, 2, 2), b = surf(d, 37, 2, 2, 1, 1); Intersection r; findStartIntersectionPoints(a, b, d[0], r); sink += r.points.size(); });
    add("curve inversion", cat({1, 1, 0.2, 0.5, 1e-7}, C1), [](const D& d) { auto k = curve(d, 5, 4, 2); sink += point_inversion_curve(k, v3(d, 0), d[3], d[4], d[4], 100); });
    add("surface inversion", cat({1, 1, 0.2, 0.5, 0.5, 1e-7}, S1), [](const D& d) { auto s = surf(d, 6, 3, 3, 2, 2); auto x = point_inversion_surface(s, v3(d, 0), d[3], d[4], d[5], d[5], 100); sink += x[0]; });
    add("polylines", {0, 0, 0, 1, 0, 0, 1, 0, 0, 1, 1, 0, 1, 1, 0, 0, 0, 0, 5, 5, 5, 6, 5, 5}, [](const D& d) { std::vector<Segment> s; for (int i = 0; i < 4; i++) s.push_back({v3(d, 6 * i), v3(d, 6 * i + 3)}); std::vector<std::list<vec3>> b; assemble_polylines(s, b); sink += b.size(); });
    add("hull", {0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 1, 1, 1, 0.2, 0.3, 0.2}, [](const D& d) { std::vector<vec3> h; convex_hull(pts(d, 0, 6), h); sink += h.size(); });
    add("planar hull", {0, 0, 1, 0, 0, 1, 1, 1, 0.5, 0.5, 0.5, 0}, [](const D& d) { std::vector<vec2> p, h; for (int i = 0; i < 6; i++) p.push_back(vec2(d[2 * i], d[2 * i + 1])); convex_hull(p, h); sink += h.size(); });
    add("polygons", {0.5, 0.5, 0, 0, 1, 0, 1, 1, 0, 1, 0.5, 0.5, 2, 0.5, 1, 2}, [](const D& d) { polygon2 a, b; for (int i = 0; i < 4; i++) a.push_back(vec2(d[2 + 2 * i], d[3 + 2 * i])); for (int i = 0; i < 3; i++) b.push_back(vec2(d[10 + 2 * i], d[11 + 2 * i]));
        sink += pointInPolygon2D(a, vec2(d[0], d[1])); sink += (int)polygonRelationship2D(a, b); sink += SAT2D(a, b); std::vector<vec2> n; polygonNormals(a, n, true); UnorderedNormal2Set u; polygonUniqueNormals(a, u, true); sink += u.size(); });
    add("separation", {0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 1, 1, 1, 2, 0.3, 0.2, 2, 2, 0.5, 1.5, 1, 3}, [](const D& d) { auto a = pts(d, 0, 4), b = pts(d, 12, 4); sink += SAT3D(a, b); sink += AABBTest(a, b); auto p = a, q = b; for (auto& x : p) x.unitize(); for (auto& x : q) x.unitize(); sink += SphericalSeparabilityTest(p, q); sink += SphericalCentralProjectionTest(p, q); });
    add("boxes and trees", {0, 0, 0, 1, 1, 1, 0.5, 0.5, 0.5, 2, 2, 2, 3, 3, 3, 4, 4, 4, 0.6, 0.6, 0.6}, [](const D& d) {
        std::vector<Object3D> o; for (int i = 0; i < 3; i++) o.push_back(Object3D(AABB(v3(d, 6 * i), v3(d, 6 * i + 3)), i)); std::vector<Object3D*> p{&o[0], &o[1], &o[2]}, p2 = p;
        auto t = build_bvh(p, false), t2 = build_bvh(p2, true); std::vector<std::pair<const BVHNode*, const BVHNode*>> r; intersect_bvh(t.get(), t2.get(), r); std::vector<std::pair<const BVHNode*, const BVHNode*>> r2; sink += r.size(); std::vector<const Object3D*> q; contains_point(t.get(), v3(d, 18), q); sink += q.size();
        AABB x, y(v3(d, 0), v3(d, 3)), z(v3(d, 6), v3(d, 9)); sink += y.intersection(z, x); sink += y.merge(z).volume(); });
    add("k-d tree", {0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3, 1, 1, 1, 0.4, 0.3, 0.2, 1, 1, 2}, [](const D& d) { KDTree3D t; auto in = pts(d, 0, 4); t.build(in); t.insert(v3(d, 12)); use(t.nearestNeighbor(v3(d, 15))); sink += t.rangeSearch(v3(d, 15), v3(d, 18)).size(); });
    add("closest points", {0.3, 0.4, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0}, [](const D& d) { vec3 a = v3(d, 0), b = v3(d, 3), c = v3(d, 6), e = v3(d, 9); use(closestPointOnRay(a, b, c)); use(closestPointOnLine(a, b, c)); use(closestPointOnSegm(a, b, c)); use(closestPointOnTriangle(a, b, c, e)); sink += segmentsDistance(a, b, c, e); vec2 p; centerProjectionToXY(a, b, p); vec4 q; plane_eq_from_pts(b, c, e, q); sink += planeSignedDistance(a, q); sink += isPtsCoplanar({a, b, c, e}); });
    add("vectors", {0.3, 0.4, 1, 0.1, -2, 0.5}, [](const D& d) { vec3 a = v3(d, 0), b = v3(d, 3); use(a.cross(b)); sink += a.dot(b) + a.length() + a.sqLength(); use(vectorProjection(a, b)); sink += a.collinear(b); auto u = a; u.unitize(); use(u); u = a; u.normalize(); use(u); std::unordered_map<vec3, int, Vec3Hash, Vec3Equal> m; m[a] = 1; m[b] = 2; sink += m.size() + format_vec3(a).size(); std::ostringstream o; o << a; });
    add("minimisers", {-1, 2, 1e-6, 0.3, 1}, [](const D& d) { OptimizeResult<double> r{}; const double* p = d.data(); minimize_scalar_bounded<double>([=](double x) { return (x - p[3]) * (x - p[3]) * p[4]; }, {d[0], d[1]}, r, d[2]); sink += r.x; });
    add("integrals", {0, 1, 1e-8, 0.3, 2, 0.5}, [](const D& d) { double r, e; const double* p = d.data(); auto f = [=](double x) { return p[4] + std::sin(p[3] * x); }; integrate(f, d[0], d[1], r, e, d[2], 10); sink += r; sink += find_t1_newton(d[0], d[1], f, d[5], d[2], 10); });
    add("power form", {0, 0, 0, 0, 1, 0.3, 0, 2, 0, 1, 0, 0.2, 1, 1, 1, 1, 2, 0.1}, [](const D& d) { Tensor2D<vec3> t(3, std::vector<vec3>(2)); for (int i = 0; i < 6; i++) t[i / 2][i % 2] = v3(d, 3 * i); Monomial2D m(t), u, v, n; m.computePartialDerivative(SurfaceParameter::U, u); m.computePartialDerivative(SurfaceParameter::V, v); m.computeNormal(n); NURBSSurface b; n.to_bezier(b); use(b._control_points[0][0].to_vec3()); });
    return r;
}

void mc_explore(mc::Ctx& c) {
    const double inf = std::numeric_limits<double>::infinity();
    const double V[] = {std::nan(""), inf, -inf, 1e308, -1e308, 1e154, 5e-324, -0.0, 1e-160, 2147483648.5, 12345.0};
    static auto O = ops();
    auto one = [&](const Op& o, const D& d, int a, int b, double x, double y) {
        c.at(o.name, a, x, b < 0 ? -1 : b + y * 0); c.trans();
        uint64_t h = mc::hs(o.name); for (double z : d) h = mc::mix(h, mc::hd(z)); c.state(h);
        if (o.search) for (double z : d) if (std::isfinite(z) && std::fabs(z) > 1e6) return;   // no search resolves its tolerance there
        try { o.run(d); } catch (const std::exception&) { c.state(h + 1); }
    };
    for (auto& o : O) for (size_t i = 0; i < o.base.size(); i++) {
        if (!c.next("%s, number %zu", o.name, i)) continue;
        c.guard([&] { for (double x : V) { D d = o.base; d[i] = x; one(o, d, i, -1, x, 0); } });
    }
    for (auto& o : O) {   // every number of one size
        if (!c.next("%s, all numbers", o.name)) continue;
        c.guard([&] { for (double x : V) { D d(o.base.size(), x); one(o, d, -1, -1, x, 0); for (double s : {1e-170, 1e-300, 1e150, 1e300}) { d = o.base; for (auto& z : d) z *= s; one(o, d, -2, -1, s, 0); } } });
    }
    // insertions outside the domain, of no number, or beyond the degree are refused and change nothing; all others are valid
    for (int p = 1; p <= (c.thorough ? 6 : 4); p++) for (auto& m : ref::mult_patterns(2, p)) for (int lay = 0; lay < 3; lay++) {
        if (!c.next("refused insertions, degree %d multiplicities %s layout %d", p, ref::str(m).c_str(), lay)) continue;
        c.guard([&] {
            auto U = ref::clamped(p, m, lay); auto D_ = ref::distinct(U); std::vector<double> T{std::nan(""), inf, -inf, U.front() - 1, U.back() + 1, std::nextafter(U.front(), -inf) - 1e-9, U.back() + 1e-9, (D_[0] + D_[1]) / 2};
            for (double d : D_) T.push_back(d);
            for (double t : T) for (int count = 1; count <= p + 2; count++) {
                int s0 = 0; for (double k : U) s0 += k == t; bool bad = !(t >= U.front() && t <= U.back()) || s0 + count > p;
                NURBSCurve k = br::mk(ref::make_curve(p, U, 0, 1)); NURBSCurve k0 = k; bool threw = false; c.at("insert_knot", t, count, p); c.trans(); c.state(mc::mix(br::hash(k), mc::mix(mc::hd(t), count)));
                try { k.insert_knot(t, count); } catch (const std::invalid_argument&) { threw = true; }
                if (threw != bad) { c.fail("insert|refusal", "degree %d knots %s: inserting %g %d times %s", p, ref::str(m).c_str(), t, count, threw ? "refused" : "accepted"); return; }
                if (bad && br::hash(k) != br::hash(k0)) { c.fail("insert|changed", "degree %d knots %s: refusing %g %d times changed the curve", p, ref::str(m).c_str(), t, count); return; }
                if (!bad) { auto e = br::invalid(k); if (!e.empty()) { c.fail("insert|invalid", "degree %d knots %s: inserting %g %d times: %s", p, ref::str(m).c_str(), t, count, e.c_str()); return; } }
                for (int dir = 0; dir < 2; dir++) {
                    auto o = ref::clamped(2, {1}, 1); NURBSSurface q = br::mk(dir ? ref::make_surf(2, p, o, U, 0, 1) : ref::make_surf(p, 2, U, o, 0, 1)), q0 = q; threw = false; c.at("insert_knot of a surface", t, count, p, dir); c.trans();
                    try { q.insert_knot(t, dir, count); } catch (const std::invalid_argument&) { threw = true; }
                    if (threw != bad) { c.fail("insert|refusal", "surface, direction %d degree %d knots %s: inserting %g %d times %s", dir, p, ref::str(m).c_str(), t, count, threw ? "refused" : "accepted"); return; }
                    if (bad && br::hash(q) != br::hash(q0)) { c.fail("insert|changed", "surface, direction %d degree %d knots %s: refusing %g %d times changed it", dir, p, ref::str(m).c_str(), t, count); return; }
                    if (!bad) { auto e = br::invalid(q); if (!e.empty()) { c.fail("insert|invalid", "surface: %s", e.c_str()); return; } }
                }
            }
        });
    }
    // searches refuse points that are not numbers
    for (int which = 0; which < 4; which++) for (double x : {std::nan(""), inf, -inf}) for (int at = 0; at < 16; at++) {
        if (!c.next("search %d with %g as number %d", which, x, at)) continue;
        c.guard([&] {
            D k = C1, s = S1; k[at] = x; s[at + 8] = x; bool threw = false; c.at("search", which, at, x); c.trans(); c.state(mc::mix(which * 64 + at, mc::hd(x)));
            try {
                if (which == 0) { auto a = curve(k, 0, 4, 2), b = curve(C2, 0, 4, 2); std::vector<std::pair<double, double>> r; if (at & 1) ccx(b, a, 1e-3, r); else ccx(a, b, 1e-3, r); }
                if (which == 1) { auto a = curve(k, 0, 4, 2); auto b = surf(S1, 0, 3, 3, 2, 2); CSXIntersections r; csx(a, b, r, 1e-3); }
                if (which == 2) { auto a = curve(C1, 0, 4, 2); auto b = surf(s, 0, 3, 3, 2, 2); CSXIntersections r; csx(a, b, r, 1e-3); }
                if (which == 3) { auto a = surf(s, 0, 3, 3, 2, 2), b = surf(S2, 0, 2, 2, 1, 1); Intersection r; if (at & 1) findStartIntersectionPoints(b, a, 1e-2, r); else findStartIntersectionPoints(a, b, 1e-2, r); }
            } catch (const std::invalid_argument&) { threw = true; }
            if (!threw) c.fail("search|accepted", "search %d took %g as number %d", which, x, at);
        });
    }
}
