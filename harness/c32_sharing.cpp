// Sharing between threads: every query, on every input, is run with its inputs and all global data write-protected.
// A query that writes nothing shared is independent of every other one, so all schedules of any number of threads are
// equivalent to one after the other; that schedule is compared with real threads, too.
#include "guarded.h"
#include <functional>
#include <sstream>
#include <thread>
#include "lib.h"
#include "cmmcore/bvh.hpp"
#include "cmmcore/ccx.h"
#include "cmmcore/convexhull.h"
#include "cmmcore/csx.h"
#include "cmmcore/boundary_intersection.h"
#include "cmmcore/gauss_map.h"
#include "cmmcore/gjk.h"
#include "cmmcore/integrate.h"
#include "cmmcore/kdtree.h"
#include "cmmcore/matrix.h"
#include "cmmcore/memoryview.h"
#include "cmmcore/minimize_scalar.h"
#include "cmmcore/monomial.h"
#include "cmmcore/newthon2.h"
#include "cmmcore/plane.h"
#include "cmmcore/point_inversion.h"
#include "cmmcore/polygon.h"
#include "cmmcore/separability.h"
#include "cmmcore/serialization.h"
#include "cmmcore/ssx.h"
using namespace cmmcore;
using namespace br;
struct Hs { uint64_t h = 5; void d(double x) { h = mc::mix(h, mc::hd(x)); } void v(const vec3& a) { d(a.x); d(a.y); d(a.z); } void n(uint64_t x) { h = mc::mix(h, x); } void s(const std::string& t) { h = mc::mix(h, std::hash<std::string>()(t)); } };
typedef std::function<uint64_t()> Op;
static void one(mc::Ctx& c, const char* name, const std::string& h, const Op& op) {
    c.at(name); uint64_t r[4] = {0, 0, 0, 0}; std::string w;
    for (int i = 0; i < 2; i++) { w = gd::monitored([&] { r[i] = op(); }); c.trans(); if (!w.empty()) { c.fail(std::string("shared|") + name, "%s on %s: %s", name, h.c_str(), w.c_str()); return; } }
    std::thread a([&] { r[2] = op(); }), b([&] { r[3] = op(); }); a.join(); b.join(); c.trans(2);
    for (int i = 1; i < 4; i++) if (r[i] != r[0]) { c.fail(std::string("result|") + name, "%s on %s: the result differs from run to run", name, h.c_str()); return; }
    c.state(mc::mix(std::hash<std::string>()(name), r[0])); c.tag(name);
}
static void curve_ops(mc::Ctx& c, const ref::Curve& rc, const std::string& h) {
    gd::fresh(); const NURBSCurve* k = gd::share([&] { return new NURBSCurve(mk(rc)); });
    double lo = k->interval()[0], hi = k->interval()[1], m = lo + (hi - lo) * 0.37; std::vector<double> T{lo, m, lo + (hi - lo) * 0.5, lo + (hi - lo) * 0.81, hi};
    one(c, "evaluate", h, [&] { Hs s; for (double t : T) { vec3 p; k->evaluate(t, p); s.v(p); s.v((*k)(t)); } return s.h; });
    one(c, "derivative", h, [&] { Hs s; for (double t : T) { vec3 p; k->derivative(t, p); s.v(p); std::vector<vec3> D; k->derivative(t, D, 3); for (auto& x : D) s.v(x); } return s.h; });
    one(c, "derivatives by differences", h, [&] { Hs s; vec3 a, b, d; k->derivatives(m, a, b, d); s.v(a); s.v(b); s.v(d); k->derivative_fdm(m, a); k->second_derivative_fdm(m, b); s.v(a); s.v(b); return s.h; });
    one(c, "length", h, [&] { Hs s; s.d(k->length(lo, m, 1e-5)); s.d(k->length()); return s.h; });
    one(c, "derivative curve", h, [&] { return hash(k->get_derivative()); });
    one(c, "curve accessors", h, [&] { Hs s; for (auto& p : k->get_control_points3d()) s.v(p); for (double x : k->get_knots()) s.d(x); s.n(k->get_control_points().size()); s.n(k->get_degree()); s.v(k->aabb().min); s.v(k->aabb().max); s.n(k->is_periodic()); return s.h; });
    one(c, "split", h, [&] { auto [a, b] = k->split(m, true); return mc::mix(hash(a), hash(b)); });
    one(c, "decompose", h, [&] { std::vector<NURBSCurve> v; k->decompose(v); uint64_t r = 1; for (auto& x : v) r = hash(x, r); return r; });
    one(c, "copy and change the copy", h, [&] { NURBSCurve a = *k; a.insert_knot(m, 1); NURBSCurve b; b = a; b.normalize_knots(); b.rebuildAABB(); std::vector<vec4> q(3 + b._degree, vec4(1, 2, 3, 1)); a.set_control_points(q); return mc::mix(hash(a), hash(b)); });
    one(c, "export curve", h, [&] { std::ostringstream o; int id = 10; k->toSTEP(o, id); Hs s; s.s(o.str()); s.n(id); return s.h; });
    one(c, "invert curve", h, [&] { vec3 p; k->evaluate(m, p); Hs s; s.d(point_inversion_curve(*k, p + vec3(0.01, 0.02, 0), lo + (hi - lo) * 0.41, 1e-7, 1e-7, 30)); return s.h; });
    NURBSCurve* kc = const_cast<NURBSCurve*>(k);
    one(c, "curve at length", h, [&] { Hs s; s.d(kc->lengthAt(k->length() * 0.4, 1e-5)); return s.h; });
    one(c, "store curve", h, [&] { auto b = serializeNURBSCurve(*kc); const uint8_t* p = b.data(); return mc::mix(b.size(), hash(deserializeNURBSCurve(p, b.data() + b.size()))); });
}
static void surface_ops(mc::Ctx& c, const ref::Surf& rs, const std::string& h) {
    gd::fresh(); const NURBSSurface* k = gd::share([&] { return new NURBSSurface(mk(rs)); });
    auto I = k->interval(); double u = I[0][0] + (I[0][1] - I[0][0]) * 0.37, v = I[1][0] + (I[1][1] - I[1][0]) * 0.61;
    one(c, "evaluate surface", h, [&] { Hs s; for (double a : {I[0][0], u, I[0][1]}) for (double b : {I[1][0], v, I[1][1]}) { vec3 p; k->evaluate(a, b, p); s.v(p); } return s.h; });
    one(c, "surface partials and normal", h, [&] { Hs s; vec3 p; k->derivative_u(u, v, p); s.v(p); k->derivative_v(u, v, p); s.v(p); k->normal(u, v, p); s.v(p); return s.h; });
    one(c, "derivative surface", h, [&] { return mc::mix(hash(k->get_derivative(0)), hash(k->get_derivative(1))); });
    one(c, "isocurves and boundary", h, [&] { uint64_t r = mc::mix(hash(k->extract_isocurve(u, SurfaceParameter::U)), hash(k->extract_isocurve(v, SurfaceParameter::V))); std::array<NURBSCurve, 4> B; k->extract_surface_boundaries(B); for (auto& x : B) r = hash(x, r); extract_surface_boundaries(*k, B); for (auto& x : B) r = hash(x, r); return r; });
    one(c, "split surface", h, [&] { auto [a, b] = k->split_surface_u(u); auto [d, e] = k->split_surface_v(v); return hash(a, hash(b, hash(d, hash(e)))); });
    one(c, "subdivide", h, [&] { NURBSSurface a, b, d, e; k->subdivide(a, b, d, e); return hash(a, hash(b, hash(d, hash(e)))); });
    one(c, "decompose surface", h, [&] { std::vector<NURBSSurface> w; k->decompose(w); uint64_t r = 1; for (auto& x : w) r = hash(x, r); return r; });
    one(c, "surface accessors", h, [&] { Hs s; for (auto& p : k->control_points_flat3d()) s.v(p); for (auto& r : k->control_points3d()) for (auto& p : r) s.v(p); s.n(k->control_points().size()); s.n(k->shape()[1]); for (double x : k->knots_u()) s.d(x); for (double x : k->knots_v()) s.d(x); s.v(k->aabb().min); return s.h; });
    one(c, "copy and change the copied surface", h, [&] { NURBSSurface a = *k; a.insert_knot_u(u, 1); a.insert_knot_v(v, 1); NURBSSurface b; b = a; b.rebuildAABB(); return mc::mix(hash(a), hash(b)); });
    one(c, "export surface", h, [&] { std::ostringstream o; int id = 10; k->toSTEP(o, id); Hs s; s.n(id); return s.h; });
    one(c, "invert surface", h, [&] { vec3 p; k->evaluate(u, v, p); auto r = point_inversion_surface(*k, p + vec3(0.01, 0, 0.01), u + (I[0][1] - I[0][0]) * 0.05, v, 1e-7, 1e-7, 20); Hs s; s.d(r[0]); s.d(r[1]); return s.h; });
    if (k->_size[0] == (size_t)k->_degree[0] + 1 && k->_size[1] == (size_t)k->_degree[1] + 1) {
        one(c, "power form", h, [&] { Monomial2D a(*k), d; a.computePartialDerivative(SurfaceParameter::U, d); NURBSSurface s; a.to_bezier(s); Hs q; for (auto& r : d.coefficients) for (auto& x : r) q.v(x); return hash(s, q.h); });
        one(c, "Gauss map", h, [&] { auto g = gaussMap(*k); Hs s; s.n(gaussMapSeparability(g, g)); return hash(g, s.h); });
    }
}
static void pair_ops(mc::Ctx& c, const ref::Surf& ra, const ref::Surf& rb, const ref::Curve& rc, const ref::Curve& rd, double tol, const std::string& h) {
    gd::fresh(); auto* a = gd::share([&] { return new NURBSSurface(mk(ra)); }); auto* b = gd::share([&] { return new NURBSSurface(mk(rb)); }); auto* k = gd::share([&] { return new NURBSCurve(mk(rc)); }); auto* l = gd::share([&] { return new NURBSCurve(mk(rd)); });
    const NURBSSurface &A = *a, &B = *b; const NURBSCurve& K = *k;
    one(c, "curves meet", h, [&] { std::vector<std::pair<double, double>> r; ccx(*k, *l, tol, r); Hs s; for (auto& x : r) { s.d(x.first); s.d(x.second); } return s.h; });
    one(c, "curve meets surface", h, [&] { CSXIntersections r; csx(K, A, r, tol); Hs s; for (auto& [t, p, q] : r) { s.v(p); s.d(q[0]); s.d(q[1]); s.d(q[2]); } return s.h; });
    one(c, "boundaries meet", h, [&] { std::vector<IntersectionPoint> r; find_boundary_intersections(A, B, r, tol); Hs s; for (auto& p : r) { s.v(p.point); s.d(p.curve_param); } return s.h; });
    one(c, "surfaces meet", h, [&] { Intersection r; findStartIntersectionPoints(A, B, 0.05, r); Hs s; for (auto& p : r.patches) { s.v(p.start.point); s.v(p.end.point); } for (auto& p : r.points) s.v(p.xyz); return s.h; });
}
static void point_ops(mc::Ctx& c, int seed, const std::string& h) {
    gd::fresh(); auto f = [&](int i, int m) { return (double)((i * i * 7 + i * 13 + seed * 5) % m); };
    const auto* P = gd::share([&] { auto* v = new std::vector<vec3>(); for (int i = 0; i < 12; i++) v->push_back(vec3(f(i, 11), f(i + 3, 7), f(i + 5, 13))); return v; });
    const auto* Q = gd::share([&] { auto* v = new std::vector<vec3>(); for (int i = 0; i < 9; i++) v->push_back(vec3(f(i + 2, 9) + seed % 3 * 6, f(i + 7, 5), f(i, 7))); return v; });
    const auto* R = gd::share([&] { auto* v = new polygon2(); v->push_back(vec2(0, 0)); v->push_back(vec2(4, 0)); v->push_back(vec2(5, 3)); v->push_back(vec2(1, 4)); return v; });
    const auto* S = gd::share([&] { auto* v = new polygon2(); double d = seed % 5; v->push_back(vec2(d, 1)); v->push_back(vec2(d + 2, 1)); v->push_back(vec2(d + 1, 3)); return v; });
    const auto* T = gd::share([&] { auto* t = new KDTree3D(); auto q = *P; t->build(q); return t; });
    auto* O = gd::share([&] { auto* o = new std::vector<Object3D>(); o->reserve(8); for (int i = 0; i < 7; i++) { vec3 a(f(i, 5), f(i + 1, 4), f(i + 2, 3)); o->emplace_back(AABB(a, a + vec3(2, 1, 2))); } return o; });
    for (int method = 0; method < 2; method++) {
        const auto* N = gd::share([&] { std::vector<Object3D*> q; for (auto& x : *O) q.push_back(&x); return new std::unique_ptr<BVHNode>(build_bvh(q, method == 1)); });
        one(c, "search boxes", h, [&] { Hs s; for (int i = 0; i < 8; i++) { std::vector<const Object3D*> r; contains_point(N->get(), vec3(f(i, 6), f(i + 2, 5), f(i + 4, 4)), r); for (auto* x : r) s.n(x - O->data()); } std::vector<std::pair<const BVHNode*, const BVHNode*>> a, b; intersect_bvh(N->get(), N->get(), a); intersect_bvh_iterative(N->get(), N->get(), b); s.n(a.size()); s.n(b.size()); return s.h; });
    }
    one(c, "search points", h, [&] { Hs s; for (int i = 0; i < 8; i++) { s.v(T->nearestNeighbor(vec3(f(i, 12), f(i + 1, 8), 2))); for (auto& p : T->rangeSearch(vec3(0, 0, 0), vec3(f(i, 12), 6, 9))) s.v(p); } return s.h; });
    one(c, "hull", h, [&] { std::vector<vec3> r; int t = (int)convex_hull(*P, r); Hs s; s.n(t); for (auto& p : r) s.v(p); std::vector<vec2> q; s.n((int)convex_hull(*R, q)); return s.h; });
    one(c, "separation", h, [&] { Hs s; std::vector<vec3> x; vec3 p; s.n(GJK(*P, *Q, x, p)); s.n(SAT3D(*P, *Q)); s.n(SAT2D(*R, *S)); auto a = *P, b = *Q; for (auto& v : a) v.x += 20; for (auto& v : b) v.x += 30; s.n(SphericalSeparabilityTest(a, b)); s.n(AABBTest(*P, *Q)); s.n(isPtsCoplanar(*P)); return s.h; });
    one(c, "polygons", h, [&] { Hs s; s.n((int)polygonRelationship2D(*R, *S)); for (int i = 0; i < 9; i++) s.n(pointInPolygon2D(*R, vec2(i % 3 * 2, i / 3 * 1.5))); return s.h; });
    one(c, "closest points", h, [&] { Hs s; s.v(closestPointOnTriangle((*P)[0], (*P)[1], (*P)[2])); s.v(closestPointOnSegm((*P)[3], (*P)[4])); s.d(segmentsDistance((*P)[0], (*P)[1], (*Q)[0], (*Q)[1])); plane a((*P)[0], vec3(1, 2, 3)), b((*Q)[1], vec3(2, 0, 1)); vec3 p, q; s.n(a.planePlaneIntersection(b, p, q)); s.d(a.signedDistance((*P)[5])); return s.h; });
}
static void other_ops(mc::Ctx& c, int seed, const std::string& h) {
    gd::fresh();
    auto* D = gd::share([&] { auto* v = new std::vector<double>(); for (int i = 0; i < 60; i++) v->push_back(i * 1.5 + seed); return v; });
    const auto* V = gd::share([&] { return new MemoryView<double>(D->data(), {3, 4, 5}); });
    one(c, "array views", h, [&] { Hs s; for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 4; j++) s.d((*V)({i, j, (i + j) % 5})); auto w = V->slice({Slice(0, 3, 2), Slice(1, 4, 1), Slice(0, 5, 2)}); s.d(w({1, 1, 1})); MemoryView<double> x(*V); s.d(x({2, 3, 4})); auto b = V->serialize(); s.n(b.size()); return s.h; });
    const auto* M = gd::share([&] { auto* m = new MatrixD(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) (*m)(i, j) = (i == j ? 5 : 0) + ((i * 3 + j * 5 + seed) % 4); return m; });
    one(c, "matrices", h, [&] { Hs s; auto a = M->inverse(), b = (*M) * a, t = M->transpose(); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { s.d(a(i, j)); s.d(b(i, j)); s.d(t(i, j)); } auto q = bpmat(3 + seed % 3); s.d(q(1, 1)); s.n(binomial_coefficient(9, seed % 9)); return s.h; });
    one(c, "integrate and minimise", h, [&] { Hs s; double r, e; integrate([&](double t) { return std::sin(t) + seed; }, 0, 2, r, e, 1e-9); s.d(r); OptimizeResult<double> o; minimize_scalar_bounded<double>([&](double x) { return (x - 0.3) * (x - 0.3) + seed; }, {0., 1.}, o); s.d(o.x); auto p = newtonsMethod<2>([&](const Vector<2>& x) { return (x[0] - 1) * (x[0] - 1) + (x[1] + seed) * (x[1] + seed) + 0.1 * x[0] * x[1]; }, {0.3, 0.2}, 1e-6, 20); s.d(p[0]); s.d(p[1]); return s.h; });
}
void mc_explore(mc::Ctx& c) {
    // the monitor itself sees writes to the shared object, to globals and to statics, and lets the harmless ones pass
    if (c.next("the monitor")) {
        gd::fresh(); auto* x = gd::share([] { return new std::vector<int>(5, 1); }); static int g = 0; static std::atomic<int> at{0}; static std::mutex mu; static int under = 0;
        bool ok = !gd::monitored([&] { (*x)[2] = 1; }).empty() && !gd::monitored([&] { *(volatile int*)&g = g; }).empty() && !gd::monitored([&] { static volatile int n = 0; n = n + 1; }).empty() && gd::monitored([&] { int y = (*x)[3]; std::vector<int> z(y + 3); z[1] = g; }).empty()
            && gd::monitored([&] { at++; at.exchange(3); }).empty() && gd::monitored([&] { std::lock_guard<std::mutex> l(mu); under++; }).empty() && gd::monitored([&] { static const std::vector<int> t(under + 3); (void)t.size(); std::cerr << ""; }).empty();
        if (!ok) { fprintf(stderr, "the write monitor does not work here\n"); c.fail("monitor", "the write monitor does not work"); }
    }
    int M = c.thorough ? 4 : 3;
    for (int p = 1; p <= M; p++) for (int kind = 0; kind < 5; kind++) for (int wk = 0; wk < 4; wk++) {
        if (!c.next("curves of degree %d kind %d weights %d", p, kind, wk)) continue;
        c.guard([&] { for (auto& mult : ref::mult_patterns(c.thorough ? 2 : 1, p)) for (int lay = 0; lay < (c.thorough ? 5 : 2); lay++) { auto r = ref::make_curve(p, ref::clamped(p, mult, lay), kind, wk); curve_ops(c, r, mc::fmt("curve of degree %d kind %d weights %d, %zu knots", p, kind, wk, r.U.size())); } });
    }
    for (int p = 1; p <= M; p++) for (int q = 1; q <= M; q++) for (int kind = 0; kind < 5; kind++) for (int wk = 0; wk < 4; wk += c.thorough ? 1 : 2) {
        if (!c.next("surfaces of degree %d,%d kind %d weights %d", p, q, kind, wk)) continue;
        c.guard([&] { for (auto& mu : ref::mult_patterns(1, c.thorough ? p : 1)) for (auto& mv : ref::mult_patterns(1, c.thorough ? q : 1)) { auto r = ref::make_surf(p, q, ref::clamped(p, mu, 0), ref::clamped(q, mv, 1), kind, wk); surface_ops(c, r, mc::fmt("surface of degree %d,%d kind %d weights %d", p, q, kind, wk)); } });
    }
    for (int seed = 0; seed < (c.thorough ? 200 : 40); seed++) {
        if (!c.next("point sets and numbers %d", seed)) continue;
        c.guard([&] { point_ops(c, seed, mc::fmt("point set %d", seed)); other_ops(c, seed, mc::fmt("numbers %d", seed)); });
    }
    // intersections: two crossing sheets, two crossing curves
    for (int p = 1; p <= (c.thorough ? 3 : 2); p++) for (int q = 1; q <= 2; q++) for (int shift = 0; shift < (c.thorough ? 5 : 3); shift++) for (int wk = 0; wk < 2; wk++) {
        if (!c.next("intersections, degrees %d,%d shift %d weights %d", p, q, shift, wk)) continue;
        c.guard([&] {
            auto sheet = [&](int p, int q, int mode) { ref::Surf s; s.p = p; s.q = q; s.U = ref::clamped(p, {}, 0); s.V = ref::clamped(q, {}, 0); s.P.resize(p + 1);
                for (int i = 0; i <= p; i++) for (int j = 0; j <= q; j++) { double x = (double)i / p, y = (double)j / q, w = wk && (i + j) % 2 ? 2 : 1, X = mode ? 0.3 + 0.07 * shift + 0.1 * y * (i ? 1 : 0.4) : x, Y = y * (mode ? 1.2 : 1) - (mode ? 0.1 : 0), Z = mode ? x * 1.3 - 0.61 : 0.2 * x * y - 0.03 * shift; s.P[i].push_back({X * w, Y * w, Z * w, w}); } return s; };
            auto line = [&](int mode) { ref::Curve k; k.p = p; k.U = ref::clamped(p, {}, 0); for (int i = 0; i <= p; i++) { double x = (double)i / p, w = wk && i % 2 ? 2 : 1; ref::H v = mode ? ref::H{0.1 + 0.9 * x, 0.85 - 0.6 * x, 0.05, 1} : ref::H{0.3 + 0.2 * x + 0.05 * shift, 0.4 + 0.3 * x, mode ? 0. : -0.7 + 1.5 * x, 1}; for (auto& d : v) d *= w; k.P.push_back(v); } return k; };
            auto flat = line(0); for (auto& v : flat.P) v[2] = 0.05 * v[3];
            pair_ops(c, sheet(p, q, 0), sheet(q, p, 1), line(0), line(1), 1e-3, mc::fmt("sheets of degree %d,%d shift %d", p, q, shift));
        });
    }
}
