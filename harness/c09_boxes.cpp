// Bounding boxes: algebra over every box of a small grid, and containment along histories of curve and surface operations.
#include "lib.h"
using namespace br;
typedef ref::ld ld;

struct B { int lo[3], hi[3]; };
static std::vector<B> boxes(int n) {
    std::vector<std::pair<int, int>> iv;
    for (int a = 0; a < n; a++) for (int b = a; b < n; b++) iv.push_back({a, b});
    std::vector<B> r;
    for (auto& x : iv) for (auto& y : iv) for (auto& z : iv) r.push_back({{x.first, y.first, z.first}, {x.second, y.second, z.second}});
    return r;
}
static const double VAL[2][4] = {{0, 1, 2, 3}, {-7.25, -1e-3, 0.125, 1e6}};
static AABB mkb(const B& b, int v) { return AABB(vec3(VAL[v][b.lo[0]], VAL[v][b.lo[1]], VAL[v][b.lo[2]]), vec3(VAL[v][b.hi[0]], VAL[v][b.hi[1]], VAL[v][b.hi[2]])); }
static bool eq(const AABB& a, const double* lo, const double* hi) {
    return a.min.x == lo[0] && a.min.y == lo[1] && a.min.z == lo[2] && a.max.x == hi[0] && a.max.y == hi[1] && a.max.z == hi[2];
}
static void algebra(mc::Ctx& c, const std::vector<B>& bs, size_t i, int v) {
    AABB a = mkb(bs[i], v);
    c.state(mc::mix(i, v));
    double vol = 1;
    for (int d = 0; d < 3; d++) vol *= VAL[v][bs[i].hi[d]] - VAL[v][bs[i].lo[d]];
    if (!mc::near(a.volume(), vol, 1e-12 * (1 + std::fabs(vol)))) c.fail("volume", "got %g expected %g", a.volume(), vol);
    if (a.infinity()) c.fail("infinity", "a finite box is reported as empty");
    for (size_t j = 0; j < bs.size(); j++) {
        AABB b = mkb(bs[j], v);
        double il[3], ih[3], ml[3], mh[3]; bool hit = true;
        for (int d = 0; d < 3; d++) {
            int l = std::max(bs[i].lo[d], bs[j].lo[d]), h = std::min(bs[i].hi[d], bs[j].hi[d]);
            if (l > h) hit = false; 
            il[d] = VAL[v][l]; ih[d] = VAL[v][h];
            ml[d] = VAL[v][std::min(bs[i].lo[d], bs[j].lo[d])]; mh[d] = VAL[v][std::max(bs[i].hi[d], bs[j].hi[d])];
        }
        c.trans(3);
        c.at("box-pair", i, j);
        if (a.intersects(b) != hit) c.fail("intersects", "boxes %zu %zu (values %d): got %d expected %d", i, j, v, (int)a.intersects(b), (int)hit);
        AABB r(vec3(5, 5, 5), vec3(6, 6, 6));
        bool g = a.intersection(b, r);
        double five[3] = {5, 5, 5}, six[3] = {6, 6, 6};
        if (g != hit) c.fail("intersection|answer", "boxes %zu %zu: %d expected %d", i, j, (int)g, (int)hit);
        else if (hit ? !eq(r, il, ih) : !eq(r, five, six)) c.fail("intersection|box", "boxes %zu %zu: wrong box", i, j);
        if (!eq(a.merge(b), ml, mh)) c.fail("merge", "boxes %zu %zu", i, j);
        // expanding by the two corners is the same as merging; order does not matter
        AABB e = a; e.expand(b.max); e.expand(b.min);
        AABB f; f.expand(b.min); f.expand(a.max); f.expand(a.min); f.expand(b.max);
        if (!eq(e, ml, mh) || !eq(f, ml, mh)) c.fail("expand", "boxes %zu %zu", i, j);
        std::vector<vec3> pts{b.min, a.max, b.max, a.min};
        if (!eq(AABB(pts), ml, mh)) c.fail("from-points", "boxes %zu %zu", i, j);
    }
}

static bool inside(const AABB& b, const vec3& p, double t) { return p.x >= b.min.x - t && p.y >= b.min.y - t && p.z >= b.min.z - t && p.x <= b.max.x + t && p.y <= b.max.y + t && p.z <= b.max.z + t; }
static void exact(mc::Ctx& c, const AABB& b, const std::vector<vec4>& P, double t, const char* what, const std::string& h) {
    double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
    for (auto& v : P) { double x[3] = {v.x / v.w, v.y / v.w, v.z / v.w}; for (int d = 0; d < 3; d++) { lo[d] = std::min(lo[d], x[d]); hi[d] = std::max(hi[d], x[d]); } }
    if (!(std::fabs(b.min.x - lo[0]) <= t && std::fabs(b.min.y - lo[1]) <= t && std::fabs(b.min.z - lo[2]) <= t && std::fabs(b.max.x - hi[0]) <= t && std::fabs(b.max.y - hi[1]) <= t && std::fabs(b.max.z - hi[2]) <= t))
        c.fail(std::string("box-of-net|") + what, "%s: box %s..%s, control points span (%g,%g,%g)..(%g,%g,%g)", h.c_str(), s3(b.min).c_str(), s3(b.max).c_str(), lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
}
static void curve_box(mc::Ctx& c, const NURBSCurve& k, double t, const char* what, const std::string& h, bool tight) {
    c.state(hash(k));
    AABB b = k.aabb();
    for (double x : ref::params(k.knots, k._degree, 2, false)) {
        vec3 g; k.evaluate(x, g); c.trans();
        if (!inside(b, g, t)) { c.fail(std::string("curve-box|") + what, "%s: point at %.17g %s outside box %s..%s", h.c_str(), x, s3(g).c_str(), s3(b.min).c_str(), s3(b.max).c_str()); break; }
    }
    if (tight) exact(c, b, k.control_points, t, what, h);
    NURBSCurve m(k);
    exact(c, m.bbox(), k.control_points, t, "curve bbox()", h);
    exact(c, m.aabb(), k.control_points, t, "curve aabb() after bbox()", h);
}
static void surf_box(mc::Ctx& c, const NURBSSurface& s, double t, const char* what, const std::string& h, bool tight) {
    c.state(hash(s));
    NURBSSurface m(s);
    AABB b = m.bbox(), a = s.aabb();
    for (double u : ref::params(s._knots_u, s._degree[0], 1, false)) for (double v : ref::params(s._knots_v, s._degree[1], 1, false)) {
        vec3 g; s.evaluate(u, v, g); c.trans();
        if (!inside(b, g, t)) { c.fail(std::string("surface-bbox|") + what, "%s: point at (%.17g,%.17g) outside", h.c_str(), u, v); return; }
        if (!inside(a, g, t)) { c.fail(std::string("surface-aabb|") + what, "%s: point at (%.17g,%.17g) outside", h.c_str(), u, v); return; }
    }
    exact(c, b, s.control_points_flat(), t, "surface bbox()", h);
    if (tight) exact(c, a, s.control_points_flat(), t, "surface aabb()", h);
}

static void curve_hist(mc::Ctx& c, const ref::Curve& r, int depth) {
    struct St { NURBSCurve k; int d; std::string h; bool tight; };
    double tol = 1e-9 * (double)ref::scale(r);
    std::deque<St> q{{mk(r), 0, "", true}};
    std::unordered_set<uint64_t> seen;
    while (!q.empty()) {
        St s = q.front(); q.pop_front();
        if (!seen.insert(mc::mix(hash(s.k), s.tight)).second) continue;
        curve_box(c, s.k, tol, s.d ? "history" : "ctor", s.h, s.tight);
        if (s.d >= depth) continue;
        double lo = s.k.knots.front(), hi = s.k.knots.back();
        auto go = [&](const NURBSCurve& k, const char* op, bool tight) { q.push_back({k, s.d + 1, s.h + " " + op, tight}); };
        if (find_multiplicity(lo + 0.3125 * (hi - lo), s.k.knots) < s.k._degree) { NURBSCurve n(s.k); n.insert_knot(lo + 0.3125 * (hi - lo), 1); go(n, "insert", false); }
        { NURBSCurve n(s.k); n.normalize_knots(); go(n, "normalize", s.tight); }
        for (double f : {0.5, 0.3125}) { auto pr = s.k.split(lo + f * (hi - lo)); go(pr.first, "split.first", true); go(pr.second, "split.second", true); }
        { std::vector<NURBSCurve> bz; s.k.decompose(bz); for (auto& x : bz) go(x, "decompose", true); }
        { std::vector<vec4> P = s.k.control_points; for (auto& v : P) { v.x = v.x * 2 + 5 * v.w; v.y = -v.y; v.z += 3 * v.w; } NURBSCurve n(s.k); n.set_control_points(P); go(n, "set_control_points", true); 
          if ((int)P.size() > s.k._degree + 1) { P.pop_back(); NURBSCurve m(s.k); m.set_control_points(P); go(m, "set_fewer_control_points", true); } }
        { NURBSCurve n(std::vector<vec4>{vec4(1, 1, 1, 1), vec4(2, 2, 2, 1)}, 1); n = s.k; go(n, "assign", s.tight); NURBSCurve m(std::move(n)); go(m, "move", s.tight); }
        { NURBSCurve rev(s.k); std::reverse(rev.control_points.begin(), rev.control_points.end()); rev.rebuildAABB(); NURBSCurve out, o2(s.k);
          vec4 a = s.k.control_points.back(), b = rev.control_points.front(); (void)a; (void)b; if (o2.join(rev, out)) curve_box(c, out, tol, "join", s.h, true); }
        bool flat = true; for (auto& v : s.k.control_points) if (v.w != 1) flat = false;
        int mm = 0; for (double x : s.k.knots) if (x > lo && x < hi) mm = std::max(mm, (int)std::count(s.k.knots.begin(), s.k.knots.end(), x));
        if (flat && s.k._degree >= 2 && mm < s.k._degree) { go(s.k.get_derivative(), "get_derivative", true); NURBSCurve n(s.k); NURBSCurve in(std::vector<vec4>{vec4(1, 1, 1, 1), vec4(2, 2, 2, 1)}, 1); n.get_derivative(in); go(in, "get_derivative(out)", true); }
    }
}
static void surf_hist(mc::Ctx& c, const ref::Surf& r, int depth) {
    struct St { NURBSSurface k; int d; std::string h; bool tight; };
    double tol = 1e-9 * (double)ref::scale(r);
    std::deque<St> q{{mk(r), 0, "", true}};
    std::unordered_set<uint64_t> seen;
    while (!q.empty()) {
        St s = q.front(); q.pop_front();
        if (!seen.insert(mc::mix(hash(s.k), s.tight)).second) continue;
        surf_box(c, s.k, tol, s.d ? "history" : "ctor", s.h, s.tight);
        if (s.d >= depth) continue;
        auto go = [&](const NURBSSurface& k, const char* op, bool tight) { q.push_back({k, s.d + 1, s.h + " " + op, tight}); };
        auto I = s.k._interval;
        auto mid = [&](int d, double f) { return I[d][0] + f * (I[d][1] - I[d][0]); };
        if (find_multiplicity(mid(0, 0.3125), s.k._knots_u) < s.k._degree[0]) { NURBSSurface n(s.k); n.insert_knot_u(mid(0, 0.3125), 1); go(n, "insert_u", false); }
        if (find_multiplicity(mid(1, 0.3125), s.k._knots_v) < s.k._degree[1]) { NURBSSurface n(s.k); n.insert_knot_v(mid(1, 0.3125), 1); go(n, "insert_v", false); }
        { auto pr = s.k.split_surface_u(mid(0, 0.5)); go(pr.first, "split_u.first", true); go(pr.second, "split_u.second", true); }
        { auto pr = s.k.split_surface_v(mid(1, 0.625)); go(pr.first, "split_v.first", true); go(pr.second, "split_v.second", true); }
        { auto A = s.k.subdivide(); for (auto& x : A) go(x, "subdivide", true); }
        { NURBSSurface a, b, d, e; s.k.subdivide(a, b, d, e); go(a, "subdivide(out)", true); go(e, "subdivide(out)", true); }
        { std::vector<NURBSSurface> o; s.k.decompose(o); for (auto& x : o) go(x, "decompose", true); }
        { NURBSSurface n; n = s.k; go(n, "assign", s.tight); }
        for (int fix = 0; fix < 2; fix++) curve_box(c, s.k.extract_isocurve(mid(fix ? 0 : 1, 0.375), fix ? SurfaceParameter::U : SurfaceParameter::V), tol, "isocurve", s.h, true);
        std::array<NURBSCurve, 4> bd; s.k.extract_surface_boundaries(bd);
        for (auto& x : bd) curve_box(c, x, tol, "boundary", s.h, true);
        bool flat = true; for (auto& row : s.k._control_points) for (auto& v : row) if (v.w != 1) flat = false;
        for (int d = 0; d < 2; d++) {
            auto& K = d ? s.k._knots_v : s.k._knots_u; int mm = 0;
            for (double x : K) if (x > K.front() && x < K.back()) mm = std::max(mm, (int)std::count(K.begin(), K.end(), x));
            if (flat && s.k._degree[d] >= 2 && mm < s.k._degree[d]) go(s.k.get_derivative(d), "get_derivative", true);
        }
    }
}

void mc_explore(mc::Ctx& c) {
    auto bs = boxes(c.thorough ? 4 : 3);
    for (int v = 0; v < 2; v++) for (size_t i = 0; i < bs.size(); i++) {
        if (!c.next("box algebra: box %zu values %d", i, v)) continue;
        c.guard([&] { algebra(c, bs, i, v); });
    }
    if (c.next("empty box")) c.guard([&] {
        AABB e;
        if (!e.infinity()) c.fail("infinity", "the default box is not recognised as empty");
        for (auto& b : bs) { AABB x = mkb(b, 0); c.trans(); if (e.intersects(x) || x.intersects(e)) c.fail("empty|intersects", "empty box intersects"); if (!eq(e.merge(x), &x.min.x, &x.max.x)) c.fail("empty|merge", "merge with the empty box"); }
    });
    for (int p = 1; p <= 8; p++) for (auto& m : ref::mult_patterns(p <= 3 ? 2 : 1, p)) for (int wk = 0; wk < 4; wk++) for (int kind = 0; kind < ref::kKinds; kind++) {
        if (!c.thorough && p > 3 && (kind + wk + p) % 3) continue;
        int lay = (p + wk + kind) % 3 == 0 ? 0 : (p + wk + kind) % 3 == 1 ? 1 : 4;
        if (!c.next("curve degree %d multiplicities %s weights %d net %d", p, ref::str(m).c_str(), wk, kind)) continue;
        c.guard([&] { curve_hist(c, ref::make_curve(p, ref::clamped(p, m, lay), kind, wk), c.thorough ? 3 : p <= 3 ? 2 : 1); });
    }
    for (int p = 1; p <= 4; p++) for (int q = 1; q <= 4; q++) for (auto& m : ref::mult_patterns(1, p)) for (int wk = 0; wk < 4; wk++) for (int kind = 0; kind < 4; kind++) {
        if (!c.thorough && (kind + wk + p + q) % 2) continue;
        if (!c.next("surface degrees %d,%d multiplicities %s weights %d net %d", p, q, ref::str(m).c_str(), wk, kind)) continue;
        c.guard([&] { surf_hist(c, ref::make_surf(p, q, ref::clamped(p, m, 1), ref::clamped(q, {}, 0), kind, wk), c.thorough && p + q < 6 ? 2 : 1); });
    }
}
