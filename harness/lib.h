// Bridging between the reference types and cmmcore (the code under test).
#pragma once
#include "ref.h"
#include "cmmcore/nurbs.h"
namespace br {
using namespace cmmcore;
inline NURBSCurve mk(const ref::Curve& c) {
    std::vector<vec4> cp;
    for (auto& h : c.P) cp.push_back(vec4((double)h[0], (double)h[1], (double)h[2], (double)h[3]));
    return NURBSCurve(cp, c.p, c.U, false);
}
inline NURBSSurface mk(const ref::Surf& s) {
    std::vector<std::vector<vec4>> cp(s.P.size());
    for (size_t i = 0; i < s.P.size(); i++) for (auto& h : s.P[i]) cp[i].push_back(vec4((double)h[0], (double)h[1], (double)h[2], (double)h[3]));
    return NURBSSurface(cp, {s.p, s.q}, s.U, s.V);
}
inline ref::Curve back(const NURBSCurve& c) {
    ref::Curve r; r.p = c._degree; r.U = c.knots;
    for (auto& v : c.control_points) r.P.push_back({v.x, v.y, v.z, v.w});
    return r;
}
inline ref::Surf back(const NURBSSurface& s) {
    ref::Surf r; r.p = s._degree[0]; r.q = s._degree[1]; r.U = s._knots_u; r.V = s._knots_v; r.P.resize(s._control_points.size());
    for (size_t i = 0; i < r.P.size(); i++) for (auto& v : s._control_points[i]) r.P[i].push_back({v.x, v.y, v.z, v.w});
    return r;
}
inline bool same(const vec3& a, const ref::P3& b, ref::ld tol) {
    return fabsl(a.x - b[0]) <= tol && fabsl(a.y - b[1]) <= tol && fabsl(a.z - b[2]) <= tol;
}
inline std::string s3(const vec3& a) { return mc::fmt("(%.12g,%.12g,%.12g)", a.x, a.y, a.z); }
inline std::string s3(const ref::P3& a) { return mc::fmt("(%.12Lg,%.12Lg,%.12Lg)", a[0], a[1], a[2]); }
inline uint64_t hash(const NURBSCurve& c, uint64_t h = 7) {
    h = mc::mix(h, c._degree);
    for (double k : c.knots) h = mc::mix(h, mc::hd(k));
    for (auto& v : c.control_points) { h = mc::mix(h, mc::hd(v.x)); h = mc::mix(h, mc::hd(v.y)); h = mc::mix(h, mc::hd(v.z)); h = mc::mix(h, mc::hd(v.w)); }
    return h;
}
inline uint64_t hash(const NURBSSurface& c, uint64_t h = 9) {
    h = mc::mix(h, c._degree[0] * 16 + c._degree[1]);
    for (double k : c._knots_u) h = mc::mix(h, mc::hd(k));
    for (double k : c._knots_v) h = mc::mix(h, mc::hd(k) + 1);
    for (auto& r : c._control_points) for (auto& v : r) { h = mc::mix(h, mc::hd(v.x)); h = mc::mix(h, mc::hd(v.y)); h = mc::mix(h, mc::hd(v.z)); h = mc::mix(h, mc::hd(v.w)); }
    return h;
}
// Structural validity of a curve object: counts, ordered knots, finite data, interval in step with the knots.
inline std::string invalid(const NURBSCurve& c) {
    int p = c._degree;
    if (c.knots.size() != c.control_points.size() + p + 1) return mc::fmt("knot count %zu does not fit %zu control points of degree %d", c.knots.size(), c.control_points.size(), p);
    for (size_t i = 1; i < c.knots.size(); i++) if (!(c.knots[i] >= c.knots[i - 1])) return mc::fmt("knots not sorted at %zu", i);
    for (auto& v : c.control_points) if (!(std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z) && std::isfinite(v.w) && v.w > 0)) return "control point not finite / weight not positive";
    if (c.interval()[0] != c.knots.front() || c.interval()[1] != c.knots.back()) return mc::fmt("interval [%g,%g] out of step with the knots [%g,%g]", c.interval()[0], c.interval()[1], c.knots.front(), c.knots.back());
    return "";
}
inline std::string invalid(const NURBSSurface& s) {
    if (s._size[0] != s._control_points.size()) return mc::fmt("size %zu does not match %zu rows", s._size[0], s._control_points.size());
    for (auto& r : s._control_points) if (r.size() != s._size[1]) return mc::fmt("row of %zu control points, size says %zu", r.size(), s._size[1]);
    if (s._knots_u.size() != s._size[0] + s._degree[0] + 1) return "u knot count does not fit";
    if (s._knots_v.size() != s._size[1] + s._degree[1] + 1) return "v knot count does not fit";
    for (size_t i = 1; i < s._knots_u.size(); i++) if (!(s._knots_u[i] >= s._knots_u[i - 1])) return "u knots not sorted";
    for (size_t i = 1; i < s._knots_v.size(); i++) if (!(s._knots_v[i] >= s._knots_v[i - 1])) return "v knots not sorted";
    for (auto& r : s._control_points) for (auto& v : r) if (!(std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z) && std::isfinite(v.w) && v.w > 0)) return "control point not finite / weight not positive";
    if (s._interval[0][0] != s._knots_u.front() || s._interval[0][1] != s._knots_u.back() || s._interval[1][0] != s._knots_v.front() || s._interval[1][1] != s._knots_v.back())
        return mc::fmt("interval [%g,%g]x[%g,%g] out of step with the knots", s._interval[0][0], s._interval[0][1], s._interval[1][0], s._interval[1][1]);
    return "";
}
} // namespace br
