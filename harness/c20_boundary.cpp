// Entry points of two surfaces: where the boundary of one crosses the other, each once, with parameters on both.
#include "graph.h"
#include "cmmcore/boundary_intersection.h"
using namespace br; using namespace gr;
static vec3 V(const ref::P3& p) { return vec3((double)p[0], (double)p[1], (double)p[2]); }
static uint64_t key(const IntersectionPoint& p) { return mc::mix(mc::mix(mc::mix(mc::hd(p.curve_param), p.boundary_index * 2 + p.is_from_first_surface), mc::mix(mc::hd(p.point.x), mc::hd(p.point.y))), mc::hd(p.point.z)); }
static void sorted(mc::Ctx& c, const std::vector<IntersectionPoint>& pts, const std::string& h) {
    c.at("sort_boundary_intersections", (double)pts.size());
    std::vector<std::vector<IntersectionPoint>> seq;
    sort_boundary_intersections(pts, seq);
    c.trans();
    std::vector<uint64_t> left; for (auto& p : pts) left.push_back(key(p));
    std::vector<IntersectionPoint> rest = pts; size_t single = 0;
    auto take = [&](const IntersectionPoint& p) { for (size_t i = 0; i < rest.size(); i++) if (key(rest[i]) == key(p)) { rest.erase(rest.begin() + i); return true; } return false; };
    for (auto& s : seq) {
        if (s.empty() || s.size() > 2) { c.fail("sequence size", "%s: a sequence of %zu points", h.c_str(), s.size()); return; }
        if (!take(s[0])) { c.fail("sequence point", "%s: a point is used twice or is not one of the points", h.c_str()); return; }
        if (s.size() == 1) { single++; continue; }
        double d = (s[0].point - s[1].point).length();
        for (auto& r : rest) if ((s[0].point - r.point).length() < d - 1e-12) { c.fail("nearest", "%s: a point is joined to one %g away although one is nearer", h.c_str(), d); return; }
        if (!take(s[1])) { c.fail("sequence point", "%s: a point is used twice or is not one of the points", h.c_str()); return; }
    }
    if (!rest.empty()) c.fail("dropped", "%s: %zu points are in no sequence", h.c_str(), rest.size());
    if (single > pts.size() % 2) c.fail("single", "%s: %zu points alone of %zu", h.c_str(), single, pts.size());
}
static void run(mc::Ctx& c, const NURBSSurface& a, const NURBSSurface& b, const std::vector<ref::P3>& expected, double tol, bool apart, const std::string& h) {
    uint64_t h0 = hash(a), h1 = hash(b);
    c.at("find_boundary_intersections", tol);
    std::vector<IntersectionPoint> res;
    find_boundary_intersections(a, b, res, tol);
    c.trans(); c.state(mc::mix(mc::mix(h0, h1), mc::hd(tol)));
    if (hash(a) != h0 || hash(b) != h1) c.fail("inputs", "%s: the surfaces were changed", h.c_str());
    if (apart && !res.empty()) { c.fail("phantom", "%s: %zu points although the surfaces are apart", h.c_str(), res.size()); return; }
    ref::Surf ra = back(a), rb = back(b);
    for (size_t i = 0; i < res.size(); i++) {
        auto& p = res[i];
        auto &x = p.surface1_params, &y = p.surface2_params;
        bool dom = x[0] >= ra.ulo() && x[0] <= ra.uhi() && x[1] >= ra.vlo() && x[1] <= ra.vhi() && y[0] >= rb.ulo() && y[0] <= rb.uhi() && y[1] >= rb.vlo() && y[1] <= rb.vhi();
        if (!dom) { c.fail("domain", "%s: parameters (%.9g,%.9g) (%.9g,%.9g) are outside the domains", h.c_str(), x[0], x[1], y[0], y[1]); return; }
        vec3 P = V(ra.eval(x[0], x[1])), Q = V(rb.eval(y[0], y[1]));
        if (!((P - p.point).length() <= tol * 1.001 + 1e-9) || !((Q - p.point).length() <= tol * 1.001 + 1e-9)) {
            c.fail("off", "%s: point %s is %g and %g away from the surfaces at its parameters (boundary %d of surface %d)", h.c_str(), s3(p.point).c_str(), (P - p.point).length(), (Q - p.point).length(), p.boundary_index, p.is_from_first_surface ? 1 : 2); return; }
        auto& e = p.is_from_first_surface ? x : y; auto& re = p.is_from_first_surface ? ra : rb;
        double want[4] = {re.ulo(), re.uhi(), re.vlo(), re.vhi()};
        if (p.boundary_index < 0 || p.boundary_index > 3 || e[p.boundary_index / 2] != want[p.boundary_index] || e[1 - p.boundary_index / 2] != p.curve_param) { c.fail("boundary", "%s: boundary %d does not fit the parameters (%.9g,%.9g)", h.c_str(), p.boundary_index, e[0], e[1]); return; }
        auto sp = p.get_start_params();
        if (sp.first != x || sp.second != y) { c.fail("start", "%s: the start parameters differ from the parameters on the surfaces", h.c_str()); return; }
        for (size_t j = 0; j < i; j++) if ((res[j].point - p.point).length() < tol * 0.999) { c.fail("duplicate", "%s: two points %g apart (tolerance %g)", h.c_str(), (res[j].point - p.point).length(), tol); return; }
    }
    for (auto& e : expected) {
        bool f = false; vec3 q = V(e);
        for (auto& p : res) if ((p.point - q).length() <= 10 * tol) f = true;
        if (!f) { c.fail("lost", "%s: the boundary crossing at %s is not reported (%zu are, tolerance %g)", h.c_str(), s3(q).c_str(), res.size(), tol); return; }
    }
    c.tag(mc::fmt("%zu expected %s", expected.size(), res.size() == expected.size() ? "= reported" : "< reported").c_str());
    sorted(c, res, h);
}
void mc_explore(mc::Ctx& c) {
    auto& gs = graphs(); auto& rs = rects();
    size_t n = 0, stride = c.thorough ? 2 : 83;
    for (size_t i = 0; i < gs.size(); i++) for (size_t j = 0; j < gs.size(); j++) if (i != j) for (size_t a = 0; a < rs.size(); a++) for (size_t b = 0; b < rs.size(); b++)
        for (int k = 0; k < 4; k++) {
            if (n++ % stride) continue;
            if (!c.next("graph %zu over rectangle %zu, graph %zu over rectangle %zu, representation %d", i, a, j, b, k)) continue;
            c.guard([&] {
                bool deg = false;
                auto x = crossings(gs[i], rs[a], gs[j], rs[b], deg), y = crossings(gs[j], rs[b], gs[i], rs[a], deg);
                if (deg) { c.tag("an edge lies in the other surface"); return; }
                for (auto& v : {x, y}) for (auto& e : v) if (e.sine < 0.1) { c.tag("grazing edge"); return; }
                int m = (int)(n / stride) % 5;
                std::vector<ref::P3> want;
                for (auto& e : x) if (e.inside) want.push_back(place(m, e.x, e.y, val(gs[i], e.x, e.y)));
                for (auto& e : y) if (e.inside) want.push_back(place(m, e.x, e.y, val(gs[j], e.x, e.y)));
                auto A = mk(surf(gs[i], rs[a], rep(gs[i], k), m)), B = mk(surf(gs[j], rs[b], rep(gs[j], (k * 3 + 1) % 4), m));
                double tol = n % 3 ? 1e-6 : 1e-3;
                run(c, A, B, want, tol, false, mc::fmt("graphs %zu/%zu and %zu/%zu, placed %d", i, a, j, b, m));
            });
        }
    // apart
    for (size_t i = 0; i < gs.size(); i++) for (int m = 0; m < 5; m++) {
        if (!c.next("graph %zu and itself raised, placed %d", i, m)) continue;
        c.guard([&] { G up = gs[i]; up.t.push_back({0.3, 0, 0}); run(c, mk(surf(gs[i], rs[0], rep(gs[i], m % 4), m)), mk(surf(up, rs[1], rep(up, 0), m)), {}, 1e-6, true, mc::fmt("graph %zu raised, placed %d", i, m)); });
    }
    // pairing of all sets of points of a 4x3 grid
    int N = c.thorough ? 6 : 5;
    for (int k = 0; k <= N; k++) {
        int total = 1; for (int i = 0; i < k; i++) total *= 12;
        for (int blk = 0; blk < total; blk += 1728) {
            if (!c.next("pairing of %d points, from %d", k, blk)) continue;
            c.guard([&] {
                for (int s = blk; s < std::min(total, blk + 1728); s++) {
                    std::vector<IntersectionPoint> p; int t = s;
                    for (int i = 0; i < k; i++) { p.emplace_back(vec3(t % 12 % 4, t % 12 / 4 * 1.5, 0.25 * i), 0.1 * i, std::array<double, 2>{0, 0}, i % 4, i % 2 == 0, std::array<std::array<double, 2>, 2>{}); t /= 12; }
                    c.state(mc::mix(s, k)); sorted(c, p, mc::fmt("%d points, set %d", k, s)); if (c.cur_failed) return;
                }
            });
        }
    }
}
