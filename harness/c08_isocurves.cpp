// Isocurves and boundary curves lie on the surface, through the member functions and the free ones.
#include "lib.h"
#include "cmmcore/boundary_intersection.h"
using namespace br;
typedef ref::ld ld;
using ref::P3;

static void same_curve(mc::Ctx& c, const NURBSCurve& k, const ref::Surf& r, bool fixu, double t, const char* api, const std::vector<double>& ks, int deg) {
    std::string key = std::string(api) + (fixu ? "|U" : "|V");
    ld tol = 1e-9L * ref::scale(r);
    c.state(hash(k));
    std::string e = invalid(k);
    if (!e.empty()) { c.fail("invalid|" + key, "at %.17g: %s", t, e.c_str()); return; }
    if (k._degree != deg || k.knots != ks) { c.fail("structure|" + key, "at %.17g: degree %d knots %s, the surface has degree %d knots %s", t, k._degree, ref::str(k.knots).c_str(), deg, ref::str(ks).c_str()); return; }
    const auto& other = fixu ? r.V : r.U; int op = fixu ? r.q : r.p;
    for (double x : ref::params(other, op, 2, true)) {
        vec3 g(3, 3, 3);
        c.at(api, t, x);
        k.evaluate(x, g);
        c.trans();
        P3 w = fixu ? r.eval(t, x) : r.eval(x, t);
        if (!same(g, w, tol)) { c.fail("off-surface|" + key, "isocurve at %.17g, parameter %.17g: got %s expected %s", t, x, s3(g).c_str(), s3(w).c_str()); return; }
        if (!(g.x >= k.aabb().min.x - tol && g.y >= k.aabb().min.y - tol && g.z >= k.aabb().min.z - tol && g.x <= k.aabb().max.x + tol && g.y <= k.aabb().max.y + tol && g.z <= k.aabb().max.z + tol)) { c.fail("box|" + key, "isocurve at %.17g: its box does not contain its point at %.17g", t, x); return; }
    }
}

static void one(mc::Ctx& c, int p, int q, const std::vector<double>& U, const std::vector<double>& V, int kind, int wk, bool clampd) {
    ref::Surf r = ref::make_surf(p, q, U, V, kind, wk);
    NURBSSurface s = mk(r);
    uint64_t h0 = hash(s);
    for (int fixu = 0; fixu < 2; fixu++) {
        SurfaceParameter dir = fixu ? SurfaceParameter::U : SurfaceParameter::V;
        const auto &K = fixu ? U : V, &O = fixu ? V : U;
        int deg = fixu ? q : p;
        for (double t : ref::params(K, fixu ? p : q, c.thorough ? 3 : 1, true)) {
            c.at("extract_isocurve", t);
            same_curve(c, s.extract_isocurve(t, dir), r, fixu, t, "member", O, deg);
            same_curve(c, cmmcore::extract_isocurve(s, t, dir), r, fixu, t, "free", O, deg);
            c.trans(2);
        }
        for (double t : {K.front() - 0.25, K.back() + 0.25, std::nextafter(K.front(), -1e9), std::nextafter(K.back(), 1e9)}) {
            for (int api = 0; api < 2; api++) {
                bool threw = false;
                c.at("extract_isocurve-outside", t);
                try { if (api) cmmcore::extract_isocurve(s, t, dir); else s.extract_isocurve(t, dir); } catch (const std::invalid_argument&) { threw = true; }
                c.trans();
                if (!threw) c.fail("outside-accepted", "parameter %.17g outside [%g,%g] accepted", t, K.front(), K.back());
            }
        }
    }
    if (clampd) for (int api = 0; api < 2; api++) {
        std::array<NURBSCurve, 4> b;
        for (auto& x : b) x = NURBSCurve(std::vector<vec4>{vec4(9, 9, 9, 1), vec4(8, 8, 8, 1), vec4(1, 1, 1, 1)}, 2);     // previous content
        c.at("extract_surface_boundaries", api);
        if (api) cmmcore::extract_surface_boundaries(s, b); else s.extract_surface_boundaries(b);
        c.trans();
        const char* n = api ? "free boundaries" : "member boundaries";
        same_curve(c, b[0], r, true, U.front(), n, V, q);
        same_curve(c, b[1], r, true, U.back(), n, V, q);
        same_curve(c, b[2], r, false, V.front(), n, U, p);
        same_curve(c, b[3], r, false, V.back(), n, U, p);
    }
    if (hash(s) != h0) c.fail("mutates", "extracting a curve changed the surface");
}

void mc_explore(mc::Ctx& c) {
    for (int p = 1; p <= 8; p++)
        for (int q = 1; q <= 8; q++) {
            if (!c.thorough && p + q > 9) continue;
            bool small = p + q <= 5;
            auto mu = ref::mult_patterns(small ? 2 : 1, p), mv = ref::mult_patterns(1, q);
            for (auto& m : mu) for (auto& k : mv) {
                if (!small && !m.empty() && !k.empty() && m[0] != 1 && m[0] != p && k[0] != 1 && k[0] != q) continue;
                int i = p + 3 * q + m.size() + 2 * k.size() + (m.empty() ? 0 : m[0]);
                for (int rep = 0; rep < (c.thorough ? 8 : small ? 4 : 2); rep++) {
                    int lay = (i + rep) % ref::kLayouts, wk = (i + rep) % 4, kind = (i / 2 + rep) % 4;
                    if (!c.next("degrees %d,%d multiplicities %s %s layout %d net %d weights %d", p, q, ref::str(m).c_str(), ref::str(k).c_str(), lay, kind, wk)) continue;
                    c.guard([&] { one(c, p, q, ref::clamped(p, m, lay), ref::clamped(q, k, (lay + 1) % ref::kLayouts), kind, wk, true); });
                }
            }
            if (p <= 4 && q <= 4) for (int side = 0; side < 3; side++) {
                if (!c.next("degrees %d,%d unclamped side %d", p, q, side)) continue;
                std::vector<double> U, V;
                for (int i = 0; i < 2 * p + 3; i++) U.push_back(ref::knot_value(1, i, 2 * p + 2));
                for (int i = 0; i < 2 * q + 3; i++) V.push_back(ref::knot_value(4, i, 2 * q + 2));
                if (side == 0) V = ref::clamped(q, {1}, 2);
                if (side == 1) U = ref::clamped(p, {1}, 2);
                c.guard([&] { one(c, p, q, U, V, 0, side, false); });
            }
        }
}
