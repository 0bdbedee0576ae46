// Surface evaluation against the tensor-product Cox-de Boor definition.
#include "lib.h"
using namespace br;
typedef ref::ld ld;

struct Grid {          // reference values on a parameter grid, basis values computed once per row and column
    std::vector<double> us, vs;
    std::vector<std::vector<ref::P3>> S;
};
static Grid grid(const ref::Surf& s, int inner, bool sides) {
    Grid g;
    g.us = ref::params(s.U, s.p, inner, sides); g.vs = ref::params(s.V, s.q, inner, sides);
    auto basis = [](const std::vector<double>& U, int p, int n, double t, double hi) {
        std::vector<ld> b(n);
        for (int i = 0; i < n; i++) b[i] = (t >= U[i] && t <= U[i + p + 1]) ? ref::N(U, i, p, t, t >= hi) : 0;
        return b;
    };
    std::vector<std::vector<ld>> bu, bv;
    for (double u : g.us) bu.push_back(basis(s.U, s.p, s.P.size(), u, s.uhi()));
    for (double v : g.vs) bv.push_back(basis(s.V, s.q, s.P[0].size(), v, s.vhi()));
    for (size_t a = 0; a < g.us.size(); a++) {
        g.S.emplace_back();
        for (size_t b = 0; b < g.vs.size(); b++) {
            ref::H h{0, 0, 0, 0};
            for (size_t i = 0; i < s.P.size(); i++) if (bu[a][i] != 0)
                for (size_t j = 0; j < s.P[0].size(); j++) if (bv[b][j] != 0)
                    for (int d = 0; d < 4; d++) h[d] += bu[a][i] * bv[b][j] * s.P[i][j][d];
            g.S[a].push_back({h[0] / h[3], h[1] / h[3], h[2] / h[3]});
        }
    }
    return g;
}

static void compare(mc::Ctx& c, const NURBSSurface& s, const ref::Surf& r, const Grid& g, ld tol, const char* what) {
    vec3 o(7, 8, 9);
    for (size_t a = 0; a < g.us.size(); a++)
        for (size_t b = 0; b < g.vs.size(); b++) {
            c.at(what, g.us[a], g.vs[b]);
            s.evaluate(g.us[a], g.vs[b], o);
            c.trans();
            if (!same(o, g.S[a][b], tol)) { c.fail(std::string("evaluate|") + what, "(%.17g,%.17g) got %s expected %s", g.us[a], g.vs[b], s3(o).c_str(), s3(g.S[a][b]).c_str()); return; }
        }
}

static void knots_case(mc::Ctx& c, int p, int q, const std::vector<double>& U, const std::vector<double>& V, bool all, const char* fam) {
    static std::unique_ptr<NURBSSurface> other;
    for (int kind = 0; kind < 4; kind++)
        for (int wk = 0; wk < ref::kWeights; wk++) {
            if (!all && (kind + wk) % 3) continue;
            ref::Surf r = ref::make_surf(p, q, U, V, kind, wk);
            ld tol = 1e-10L * ref::scale(r);
            NURBSSurface s = mk(r);
            std::string e = invalid(s);
            if (!e.empty()) { c.fail("invalid|ctor", "%s", e.c_str()); continue; }
            uint64_t h = hash(s);
            c.state(h);
            Grid g = grid(r, c.thorough ? 3 : 1, true);
            compare(c, s, r, g, tol, fam);
            // order independence: walk the grid backwards, interleaved with another surface (and a derived copy)
            NURBSSurface cp(s), as;
            as = s;
            if (!other) other.reset(new NURBSSurface(mk(ref::make_surf(3, 1, ref::clamped(3, {2}, 1), ref::clamped(1, {1}, 0), 0, 2))));
            vec3 o, z;
            for (size_t a = g.us.size(); a-- > 0;)
                for (size_t b = g.vs.size(); b-- > 0;) {
                    other->evaluate(0.1, 0.7, z);
                    (b % 2 ? cp : as).evaluate(g.us[a], g.vs[b], o);
                    c.trans();
                    if (!same(o, g.S[a][b], tol)) { c.fail("evaluate|interleaved", "(%.17g,%.17g) got %s expected %s", g.us[a], g.vs[b], s3(o).c_str(), s3(g.S[a][b]).c_str()); a = 0; break; }
                }
            // the control net as the accessors give it
            auto flat = s.control_points_flat(); auto f3 = s.control_points_flat3d(); auto c3 = s.control_points3d();
            size_t nu = r.P.size(), nv = r.P[0].size();
            if (flat.size() != nu * nv || f3.size() != nu * nv || c3.size() != nu || s.shape()[0] != nu || s.shape()[1] != nv) c.fail("accessor|size", "flat %zu flat3d %zu rows %zu for a %zux%zu net", flat.size(), f3.size(), c3.size(), nu, nv);
            else for (size_t i = 0; i < nu; i++) for (size_t j = 0; j < nv; j++) {
                auto& hp = r.P[i][j];
                ref::P3 car{hp[0] / hp[3], hp[1] / hp[3], hp[2] / hp[3]};
                vec4 a = flat[i * nv + j];
                c.trans();
                if (a.x != (double)hp[0] || a.y != (double)hp[1] || a.z != (double)hp[2] || a.w != (double)hp[3]) c.fail("accessor|flat", "entry (%zu,%zu)", i, j);
                if (!same(f3[i * nv + j], car, tol)) c.fail("accessor|flat3d", "entry (%zu,%zu) got %s expected %s", i, j, s3(f3[i * nv + j]).c_str(), s3(car).c_str());
                if (c3[i].size() != nv || !same(c3[i][j], car, tol)) c.fail("accessor|3d", "entry (%zu,%zu)", i, j);
            }
            std::vector<vec3> reuse(3, vec3(9, 9, 9));
            s.control_points_flat3d(reuse);
            if (reuse.size() != nu * nv || !same(reuse.back(), {r.P.back().back()[0] / r.P.back().back()[3], r.P.back().back()[1] / r.P.back().back()[3], r.P.back().back()[2] / r.P.back().back()[3]}, tol)) c.fail("accessor|flat3d-reuse", "%zu entries", reuse.size());
            if (s.knots_u() != U || s.knots_v() != V || s._degree[0] != p || s._degree[1] != q) c.fail("accessor|knots", "knots or degree differ from what was given");
            if (hash(s) != h || hash(cp) != h) c.fail("evaluate|mutates", "a query changed the surface");
        }
}

static std::vector<double> def_knots(int n, int p) {
    std::vector<double> U(p + 1, 0.0);
    for (int i = 1; i < n - p; i++) U.push_back(i);
    for (int i = 0; i <= p; i++) U.push_back(n - p);
    return U;
}
static void ctor_case(mc::Ctx& c, int p, int q, int n, int m, int wk) {
    std::vector<double> U = def_knots(n, p), V = def_knots(m, q), U2 = U, V2 = V;
    for (auto& x : U2) x = -2 + 0.5 * x; for (auto& x : V2) x = 3 * x + 1;
    auto go = [&](const NURBSSurface& s, const ref::Surf& r, const char* what) {
        c.state(hash(s));
        std::string e = invalid(s);
        if (!e.empty()) { c.fail(std::string("invalid|") + what, "%s", e.c_str()); return; }
        if (s._knots_u != r.U || s._knots_v != r.V) { c.fail(std::string("ctor-knots|") + what, "u %s v %s expected u %s v %s", ref::str(s._knots_u).c_str(), ref::str(s._knots_v).c_str(), ref::str(r.U).c_str(), ref::str(r.V).c_str()); return; }
        compare(c, s, r, grid(r, 1, false), 1e-10L * ref::scale(r), what);
    };
    ref::Surf r = ref::make_surf(p, q, U, V, 0, wk), a = r, b = r, d = r;
    a.U = U2; b.V = V2; d.U = U2; d.V = V2;
    std::vector<std::vector<vec4>> c4 = mk(r)._control_points;
    std::vector<std::vector<vec3>> c3(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) c3[i].push_back(vec3(r.P[i][j][0] / r.P[i][j][3], r.P[i][j][1] / r.P[i][j][3], r.P[i][j][2] / r.P[i][j][3]));
    go(NURBSSurface(c4, {p, q}), r, "ctor(vec4)");
    go(NURBSSurface(c4, {p, q}, U2), a, "ctor(vec4,u knots)");
    go(NURBSSurface(c4, {p, q}, {}, V2), b, "ctor(vec4,v knots)");
    go(NURBSSurface(c4, {p, q}, U2, V2), d, "ctor(vec4,knots)");
    if (wk == 0) {
        go(NURBSSurface(c3, {p, q}), r, "ctor(vec3)");
        go(NURBSSurface(c3, {p, q}, U2), a, "ctor(vec3,u knots)");
        go(NURBSSurface(c3, {p, q}, {}, V2), b, "ctor(vec3,v knots)");
        go(NURBSSurface(c3, {p, q}, U2, V2), d, "ctor(vec3,knots)");
    }
    NURBSSurface s(c4, {p, q}, U2, V2);
    s.generate_knots_u();
    go(s, b, "generate_knots_u");
    s.generate_knots_v();
    go(s, r, "generate_knots_v");
}

void mc_explore(mc::Ctx& c) {
    if (c.next("empty nets are refused")) c.guard([&] {
        for (int k = 0; k < 2; k++) {
            bool t = false;
            try { NURBSSurface s(std::vector<std::vector<vec4>>(k), {1, 1}); } catch (const std::invalid_argument&) { t = true; }
            if (!t) c.fail("ctor|empty", "an empty control net was accepted");
            t = false;
            try { NURBSSurface s(std::vector<std::vector<vec3>>(k), {1, 1}); } catch (const std::invalid_argument&) { t = true; }
            if (!t) c.fail("ctor|empty", "an empty control net was accepted (vec3)");
        }
    });
    for (int p = 1; p <= 8; p++)
        for (int q = 1; q <= 8; q++) {
            bool big = p + q > 8;
            auto mu = ref::mult_patterns(p <= 2 && !big ? 2 : 1, p), mv = ref::mult_patterns(q <= 2 && !big ? 2 : 1, q);
            for (auto& m : mu) for (auto& k : mv)
                for (int lay = 0; lay < ref::kLayouts; lay++) {
                    if (!c.thorough && lay != (p + 2 * q + (int)m.size() + (int)k.size() + (m.empty() ? 0 : m[0])) % ref::kLayouts) continue;
                    if (!c.thorough && big && !m.empty() && !k.empty() && m[0] != 1 && m[0] != p && k[0] != 1 && k[0] != q) continue;
                    if (!c.next("degrees %d,%d multiplicities %s %s layout %d", p, q, ref::str(m).c_str(), ref::str(k).c_str(), lay)) continue;
                    c.guard([&] { knots_case(c, p, q, ref::clamped(p, m, lay), ref::clamped(q, k, (lay + 2) % ref::kLayouts), !big, "clamped"); });
                }
            if (p <= 4 && q <= 4)
                for (int ex = 1; ex <= 2; ex++)
                    for (int side = 0; side < 3; side++) {
                        if (!c.next("degrees %d,%d unclamped %d side %d", p, q, ex, side)) continue;
                        std::vector<double> U, V;
                        for (int i = 0; i < 2 * p + 1 + ex; i++) U.push_back(ref::knot_value(1, i, 2 * p + ex));
                        for (int i = 0; i < 2 * q + 1 + ex; i++) V.push_back(ref::knot_value(4, i, 2 * q + ex));
                        if (side == 0) V = ref::clamped(q, {1}, 2);
                        if (side == 1) U = ref::clamped(p, {1}, 2);
                        c.guard([&] { knots_case(c, p, q, U, V, true, "unclamped"); });
                    }
            if (p <= 5 && q <= 5)
                for (int n = p + 1; n <= p + 3; n++) for (int m = q + 1; m <= q + 3; m++) for (int wk = 0; wk < (c.thorough ? 4 : 2); wk++) {
                    if (!c.next("constructors: degrees %d,%d net %dx%d weights %d", p, q, n, m, wk)) continue;
                    c.guard([&] { ctor_case(c, p, q, n, m, wk); });
                }
        }
}
