// Sequences of knot insertions, splits, subdivisions and decompositions of surfaces: breadth-first over reachable objects.
#include "lib.h"
using namespace br;
typedef ref::ld ld;
using ref::P3;

struct St { NURBSSurface s; int depth; std::string h; };
struct Oracle {
    ref::Surf r; ld tol;
    std::map<double, std::vector<ld>> bu, bv;
    std::map<std::pair<double, double>, P3> memo;
    static std::vector<ld> basis(const std::vector<double>& U, int p, int n, double t) {
        double hi = U[U.size() - 1 - p];
        std::vector<ld> b(n);
        for (int i = 0; i < n; i++) b[i] = (t >= U[i] && t <= U[i + p + 1]) ? ref::N(U, i, p, t, t >= hi) : 0;
        return b;
    }
    P3 at(double u, double v) {
        u = std::min(std::max(u, r.ulo()), r.uhi()); v = std::min(std::max(v, r.vlo()), r.vhi());
        auto it = memo.find({u, v});
        if (it != memo.end()) return it->second;
        if (!bu.count(u)) bu[u] = basis(r.U, r.p, r.P.size(), u);
        if (!bv.count(v)) bv[v] = basis(r.V, r.q, r.P[0].size(), v);
        auto &x = bu[u], &y = bv[v];
        ref::H h{0, 0, 0, 0};
        for (size_t i = 0; i < x.size(); i++) if (x[i] != 0) for (size_t j = 0; j < y.size(); j++) if (y[j] != 0) for (int d = 0; d < 4; d++) h[d] += x[i] * y[j] * r.P[i][j][d];
        return memo[{u, v}] = {h[0] / h[3], h[1] / h[3], h[2] / h[3]};
    }
};
static const char* nm(int d) { return d ? "v" : "u"; }
static const std::vector<double>& kn(const NURBSSurface& s, int d) { return d ? s._knots_v : s._knots_u; }
static double lo(const NURBSSurface& s, int d) { return kn(s, d)[s._degree[d]]; }
static double hi(const NURBSSurface& s, int d) { return kn(s, d)[kn(s, d).size() - 1 - s._degree[d]]; }
static bool knots_are(const std::vector<double>& a, const std::vector<double>& e) {
    if (a.size() != e.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (std::fabs(a[i] - e[i]) > 1e-9 * (1 + std::fabs(e[i]))) return false;
    return true;
}
// shape and structure of an object that must be the original restricted to its domain
static bool shape(mc::Ctx& c, Oracle& o, const NURBSSurface& s, const char* op, const std::string& h) {
    std::string e = invalid(s);
    if (!e.empty()) { c.fail(std::string("invalid|") + op, "%s: %s", h.c_str(), e.c_str()); return false; }
    if (s._degree[0] != o.r.p || s._degree[1] != o.r.q) { c.fail(std::string("degree|") + op, "%s", h.c_str()); return false; }
    vec3 g;
    for (double u : ref::params(s._knots_u, s._degree[0], 1, false)) for (double v : ref::params(s._knots_v, s._degree[1], 1, false)) {
        c.at(op, u, v);
        s.evaluate(u, v, g);
        c.trans();
        P3 x = o.at(u, v);
        if (!same(g, x, o.tol)) { c.fail(std::string("shape|") + op, "%s: at (%.17g,%.17g) got %s expected %s", h.c_str(), u, v, s3(g).c_str(), s3(x).c_str()); return false; }
    }
    return true;
}
static bool domain(const NURBSSurface& s, double u0, double u1, double v0, double v1) {
    return s._interval[0][0] == u0 && s._interval[0][1] == u1 && s._interval[1][0] == v0 && s._interval[1][1] == v1;
}

static void run(mc::Ctx& c, const ref::Surf& r, int maxdepth, size_t cap, bool clampd) {
    Oracle o; o.r = r; o.tol = 2e-8L * ref::scale(r);
    std::deque<St> q; std::unordered_set<uint64_t> seen;
    q.push_back({mk(r), 0, ""});
    seen.insert(hash(q[0].s));
    auto push = [&](NURBSSurface&& s, int depth, const std::string& h) {
        uint64_t k = hash(s);
        c.state(k);
        if (!seen.insert(k).second || depth >= maxdepth) return;
        if (seen.size() < cap) q.push_back({std::move(s), depth, h}); else c.tag("states not expanded (cap)");
    };
    while (!q.empty()) {
        St st = std::move(q.front()); q.pop_front();
        uint64_t h0 = hash(st.s);
        c.state(h0);
        for (int d = 0; d < 2; d++) {
            const auto& U = kn(st.s, d);
            double a = lo(st.s, d), b = hi(st.s, d);
            int p = st.s._degree[d];
            auto D = ref::distinct(U);
            std::vector<double> ts;
            for (double x : D) if (x > a && x < b) { ts.push_back(x); if (st.depth == 0) { ts.push_back(x - 3e-13); ts.push_back(x + 3e-13); } }
            ts.push_back(a + 0.5 * (b - a)); ts.push_back(a + 0.28125 * (b - a));
            if (st.depth == 0) ts.push_back(b - 0.0078125 * (b - a));
            for (double t : ts) {
                bool near = false; double snap = t; int mult = 0;
                for (double x : D) if (x != t && std::fabs(x - t) <= 1e-9) { near = true; if (std::fabs(x - t) <= 5e-13) snap = x; }
                if (near && snap == t) continue;
                for (double x : U) if (std::fabs(x - t) <= 1e-12) mult++;
                // ---- insertion
                for (int cnt = 0; cnt <= p - mult; cnt++) {
                    if (cnt > 2 && cnt != p - mult) continue;
                    if (snap != t && cnt > 1) continue;
                    NURBSSurface n(st.s);
                    std::string h = st.h + mc::fmt(" insert_%s(%.9g x%d)", nm(d), t, cnt);
                    std::string key = mc::fmt("insert_%s", nm(d));
                    c.at("insert", t, cnt, d);
                    if ((cnt + st.depth) % 2) n.insert_knot(t, d, cnt);
                    else if (d) n.insert_knot_v(t, cnt);
                    else n.insert_knot_u(t, cnt);
                    c.trans();
                    std::vector<double> ek = U;
                    for (int i = 0; i < cnt; i++) ek.insert(std::upper_bound(ek.begin(), ek.end(), t), t);
                    if (!knots_are(kn(n, d), ek) || kn(n, 1 - d) != kn(st.s, 1 - d)) { c.fail("knots|" + key, "%s: knots %s expected %s", h.c_str(), ref::str(kn(n, d)).c_str(), ref::str(ek).c_str()); continue; }
                    if (shape(c, o, n, key.c_str(), h)) push(std::move(n), st.depth + 1, h);
                }
                // ---- split
                if (!clampd) continue;
                std::string h = st.h + mc::fmt(" split_%s(%.9g)", nm(d), t), key = mc::fmt("split_%s", nm(d));
                c.at("split", t, d);
                auto pr = d ? st.s.split_surface_v(t) : st.s.split_surface_u(t);
                c.trans();
                double u0 = st.s._interval[0][0], u1 = st.s._interval[0][1], v0 = st.s._interval[1][0], v1 = st.s._interval[1][1];
                double tt = snap;
                if (!(d ? domain(pr.first, u0, u1, v0, tt) && domain(pr.second, u0, u1, tt, v1) : domain(pr.first, u0, tt, v0, v1) && domain(pr.second, tt, u1, v0, v1)))
                    c.fail("domain|" + key, "%s: pieces on [%g,%g]x[%g,%g] and [%g,%g]x[%g,%g]", h.c_str(), pr.first._interval[0][0], pr.first._interval[0][1], pr.first._interval[1][0], pr.first._interval[1][1], pr.second._interval[0][0], pr.second._interval[0][1], pr.second._interval[1][0], pr.second._interval[1][1]);
                std::vector<double> k1, k2;
                for (double x : U) { if (x < tt) k1.push_back(x); if (x > tt) k2.push_back(x); }
                k1.insert(k1.end(), p + 1, tt); k2.insert(k2.begin(), p + 1, tt);
                if (!knots_are(kn(pr.first, d), k1) || !knots_are(kn(pr.second, d), k2)) c.fail("knots|" + key, "%s: %s and %s", h.c_str(), ref::str(kn(pr.first, d)).c_str(), ref::str(kn(pr.second, d)).c_str());
                bool s1 = shape(c, o, pr.first, key.c_str(), h + ".first"), s2 = shape(c, o, pr.second, key.c_str(), h + ".second");
                if (hash(st.s) != h0) c.fail("mutates|" + key, "%s changed the surface", h.c_str());
                if (s1) push(std::move(pr.first), st.depth + 1, h + ".first");
                if (s2) push(std::move(pr.second), st.depth + 1, h + ".second");
            }
            // ---- refusal at and beyond the ends, and within the tolerance of them
            if (clampd && b - a > 1e-3) for (double t : {a, b, a - 0.5 * (b - a), b + 0.5 * (b - a), a + 5e-8, b - 5e-8}) {
                bool threw = false;
                c.at("split-edge", t, d);
                try { d ? st.s.split_surface_v(t) : st.s.split_surface_u(t); } catch (const std::invalid_argument&) { threw = true; }
                c.trans();
                if (!threw) c.fail(mc::fmt("split_%s|edge-accepted", nm(d)), "%s: split at %.17g of [%g,%g] was not refused", st.h.c_str(), t, a, b);
            }
        }
        if (!clampd) continue;
        // ---- subdivision, all four forms, at the middle and at given parameters
        double ui[2] = {st.s._interval[0][0], st.s._interval[0][1]}, vi[2] = {st.s._interval[1][0], st.s._interval[1][1]};
        for (int form = 0; form < 4; form++) {
            double um = (ui[0] + ui[1]) / 2, vm = (vi[0] + vi[1]) / 2;
            if (form % 2) { um = ui[0] + 0.3125 * (ui[1] - ui[0]); vm = vi[0] + 0.6875 * (vi[1] - vi[0]); }
            bool near = false;
            for (int d = 0; d < 2; d++) for (double x : kn(st.s, d)) { double t = d ? vm : um; if (x != t && std::fabs(x - t) < 1e-9) near = true; }
            if (near) continue;
            std::array<NURBSSurface, 4> A;
            c.at("subdivide", form);
            if (form == 0) A = st.s.subdivide();
            else if (form == 1) A = st.s.subdivide(um, vm);
            else {
                // outputs that already hold something else
                for (auto& x : A) x = st.s;
                if (form == 2) st.s.subdivide(A[0], A[1], A[2], A[3]);
                else st.s.subdivide(A[0], A[1], A[2], A[3], um, vm);
            }
            c.trans();
            std::string h = st.h + mc::fmt(" subdivide form %d", form);
            for (int k = 0; k < 4; k++) {
                double u0 = k < 2 ? ui[0] : um, u1 = k < 2 ? um : ui[1], v0 = k % 2 ? vm : vi[0], v1 = k % 2 ? vi[1] : vm;
                if (!domain(A[k], u0, u1, v0, v1)) { c.fail("domain|subdivide", "%s: piece %d on [%g,%g]x[%g,%g], expected [%g,%g]x[%g,%g]", h.c_str(), k, A[k]._interval[0][0], A[k]._interval[0][1], A[k]._interval[1][0], A[k]._interval[1][1], u0, u1, v0, v1); break; }
                if (!shape(c, o, A[k], "subdivide", h + mc::fmt("[%d]", k))) break;
                c.state(hash(A[k]));
                if (form == 0) push(std::move(A[k]), st.depth + 1, h + mc::fmt("[%d]", k));
            }
        }
        // ---- decomposition along one direction and into patches
        auto DU = ref::distinct(st.s._knots_u), DV = ref::distinct(st.s._knots_v);
        for (int mode = 0; mode < 3; mode++) {
            std::vector<NURBSSurface> out(1, st.s);     // must append
            c.at("decompose", mode);
            if (mode == 0) st.s.decompose(SurfaceParameter::U, out);
            else if (mode == 1) st.s.decompose(SurfaceParameter::V, out);
            else st.s.decompose(out);
            c.trans();
            std::string h = st.h + mc::fmt(" decompose(%s)", mode == 0 ? "U" : mode == 1 ? "V" : "both");
            size_t nu = mode == 1 ? 1 : DU.size() - 1, nv = mode == 0 ? 1 : DV.size() - 1;
            if (out.size() != nu * nv + 1 || hash(out[0]) != h0) { c.fail("count|decompose", "%s: %zu pieces, expected %zu", h.c_str(), out.size() - 1, nu * nv); continue; }
            for (size_t i = 0; i < nu; i++) for (size_t j = 0; j < nv; j++) {
                auto& x = out[1 + i * nv + j];
                double u0 = mode == 1 ? ui[0] : DU[i], u1 = mode == 1 ? ui[1] : DU[i + 1], v0 = mode == 0 ? vi[0] : DV[j], v1 = mode == 0 ? vi[1] : DV[j + 1];
                if (!domain(x, u0, u1, v0, v1)) { c.fail("domain|decompose", "%s: piece (%zu,%zu) on [%g,%g]x[%g,%g]", h.c_str(), i, j, x._interval[0][0], x._interval[0][1], x._interval[1][0], x._interval[1][1]); goto out; }
                if ((mode != 1 && (int)x._size[0] != x._degree[0] + 1) || (mode != 0 && (int)x._size[1] != x._degree[1] + 1)) { c.fail("not-bezier|decompose", "%s: piece (%zu,%zu) has %zux%zu points", h.c_str(), i, j, x._size[0], x._size[1]); goto out; }
                if (!shape(c, o, x, "decompose", h)) goto out;
                c.state(hash(x));
            }
            out:;
        }
        // ---- copies are independent
        NURBSSurface cp(st.s), as, src(st.s);
        as = st.s;
        NURBSSurface mv(std::move(src));
        if (hash(cp) != h0 || hash(as) != h0 || hash(mv) != h0 || cp._interval != st.s._interval || as._size != st.s._size) c.fail("copy|content", "%s", st.h.c_str());
        for (auto* x : {&cp, &as, &mv}) { x->insert_knot_u(ui[0] + 0.40625 * (ui[1] - ui[0]), 1); x->_control_points[0][0].x += 1; }
        if (hash(st.s) != h0) c.fail("copy|aliasing", "%s: changing a copy (or a query) changed the surface", st.h.c_str());
    }
}

void mc_explore(mc::Ctx& c) {
    for (int p = 1; p <= (c.thorough ? 7 : 5); p++)
        for (int q = 1; q <= (c.thorough ? 7 : 5); q++) {
            if (p + q > (c.thorough ? 9 : 7)) continue;
            bool small = p + q <= 4;
            auto mu = ref::mult_patterns(small ? 2 : 1, p), mv = ref::mult_patterns(1, q);
            for (auto& m : mu) for (auto& k : mv) {
                int i = p + 2 * q + m.size() + 2 * k.size() + (m.empty() ? 0 : m[0]);
                for (int rep = 0; rep < (c.thorough ? 4 : 1); rep++) {
                    int lay = (i + rep) % 3 == 0 ? 1 : (i + rep) % 3 == 1 ? 2 : 4, wk = (i + rep) % 4, kind = (i / 2 + rep) % 4;
                    if (!c.next("degrees %d,%d multiplicities %s %s layout %d net %d weights %d", p, q, ref::str(m).c_str(), ref::str(k).c_str(), lay, kind, wk)) continue;
                    int depth = small ? 2 : c.thorough && p + q <= 6 ? 2 : 1;
                    if (c.thorough && small) depth = 3;
                    c.guard([&] { run(c, ref::make_surf(p, q, ref::clamped(p, m, lay), ref::clamped(q, k, (i / 2 + rep) % 2 ? lay : lay == 1 ? 2 : 1), kind, wk), depth, 2500, true); });   // the same values in both directions, or others
                }
            }
            if (p <= 3 && q <= 3)
                for (int side = 0; side < 3; side++) {
                    if (!c.next("degrees %d,%d unclamped side %d", p, q, side)) continue;
                    std::vector<double> U, V;
                    for (int i = 0; i < 2 * p + 3; i++) U.push_back(ref::knot_value(1, i, 2 * p + 2));
                    for (int i = 0; i < 2 * q + 3; i++) V.push_back(ref::knot_value(4, i, 2 * q + 2));
                    if (side == 0) V = ref::clamped(q, {1}, 2);
                    if (side == 1) U = ref::clamped(p, {1}, 2);
                    c.guard([&] { run(c, ref::make_surf(p, q, U, V, 0, side), 2, 300, false); });
                }
        }
}
