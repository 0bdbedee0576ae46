// Curve evaluation against the Cox-de Boor definition.
#include "lib.h"
using namespace br;

static void check_at(mc::Ctx& c, const NURBSCurve& crv, const ref::Curve& r, double t, const char* what, vec3& scratch, ref::ld tol) {
    c.at(what, t);
    ref::P3 e = r.eval(t);
    crv.evaluate(t, scratch);
    c.trans();
    if (!same(scratch, e, tol)) c.fail(std::string("evaluate|") + what, "t=%.17g got %s expected %s", t, s3(scratch).c_str(), s3(e).c_str());
    vec3 o = crv(t);
    if (!same(o, e, tol)) c.fail(std::string("operator()|") + what, "t=%.17g got %s expected %s", t, s3(o).c_str(), s3(e).c_str());
}

static void knots_case(mc::Ctx& c, int p, const std::vector<double>& U, const char* fam) {
    int inner = c.thorough ? 4 : 2;
    for (int kind = 0; kind < ref::kKinds; kind++)
        for (int wk = 0; wk < ref::kWeights; wk++) {
            ref::Curve r = ref::make_curve(p, U, kind, wk);
            ref::ld tol = 1e-10L * ref::scale(r);
            NURBSCurve crv = mk(r);
            c.state(hash(crv));
            vec3 s(7, 8, 9);           // stale content must not leak into the result
            auto ts = ref::params(U, p, inner, true);
            for (double t : ts) check_at(c, crv, r, t, fam, s, tol);
            // the three-argument operator returns its out-parameter
            vec3 q(1, 1, 1);
            vec3& back = crv(ts[0], q);
            if (&back != &q || !same(q, r.eval(ts[0]), tol)) c.fail("operator()-ref", "result reference wrong");
            // affine invariance / convex hull: bounded by the net
            for (double t : ts) {
                crv.evaluate(t, s);
                for (int d = 0; d < 3; d++) {
                    double lo = 1e300, hi = -1e300;
                    for (auto& h : r.P) { lo = std::min(lo, (double)(h[d] / h[3])); hi = std::max(hi, (double)(h[d] / h[3])); }
                    c.trans();
                    double v = d == 0 ? s.x : d == 1 ? s.y : s.z;
                    if (!(v >= lo - (double)tol && v <= hi + (double)tol)) c.fail("convex-hull", "t=%.17g coordinate %d = %.17g outside [%g,%g]", t, d, v, lo, hi);
                }
            }
            // order independence: descending order, alternating with a curve of another degree
            ref::Curve r2 = ref::make_curve(p == 1 ? 4 : 1, ref::clamped(p == 1 ? 4 : 1, {1}, 0), 0, 0);
            NURBSCurve o = mk(r2);
            for (size_t i = ts.size(); i-- > 0;) {
                vec3 z;
                o.evaluate(0.25, z);
                check_at(c, crv, r, ts[i], "interleaved", s, tol);
                if (!same(z, r2.eval(0.25), 1e-10L)) c.fail("interleaved-other", "second curve disturbed");
            }
        }
}

// reference for the constructors that generate their own knots
static void ctor_case(mc::Ctx& c, int n, int p, int kind, int wk) {
    std::vector<vec3> p3; std::vector<vec4> p4;
    ref::Curve r; r.p = p;
    for (int i = 0; i < n; i++) {
        double w = ref::wv(wk, i), x = ref::cv(kind, i, 0), y = ref::cv(kind, i, 1), z = ref::cv(kind, i, 2);
        p3.push_back(vec3(x, y, z)); p4.push_back(vec4(x * w, y * w, z * w, w));
        r.P.push_back({(ref::ld)x * w, (ref::ld)y * w, (ref::ld)z * w, w});
    }
    for (int i = 0; i <= p; i++) r.U.push_back(0);
    for (int i = 1; i < n - p; i++) r.U.push_back(i);
    for (int i = 0; i <= p; i++) r.U.push_back(n - p);
    ref::ld tol = 1e-10L * ref::scale(r);
    auto cmp = [&](const NURBSCurve& k, const ref::Curve& rr, const char* what) {
        c.state(hash(k));
        if (k._degree != rr.p) { c.fail(std::string("ctor-degree|") + what, "degree %d expected %d", k._degree, rr.p); return; }
        if (k.knots != rr.U) { c.fail(std::string("ctor-knots|") + what, "knots %s expected %s", ref::str(k.knots).c_str(), ref::str(rr.U).c_str()); return; }
        std::string e = invalid(k);
        if (!e.empty()) { c.fail(std::string("ctor-invalid|") + what, "%s", e.c_str()); return; }
        vec3 s;
        for (double t : ref::params(rr.U, rr.p, 3, false)) check_at(c, k, rr, t, what, s, tol);
    };
    cmp(NURBSCurve(p4, p), r, "ctor(vec4,degree)");
    cmp(NURBSCurve(p4, p, false), r, "ctor(vec4,degree,open)");
    cmp(NURBSCurve(p4, p, r.U, false), r, "ctor(vec4,degree,knots)");
    if (wk == 0) { cmp(NURBSCurve(p3, p), r, "ctor(vec3,degree)"); cmp(NURBSCurve(p3, p, false), r, "ctor(vec3,degree,open)"); }
    if (p == (n >= 4 ? 3 : 1)) { cmp(NURBSCurve(p4), r, "ctor(vec4)"); cmp(NURBSCurve(p4, false), r, "ctor(vec4,open)"); }
    NURBSCurve blank(n, p, false);
    blank.control_points = p4;
    cmp(blank, r, "ctor(size,degree)");
    // replacing the control points keeps / regenerates the knots
    NURBSCurve set(p4, p);
    std::vector<vec4> rev(p4.rbegin(), p4.rend());
    set.set_control_points(rev);
    ref::Curve rv = r; std::reverse(rv.P.begin(), rv.P.end());
    cmp(set, rv, "set_control_points");
    if (n > p + 1) {
        std::vector<vec4> fewer(p4.begin(), p4.end() - 1);
        set.set_control_points(fewer);
        ref::Curve rf = r; rf.P.pop_back(); rf.U.clear();
        for (int i = 0; i <= p; i++) rf.U.push_back(0);
        for (int i = 1; i < n - 1 - p; i++) rf.U.push_back(i);
        for (int i = 0; i <= p; i++) rf.U.push_back(n - 1 - p);
        cmp(set, rf, "set_control_points(fewer)");
    }
    // a periodic curve closes and follows the wrapped uniform definition
    if (n > p) {
        NURBSCurve per(p4, p, true);
        ref::Curve rp = r; rp.U.clear();
        // a net whose ends already coincide is taken as wrapped
        bool wrapped = true;
        for (int j = 0; j < p; j++) for (int d = 0; d < 4; d++) if (r.P[j][d] != r.P[n - p + j][d]) wrapped = false;
        if (!wrapped) for (int i = 0; i < p; i++) rp.P.push_back(r.P[i]);
        for (size_t i = 0; i < rp.P.size() + p + 1; i++) rp.U.push_back((double)i - p);
        c.at("periodic ctor");
        if (per.control_points.size() != rp.P.size() || per.knots != rp.U) c.fail("periodic-shape", "n=%d p=%d: %zu control points, knots %s", n, p, per.control_points.size(), ref::str(per.knots).c_str());
        else if (rp.hi() > rp.lo()) {
            vec3 s;
            for (double t : ref::params(rp.U, p, 3, false)) check_at(c, per, rp, t, "periodic", s, tol);
            vec3 a = per(rp.lo()), b = per(rp.hi());
            if (!((a - b).length() <= 1e-6 * (double)ref::scale(rp))) c.fail("periodic-closed", "ends differ: %s %s", s3(a).c_str(), s3(b).c_str());
            if (!per.is_periodic()) c.fail("periodic-flag", "is_periodic false after periodic construction");
        }
    }
}

void mc_explore(mc::Ctx& c) {
    for (int p = 1; p <= 8; p++) {
        int maxk = p <= 2 ? (c.thorough ? 5 : 4) : p <= 3 ? (c.thorough ? 4 : 3) : p <= 5 ? (c.thorough ? 3 : 2) : (c.thorough ? 2 : 2);
        for (auto& m : ref::mult_patterns(maxk, p)) {
            for (int lay = 0; lay < ref::kLayouts; lay++) {
                if (!c.thorough && p >= 3 && m.size() >= 2 && (lay == 3 || lay == 0) ) continue;
                if (!c.next("degree %d interior multiplicities %s layout %d", p, ref::str(m).c_str(), lay)) continue;
                c.guard([&] { knots_case(c, p, ref::clamped(p, m, lay), "clamped"); });
            }
        }
        // unclamped knot vectors: valid domain [U_p, U_n]
        for (int extra = 1; extra <= 4; extra++)
            for (int lay = 0; lay < ref::kLayouts; lay++) {
                if (!c.next("degree %d unclamped, %d spans, layout %d", p, extra, lay)) continue;
                c.guard([&] {
                    int nk = 2 * p + 1 + extra;
                    std::vector<double> U;
                    for (int i = 0; i < nk; i++) U.push_back(ref::knot_value(lay, i, nk - 1));
                    knots_case(c, p, U, "unclamped");
                });
            }
        for (int n = p + 1; n <= p + 6; n++)
            for (int kind = 0; kind < ref::kKinds; kind++)
                for (int wk = 0; wk < ref::kWeights; wk++) {
                    if (!c.next("constructors: %d points degree %d net %d weights %d", n, p, kind, wk)) continue;
                    c.guard([&] { ctor_case(c, n, p, kind, wk); });
                }
    }
}
