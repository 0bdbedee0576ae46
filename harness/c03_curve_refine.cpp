// Sequences of shape-preserving operations on curves: breadth-first over the reachable objects.
#include "lib.h"
using namespace br;
typedef ref::ld ld;

struct St { NURBSCurve c; double a, b; int depth; std::string hist; std::map<double, int> mult; bool valid_extra; };

struct Oracle {
    ref::Curve r; ld tol; double dmin, dmax; std::map<double, ref::P3> memo;
    ref::P3 at(double t) {
        t = std::min(std::max(t, dmin), dmax);
        auto it = memo.find(t);
        if (it != memo.end()) return it->second;
        return memo[t] = r.eval(t);
    }
};

static double vlo(const NURBSCurve& c) { return c.knots[c._degree]; }
static double vhi(const NURBSCurve& c) { return c.knots[c.knots.size() - 1 - c._degree]; }

static bool verify(mc::Ctx& c, Oracle& o, const NURBSCurve& k, double a, double b, const char* op, const std::string& hist, const std::vector<double>* expect_knots) {
    std::string e = invalid(k);
    if (!e.empty()) { c.fail(std::string("invalid|") + op, "%s: %s", hist.c_str(), e.c_str()); return false; }
    if (expect_knots) {
        bool ok = k.knots.size() == expect_knots->size();
        for (size_t i = 0; ok && i < k.knots.size(); i++) ok = std::fabs(k.knots[i] - (*expect_knots)[i]) <= 1e-9 * (1 + std::fabs(k.knots[i]));
        if (!ok) { c.fail(std::string("knots|") + op, "%s: knots %s expected %s", hist.c_str(), ref::str(k.knots).c_str(), ref::str(*expect_knots).c_str()); return false; }
    }
    double lo = vlo(k), hi = vhi(k);
    if (!mc::near(a + b * lo, o.dmin, 1e-7) || !mc::near(a + b * hi, o.dmax, 1e-7)) { c.fail(std::string("domain|") + op, "%s: domain [%g,%g] does not map to [%g,%g]", hist.c_str(), lo, hi, o.dmin, o.dmax); return false; }
    bool ok = true;
    for (double t : ref::params(k.knots, k._degree, 2, false)) {
        vec3 v;
        c.at(op, t);
        k.evaluate(t, v);
        c.trans();
        ref::P3 x = o.at(a + b * t);
        if (!same(v, x, o.tol)) { c.fail(std::string("shape|") + op, "%s: at t=%.17g (original %.17g) got %s expected %s", hist.c_str(), t, a + b * t, s3(v).c_str(), s3(x).c_str()); ok = false; break; }
    }
    return ok;
}

static void run(mc::Ctx& c, const ref::Curve& r, bool clampd, int maxdepth, size_t cap) {
    Oracle o; o.r = r; o.tol = 2e-8L * ref::scale(r); o.dmin = r.lo(); o.dmax = r.hi();
    std::unordered_set<uint64_t> seen;
    std::deque<St> q;
    St s0{mk(r), 0, 1, 0, "", {}, true};
    seen.insert(hash(s0.c));
    c.state(hash(s0.c));
    if (!verify(c, o, s0.c, 0, 1, "initial", "", &r.U)) return;
    q.push_back(s0);
    int p = r.p;
    auto push = [&](St&& s) {
        uint64_t h = hash(s.c, mc::hd(s.a));
        c.state(h);
        if (!seen.insert(h).second) return;
        if (s.depth < maxdepth) { if (seen.size() < cap) q.push_back(std::move(s)); else c.tag("states not expanded (cap)"); }
    };
    while (!q.empty()) {
        St s = std::move(q.front()); q.pop_front();
        double lo = vlo(s.c), hi = vhi(s.c);
        const uint64_t h0 = hash(s.c);
        // ---- knot insertion: existing interior knots and points inside spans
        std::vector<double> ts;
        auto D = ref::distinct(s.c.knots);
        for (double x : D) if (x > lo && x < hi) { ts.push_back(x); if (std::fabs(x) < 50) { ts.push_back(x - 3e-13); ts.push_back(x + 3e-13); } }
        for (double f : {0.5, 0.3, 0.8125}) ts.push_back(lo + f * (hi - lo));
        if (c.thorough) for (double f : {0.03125, 0.96875}) ts.push_back(lo + f * (hi - lo));
        for (double t : ts) {
            int s_m = 0; for (double x : s.c.knots) if (std::fabs(x - t) <= 1e-12) s_m++;
            bool nearby = false;       // within 1e-12 of a knot counts as that knot; 1e-12..1e-9 is left out
            double snapped = t;
            for (double x : D) if (x != t && std::fabs(x - t) <= 1e-9) { nearby = true; if (std::fabs(x - t) <= 5e-13) snapped = x; }
            if (nearby && snapped == t) continue;
            if (snapped != t) {
                bool other = false;
                for (double x : D) if (x != snapped && std::fabs(x - snapped) <= 1e-9) other = true;
                if (other || s.depth > 0) continue;
            }
            for (int cnt = 0; cnt <= p - s_m; cnt++) {
                if (p > 4 && cnt > 2 && cnt != p - s_m) continue;
                St n = s;
                n.depth++;
                n.hist = s.hist + mc::fmt(" insert(%.9g x%d)", t, cnt);
                c.at("insert_knot", t, cnt);
                n.c.insert_knot(t, cnt);
                c.trans();
                std::vector<double> ek = s.c.knots;
                for (int i = 0; i < cnt; i++) ek.insert(std::upper_bound(ek.begin(), ek.end(), t), t);
                if (n.c.control_points.size() != s.c.control_points.size() + cnt) c.fail("count|insert_knot", "%s: %zu control points", n.hist.c_str(), n.c.control_points.size());
                else if (verify(c, o, n.c, n.a, n.b, "insert_knot", n.hist, &ek)) push(std::move(n));
            }
        }
        // ---- normalisation of the knot vector
        {
            St n = s;
            n.depth++;
            n.hist += " normalize";
            double k0 = s.c.knots.front(), k1 = s.c.knots.back();
            c.at("normalize_knots");
            n.c.normalize_knots();
            c.trans();
            std::vector<double> ek;
            for (double x : s.c.knots) ek.push_back((x - k0) / (k1 - k0));
            n.a = s.a + s.b * k0; n.b = s.b * (k1 - k0);
            if (verify(c, o, n.c, n.a, n.b, "normalize_knots", n.hist, &ek)) push(std::move(n));
        }
        // ---- copies are independent values: change the copy, the original stays, and the other way round
        {
            c.at("copy");
            NURBSCurve cp(s.c), as(std::vector<vec4>{vec4(1, 2, 3, 1), vec4(4, 5, 6, 1)}, 1), src(s.c);
            as = s.c;
            NURBSCurve mv(std::move(src));
            c.trans(3);
            if (hash(cp) != h0 || hash(as) != h0 || hash(mv) != h0) c.fail("copy|content", "%s: copy, assignment or move changed the curve", s.hist.c_str());
            if (cp._periodic != s.c._periodic || as._periodic != s.c._periodic || mv._periodic != s.c._periodic) c.fail("copy|periodic", "%s", s.hist.c_str());
            for (NURBSCurve* x : {&cp, &as, &mv}) {
                if (x->interval() != s.c.interval()) c.fail("copy|interval", "%s", s.hist.c_str());
                if (!(x->aabb().min == s.c.aabb().min) || !(x->aabb().max == s.c.aabb().max)) c.fail("copy|box", "%s", s.hist.c_str());
                x->insert_knot(lo + 0.4375 * (hi - lo), 1);
                x->control_points[0].x += 1;
            }
            if (hash(s.c) != h0) c.fail("copy|aliasing", "%s: modifying a copy changed the original", s.hist.c_str());
        }
        // ---- refinement helper (clamped curves)
        if (clampd && s.depth < maxdepth) {
            for (int density = 1; density <= 2; density++)
                for (int mode = 0; mode < 3; mode++) {
                    std::vector<double> list, add;
                    if (mode == 1) list = {lo + 0.25 * (hi - lo), lo + 0.75 * (hi - lo)};
                    if (mode == 2) add = {lo + 0.625 * (hi - lo)};
                    std::vector<double> nk = list.empty() ? std::vector<double>(s.c.knots.begin() + p, s.c.knots.end() - p) : list;
                    nk.insert(nk.end(), add.begin(), add.end());
                    std::set<double> st(nk.begin(), nk.end()); nk.assign(st.begin(), st.end());
                    for (int d = 1; d < density; d++) { std::vector<double> r2; for (size_t i = 0; i + 1 < nk.size(); i++) { r2.push_back(nk[i]); r2.push_back(nk[i] + (nk[i + 1] - nk[i]) / 2); } r2.push_back(nk.back()); nk = r2; }
                    std::vector<double> ek = s.c.knots; bool any = false, tight = false;
                    for (size_t i = 1; i < nk.size(); i++) if (nk[i] - nk[i - 1] < 1e-9) tight = true;
                    for (double x : nk) for (double y : D) if (x != y && std::fabs(x - y) < 1e-9) tight = true;
                    if (tight) continue;
                    for (double x : nk) { int m = std::count(ek.begin(), ek.end(), x); for (; m < p; m++) { ek.insert(std::upper_bound(ek.begin(), ek.end(), x), x); any = true; } }
                    std::string hist = s.hist + mc::fmt(" refine(density %d mode %d)", density, mode);
                    c.at("knot_refinement", density, mode);
                    bool threw = false;
                    std::pair<std::vector<vec4>, std::vector<double>> res;
                    try { res = knot_refinement(p, s.c.knots, s.c.control_points, list, add, density, false); } catch (const std::runtime_error&) { threw = true; }
                    c.trans();
                    if (threw != !any) { c.fail("refine|refusal", "%s: %s", hist.c_str(), threw ? "refused although there was something to insert" : "did not refuse an empty refinement"); continue; }
                    if (threw) continue;
                    NURBSCurve n(res.first, p, res.second, false);
                    verify(c, o, n, s.a, s.b, "knot_refinement", hist, &ek);
                    c.state(hash(n));
                }
        }
        if (hash(s.c) != h0) c.fail("source-changed", "%s: a query or copy changed the curve", s.hist.c_str());
    }
}

void mc_explore(mc::Ctx& c) {
    for (int p = 1; p <= 8; p++) {
        int maxk = p <= 3 ? 2 : 1;
        for (auto& m : ref::mult_patterns(maxk, p))
            for (int lay : {1, 2, 3, 4, 5})
                for (int wk = 0; wk < ref::kWeights; wk++) {
                    if (lay >= 3 && wk != 2) continue;
                    int kind = (lay + wk) % ref::kKinds;
                    if (!c.next("degree %d interior multiplicities %s layout %d weights %d net %d", p, ref::str(m).c_str(), lay, wk, kind)) continue;
                    int depth = p <= 3 ? (c.thorough ? 4 : 3) : (c.thorough ? 3 : 2);
                    size_t cap = c.thorough ? 20000 : p <= 2 ? 1500 : 400;
                    c.guard([&] { run(c, ref::make_curve(p, ref::clamped(p, m, lay), kind, wk), true, depth, cap); });
                }
        for (int extra = 1; extra <= 3; extra++)
            for (int lay : {0, 1, 4, 5}) {
                if (!c.next("degree %d unclamped %d spans layout %d", p, extra, lay)) continue;
                std::vector<double> U;
                for (int i = 0; i < 2 * p + 1 + extra; i++) U.push_back(ref::knot_value(lay, i, 2 * p + extra));
                c.guard([&] { run(c, ref::make_curve(p, U, 0, lay ? 2 : 0), false, c.thorough ? 3 : 2, c.thorough ? 3000 : 120); });
            }
    }
}
