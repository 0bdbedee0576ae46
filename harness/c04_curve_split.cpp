// Splitting, decomposing and joining curves: breadth-first over nested splits.
#include "lib.h"
using namespace br;
typedef ref::ld ld;

struct St { NURBSCurve c; double a, b; int depth; std::string hist; };
static double vlo(const NURBSCurve& c) { return c.knots[c._degree]; }
static double vhi(const NURBSCurve& c) { return c.knots[c.knots.size() - 1 - c._degree]; }

struct Oracle {
    ref::Curve r; ld tol;
    // a parameter that is a break between pieces may be approached from either side; the curve is continuous
    ref::P3 at(double t) { t = std::min(std::max(t, r.lo()), r.hi()); return r.eval(t); }
};
static bool shape(mc::Ctx& c, Oracle& o, const NURBSCurve& k, double a, double b, const char* op, const std::string& hist) {
    std::string e = invalid(k);
    if (!e.empty()) { c.fail(std::string("invalid|") + op, "%s: %s", hist.c_str(), e.c_str()); return false; }
    for (double t : ref::params(k.knots, k._degree, 2, false)) {
        vec3 v; c.at(op, t); k.evaluate(t, v); c.trans();
        ref::P3 x = o.at(a + b * t);
        if (!same(v, x, o.tol)) { c.fail(std::string("shape|") + op, "%s: at %.17g (original %.17g) got %s expected %s", hist.c_str(), t, a + b * t, s3(v).c_str(), s3(x).c_str()); return false; }
    }
    return true;
}
static std::map<double, int> mults(const std::vector<double>& U) { std::map<double, int> m; for (double x : U) m[x]++; return m; }

static void run(mc::Ctx& c, const ref::Curve& r, int maxdepth, size_t cap, bool clampd) {
    Oracle o{r, 2e-8L * ref::scale(r)};
    std::deque<St> q; std::unordered_set<uint64_t> seen;
    q.push_back({mk(r), 0, 1, 0, ""});
    int p = r.p;
    while (!q.empty()) {
        St s = std::move(q.front()); q.pop_front();
        uint64_t h0 = hash(s.c);
        c.state(h0);
        double lo = vlo(s.c), hi = vhi(s.c), len = hi - lo;
        auto D = ref::distinct(s.c.knots);
        // ---- decomposition into Bezier pieces
        if (clampd) {
            std::vector<NURBSCurve> bz;
            c.at("decompose");
            s.c.decompose(bz);
            c.trans();
            if (bz.size() != D.size() - 1) c.fail("decompose|count", "%s: %zu pieces for %zu spans", s.hist.c_str(), bz.size(), D.size() - 1);
            else for (size_t i = 0; i < bz.size(); i++) {
                std::string hist = s.hist + mc::fmt(" decompose[%zu]", i);
                if ((int)bz[i].control_points.size() != p + 1 || bz[i]._degree != p) { c.fail("decompose|not-bezier", "%s: %zu control points degree %d", hist.c_str(), bz[i].control_points.size(), bz[i]._degree); break; }
                if (bz[i].interval()[0] != D[i] || bz[i].interval()[1] != D[i + 1]) { c.fail("decompose|domain", "%s: [%g,%g] expected [%g,%g]", hist.c_str(), bz[i].interval()[0], bz[i].interval()[1], D[i], D[i + 1]); break; }
                if (!shape(c, o, bz[i], s.a, s.b, "decompose", hist)) break;
                c.state(hash(bz[i]));
            }
            // appending to a vector that already has content must keep it
            std::vector<NURBSCurve> more(1, s.c);
            s.c.decompose(more);
            if (more.size() != bz.size() + 1 || hash(more[0]) != h0) c.fail("decompose|append", "%s", s.hist.c_str());
        }
        // ---- refusal at and beyond the ends
        if (clampd) for (double t : {lo, hi, lo - 0.5 * len, hi + 0.5 * len, lo + 1e-13, hi - 1e-13}) {
            bool threw = false;
            c.at("split-edge", t);
            try { s.c.split(t); } catch (const std::invalid_argument&) { threw = true; }
            c.trans();
            if (!threw) c.fail("split|edge-accepted", "%s: split(%.17g) on [%g,%g] did not refuse", s.hist.c_str(), t, lo, hi);
        }
        if (s.depth < maxdepth) {
            std::vector<double> ts;
            for (double x : D) if (x > lo && x < hi) { ts.push_back(x); if (s.depth == 0 && std::fabs(x) < 50) { ts.push_back(x - 3e-13); ts.push_back(x + 3e-13); } }
            for (double f : {0.5, 0.3}) ts.push_back(lo + f * len);
            if (s.depth == 0 || c.thorough) { ts.push_back(lo + 0.0078125 * len); ts.push_back(hi - 0.0078125 * len); }
            for (double t : ts) {
                double sn = t; bool close = false;
                for (double x : D) if (x != t && std::fabs(x - t) < 1e-9) { close = true; if (std::fabs(x - t) <= 5e-13) sn = x; }
                if (close && sn == t) continue;
                for (int norm = 0; norm < 2; norm++) {
                    std::string hist = s.hist + mc::fmt(" split(%.17g%s)", t, norm ? ",normalize" : "");
                    c.at("split", t, norm);
                    auto pr = norm ? s.c.split(t, true) : s.c.split(t);
                    c.trans();
                    if (hash(s.c) != h0) { c.fail("split|source-changed", "%s", hist.c_str()); return; }
                    NURBSCurve* two[2] = {&pr.first, &pr.second};
                    for (int k = 0; k < 2; k++) {
                        NURBSCurve& x = *two[k];
                        std::string hk = hist + (k ? ".second" : ".first");
                        double klo = k ? sn : s.c.knots.front(), khi = k ? s.c.knots.back() : sn;   // knot range before normalisation
                        double a = s.a, b = s.b;
                        if (norm) { a = s.a + s.b * klo; b = s.b * (khi - klo); }
                        std::string e = invalid(x);
                        if (!e.empty()) { c.fail("split|invalid", "%s: %s", hk.c_str(), e.c_str()); continue; }
                        if (x._degree != p) { c.fail("split|degree", "%s", hk.c_str()); continue; }
                        double el = norm ? 0 : klo, eh = norm ? 1 : khi;
                        if (!mc::near(x.interval()[0], el, 1e-9) || !mc::near(x.interval()[1], eh, 1e-9)) { c.fail("split|domain", "%s: [%.12g,%.12g] expected [%.12g,%.12g]", hk.c_str(), x.interval()[0], x.interval()[1], el, eh); continue; }
                        // knots of the piece: those of the source on that side, with the cut at full multiplicity
                        std::vector<double> ek;
                        for (double y : s.c.knots) if (k ? y > sn : y < sn) ek.push_back(y);
                        ek.insert(k ? ek.begin() : ek.end(), p + 1, sn);
                        bool ok = ek.size() == x.knots.size();
                        for (size_t i = 0; ok && i < ek.size(); i++) ok = std::fabs((norm ? (ek[i] - klo) / (khi - klo) : ek[i]) - x.knots[i]) < 1e-9;
                        if (!ok) { c.fail("split|knots", "%s: %s expected (before normalising) %s", hk.c_str(), ref::str(x.knots).c_str(), ref::str(ek).c_str()); continue; }
                        if (!shape(c, o, x, a, b, "split", hk)) continue;
                        // the cut end interpolates
                        auto& cp = k ? x.control_points.front() : x.control_points.back();
                        ref::P3 px = o.at(s.a + s.b * sn);
                        if (!same(cp.to_vec3(), px, o.tol)) c.fail("split|cut-point", "%s: end control point %s is not the curve point %s", hk.c_str(), s3(cp.to_vec3()).c_str(), s3(px).c_str());
                        // box rebuilt for the piece
                        AABB bb = x.aabb(); AABB fresh = x.bbox();
                        if (!(bb.min == fresh.min) || !(bb.max == fresh.max)) c.fail("split|box", "%s: stored box differs from the box of the piece", hk.c_str());
                        uint64_t hh = hash(x, mc::hd(a));
                        c.state(hh);
                        if (seen.insert(hh).second && s.depth + 1 < maxdepth) { if (seen.size() < cap) q.push_back({x, a, b, s.depth + 1, hk}); else c.tag("states not expanded (cap)"); }
                    }
                    // joining the two halves again: accepted, runs from the free start to the free end
                    if (clampd) {
                        vec3 s0 = pr.first(pr.first.interval()[0]), e1 = pr.second(pr.second.interval()[1]);
                        bool loop = (s0 - e1).length() < 1e-3;
                        NURBSCurve out;
                        c.at("join");
                        if (!loop && !pr.first.is_periodic() && !pr.second.is_periodic()) {
                            bool far = std::max({std::fabs(pr.first.control_points.back().x), std::fabs(pr.first.control_points.back().y), std::fabs(pr.first.control_points.back().z)}) > 100 * pr.first.control_points.back().w;
                            bool j = pr.first.join(pr.second, out);
                            c.trans();
                            if (!j) { if (!far) c.fail("join|refused", "%s", hist.c_str()); }
                            else {
                                std::string e = invalid(out);
                                if (!e.empty()) c.fail("join|invalid", "%s: %s", hist.c_str(), e.c_str());
                                else {
                                    vec3 js = out(vlo(out)), je = out(vhi(out));
                                    bool ok = (same(js, {s0.x, s0.y, s0.z}, o.tol) && same(je, {e1.x, e1.y, e1.z}, o.tol)) || (same(je, {s0.x, s0.y, s0.z}, o.tol) && same(js, {e1.x, e1.y, e1.z}, o.tol));
                                    if (!ok) c.fail("join|ends", "%s: joined curve runs %s -> %s", hist.c_str(), s3(js).c_str(), s3(je).c_str());
                                    if (out.control_points.size() != pr.first.control_points.size() + pr.second.control_points.size() || out._degree != p) c.fail("join|control-points", "%s", hist.c_str());
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

// every way two open curves can share an end or both ends, with equal and with different weights
static void join_case(mc::Ctx& c, int p, int n1, int n2, int which, int wk) {
    auto wt = [&](int i, int s) { return wk == 0 ? 1.0 : wk == 1 ? 1.0 + ((i + s) % 3) * 0.5 : (i + s) % 2 ? 0.25 : 4.0; };
    auto curve = [&](int n, int seed) {
        std::vector<vec4> cp;
        for (int i = 0; i < n; i++) { double w = wt(i, seed); cp.push_back(vec4(ref::cv(0, i + seed, 0) * w, ref::cv(0, i + seed, 1) * w, (seed + i * 0.5) * w, w)); }
        return cp;
    };
    auto A = curve(n1, 0), B = curve(n2, 4);
    // which: 0 end-start 1 start-start 2 end-end 3 start-end 4 no contact 5 a ring, head to tail 6 a ring, the second one backwards
    for (auto& v : B) v.x += 50 * v.w;
    auto at = [&](const vec4& q, int i) { double w = wt(i, 4), x = q.x / q.w, y = q.y / q.w, z = q.z / q.w; return vec4(x * w, y * w, z * w, w); };
    if (which == 0 || which == 5) B.front() = at(A.back(), 0);
    if (which == 1 || which == 6) B.front() = at(A.front(), 0);
    if (which == 2 || which == 6) B.back() = at(A.back(), n2 - 1);
    if (which == 3 || which == 5) B.back() = at(A.front(), n2 - 1);
    NURBSCurve a(A, p), b(B, p), out;
    std::vector<vec4> e;
    if (which == 0 || which == 5) { e = A; e.insert(e.end(), B.begin(), B.end()); }
    if (which == 1 || which == 6) { e.assign(A.rbegin(), A.rend()); e.insert(e.end(), B.begin(), B.end()); }
    if (which == 2) { e = A; e.insert(e.end(), B.rbegin(), B.rend()); }
    if (which == 3) { e.assign(A.rbegin(), A.rend()); e.insert(e.end(), B.rbegin(), B.rend()); }
    c.at("join", which);
    bool j = a.join(b, out);
    c.trans();
    c.state(mc::mix(hash(a), mc::mix(hash(b), which * 8 + wk)));
    if (j != (which != 4)) { c.fail("join|answer", "case %d: returned %d", which, j); return; }
    if (!j) return;
    auto same_seq = [&](const std::vector<vec4>& x, const std::vector<vec4>& y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) for (int d = 0; d < 4; d++) if (x[i][d] != y[i][d]) return false; return true; };
    std::vector<vec4> er(e.rbegin(), e.rend());
    // a ring is reported closed, an open chain is not
    if (out.is_periodic() != (which >= 5)) { c.fail("join|closed", "case %d weights %d: the result is reported %s", which, wk, out.is_periodic() ? "closed" : "open"); return; }
    if (out.knots.size() != out.control_points.size() + p + 1) { c.fail("join|knots", "case %d weights %d: %zu knots for %zu control points of degree %d", which, wk, out.knots.size(), out.control_points.size(), p); return; }
    if (out.control_points.size() == e.size() + p) { // closing a ring may repeat the first control points at the end
        std::vector<vec4> head(out.control_points.begin(), out.control_points.begin() + p), tail(out.control_points.end() - p, out.control_points.end());
        if (which < 5 || !same_seq(head, tail)) { c.fail("join|order", "case %d weights %d: the extra control points do not repeat the first ones", which, wk); return; }
        out.control_points.resize(e.size());
    }
    bool same = same_seq(out.control_points, e) || same_seq(out.control_points, er);
    if (which >= 5 && !same) { // the other way round the ring is as good
        std::vector<vec4> f; if (which == 5) { f = B; f.insert(f.end(), A.begin(), A.end()); } else { f.assign(B.rbegin(), B.rend()); f.insert(f.end(), A.begin(), A.end()); }
        std::vector<vec4> g; if (which == 6) { g = A; g.insert(g.end(), B.rbegin(), B.rend()); } else { g.assign(A.rbegin(), A.rend()); g.insert(g.end(), B.rbegin(), B.rend()); }
        for (auto* v : {&f, &g}) { std::vector<vec4> r(v->rbegin(), v->rend()); same = same || same_seq(out.control_points, *v) || same_seq(out.control_points, r); }
    }
    if (!same) c.fail("join|order", "case %d weights %d: control points are not the two nets head to tail", which, wk);
    if (hash(a) != hash(NURBSCurve(A, p)) || hash(b) != hash(NURBSCurve(B, p))) c.fail("join|source-changed", "case %d", which);
}

void mc_explore(mc::Ctx& c) {
    for (int p = 1; p <= 8; p++) {
        int maxk = p <= 2 ? 3 : p <= 3 ? 2 : 1;
        for (auto& m : ref::mult_patterns(maxk, p))
            for (int lay : {0, 1, 2, 4, 5})
                for (int wk = 0; wk < ref::kWeights; wk++) {
                    if (lay != 1 && wk != (lay + p) % 4) continue;
                    int kind = (lay + wk + p) % ref::kKinds;
                    if (!c.next("degree %d interior multiplicities %s layout %d weights %d net %d", p, ref::str(m).c_str(), lay, wk, kind)) continue;
                    c.guard([&] { run(c, ref::make_curve(p, ref::clamped(p, m, lay), kind, wk), lay == 5 ? 1 : c.thorough ? (p <= 3 ? 4 : 3) : (p <= 3 ? 3 : 2), c.thorough ? 20000 : 2000, true); });
                }
        for (int extra = 1; extra <= 3; extra++)
            for (int lay : {0, 1, 4, 5}) {
                if (!c.next("degree %d unclamped %d spans layout %d", p, extra, lay)) continue;
                std::vector<double> U;
                for (int i = 0; i < 2 * p + 1 + extra; i++) U.push_back(ref::knot_value(lay, i, 2 * p + extra));
                c.guard([&] { run(c, ref::make_curve(p, U, 0, lay ? 2 : 0), 1, 200, false); });
            }
        for (int n1 = p + 1; n1 <= p + 3; n1++) for (int n2 = p + 1; n2 <= p + 3; n2++) for (int w = 0; w < 7; w++) for (int wk = 0; wk < 3; wk++) {
            if (!c.next("join degree %d sizes %d,%d contact %d weights %d", p, n1, n2, w, wk)) continue;
            c.guard([&] { join_case(c, p, n1, n2, w, wk); });
        }
    }
}
