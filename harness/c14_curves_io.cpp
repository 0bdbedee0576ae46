// Stored curves: round trip of every curve and short list of curves, every truncation of the bytes and files.
#include <climits>
#include "lib.h"
#include <sys/stat.h>
#include "cmmcore/serialization.h"
using namespace br;

static std::string dir;
static bool bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static std::string differs(const NURBSCurve& a, const NURBSCurve& b, bool full) {
    if (a.get_degree() != b.get_degree()) return mc::fmt("degree %d became %d", a.get_degree(), b.get_degree());
    if (a.control_points.size() != b.control_points.size()) return mc::fmt("%zu control points became %zu", a.control_points.size(), b.control_points.size());
    for (size_t i = 0; i < a.control_points.size(); i++) for (int d = 0; d < 4; d++) if (!bits(a.control_points[i][d], b.control_points[i][d])) return mc::fmt("control point %zu component %d: %.17g became %.17g", i, d, a.control_points[i][d], b.control_points[i][d]);
    if (a.knots.size() != b.knots.size()) return mc::fmt("%zu knots became %zu", a.knots.size(), b.knots.size());
    for (size_t i = 0; i < a.knots.size(); i++) if (!bits(a.knots[i], b.knots[i])) return mc::fmt("knot %zu: %.17g became %.17g", i, a.knots[i], b.knots[i]);
    if (a.interval()[0] != b.interval()[0] || a.interval()[1] != b.interval()[1]) return "the domain changed";
    if (a.is_periodic() != b.is_periodic()) return "the periodic flag changed";
    NURBSCurve x = a, y = b;
    auto p = x.aabb(), q = y.aabb();
    for (int d = 0; d < 3; d++) if (!(std::fabs(p.min[d] - q.min[d]) <= 1e-12 * (1 + std::fabs(p.min[d]))) || !(std::fabs(p.max[d] - q.max[d]) <= 1e-12 * (1 + std::fabs(p.max[d])))) return "the box changed";
    if (full) for (double t : ref::params(a.knots, a.get_degree(), 1, false)) { vec3 u, v; a.evaluate(t, u); b.evaluate(t, v); if (!bits(u.x, v.x) || !bits(u.y, v.y) || !bits(u.z, v.z)) return mc::fmt("the point at %g changed", t); }
    return "";
}
static std::string differs(const std::vector<NURBSCurve>& a, const std::vector<NURBSCurve>& b) {
    if (a.size() != b.size()) return mc::fmt("%zu curves became %zu", a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) { std::string e = differs(a[i], b[i], true); if (e.size()) return mc::fmt("curve %zu: ", i) + e; }
    return "";
}
static void list(mc::Ctx& c, std::vector<NURBSCurve> v, const std::string& h, int step, bool file) {
    for (auto& k : v) k.rebuildAABB();   // inserted knots may have left a wider box
    std::vector<NURBSCurve> orig = v;
    c.at("serializeNURBSCurves", v.size());
    std::vector<uint8_t> b = serializeNURBSCurves(v);
    uint64_t st = 2; for (uint8_t x : b) st = mc::mix(st, x + 1);
    c.state(st); c.trans();
    std::string e = differs(orig, v);
    if (e.size()) { c.fail("source", "%s: serialising changed the curves: %s", h.c_str(), e.c_str()); return; }
    c.at("deserializeNURBSCurves", b.size());
    std::vector<NURBSCurve> g = deserializeNURBSCurves(b);
    c.trans();
    e = differs(v, g);
    if (e.size()) { c.fail("roundtrip", "%s: %s", h.c_str(), e.c_str()); return; }
    std::vector<uint8_t> b2 = serializeNURBSCurves(g);
    if (b2 != b) c.fail("second-generation", "%s: storing the reconstruction gives other bytes", h.c_str());
    // curve by curve from one buffer
    const uint8_t* p = b.data();
    c.at("deserializeNURBSCurve");
    if (deserializeInt(p) != (int)v.size()) c.fail("count", "%s: the count is not stored", h.c_str());
    for (size_t i = 0; i < v.size(); i++) {
        std::vector<uint8_t> one = serializeNURBSCurve(v[i]);
        const uint8_t* q = p;
        NURBSCurve k = deserializeNURBSCurve(p);
        e = differs(v[i], k, false);
        if (e.size()) { c.fail("single", "%s: curve %zu: %s", h.c_str(), i, e.c_str()); break; }
        if ((size_t)(p - q) != one.size() || memcmp(q, one.data(), one.size())) { c.fail("single|bytes", "%s: curve %zu takes %zd bytes, its own form has %zu", h.c_str(), i, p - q, one.size()); break; }
        c.trans();
    }
    if (step) for (size_t n = 0; n < b.size(); n += (n < 32 || n + 24 > b.size() ? 1 : step)) {
        std::vector<uint8_t> t(b.begin(), b.begin() + n);
        c.at("deserializeNURBSCurves of truncated bytes", n, b.size());
        bool ok = false;
        try { deserializeNURBSCurves(t); } catch (const std::exception&) { ok = true; }
        c.trans();
        if (!ok) { c.fail("truncated", "%s: the first %zu of %zu bytes were accepted", h.c_str(), n, b.size()); break; }
    }
    // damaged numbers (of curves, the degree, of points, of knots) and pairs of them: refused, or a curve that can be used
    if (!v.empty() && b.size() < 900) {
        size_t cp = 4 + 4 + 1, kn = cp + 4 + 32 * v[0].control_points.size(), at[4] = {0, 4, cp, kn};
        auto values = [&](size_t o) { int w; memcpy(&w, &b[o], 4); return std::vector<int>{INT_MIN, -7, -1, 0, 1, 2, w - 1, w + 1, w + 2, 8, 100, 1 << 20, INT_MAX}; };
        for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) for (int x : values(at[i])) for (int y : i == j ? std::vector<int>{0} : values(at[j])) {
            std::vector<uint8_t> t = b; memcpy(&t[at[i]], &x, 4); if (i != j) memcpy(&t[at[j]], &y, 4);
            c.at("deserializeNURBSCurves of damaged numbers", at[i], at[j]); c.trans(); bool bad = false;
            try {
                auto g = deserializeNURBSCurves(t);
                for (auto& k : g) { size_t n = k.control_points.size(); if (k.get_degree() < 0 || n <= (size_t)k.get_degree() || k.knots.size() != n + k.get_degree() + 1) { bad = true; break; } if (k.get_degree() <= CMMCORE_MAX_DEGREE) for (int q = 0; q < 3; q++) { vec3 p; k.evaluate(k.interval()[0] + (k.interval()[1] - k.interval()[0]) * q / 2, p); } }
            } catch (const std::bad_alloc&) { bad = true; } catch (const std::exception&) { }
            if (bad) { c.fail("damaged", "%s: the number at byte %zu is %d%s: accepted", h.c_str(), at[i], x, i == j ? "" : mc::fmt(" and that at byte %zu is %d", at[j], y).c_str()); i = 4; break; }
        }
    }
    if (!file) return;
    std::string fn = dir + "/curves.bin";
    { std::ofstream o(fn, std::ios::binary); for (int i = 0; i < 5000; i++) o << "old content "; }   // a longer file that is replaced
    c.at("writeNURBSCurvesToFile");
    if (!writeNURBSCurvesToFile(fn, v)) { c.fail("write", "%s: writing failed", h.c_str()); return; }
    long sz = -1; { std::ifstream in(fn, std::ios::binary | std::ios::ate); sz = (long)in.tellg(); }
    if ((size_t)sz != b.size()) c.fail("write|size", "%s: file of %ld bytes for %zu bytes of data", h.c_str(), sz, b.size());
    c.at("readNURBSCurvesFromFile");
    e = differs(v, readNURBSCurvesFromFile(fn));
    c.trans(2);
    if (e.size()) { c.fail("file", "%s: %s", h.c_str(), e.c_str()); return; }
    for (size_t n = 0; n < b.size(); n += (n < 32 || n + 9 > b.size() ? 1 : 13)) {
        if (truncate(fn.c_str(), 0) != 0) break;
        { std::ofstream o(fn, std::ios::binary); o.write((const char*)b.data(), n); }
        bool ok = false;
        c.at("readNURBSCurvesFromFile of a torn file", n);
        try { readNURBSCurvesFromFile(fn); } catch (const std::exception&) { ok = true; }
        c.trans();
        if (!ok) { c.fail("torn-file", "%s: a file cut at %zu of %zu bytes was accepted", h.c_str(), n, b.size()); break; }
    }
}
// every reader of one item, on every prefix of the item
template <class F> static void item(mc::Ctx& c, const char* name, const std::vector<uint8_t>& b, F read) {
    for (size_t n = 0; n <= b.size(); n++) {
        std::vector<uint8_t> t(b.begin(), b.begin() + n); t.shrink_to_fit(); const uint8_t *p = t.data(), *e = t.data() + n; if (n == 0) { static uint8_t z; p = e = &z; } const uint8_t* p0 = p;
        bool ok = false; c.at(name, n); c.trans(); c.state(mc::mix(n, std::hash<std::string>()(name)));
        try { read(p, e); } catch (const std::exception&) { ok = true; }
        if (ok == (n == b.size())) { c.fail("item", "%s: %zu of %zu bytes are %s", name, n, b.size(), ok ? "refused" : "accepted"); return; }
        if (!ok && p != p0 + n) { c.fail("item|position", "%s: %zd of %zu bytes are read", name, p - p0, n); return; }
    }
}
void mc_explore(mc::Ctx& c) {
    if (c.next("single items")) c.guard([&] {
        std::vector<uint8_t> b; serializeInt(b, 0x12345678); item(c, "deserializeInt", b, [](const uint8_t*& p, const uint8_t* e) { if (deserializeInt(p, e) != 0x12345678) throw std::runtime_error(""); });
        b.clear(); serializeDouble(b, 0.1); item(c, "deserializeDouble", b, [](const uint8_t*& p, const uint8_t* e) { if (deserializeDouble(p, e) != 0.1) throw std::runtime_error(""); });
        b.clear(); serializeBool(b, true); item(c, "deserializeBool", b, [](const uint8_t*& p, const uint8_t* e) { if (!deserializeBool(p, e)) throw std::runtime_error(""); });
        b.clear(); serializeVec4(b, vec4(1, -2, 0.1, 4)); item(c, "deserializeVec4", b, [](const uint8_t*& p, const uint8_t* e) { vec4 v = deserializeVec4(p, e); if (v.x != 1 || v.y != -2 || v.z != 0.1 || v.w != 4) throw std::runtime_error(""); });
        for (int n = 0; n < 5; n++) {
            std::vector<double> d; std::vector<vec4> q; for (int i = 0; i < n; i++) { d.push_back(i * 0.3 - 1); q.push_back(vec4(i, 0.1 * i, -i, 1 + i)); }
            b.clear(); serializeVectorDouble(b, d); item(c, "deserializeVectorDouble", b, [&](const uint8_t*& p, const uint8_t* e) { if (deserializeVectorDouble(p, e) != d) throw std::runtime_error(""); });
            b.clear(); serializeVectorVec4(b, q); item(c, "deserializeVectorVec4", b, [&](const uint8_t*& p, const uint8_t* e) { auto r = deserializeVectorVec4(p, e); bool same = r.size() == q.size(); for (size_t i = 0; same && i < q.size(); i++) same = r[i].x == q[i].x && r[i].y == q[i].y && r[i].z == q[i].z && r[i].w == q[i].w; if (!same) throw std::runtime_error(""); });
        }
    });
    // every bit of every number: signs of zero, the smallest and largest values, infinities and marks for missing values
    if (c.next("special values")) c.guard([&] {
        const double S[] = {0.0, -0.0, 5e-324, -5e-324, 1e-310, 2.2250738585072014e-308, 1e-300, 1e-9, -1e-9, 0.1, 1, -1, 1 + 2.3e-16, 1e15 + 0.5, 1e300, -1.7976931348623157e308, 1.7976931348623157e308, INFINITY, -INFINITY, NAN};
        const int I[] = {0, 1, -1, 127, 128, 255, 256, -129, 32767, 32768, 65536, 0x12345678, -0x12345678, 2147483647, -2147483647 - 1};
        for (int i : I) { std::vector<uint8_t> b; serializeInt(b, i); const uint8_t* q = b.data(); int r = deserializeInt(q); c.trans(2); if (r != i || q != b.data() + b.size()) c.fail("special|int", "%d comes back as %d", i, r); }
        for (bool x : {false, true}) { std::vector<uint8_t> b; serializeBool(b, x); const uint8_t* q = b.data(); c.trans(2); if (deserializeBool(q) != x || q != b.data() + b.size()) c.fail("special|bool", "%d", x); }
        for (double x : S) for (double y : S) {
            std::vector<uint8_t> b; serializeDouble(b, x); serializeVec4(b, vec4(x, y, -x, 2)); serializeVectorDouble(b, {y, x, y}); serializeVectorVec4(b, {vec4(y, x, 1, y), vec4(x, x, y, 3)});
            const uint8_t* q = b.data(); double r = deserializeDouble(q); vec4 v = deserializeVec4(q); auto d = deserializeVectorDouble(q); auto w = deserializeVectorVec4(q); c.trans(8);
            bool ok = bits(r, x) && bits(v.x, x) && bits(v.y, y) && bits(v.z, -x) && bits(v.w, 2) && d.size() == 3 && bits(d[0], y) && bits(d[1], x) && bits(d[2], y) && w.size() == 2 && bits(w[0].x, y) && bits(w[0].y, x) && bits(w[0].z, 1) && bits(w[0].w, y) && bits(w[1].x, x) && bits(w[1].y, x) && bits(w[1].z, y) && bits(w[1].w, 3);
            if (!ok || q != b.data() + b.size()) { c.fail("special|double", "%g and %g do not come back bit for bit", x, y); break; }
            c.state(mc::mix(b.size(), r));
            // knots and points of a curve
            if (!std::isfinite(x) || !std::isfinite(y) || !(x <= y)) continue;
            NURBSCurve k(std::vector<vec4>{vec4(x, y, -x, 1), vec4(y, -0.0, x, 2), vec4(-y, x, 5e-324, 1)}, 1, std::vector<double>{x, x, (x + (y - x) / 2), y, y}, false);
            if (!std::isfinite(y - x)) continue;
            list(c, {k}, mc::fmt("knots from %g to %g", x, y), 0, false);
        }
    });
    dir = mc::fmt("v%d", (int)getpid());
    mkdir(dir.c_str(), 0700);
    auto build = [](int p, const std::vector<int>& m, int lay, int kind, int wk) { return mk(ref::make_curve(p, ref::clamped(p, m, lay), kind, wk)); };
    for (int p = 1; p <= 8; p++) for (auto& m : ref::mult_patterns(p <= 3 ? 2 : 1, p)) for (int lay = 0; lay < 5; lay++) {
        if (!c.next("degree %d, interior multiplicities %s, layout %d", p, ref::str(m).c_str(), lay)) continue;
        c.guard([&] {
            int z = 0;
            for (int kind = 0; kind < 5; kind++) for (int wk = 0; wk < 4; wk++, z++) {
                std::string h = mc::fmt("net %d weights %d", kind, wk);
                NURBSCurve k = build(p, m, lay, kind, wk);
                list(c, {k}, h, c.thorough ? 1 : z % 5 == 0 ? 3 : 0, z % 7 == 0);
                // curves with a history
                double lo = k.interval()[0], hi = k.interval()[1];
                auto ab = k.split(lo + (hi - lo) * 0.375, false);
                NURBSCurve n = k, ins = k; n.normalize_knots(); ins.insert_knot(lo + (hi - lo) * 0.6, 1);
                list(c, {ab.first, ab.second, n, ins}, h + " pieces", 0, false);
                if (c.cur_failed) return;
            }
        });
    }
    // lists: every sequence of up to 3 curves of an alphabet
    auto alpha = [&]() {
        std::vector<NURBSCurve> A{build(1, {}, 0, 0, 0), build(3, {1}, 1, 1, 1), build(2, {2}, 0, 2, 2), build(8, {}, 2, 3, 3)};
        std::vector<vec4> q; for (int i = 0; i < 6; i++) q.push_back(vec4(cos(i * 1.1), sin(i * 1.1), i * 0.1, 1));
        for (int d = 1; d <= 3; d++) A.push_back(NURBSCurve(q, d, true));
        std::vector<vec4> closed{vec4(0, 0, 0, 1), vec4(1, 0, 0, 1), vec4(1, 1, 0, 1), vec4(0, 0, 0, 1)};
        A.push_back(NURBSCurve(closed, 1, false));
        std::vector<vec4> odd{vec4(-0.0, 1e300, 5e-324, 1), vec4(1e-300, -1e300, 3, 2), vec4(0.1, 0.2, 0.3, 0.7), vec4(1, 2, 3, 1)};
        A.push_back(NURBSCurve(odd, 3, {-1e9, -1e9, -1e9, -1e9, 1e-9, 1e-9, 1e-9, 1e-9}, false));
        return A;
    };
    std::vector<NURBSCurve> A = alpha();
    if (c.next("the empty list")) c.guard([&] { list(c, {}, "no curves", 1, true); });
    for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j <= A.size(); j++) {
        if (!c.next("lists starting %zu %zu", i, j)) continue;
        c.guard([&] {
            std::string h = mc::fmt("list %zu %zu", i, j);
            if (j == A.size()) { list(c, {A[i]}, h, 1, true); return; }
            list(c, {A[i], A[j]}, h, 5, (i + j) % 4 == 0);
            for (size_t k = 0; k < A.size(); k++) list(c, {A[i], A[j], A[k]}, h + mc::fmt(" %zu", k), c.thorough ? 3 : 0, c.thorough);
        });
    }
    if (c.next("file refusals")) c.guard([&] {
        bool ok = false;
        try { readNURBSCurvesFromFile(dir + "/missing/none.bin"); } catch (const std::runtime_error&) { ok = true; }
        if (!ok) c.fail("missing", "reading a missing file was not refused");
        if (writeNURBSCurvesToFile(dir + "/missing/none.bin", A)) c.fail("unwritable", "writing into a missing folder was reported as done");
        std::vector<NURBSCurve> one{A[0]}, many; for (int i = 0; i < 200; i++) many.push_back(A[3]);
        c.at("writing to a full device");
        if (writeNURBSCurvesToFile("/dev/full", one)) c.fail("full-device", "a write that failed when flushed was reported as done");
        if (writeNURBSCurvesToFile("/dev/full", many)) c.fail("full-device", "a failed write was reported as done");
        c.trans(4); c.state(3);
    });
    unlink((dir + "/curves.bin").c_str()); rmdir(dir.c_str());
}
