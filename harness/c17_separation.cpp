// Separation tests of spatial point sets: boxes, GJK, SAT3D, and cones of directions; exact integer oracle.
#include "lib.h"
#include "exact.h"
#include "cmmcore/separability.h"
#include "cmmcore/gauss_map.h"
using namespace br;
using ex::I3;
typedef std::vector<I3> Set;
struct Map { const char* name; double m[3][3], o[3]; bool exact; double scale; };
static const Map maps[] = {
    {"unit grid", {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {0, 0, 0}, true, 1},
    {"sheared, moved", {{1, 2, 0}, {0, 1, 1}, {3, 0, -1}}, {100, -7, 50}, true, 1},
    {"turned", {{0.8, -0.6, 0}, {0.48, 0.64, -0.6}, {0.36, 0.48, 0.8}}, {0.1, 0.2, 0.3}, false, 1},
    {"turned, steps of 0.02", {{0.016, -0.012, 0}, {0.0096, 0.0128, -0.012}, {0.0072, 0.0096, 0.016}}, {1, -2, 3}, false, 0.02},
    {"mirrored, times 64", {{0, 64, 0}, {64, 0, 0}, {0, 0, -64}}, {0, 0, 1}, true, 64}};
static vec3 app(const Map& m, I3 p) { double r[3]; for (int i = 0; i < 3; i++) r[i] = m.m[i][0] * p[0] + m.m[i][1] * p[1] + m.m[i][2] * p[2] + m.o[i]; return vec3(r[0], r[1], r[2]); }
static std::vector<vec3> app(const Map& m, const Set& s) { std::vector<vec3> r; for (auto& p : s) r.push_back(app(m, p)); return r; }
static std::string show(const Set& p) { std::string s; for (auto& q : p) s += mc::fmt("(%ld,%ld,%ld)", q[0], q[1], q[2]); return s; }
static uint64_t ph(const Set& p, uint64_t h) { for (auto& q : p) h = mc::mix(h, (q[0] + 50) * 10000 + (q[1] + 50) * 100 + q[2] + 50); return mc::mix(h, p.size()); }
static const char* names[] = {"apart", "touching", "overlapping"};

static void test(mc::Ctx& c, const Set& a, const Set& b, int mi) {
    I3 w{0, 0, 0};
    int rel = ex::relation(a, b, &w);
    const Map& m = maps[mi];
    std::vector<vec3> A = app(m, a), B = app(m, b);
    std::string h = "points " + show(a) + " and " + show(b) + " (" + m.name + ")";
    c.state(ph(b, ph(a, mi)));
    bool decided = m.exact || rel != 1;
    c.at("GJK", a.size(), b.size(), mi);
    std::vector<vec3> simplex; vec3 cp(0, 0, 0);
    bool hit = GJK(A, B, simplex, cp);
    c.trans();
    if (decided && hit != (rel != 0)) c.fail(hit ? "gjk|false-hit" : "gjk|missed", "%s are %s, GJK says %s", h.c_str(), names[rel], hit ? "they meet" : "they are apart");
    std::vector<vec3> simplex2; vec3 cp2(0, 0, 0);
    bool hit2 = GJK(B, A, simplex2, cp2);
    c.trans();
    if (decided && hit2 != hit) c.fail("gjk|order", "%s: GJK depends on the order", h.c_str());
    if (!hit && rel == 0) {
        // the reported vector belongs to the difference of the hulls, so it is not shorter than the gap along any direction
        if (!(cp.length() > 0)) c.fail("gjk|zero", "%s are apart, but the closest point is the origin", h.c_str());
        double lo = 1e300, wl = 0; vec3 W(0, 0, 0);
        if (m.exact && mi == 0) {
            W = vec3(w[0], w[1], w[2]); wl = W.length();
            for (auto& p : A) for (auto& q : B) lo = std::min(lo, (p - q).dot(W) / wl);
            if (cp.dot(W) / wl < lo - 1e-9) c.fail("gjk|closest", "%s: the closest point %s is outside the difference of the hulls", h.c_str(), s3(cp).c_str());
        }
    }
    c.at("SAT3D", a.size(), b.size(), mi);
    bool s = SAT3D(A, B), s2 = SAT3D(B, A);
    c.trans(2);
    if (decided && s != (rel == 0)) c.fail(s ? "sat3d|apart" : "sat3d|missed", "%s are %s, SAT3D says %s", h.c_str(), names[rel], s ? "separated" : "not separated");
    if (decided && s2 != s) c.fail("sat3d|order", "%s: SAT3D depends on the order", h.c_str());
    // boxes
    c.at("AABBTest", a.size(), b.size(), mi);
    bool bx = AABBTest(A, B);
    c.trans();
    bool apart = false;
    for (int d = 0; d < 3; d++) {
        double a0 = 1e300, a1 = -1e300, b0 = 1e300, b1 = -1e300;
        for (auto& p : A) { a0 = std::min(a0, p[d]); a1 = std::max(a1, p[d]); }
        for (auto& p : B) { b0 = std::min(b0, p[d]); b1 = std::max(b1, p[d]); }
        if (a1 < b0 || b1 < a0) apart = true;
    }
    if (bx != apart) c.fail("boxes", "%s: the box test says %s", h.c_str(), bx ? "apart" : "meeting");
}
// Directions seen along an axis: all in one open half plane
static bool halfPlane(const Set& D, int ax) {
    int i = (ax + 1) % 3, j = (ax + 2) % 3;
    for (auto& p : D) if (!p[i] && !p[j]) return false;
    for (auto& v : D) { bool ok = true; for (auto& w : D) { auto x = v[i] * w[j] - v[j] * w[i], d = v[i] * w[i] + v[j] * w[j]; if (x < 0 || (x == 0 && d < 0)) { ok = false; break; } } if (ok) return true; }
    return false;
}
// Directions: integer vectors as rays from the center
static void cones(mc::Ctx& c, const Set& a, const Set& b, int mi, int scale) {
    Set D = a; for (auto& q : b) D.push_back(ex::neg(q));
    int rel = ex::origin(D);
    static const double rot[3][3] = {{0.8, -0.6, 0}, {0.48, 0.64, -0.6}, {0.36, 0.48, 0.8}};
    auto mapd = [&](const Set& s) {
        std::vector<vec3> r; int k = 0;
        for (auto& p : s) { vec3 v(p[0], p[1], p[2]); if (mi == 1) v = vec3(rot[0][0] * p[0] + rot[0][1] * p[1], rot[1][0] * p[0] + rot[1][1] * p[1] + rot[1][2] * p[2], rot[2][0] * p[0] + rot[2][1] * p[1] + rot[2][2] * p[2]); double f = scale ? std::pow(7.0, (k++ % 5) - 2) : 1; r.push_back(v * f); }
        return r;
    };
    std::vector<vec3> A = mapd(a), B = mapd(b);
    bool zero = false; for (auto& d : D) if (ex::zero(d)) zero = true;
    c.at("SphericalSeparabilityTest", a.size(), b.size(), mi);
    bool s = SphericalSeparabilityTest(A, B), s2 = SphericalSeparabilityTest(B, A);
    c.trans(2); c.state(ph(b, ph(a, 77 + mi)));
    bool want = rel == 0 && !zero;
    if (s != want || s2 != want) c.fail(want ? "cones|missed" : "cones|apart", "directions %s and %s: the cones %s, reported %s/%s", show(a).c_str(), show(b).c_str(), want ? "are apart" : "meet or are not pointed", s ? "separated" : "not separated", s2 ? "separated" : "not separated");
    // wedges around the axes: apart exactly when a plane through an axis separates the directions
    c.at("SphericalAABB", a.size(), b.size(), mi);
    bool w = SphericalAABBTest(A, B), w2 = SphericalAABBTest(B, A); SphericalAABB wa(A), wb(B); c.trans(3);
    bool plane = false; for (int ax = 0; ax < 3; ax++) plane = plane || halfPlane(D, ax);
    if (w != w2 || wa.intersects(wb) == w || (w && !want) || (mi == 0 && w != plane)) c.fail("wedges", "directions %s and %s: a plane through an axis %s, reported %s/%s", show(a).c_str(), show(b).c_str(), plane ? "separates them" : "does not separate them", w ? "separated" : "not separated", w2 ? "separated" : "not separated");
    if (mi == 0) for (int ax = 0; ax < 3; ax++) for (auto& p : A) { // each wedge holds its directions
        double y = p[(ax + 2) % 3], x = p[(ax + 1) % 3]; if (x == 0 && y == 0) continue; double t = std::atan2(y, x) - wa.start[ax]; while (t < -1e-9) t += 2 * M_PI;
        if (!(t <= wa.end[ax] - wa.start[ax] + 1e-9)) { c.fail("wedge", "directions %s: the wedge about axis %d is %g..%g", show(a).c_str(), ax, wa.start[ax], wa.end[ax]); break; }
    }
    if (a.size() == 4 && b.size() == 4 && !zero) {
        // bilinear patches with these control points as Gauss maps: separated only if neither the cones nor a cone and a mirrored one meet
        Set E = a; for (auto& q : b) E.push_back(q);
        bool sep = want && ex::origin(E) == 0;
        auto surf = [](const std::vector<vec3>& p) { std::vector<std::vector<vec4>> cp{{vec4(p[0].x, p[0].y, p[0].z, 1), vec4(p[1].x, p[1].y, p[1].z, 1)}, {vec4(p[2].x, p[2].y, p[2].z, 1), vec4(p[3].x, p[3].y, p[3].z, 1)}}; return NURBSSurface(cp, {1, 1}, {0, 0, 1, 1}, {0, 0, 1, 1}); };
        c.at("gaussMapSeparability", mi);
        bool g = gaussMapSeparability(surf(A), surf(B));
        GaussMap ga, gb; ga.pts = A; gb.pts = B; ga.solveInvPts(); gb.solveInvPts(); c.at("GaussMap::separabilityTest", mi); bool g2 = ga.separabilityTest(gb);
        c.trans(2);
        if (g != sep || g2 != sep) c.fail(sep ? "maps|missed" : "maps|apart", "normal nets %s and %s: %s, reported %s", show(a).c_str(), show(b).c_str(), sep ? "never parallel" : "may be parallel", g ? "separated" : "not separated");
    }
}
static Set pick(const std::vector<I3>& g, uint32_t m) { Set s; for (size_t i = 0; i < g.size(); i++) if (m >> i & 1) s.push_back(g[i]); return s; }
void mc_explore(mc::Ctx& c) {
    std::vector<I3> cube, g27;
    for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) for (int z = 0; z < 2; z++) cube.push_back({x, y, z});
    for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) for (int z = 0; z < 3; z++) g27.push_back({x, y, z});
    const int NM = sizeof maps / sizeof *maps;
    // all pairs of subsets of the cube's corners, in all relative positions within reach
    for (uint32_t m = 1; m < 256; m++) {
        if (!c.next("corners %02x of the cube against all others", m)) continue;
        c.guard([&] {
            Set a = pick(cube, m);
            int z = 0;
            for (uint32_t n = 1; n < 256; n++) for (int t = 0; t < 27; t++, z++) {
                if ((m + n * 3 + t) % (c.thorough ? 1 : 9)) continue;
                Set b; for (auto& q : pick(cube, n)) b.push_back(ex::add(q, ex::sub(g27[t], {1, 1, 1})));
                if (z % 3 == 1) std::reverse(b.begin(), b.end());
                test(c, a, b, z % 4 == 0 ? 0 : 1 + z % (NM - 1));
                if (c.cur_failed) return;
            }
        });
    }
    // pairs of tetrahedra / triangles / segments of the 3x3x3 grid
    std::vector<Set> small;
    for (int i = 0; i < 27; i++) for (int j = i + 1; j < 27; j++) for (int k = j + 1; k < 27; k++) for (int l = k + 1; l < 27; l++) if ((i + 3 * j + 5 * k + 7 * l) % 29 == 0) small.push_back({g27[i], g27[j], g27[k], g27[l]});
    size_t n4 = small.size();
    for (int i = 0; i < 27; i++) for (int j = i + 1; j < 27; j++) for (int k = j + 1; k < 27; k++) if ((i + 3 * j + 5 * k) % 7 == 0) small.push_back({g27[i], g27[j], g27[k]});
    for (int i = 0; i < 27; i++) for (int j = i + 1; j < 27; j++) small.push_back({g27[i], g27[j]});
    int stride = c.thorough ? 7 : 97;
    for (size_t i = 0; i < small.size(); i += c.thorough ? 1 : 2) {
        if (!c.next("simplex %zu of the 3x3x3 grid", i)) continue;
        c.guard([&] {
            int z = i;
            for (size_t j = i % stride; j < small.size(); j += stride, z++) for (int t = 0; t < (c.thorough ? 27 : 9); t++) {
                I3 d = ex::sub(g27[(t * 3 + z) % 27], {1, 1, 1});
                if (t % 2) for (auto& x : d) x *= 2;
                Set b; for (auto& q : small[j]) b.push_back(ex::add(q, d));
                test(c, small[i], b, (z + t) % NM);
                if (c.cur_failed) return;
            }
        });
    }
    // larger clouds: complements of small sets of the grid
    for (int i = 0; i < 27; i++) {
        if (!c.next("clouds without point %d", i)) continue;
        c.guard([&] {
            Set a; for (int k = 0; k < 27; k++) if (k != i && (k * k + i) % 3) a.push_back(g27[k]);
            for (int j = 0; j < 27; j += c.thorough ? 5 : 9) for (int dx = -3; dx <= 3; dx++) for (int dy = -3; dy <= 3; dy++) for (int dz = 0; dz <= 3; dz++) {
                if (!c.thorough && (dx + 2 * dy + 3 * dz + i + 99) % 7) continue;
                Set b; for (int k = 0; k < 27; k++) if (k != j && (k * 5 + j) % 4) b.push_back(ex::add(g27[k], {dx, dy, dz}));
                test(c, a, b, (dx + dy + dz + j + 9) % NM);
                if (c.cur_failed) return;
            }
        });
    }
    // cones of directions
    std::vector<I3> dirs; for (auto& q : g27) dirs.push_back(ex::sub(q, {1, 1, 1}));   // includes the zero vector
    for (int i = 0; i < 27; i++) for (int j = i; j < 27; j++) {
        if (!c.next("directions %d %d", i, j)) continue;
        c.guard([&] {
            int z = 0;
            for (int k = j; k < 27; k++) for (int p = 0; p < 27; p++) for (int q = p; q < 27; q++, z++) {
                if ((i + j * 3 + k * 5 + p * 7 + q) % (c.thorough ? 2 : 23)) continue;
                Set a{dirs[i], dirs[j], dirs[k]}, b{dirs[p], dirs[q]};
                cones(c, a, b, z % 2, z % 3 == 0);
                if (z % 4 == 0) { a.push_back(dirs[(i + z) % 27]); b.push_back(dirs[(z * 5 + k) % 27]); b.push_back(dirs[(q + z) % 27]); cones(c, a, b, z / 4 % 2, 0); }
                if (c.cur_failed) return;
            }
        });
    }
}
