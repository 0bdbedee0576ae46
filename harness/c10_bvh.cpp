// BVH queries against brute force over every small scene.
#include "lib.h"
#include "cmmcore/bvh.hpp"
using namespace cmmcore;

static double W[5] = {0, 1, 2, 3, 4};
struct Box { double l[3], h[3]; };
static AABB bb(const Box& b) { return AABB(vec3(b.l[0], b.l[1], b.l[2]), vec3(b.h[0], b.h[1], b.h[2])); }
static bool hit(const Box& a, const Box& b) { for (int d = 0; d < 3; d++) if (a.l[d] > b.h[d] || b.l[d] > a.h[d]) return false; return true; }
static double ovl(const Box& a, const Box& b) { double v = 1; for (int d = 0; d < 3; d++) v *= std::max(0.0, std::min(a.h[d], b.h[d]) - std::max(a.l[d], b.l[d])); return v; }

static std::vector<Box> alphabet(int layout) {
    // intervals of a 0..3 line along x, a few along y and z; flat and point boxes included
    std::vector<Box> r;
    auto add = [&](double a, double b, double c, double d, double e, double f) { r.push_back({{a, c, e}, {b, d, f}}); };
    if (layout == 0) { add(0, 1, 0, 1, 0, 1); add(1, 2, 0, 1, 0, 1); add(2, 4, 0, 1, 0, 1); add(0, 4, 0, 2, 0, 1); add(0, 1, 2, 3, 0, 1); add(1, 1, 1, 1, 1, 1); add(0, 2, 1, 1, 0, 2); add(3, 4, 3, 4, 3, 4); add(0.5, 1.5, 0.5, 1.5, 0.5, 1.5); add(0, 1, 0, 1, 2, 3); }
    if (layout == 1) { add(-3, -2, 0, 0, 0, 0); add(-2.5, 5, 0, 0, 0, 0); add(4, 5, 0, 0, 0, 0); add(-3, 5, -1, 1, 0, 0); add(100, 101, -1, 1, 0, 0); add(0, 0, 0, 0, 0, 0); add(0, 0, 0, 0, 0, 0); add(-3, -3, -1, 7, -2, 2); }
    if (layout == 2) { add(1e-3, 2e-3, 1e-3, 2e-3, 1e-3, 2e-3); add(0, 1, 0, 1, 0, 1); add(1e6, 1e6 + 1, 1e6, 1e6 + 1, 0, 1); add(0, 1e6 + 0.5, 0, 1e6 + 0.5, 0, 1); add(0.5, 0.75, -5, 5, 0.25, 0.5); add(-1e6, 0, -1, 0, 0, 1); }
    // overlaps of all sizes between a millionth and one: cubes at a corner of the first, sheets at its top
    if (layout == 3) { add(0, 1, 0, 1, 0, 1); for (double d : {0.0127, 0.022, 0.046, 0.08, 0.21}) add(1 - d, 2, 1 - d, 2, 1 - d, 2); for (double d : {2e-6, 3e-5, 4e-4}) add(-1, 1, 0, 1, 1 - d, 2); }
    return r;
}
struct Scene {
    std::vector<Object3D> objs; std::vector<Object3D*> ptr;
    std::unique_ptr<BVHNode> root;
    Scene(const std::vector<Box>& A, const std::vector<int>& pick, int method) {
        for (size_t i = 0; i < pick.size(); i++) objs.emplace_back(bb(A[pick[i]]), (int)i);
        for (auto& o : objs) ptr.push_back(&o);
        root = method == 0 ? build_bvh_top_down(ptr) : method == 1 ? build_bvh_bottom_up(ptr) : build_bvh(ptr, method == 3);
    }
};
static bool boxeq(const AABB& a, const AABB& b) { return a.min.x == b.min.x && a.min.y == b.min.y && a.min.z == b.min.z && a.max.x == b.max.x && a.max.y == b.max.y && a.max.z == b.max.z; }
// tree shape: every object exactly once, every inner box the union of its children, leaves hold the object's box
static bool tree(mc::Ctx& c, const BVHNode* n, std::vector<int>& seen, int depth) {
    if (depth > 64) { c.fail("tree|depth", "tree deeper than 64 levels"); return false; }
    if (n->object) {
        if (n->left || n->right) { c.fail("tree|leaf", "an object node has children"); return false; }
        if (!boxeq(n->bounding_box, n->object->bounding_box)) { c.fail("tree|leaf-box", "leaf box differs from the object's"); return false; }
        if (n->object->id < 0 || n->object->id >= (int)seen.size()) { c.fail("tree|object", "unknown object"); return false; }
        seen[n->object->id]++;
        return true;
    }
    if (!n->left && !n->right) { c.fail("tree|empty", "a node without object and children"); return false; }
    AABB m;
    for (auto* k : {n->left.get(), n->right.get()}) if (k) { if (!tree(c, k, seen, depth + 1)) return false; m = m.merge(k->bounding_box); }
    for (int d = 0; d < 3; d++) if (n->bounding_box.min[d] > m.min[d] || n->bounding_box.max[d] < m.max[d]) { c.fail("tree|box", "inner box does not cover its children"); return false; }
    return true;
}
static std::string names(const std::vector<int>& p) { return ref::str(p); }

static void queries(mc::Ctx& c, const BVHNode* root, const std::vector<Box>& A, const std::vector<int>& pick, const std::vector<Box>& Q, const char* what) {
    for (auto& q : Q) {
        std::vector<const Object3D*> res;
        c.at(what, q.l[0], q.l[1], q.l[2]);
        traverse_bvh(root, bb(q), res);
        c.trans();
        std::vector<int> got(pick.size(), 0), exp(pick.size(), 0);
        for (auto* o : res) got[o->id]++;
        for (size_t i = 0; i < pick.size(); i++) exp[i] = hit(A[pick[i]], q);
        if (got != exp) { c.fail(std::string("traverse|") + what, "objects %s, query [%g,%g]x[%g,%g]x[%g,%g]: got %s expected %s", names(pick).c_str(), q.l[0], q.h[0], q.l[1], q.h[1], q.l[2], q.h[2], ref::str(got).c_str(), ref::str(exp).c_str()); return; }
    }
}
static void scene(mc::Ctx& c, const std::vector<Box>& A, const std::vector<int>& pick, const std::vector<Box>& Q, const std::vector<vec3>& pts) {
    for (int method = 0; method < 4; method++) {
        if (method >= 2 && pick.size() > 2) continue;
        c.at("build", method);
        Scene s(A, pick, method);
        c.trans();
        uint64_t h = method; for (int x : pick) h = mc::mix(h, x + 1);
        c.state(mc::mix(h, (uint64_t)A.size()));
        if (pick.empty()) {
            if (s.root) c.fail("empty", "a tree over nothing is not null");
            std::vector<const Object3D*> res; traverse_bvh(s.root.get(), AABB(vec3(0, 0, 0), vec3(1, 1, 1)), res);
            std::vector<std::pair<const BVHNode*, const BVHNode*>> pr; intersect_bvh(s.root.get(), s.root.get(), pr); intersect_bvh_iterative(s.root.get(), nullptr, pr);
            if (!res.empty() || !pr.empty()) c.fail("empty", "results from an empty tree");
            continue;
        }
        if (!s.root) { c.fail("build|null", "no tree for objects %s", names(pick).c_str()); continue; }
        std::vector<int> seen(pick.size(), 0);
        if (!tree(c, s.root.get(), seen, 0)) continue;
        for (int x : seen) if (x != 1) { c.fail("tree|objects", "objects %s: leaf counts %s", names(pick).c_str(), ref::str(seen).c_str()); break; }
        queries(c, s.root.get(), A, pick, Q, method % 2 ? "bottom-up" : "top-down");
        for (auto& p : pts) {
            std::vector<const Object3D*> res;
            contains_point(s.root.get(), p, res);
            c.trans();
            std::vector<int> got(pick.size(), 0), exp(pick.size(), 0);
            for (auto* o : res) got[o->id]++;
            for (size_t i = 0; i < pick.size(); i++) { auto& b = A[pick[i]]; exp[i] = p.x >= b.l[0] && p.x <= b.h[0] && p.y >= b.l[1] && p.y <= b.h[1] && p.z >= b.l[2] && p.z <= b.h[2]; }
            if (got != exp) { c.fail("contains_point", "objects %s point (%g,%g,%g): got %s expected %s", names(pick).c_str(), p.x, p.y, p.z, ref::str(got).c_str(), ref::str(exp).c_str()); break; }
        }
        // deep copies answer like the original and survive it
        auto cp = std::make_unique<BVHNode>(*s.root);
        BVHNode as; as = *s.root;
        std::vector<int> s1(pick.size(), 0), s2(pick.size(), 0);
        if (cp->left && cp->left.get() == s.root->left.get()) c.fail("copy|shallow", "the copy shares nodes");
        s.root.reset();
        if (tree(c, cp.get(), s1, 0) && tree(c, &as, s2, 0)) {
            if (s1 != seen || s2 != seen) c.fail("copy|objects", "objects %s: copies hold %s and %s", names(pick).c_str(), ref::str(s1).c_str(), ref::str(s2).c_str());
            else { queries(c, cp.get(), A, pick, {Q[0], Q[Q.size() / 2]}, "copy"); queries(c, &as, A, pick, {Q[1], Q[Q.size() - 1]}, "assigned"); }
        }
    }
}
static void pairs(mc::Ctx& c, const std::vector<Box>& A, const std::vector<int>& p1, const std::vector<int>& p2) {
    for (int m = 0; m < 4; m++) {
        Scene a(A, p1, m & 1), b(A, p2, m >> 1);
        for (int api = 0; api < 2; api++) {
            std::vector<std::pair<const BVHNode*, const BVHNode*>> out;
            c.at(api ? "intersect_bvh" : "intersect_bvh_iterative", m);
            if (api) intersect_bvh(a.root.get(), b.root.get(), out); else intersect_bvh_iterative(a.root.get(), b.root.get(), out);
            c.trans();
            std::map<std::pair<int, int>, int> got;
            for (auto& x : out) {
                if (!x.first->object || !x.second->object) { c.fail("pairs|no-object", "a reported node holds no object"); return; }
                got[{x.first->object->id, x.second->object->id}]++;
            }
            for (size_t i = 0; i < p1.size(); i++) for (size_t j = 0; j < p2.size(); j++) {
                auto &x = A[p1[i]], &y = A[p2[j]];
                bool h = hit(x, y); double v = ovl(x, y);
                int g = got.count({(int)i, (int)j}) ? got[{(int)i, (int)j}] : 0;
                // the recursive form leaves out overlaps with (nearly) no volume
                bool must = api ? h && v > 1.001e-6 : h, may = h;
                if (g > 1 || (must && !g) || (!may && g)) { c.fail(api ? "pairs|recursive" : "pairs|iterative", "objects %s vs %s, methods %d: pair (%zu,%zu) reported %d times, boxes %s, overlap volume %g", names(p1).c_str(), names(p2).c_str(), m, i, j, g, h ? "intersect" : "are apart", v); return; }
            }
        }
    }
}
template <class F> static void sequences(int n, int k, F&& f) {   // all sequences of length n over k symbols
    std::vector<int> s(n, 0);
    for (;;) { f(s); int i = n - 1; while (i >= 0 && ++s[i] == k) s[i--] = 0; if (i < 0) return; }
}
void mc_explore(mc::Ctx& c) {
    for (int lay = 0; lay < 4; lay++) {
        auto A = alphabet(lay);
        std::vector<Box> Q = A; std::vector<vec3> pts;
        for (double x : {-1.0, 0.5, 1.0, 2.0, 3.5}) for (double y : {0.0, 1.25, 3.0}) for (double z : {0.0, 0.5}) { Q.push_back({{x, y, z}, {x + 0.75, y + 1, z + 0.5}}); pts.push_back(vec3(x, y, z)); }
        for (auto& b : A) { pts.push_back(vec3(b.l[0], b.l[1], b.l[2])); pts.push_back(vec3(b.h[0], b.l[1], b.h[2])); }
        Q.push_back({{-1e9, -1e9, -1e9}, {1e9, 1e9, 1e9}});
        int k = A.size();
        for (int n = 0; n <= (c.thorough ? 5 : 4); n++) {
            // one case per prefix keeps the work units even
            int pre = std::min(n, 2);
            sequences(pre, k, [&](std::vector<int>& p0) {
                if (!c.next("layout %d: all scenes of %d boxes starting with %s", lay, n, names(p0).c_str())) return;
                c.guard([&] { if (n == pre) scene(c, A, p0, Q, pts); else sequences(n - pre, k, [&](std::vector<int>& r) { auto p = p0; p.insert(p.end(), r.begin(), r.end()); if (n >= 4 && !c.thorough && (p[3] + p[2] + p[1]) % 3) return; scene(c, A, p, Q, pts); }); });
            });
        }
        // every order of 5 to 7 boxes (all permutations), then bigger scenes
        for (int n = 5; n <= (c.thorough ? 7 : 6) && n <= k; n++) {
            std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
            int z = 0;
            do { if (z++ % 60) { continue; }
                 std::vector<int> st = p;
                 if (!c.next("layout %d: orders of %d boxes from %s", lay, n, names(p).c_str())) continue;
                 c.guard([&] { std::vector<int> r = st; for (int i = 0; i < 60; i++) { scene(c, A, r, Q, pts); if (!std::next_permutation(r.begin(), r.end())) break; } });
            } while (std::next_permutation(p.begin(), p.end()));
        }
        for (int n = 7; n <= 40; n += 3) for (int st = 1; st < k; st++) {
            if (!c.next("layout %d: scene of %d boxes, stride %d", lay, n, st)) continue;
            c.guard([&] { std::vector<int> p; for (int i = 0; i < n; i++) p.push_back((i * st + i / k) % k); scene(c, A, p, Q, pts); pairs(c, A, p, p); });
        }
        // two trees
        for (int n1 = 0; n1 <= 3; n1++) for (int n2 = 0; n2 <= (c.thorough ? 3 : 2); n2++) {
            int k1 = n1 == 3 ? std::min(k, 7) : k, k2 = n2 == 3 ? std::min(k, 6) : k;
            sequences(n1, k1, [&](std::vector<int>& p1) {
                if (!c.next("layout %d: trees %s against all of %d", lay, names(p1).c_str(), n2)) return;
                c.guard([&] { sequences(n2, k2, [&](std::vector<int>& p2) { pairs(c, A, p1, p2); }); });
            });
        }
    }
    if (c.next("setLeft and setRight")) c.guard([&] {
        BVHNode n;
        auto a = std::make_unique<BVHNode>(AABB(vec3(0, 0, 0), vec3(1, 1, 1))), b = std::make_unique<BVHNode>(AABB(vec3(2, 2, 2), vec3(3, 3, 3)));
        auto *pa = a.get(), *pb = b.get();
        n.setLeft(a); n.setRight(b);
        if (n.left.get() != pa || n.right.get() != pb) c.fail("children", "setLeft/setRight did not set the children");
    });
}
