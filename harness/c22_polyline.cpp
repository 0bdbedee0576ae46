// Assembling segments into chains: every segment exactly once, chains as long as the order allows.
#include <algorithm>
#include <unordered_map>
#include "lib.h"
#include "cmmcore/polyline.h"
using namespace br;
struct Map { double s[3], o[3]; };
static const Map MAPS[] = {{{1, 1, 1}, {0, 0, 0}}, {{-1, 0.1, 7}, {-3, 0.7, 0.1}}, {{1e-9, 1e-9, -1e-9}, {0, 0, 0}}, {{1e4, 1e5, 1e6}, {-1e4, 0, 3}}, {{0.3, -0.3, 2}, {1e-7, 1e-7, -4e-7}}, {{4096 * 2.220446049250313e-16, -4096 * 2.220446049250313e-16, 2048 * 2.220446049250313e-16}, {1e-16, -1e-16, 1e-16}}};
// with the last map the second ends of the segments are 0.4 epsilon beside the first ones, across the cells of a grid of that size
static const double J = 0.9e-16;
// the corner and edge points of a unit cube, named so that neighbours differ in one or more coordinates
static vec3 pt(int i, int m) {
    static const int P[6][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 1}, {0, 0, -1}, {-1, 2, 0}};
    auto& M = MAPS[m];
    vec3 v(P[i][0] * M.s[0] + M.o[0], P[i][1] * M.s[1] + M.o[1], P[i][2] * M.s[2] + M.o[2]);
    return v;
}
using Seg = std::pair<int, int>;
static vec3 pt2(int i, int m) { vec3 v = pt(i, m); if (m == 5) { v.x += J; v.y -= J; v.z += J; } return v; }
static void run(mc::Ctx& c, const std::vector<Seg>& S, int np, int m) {
    std::vector<Segment> segs; std::string d;
    for (auto& s : S) { segs.push_back({pt(s.first, m), pt2(s.second, m)}); if (c.cur_failed || true) d += mc::fmt("%d-%d ", s.first, s.second); }
    std::vector<std::list<vec3>> out; out.push_back({vec3(9, 9, 9)});
    c.at("assemble_polylines", (double)S.size(), m);
    auto& r = assemble_polylines(segs, out); c.trans();
    if (&r != &out) { c.fail("reference", "%s: another list is returned", d.c_str()); return; }
    if (out.empty() || out[0].size() != 1 || out[0].front().x != 9) { c.fail("earlier", "%s: chains that were already there changed", d.c_str()); return; }
    for (size_t i = 0; i < S.size(); i++) if ((segs[i].p1 - pt(S[i].first, m)).length() != 0 || (segs[i].p2 - pt2(S[i].second, m)).length() != 0) { c.fail("input", "%s: segment %zu was changed", d.c_str(), i); return; }
    int left[6][6] = {}; size_t total = S.size();
    for (auto& s : S) left[std::min(s.first, s.second)][std::max(s.first, s.second)]++;
    std::vector<std::vector<int>> ch;
    for (size_t k = 1; k < out.size(); k++) {
        ch.emplace_back();
        for (auto& v : out[k]) { int id = -1; for (int i = 0; i < np; i++) { vec3 q = pt(i, m); vec3 q2 = pt2(i, m); if ((q.x == v.x && q.y == v.y && q.z == v.z) || (q2.x == v.x && q2.y == v.y && q2.z == v.z)) id = i; } if (id < 0) { c.fail("foreign", "%s: chain %zu has a point that is no end of a segment", d.c_str(), k - 1); return; } ch.back().push_back(id); }
        if (ch.back().empty()) { c.fail("empty", "%s: an empty chain", d.c_str()); return; }
        for (size_t i = 0; i + 1 < ch.back().size(); i++) { int a = ch.back()[i], b = ch.back()[i + 1]; if (--left[std::min(a, b)][std::max(a, b)] < 0) { c.fail("edge", "%s: the edge %d-%d of chain %zu is no segment or is used twice", d.c_str(), a, b, k - 1); return; } total--; }
    }
    // a closed chain does not repeat its first point (segments that are points leave some freedom)
    bool pts = false; for (auto& s : S) pts |= s.first == s.second;
    if (!pts) for (size_t k = 0; k < ch.size(); k++) if (ch[k].size() > 1 && ch[k].front() == ch[k].back()) { c.fail("repeated", "%s: chain %zu repeats its first point %d at its end", d.c_str(), k, ch[k].front()); return; }
    // what is left closes chains
    std::vector<char> closed(ch.size(), 0);
    for (size_t k = 0; k < ch.size(); k++) { int a = ch[k].front(), b = ch[k].back(); int& l = left[std::min(a, b)][std::max(a, b)]; if (l > 0) { l--; total--; closed[k] = 1; } else if (ch[k].size() == 1) { c.fail("single", "%s: a chain of one point without a segment", d.c_str()); return; } }
    if (total) { c.fail("lost", "%s: %zu segments are in no chain (%zu chains)", d.c_str(), total, ch.size()); return; }
    for (size_t k = 0; k < ch.size(); k++) for (size_t l = k + 1; l < ch.size(); l++) for (int e : {ch[k].front(), closed[k] ? ch[k].front() : ch[k].back()})
        if (std::find(ch[l].begin(), ch[l].end(), e) != ch[l].end()) {
            if (closed[k]) { bool pinned = false; for (int x : ch[k]) pinned |= std::find(ch[l].begin(), ch[l].end(), x) == ch[l].end(); (void)pinned; }
            c.fail("short", "%s: chain %zu ends at point %d although chain %zu goes on from there", d.c_str(), k, e, l); return; }
}
void mc_explore(mc::Ctx& c) {
    // all lists of segments over 4 points (a segment may be a point, and repeated)
    int N = c.thorough ? 6 : 5;
    for (int n = 0; n <= N; n++) for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) {
        if ((n == 0 && (a || b)) || (n == 1 && b)) continue;
        if (!c.next("%d segments over 4 points from %d %d", n, a, b)) continue;
        c.guard([&] {
            size_t rest = 1; for (int i = 2; i < n; i++) rest *= 16;
            for (size_t s = 0; s < rest; s++) {
                std::vector<Seg> S; size_t t = s;
                for (int i = 0; i < n; i++) { int k = i == 0 ? a : i == 1 ? b : (int)(t % 16); if (i > 1) t /= 16; S.push_back({k / 4, k % 4}); }
                c.state(mc::mix(mc::mix(s, a * 16 + b), n));
                run(c, S, 4, n <= 3 ? 0 : (int)((s + a + b) % 6)); if (c.cur_failed) return;
                if (n <= 3) for (int m = 1; m < 6; m++) run(c, S, 4, m);
                if (c.cur_failed) return;
            }
        });
    }
    // every permutation and orientation of closed loops and trees over 6 points
    static const std::vector<std::vector<Seg>> SH = {{{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 5}, {5, 0}}, {{0, 1}, {1, 2}, {2, 0}, {3, 4}, {4, 5}, {5, 3}}, {{0, 1}, {0, 2}, {0, 3}, {0, 4}, {0, 5}}, {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {3, 4}, {4, 0}}, {{0, 1}, {1, 2}, {2, 3}, {3, 1}, {3, 4}, {5, 5}}, {{0, 1}, {1, 2}, {2, 3}, {4, 5}, {5, 0}}};
    for (size_t k = 0; k < SH.size(); k++) for (size_t flip = 0; flip < (1u << SH[k].size()); flip++) {
        if (!c.next("shape %zu with the directions %zx in all orders", k, flip)) continue;
        c.guard([&] {
            std::vector<int> o; for (size_t i = 0; i < SH[k].size(); i++) o.push_back(i);
            size_t z = 0;
            do { std::vector<Seg> S; for (int i : o) { auto s = SH[k][i]; if (flip >> i & 1) std::swap(s.first, s.second); S.push_back(s); }
                c.state(mc::mix(mc::mix(k, flip), ++z)); run(c, S, 6, (int)(z % 6)); if (c.cur_failed) return; } while (std::next_permutation(o.begin(), o.end()));
        });
    }
}
