// Graph surfaces z = g(x,y) over a rectangle, with the parameters x and y themselves, as NURBS of any degree, with inner
// knots and rational; exact crossings of the edges of one with another.
#pragma once
#include "lib.h"
namespace gr {
using ref::ld;
using Poly = std::vector<ld>;                       // by rising power
struct G { std::vector<std::array<ld, 3>> t; };     // terms {coefficient, power of x, power of y}
struct Rect { double x0, x1, y0, y1; };
inline ld ipow(ld x, int n) { ld r = 1; while (n-- > 0) r *= x; return r; }
inline ld val(const G& g, ld x, ld y) { ld r = 0; for (auto& t : g.t) r += t[0] * ipow(x, (int)t[1]) * ipow(y, (int)t[2]); return r; }
inline ld dx(const G& g, ld x, ld y) { ld r = 0; for (auto& t : g.t) if (t[1] > 0) r += t[0] * t[1] * ipow(x, (int)t[1] - 1) * ipow(y, (int)t[2]); return r; }
inline ld dy(const G& g, ld x, ld y) { ld r = 0; for (auto& t : g.t) if (t[2] > 0) r += t[0] * t[2] * ipow(x, (int)t[1]) * ipow(y, (int)t[2] - 1); return r; }
inline G diff(G a, const G& b) { for (auto t : b.t) { t[0] = -t[0]; a.t.push_back(t); } return a; }
inline Poly along_y(const G& g, ld x) { Poly p; for (auto& t : g.t) { if (p.size() <= (size_t)t[2]) p.resize((size_t)t[2] + 1, 0); p[(size_t)t[2]] += t[0] * ipow(x, (int)t[1]); } return p; }
inline Poly along_x(const G& g, ld y) { Poly p; for (auto& t : g.t) { if (p.size() <= (size_t)t[1]) p.resize((size_t)t[1] + 1, 0); p[(size_t)t[1]] += t[0] * ipow(y, (int)t[2]); } return p; }
inline ld pv(const Poly& p, ld x) { ld r = 0; for (size_t i = p.size(); i-- > 0;) r = r * x + p[i]; return r; }
// all real roots in [a,b], isolated by the roots of the derivative; zero polynomial: flag
inline std::vector<ld> roots(Poly p, ld a, ld b, bool& zero) {
    zero = false;
    while (!p.empty() && fabsl(p.back()) < 1e-15L) p.pop_back();
    std::vector<ld> r;
    if (p.empty()) { zero = true; return r; }
    if (p.size() == 1) return r;
    Poly d; for (size_t i = 1; i < p.size(); i++) d.push_back(p[i] * i);
    bool z; std::vector<ld> cut{a}; for (ld x : roots(d, a, b, z)) cut.push_back(x); cut.push_back(b);
    auto add = [&](ld x) { if (r.empty() || x - r.back() > 1e-10L) r.push_back(x); };
    for (size_t i = 0; i + 1 < cut.size(); i++) {
        ld l = cut[i], h = cut[i + 1], fl = pv(p, l), fh = pv(p, h);
        if (fabsl(fl) < 1e-13L) { add(l); if (fabsl(fh) < 1e-13L) add(h); continue; }
        if (fabsl(fh) < 1e-13L) { add(h); continue; }
        if ((fl < 0) == (fh < 0)) continue;
        for (int k = 0; k < 100; k++) { ld m = (l + h) / 2, fm = pv(p, m); if ((fm < 0) == (fl < 0)) l = m; else h = m; }
        add((l + h) / 2);
    }
    return r;
}
// blossom of x^k at degree p with the arguments T[0..p)
inline ld blossom(int k, int p, const double* T) {
    std::vector<ld> e(p + 1, 0); e[0] = 1;
    for (int i = 0; i < p; i++) for (int j = i + 1; j >= 1; j--) e[j] += e[j - 1] * T[i];
    ld c = 1; for (int i = 0; i < k; i++) c = c * (p - i) / (i + 1);
    return e[k] / c;
}
struct Rep { int p, q; std::vector<double> iu, iv; double wx, wy; };   // degrees, inner knots as fractions, weight 1+wx*x+wy*y
static const double ROT[5][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{0.6, -0.8, 0}, {0.8, 0.6, 0}, {0, 0, 1}}, {{0, 0, 1}, {0, 1, 0}, {-1, 0, 0}}, {{0.8, -0.6, 0}, {0.48, 0.64, -0.6}, {0.36, 0.48, 0.8}}, {{1, 0, 0}, {0, 0, -1}, {0, 1, 0}}};
inline ref::P3 place(int m, ld x, ld y, ld z) { ref::P3 r; for (int k = 0; k < 3; k++) r[k] = (ld)ROT[m][k][0] * x + (ld)ROT[m][k][1] * y + (ld)ROT[m][k][2] * z + (m ? k + 1 : 0); return r; }
inline ref::Surf surf(const G& g, const Rect& r, const Rep& rep, int m) {
    G W; W.t = {{1, 0, 0}}; if (rep.wx) W.t.push_back({rep.wx, 1, 0}); if (rep.wy) W.t.push_back({rep.wy, 0, 1});
    auto mul = [](const G& a, const G& b) { G o; for (auto& s : a.t) for (auto& t : b.t) o.t.push_back({s[0] * t[0], s[1] + t[1], s[2] + t[2]}); return o; };
    G X{{{1, 1, 0}}}, Y{{{1, 0, 1}}}; G H[4] = {mul(X, W), mul(Y, W), mul(g, W), W};
    ref::Surf s; s.p = rep.p; s.q = rep.q;
    auto kn = [](int p, double a, double b, const std::vector<double>& in) { std::vector<double> U(p + 1, a); for (double f : in) U.push_back(a + (b - a) * f); for (int i = 0; i <= p; i++) U.push_back(b); return U; };
    s.U = kn(s.p, r.x0, r.x1, rep.iu); s.V = kn(s.q, r.y0, r.y1, rep.iv);
    size_t n = s.U.size() - s.p - 1, k = s.V.size() - s.q - 1;
    s.P.assign(n, std::vector<ref::H>(k));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < k; j++) {
        ld h[4];
        for (int d = 0; d < 4; d++) { h[d] = 0; for (auto& t : H[d].t) h[d] += t[0] * blossom((int)t[1], s.p, &s.U[i + 1]) * blossom((int)t[2], s.q, &s.V[j + 1]); }
        auto pt = place(m, h[0] / h[3], h[1] / h[3], h[2] / h[3]);
        s.P[i][j] = {(ld)(double)(pt[0] * h[3]), (ld)(double)(pt[1] * h[3]), (ld)(double)(pt[2] * h[3]), (ld)(double)h[3]};
    }
    return s;
}
inline int degx(const G& g) { int d = 1; for (auto& t : g.t) d = std::max(d, (int)t[1]); return d; }
inline int degy(const G& g) { int d = 1; for (auto& t : g.t) d = std::max(d, (int)t[2]); return d; }
// representations of a graph: plain, raised with inner knots, rational
inline Rep rep(const G& g, int k) {
    int p = degx(g), q = degy(g);
    if (k == 1) return {p + 1, q, {0.3, 0.55}, {0.45}, 0, 0};
    if (k == 2) return {p + 1, q + 1, {}, {}, 0.25, -0.2};
    if (k == 3) return {p, q + 2, {}, {0.25, 0.25, 0.7}, 0, 0};
    return {p, q, {}, {}, 0, 0};
}
struct Cross { ld x, y, sine; bool inside; };
// crossings of the edges of (g1,r1) with (g2,r2); degenerate: an edge lies in the other surface
inline std::vector<Cross> crossings(const G& g1, const Rect& r1, const G& g2, const Rect& r2, bool& degenerate) {
    std::vector<Cross> out; G h = diff(g1, g2); bool z; const ld e = 1e-5L;
    auto put = [&](ld x, ld y, bool vert, bool end) {
        if (x < r2.x0 - e || x > r2.x1 + e || y < r2.y0 - e || y > r2.y1 + e) return;
        ld s = fabsl(vert ? dy(h, x, y) : dx(h, x, y)), t = vert ? dy(g1, x, y) : dx(g1, x, y), nx = dx(g2, x, y), ny = dy(g2, x, y);
        out.push_back({x, y, s / sqrtl((1 + t * t) * (1 + nx * nx + ny * ny)), !end && x > r2.x0 + e && x < r2.x1 - e && y > r2.y0 + e && y < r2.y1 - e});
    };
    for (int k = 0; k < 2; k++) {
        ld x = k ? r1.x1 : r1.x0;
        for (ld y : roots(along_y(h, x), r1.y0, r1.y1, z)) put(x, y, true, y < r1.y0 + e || y > r1.y1 - e);
        if (z && x >= r2.x0 && x <= r2.x1 && std::min(r1.y1, r2.y1) >= std::max(r1.y0, r2.y0)) degenerate = true;
        ld y = k ? r1.y1 : r1.y0;
        for (ld xx : roots(along_x(h, y), r1.x0, r1.x1, z)) put(xx, y, false, xx < r1.x0 + e || xx > r1.x1 - e);
        if (z && y >= r2.y0 && y <= r2.y1 && std::min(r1.x1, r2.x1) >= std::max(r1.x0, r2.x0)) degenerate = true;
    }
    return out;
}
inline const std::vector<G>& graphs() {
    static const std::vector<G> v = {
        {{{0, 0, 0}}}, {{{0.25, 0, 0}}}, {{{1, 1, 0}}}, {{{-0.5, 0, 1}, {0.1, 0, 0}}}, {{{0.5, 1, 0}, {0.5, 0, 1}}}, {{{0.7, 1, 1}}},
        {{{1, 2, 0}, {-0.4, 0, 0}}}, {{{0.5, 2, 0}, {0.5, 0, 2}, {-0.6, 0, 0}}}, {{{0.6, 2, 0}, {-0.6, 0, 2}, {0.05, 0, 0}}}, {{{0.5, 2, 1}, {-0.3, 0, 1}}},
        {{{1, 3, 0}, {-0.6, 1, 0}, {0.07, 0, 0}}}, {{{-0.8, 0, 2}, {0.3, 1, 0}, {0.5, 0, 0}}}, {{{0.9, 2, 2}, {-0.2, 0, 0}}}, {{{2, 1, 0}, {-0.7, 0, 0}}}, {{{1, 0, 1}, {-1, 2, 0}}}, {{{-0.9, 1, 0}, {1.2, 0, 2}}}, {{{1, 0, 1}, {-0.6, 3, 0}, {0.35, 1, 0}, {-0.1, 0, 0}}}};
    return v;
}
inline const std::vector<Rect>& rects() {
    static const std::vector<Rect> v = {{-1, 1, -1, 1}, {-0.9, 1.3, -1.1, 0.7}, {-0.5, 0.5, -2, 2}, {0.05, 1.75, 0.15, 1.45}, {-0.4, 0.35, -0.3, 0.45}, {-3, 3, -0.2, 0.3}, {0.31, 0.34, -1.2, 0.9}, {-1.3, 1.2, 0.07, 0.9}, {0.1, 1.9, -1.05, 0.95}};
    return v;
}
}
