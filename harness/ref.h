// Independent reference semantics for B-spline curves and surfaces (long double, textbook definitions only).
#pragma once
#include "mc.h"
namespace ref {
typedef long double ld;
typedef std::array<ld, 4> H;          // homogeneous point (wx, wy, wz, w)
typedef std::array<ld, 3> P3;

// Cox-de Boor recursion, straight from the definition. `last` = evaluate the left limit (used at the end of the domain).
inline ld N(const std::vector<double>& U, int i, int p, ld t, bool last) {
    if (p == 0) return last ? (t > U[i] && t <= U[i + 1]) : (t >= U[i] && t < U[i + 1]);
    ld r = 0, d1 = (ld)U[i + p] - U[i], d2 = (ld)U[i + p + 1] - U[i + 1];
    if (d1 > 0) r += (t - U[i]) / d1 * N(U, i, p - 1, t, last);
    if (d2 > 0) r += ((ld)U[i + p + 1] - t) / d2 * N(U, i + 1, p - 1, t, last);
    return r;
}
// k-th derivative of N_{i,p}
inline ld dN(const std::vector<double>& U, int i, int p, ld t, int k, bool last) {
    if (k == 0) return N(U, i, p, t, last);
    if (p == 0) return 0;
    ld r = 0, d1 = (ld)U[i + p] - U[i], d2 = (ld)U[i + p + 1] - U[i + 1];
    if (d1 > 0) r += p / d1 * dN(U, i, p - 1, t, k - 1, last);
    if (d2 > 0) r -= p / d2 * dN(U, i + 1, p - 1, t, k - 1, last);
    return r;
}
struct Curve {
    int p = 0;
    std::vector<double> U;
    std::vector<H> P;
    double lo() const { return U[p]; }
    double hi() const { return U[U.size() - 1 - p]; }
    H hom(ld t, int k = 0, bool left = false) const {
        bool last = left || t >= hi();
        H r{0, 0, 0, 0};
        for (size_t i = 0; i < P.size(); i++) {
            if (!(t >= U[i] && t <= U[i + p + 1])) continue;
            ld b = dN(U, i, p, t, k, last);
            for (int d = 0; d < 4; d++) r[d] += b * P[i][d];
        }
        return r;
    }
    P3 eval(ld t, bool left = false) const { H h = hom(t, 0, left); return {h[0] / h[3], h[1] / h[3], h[2] / h[3]}; }
    // k-th derivative of the rational curve, k <= 3
    P3 der(ld t, int k, bool left = false) const {
        std::vector<P3> C;
        std::vector<H> A;
        for (int i = 0; i <= k; i++) A.push_back(hom(t, i, left));
        ld bin[16][16] = {};
        for (int i = 0; i < 16; i++) { bin[i][0] = 1; for (int j = 1; j <= i; j++) bin[i][j] = bin[i - 1][j - 1] + (j < i ? bin[i - 1][j] : 0); }
        for (int i = 0; i <= k; i++) {
            P3 v{A[i][0], A[i][1], A[i][2]};
            for (int j = 1; j <= i; j++) for (int d = 0; d < 3; d++) v[d] -= bin[i][j] * A[j][3] * C[i - j][d];
            for (int d = 0; d < 3; d++) v[d] /= A[0][3];
            C.push_back(v);
        }
        return C[k];
    }
};
struct Surf {
    int p = 0, q = 0;
    std::vector<double> U, V;
    std::vector<std::vector<H>> P;    // P[u][v]
    double ulo() const { return U[p]; }
    double uhi() const { return U[U.size() - 1 - p]; }
    double vlo() const { return V[q]; }
    double vhi() const { return V[V.size() - 1 - q]; }
    H hom(ld u, ld v, int ku = 0, int kv = 0, bool lu = false, bool lv = false) const {
        bool a = lu || u >= uhi(), b = lv || v >= vhi();
        std::vector<ld> nu(P.size()), nv(P[0].size());
        for (size_t i = 0; i < nu.size(); i++) nu[i] = (u >= U[i] && u <= U[i + p + 1]) ? dN(U, i, p, u, ku, a) : 0;
        for (size_t j = 0; j < nv.size(); j++) nv[j] = (v >= V[j] && v <= V[j + q + 1]) ? dN(V, j, q, v, kv, b) : 0;
        H r{0, 0, 0, 0};
        for (size_t i = 0; i < nu.size(); i++) if (nu[i] != 0)
            for (size_t j = 0; j < nv.size(); j++) if (nv[j] != 0)
                for (int d = 0; d < 4; d++) r[d] += nu[i] * nv[j] * P[i][j][d];
        return r;
    }
    P3 eval(ld u, ld v, bool lu = false, bool lv = false) const { H h = hom(u, v, 0, 0, lu, lv); return {h[0] / h[3], h[1] / h[3], h[2] / h[3]}; }
    P3 der(ld u, ld v, int dir, bool lu = false, bool lv = false) const {
        H a = hom(u, v, 0, 0, lu, lv), d = hom(u, v, dir == 0, dir == 1, lu, lv);
        P3 r;
        for (int k = 0; k < 3; k++) r[k] = (d[k] - d[3] * a[k] / a[3]) / a[3];
        return r;
    }
};

// ---------- families of inputs ----------
// Interior-knot multiplicity patterns: all tuples of length 0..k with entries 1..m.
inline std::vector<std::vector<int>> mult_patterns(int maxk, int maxm) {
    std::vector<std::vector<int>> r{{}};
    std::vector<std::vector<int>> cur{{}};
    for (int k = 1; k <= maxk; k++) {
        std::vector<std::vector<int>> nx;
        for (auto& c : cur) for (int m = 1; m <= maxm; m++) { auto d = c; d.push_back(m); nx.push_back(d); r.push_back(d); }
        cur = nx;
    }
    return r;
}
// value layouts of the distinct knots. Layout 0: 0,1,2,...  1: uneven on [-1.5, ...]  2: [0,1] uneven  3: tight cluster  4: large offset  5: very short spans
static const int kLayouts = 6;
inline double knot_value(int layout, int i, int n) {   // i in 0..n (n = number of spans)
    switch (layout) {
        case 0: return i;
        case 1: return -1.5 + i * 0.75 + i * i * 0.3125;
        case 2: { double x = (double)i / n; return i == n ? 1.0 : x * x * 0.5 + x * 0.5; }
        case 3: return 2.0 + 0.001953125 * (2 * i + i % 2);
        case 5: return 0.25 + (i / 2) + (i % 2) * 9.5367431640625e-7 * 0.0625;   // very short spans
        default: return 100.0 + i * 2.5;
    }
}
inline std::vector<double> clamped(int p, const std::vector<int>& mult, int layout) {
    int n = mult.size() + 1;
    std::vector<double> U(p + 1, knot_value(layout, 0, n));
    for (size_t k = 0; k < mult.size(); k++) for (int m = 0; m < mult[k]; m++) U.push_back(knot_value(layout, k + 1, n));
    for (int k = 0; k <= p; k++) U.push_back(knot_value(layout, n, n));
    return U;
}
inline std::vector<double> distinct(const std::vector<double>& U) { std::vector<double> d; for (double x : U) if (d.empty() || x != d.back()) d.push_back(x); return d; }

// control nets: `kind` picks geometry, `wk` the weight pattern
static const int kKinds = 5, kWeights = 4;
inline double cv(int kind, int i, int d) {
    static const double t[3][9] = {{0, 1, 3, 4.5, 2, -1, -3, 0.25, 5}, {2, -1, 0.5, 3, 4, -2.5, 1, 6, -4}, {1, 0, -2, 2.5, -0.75, 3, 0.125, -1, 2}};
    double s = t[d][i % 9] + 0.375 * (i / 9) * (d + 1);
    switch (kind) {
        case 0: return s;
        case 1: return d == 0 ? i : d == 1 ? (i % 2 ? 1.5 : -0.5) : 0.0;           // planar zig-zag
        case 2: return 1000.0 * (d + 1) + s;                                        // far from the origin
        case 3: { int j = i / 2; return t[d][j % 9]; }                              // repeated control points
        default: return s * 1e-3 - (d == 1 ? 0.01 * i : 0);                          // small, negative-leaning
    }
}
inline double wv(int wk, int i) {
    switch (wk) {
        case 0: return 1;
        case 1: return i % 2 ? 2.0 : 1.0;
        case 2: return 0.5 + 0.25 * ((i * 5) % 7);
        default: return i % 3 == 1 ? 0.125 : 3.0;
    }
}
inline H hp(int kind, int wk, int i) { ld w = wv(wk, i); return {(ld)cv(kind, i, 0) * w, (ld)cv(kind, i, 1) * w, (ld)cv(kind, i, 2) * w, w}; }
inline Curve make_curve(int p, const std::vector<double>& U, int kind, int wk) {
    Curve c; c.p = p; c.U = U;
    int n = U.size() - p - 1;
    for (int i = 0; i < n; i++) c.P.push_back(hp(kind, wk, i));
    return c;
}
inline double scvp(int kind, int wk, int i, int j, int d) {
    double base = d == 0 ? i * 1.5 + 0.25 * cv(0, j, 0) : d == 1 ? j * 1.25 - 0.2 * cv(0, i, 1) : cv(0, (i * 4 + j * 7) % 13, 2);
    if (kind == 1) base = d == 0 ? i : d == 1 ? j * 2 : 0;
    if (kind == 2) base += 500.0 * (d + 1);
    if (kind == 3) base = d == 0 ? i + 0.5 * j : d == 1 ? j - 0.25 * i * i : i * j * 0.3;
    return base;
}
inline Surf make_surf(int p, int q, const std::vector<double>& U, const std::vector<double>& V, int kind, int wk) {
    Surf s; s.p = p; s.q = q; s.U = U; s.V = V;
    int n = U.size() - p - 1, m = V.size() - q - 1;
    s.P.resize(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
        ld w = wv(wk, i * 3 + j * (wk == 1 ? 2 : 1) + (wk == 1 ? i % 2 : 0));
        s.P[i].push_back({scvp(kind, wk, i, j, 0) * w, scvp(kind, wk, i, j, 1) * w, scvp(kind, wk, i, j, 2) * w, w});
    }
    return s;
}
// parameters worth asking: every distinct knot, both sides of it, and points inside every span
inline std::vector<double> params(const std::vector<double>& U, int p, int inner, bool sides) {
    std::vector<double> d = distinct(U), r;
    double lo = U[p], hi = U[U.size() - 1 - p];
    for (size_t i = 0; i < d.size(); i++) {
        if (d[i] < lo || d[i] > hi) continue;
        r.push_back(d[i]);
        if (sides) {
            double e = (hi - lo) * 1e-7;
            if (d[i] - e > lo) r.push_back(d[i] - e);
            if (d[i] + e < hi) r.push_back(d[i] + e);
        }
        if (i + 1 < d.size() && d[i + 1] <= hi)
            for (int k = 1; k <= inner; k++) r.push_back(d[i] + (d[i + 1] - d[i]) * k / (inner + 1.0));
    }
    return r;
}
inline ld scale(const Curve& c) { ld s = 1; for (auto& p : c.P) for (int d = 0; d < 3; d++) s = std::max(s, fabsl(p[d] / p[3])); return s; }
inline ld scale(const Surf& c) { ld s = 1; for (auto& r : c.P) for (auto& p : r) for (int d = 0; d < 3; d++) s = std::max(s, fabsl(p[d] / p[3])); return s; }
inline std::string str(const std::vector<double>& v) { std::string s = "["; for (double x : v) s += mc::fmt("%s%g", s.size() > 1 ? "," : "", x); return s + "]"; }
inline std::string str(const std::vector<int>& v) { std::string s = "["; for (int x : v) s += mc::fmt("%s%d", s.size() > 1 ? "," : "", x); return s + "]"; }
} // namespace ref
