// Partial derivatives, normals, derivative surfaces and derivative control nets of surfaces.
#include "lib.h"
using namespace br;
typedef ref::ld ld;
using ref::P3;

static P3 cross3(const P3& a, const P3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static ld len(const P3& a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
static ld mag(const P3& a) { return std::max({fabsl(a[0]), fabsl(a[1]), fabsl(a[2])}); }

// derivative of order (ku,kv) of a polynomial surface
static P3 pd(const ref::Surf& r, double u, double v, int ku, int kv) { auto h = r.hom(u, v, ku, kv); return {h[0], h[1], h[2]}; }

static std::vector<double> inside(const std::vector<double>& U, int p, int inner) {   // ends of the domain and points well inside spans
    std::vector<double> d = ref::distinct(U), r;
    double lo = U[p], hi = U[U.size() - 1 - p];
    r.push_back(lo);
    for (size_t i = 0; i + 1 < d.size(); i++) if (d[i] >= lo && d[i + 1] <= hi) for (int k = 1; k <= inner; k++) r.push_back(d[i] + (d[i + 1] - d[i]) * k / (inner + 1.0));
    r.push_back(hi);
    return r;
}

static void one(mc::Ctx& c, int p, int q, const std::vector<double>& U, const std::vector<double>& V, int kind, int wk, bool poly_only) {
    ref::Surf r = ref::make_surf(p, q, U, V, kind, wk);
    NURBSSurface s = mk(r);
    uint64_t h0 = hash(s);
    c.state(h0);
    ld sc = ref::scale(r);
    double ms = 1e300;
    for (auto* W : {&U, &V}) { auto D = ref::distinct(*W); for (size_t i = 1; i < D.size(); i++) ms = std::min(ms, D[i] - D[i - 1]); }
    // finite differences with step 1e-5: error h^2/6 * third derivative plus rounding
    ld fd = 60 * sc * 1e-10L * p * p * p * q * q * q / (ms * ms * ms) + 1e-16L * sc / 1e-5L * 300;
    for (double u : inside(U, p, c.thorough ? 3 : 2))
        for (double v : inside(V, q, c.thorough ? 3 : 2)) {
            P3 du = r.der(u, v, 0), dv = r.der(u, v, 1);
            vec3 a(5, 5, 5), b(6, 6, 6), n(7, 7, 7);
            c.at("derivative_u", u, v); s.derivative_u(u, v, a);
            c.at("derivative_v", u, v); s.derivative_v(u, v, b);
            c.trans(2);
            ld ta = 1e-5L * (1 + mag(du)) + fd, tb = 1e-5L * (1 + mag(dv)) + fd;
            if (!same(a, du, ta)) c.fail("derivative_u", "(%.17g,%.17g) got %s expected %s", u, v, s3(a).c_str(), s3(du).c_str());
            if (!same(b, dv, tb)) c.fail("derivative_v", "(%.17g,%.17g) got %s expected %s", u, v, s3(b).c_str(), s3(dv).c_str());
            P3 x = cross3(du, dv);
            ld L = len(x);
            if (L > 1e-3L * (1 + len(du)) * (1 + len(dv))) {
                c.at("normal", u, v); s.normal(u, v, n); c.trans();
                P3 e{x[0] / L, x[1] / L, x[2] / L};
                ld tn = 4 * (ta * (len(dv) + 1) + tb * (len(du) + 1)) / L + 1e-7L;
                if (tn < 0.3L && !same(n, e, tn)) c.fail("normal", "(%.17g,%.17g) got %s expected %s", u, v, s3(n).c_str(), s3(e).c_str());
                if (!mc::near(n.x * n.x + n.y * n.y + n.z * n.z, 1, 1e-7)) c.fail("normal|unit", "(%.17g,%.17g) length^2 %.17g", u, v, n.x * n.x + n.y * n.y + n.z * n.z);
            } else c.tag("degenerate normal skipped");
        }
    if (wk == 0) {
        // derivative surfaces: every sequence of u / v differentiations up to the degrees (bounded)
        struct St { NURBSSurface s; int ku, kv; std::string h; };
        std::deque<St> todo{{s, 0, 0, ""}};
        int maxd = c.thorough ? 4 : 3;
        while (!todo.empty()) {
            St st = std::move(todo.front()); todo.pop_front();
            if (st.ku + st.kv) {
                c.state(hash(st.s));
                std::string e = invalid(st.s);
                if (!e.empty()) { c.fail("derivative-surface|invalid", "%s: %s", st.h.c_str(), e.c_str()); continue; }
                if (st.s._degree[0] != p - st.ku || st.s._degree[1] != q - st.kv) { c.fail("derivative-surface|degree", "%s: degrees %d,%d", st.h.c_str(), st.s._degree[0], st.s._degree[1]); continue; }
                ld tol = 1e-9L * sc;
                for (int k = 0; k < st.ku; k++) tol *= 2 * p / ms; for (int k = 0; k < st.kv; k++) tol *= 2 * q / ms;
                for (double u : ref::params(U, p, 1, false)) for (double v : ref::params(V, q, 1, false)) {
                    vec3 g(9, 9, 9);
                    c.at("derivative-surface", u, v);
                    st.s.evaluate(u, v, g);
                    c.trans();
                    P3 e = pd(r, u, v, st.ku, st.kv);
                    if (!same(g, e, tol)) { c.fail("derivative-surface|" + std::to_string(st.ku) + "," + std::to_string(st.kv), "%s at (%.17g,%.17g) got %s expected %s", st.h.c_str(), u, v, s3(g).c_str(), s3(e).c_str()); goto next; }
                }
            }
            for (int d = 0; d < 2; d++) {
                // differentiate only while the result stays a function (continuous enough): multiplicity below the remaining degree
                int deg = d ? q - st.kv : p - st.ku;
                const auto& W = d ? V : U;
                int mm = 0;
                for (double x : W) if (x > W.front() && x < W.back()) mm = std::max(mm, (int)std::count(W.begin(), W.end(), x));
                if (deg < 1 || mm > deg || st.ku + st.kv >= maxd) continue;
                NURBSSurface a = st.s.get_derivative(d), b = mk(ref::make_surf(2, 3, ref::clamped(2, {1}, 0), ref::clamped(3, {}, 1), 0, 1));
                st.s.get_derivative(d, b);
                c.trans(2);
                if (hash(a) != hash(b)) c.fail("derivative-surface|forms-differ", "%s", st.h.c_str());
                todo.push_back({std::move(a), st.ku + (d == 0), st.kv + (d == 1), st.h + (d ? " d/dv" : " d/du")});
            }
            next:;
        }
        for (int bad : {-1, 2}) { bool t = false; try { s.get_derivative(bad); } catch (const std::invalid_argument&) { t = true; } if (!t) c.fail("derivative-surface|direction", "direction %d accepted", bad); }
    }
    if (hash(s) != h0) c.fail("mutates", "a derivative query changed the surface");
    // derivative control nets (Piegl-Tiller A3.7) on every sub-range of the net: the nets of the differentiated basis
    if (!poly_only || wk == 0) {
        int n = r.P.size(), m = r.P[0].size();
        std::vector<std::vector<vec4>> byv(m, std::vector<vec4>(n));
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) byv[j][i] = s._control_points[i][j];
        for (int D = 0; D <= std::min(3, std::max(p, q)); D++)
            for (int r0 = 0; r0 + p < n; r0++) for (int s0 = 0; s0 + q < m; s0++)
                for (int full = 0; full < 2; full++) {
                    int r1 = full ? n - 1 : r0 + p, s1 = full ? m - 1 : s0 + q;
                    if (full && (r0 || s0) && !c.thorough) continue;
                    // the spans must be non-degenerate for the divided differences to exist
                    bool ok = true;
                    for (int i = r0; i <= r1; i++) for (int k = 1; k <= std::min(p, D); k++) if (i + p + 1 < (int)U.size() && i <= r1 - k && U[i + p + 1] == U[i + k]) ok = false;
                    for (int j = s0; j <= s1; j++) for (int k = 1; k <= std::min(q, D); k++) if (j + q + 1 < (int)V.size() && j <= s1 - k && V[j + q + 1] == V[j + k]) ok = false;
                    if (!ok) continue;
                    std::vector<std::vector<std::vector<std::vector<vec4>>>> K;
                    c.at("surface_deriv_cpts", D, r0, s0);
                    surface_deriv_cpts(4, {p, q}, U, V, byv, {n, m}, {r0, r1}, {s0, s1}, D, K);
                    c.trans();
                    // reference: repeated divided differences
                    for (int k = 0; k <= std::min(p, D); k++) for (int l = 0; l <= std::min(q, D) && k + l <= D; l++) {
                        std::vector<std::vector<ref::H>> Q = r.P;
                        for (int a = 1; a <= k; a++) { std::vector<std::vector<ref::H>> Z(Q.size() - 1, Q[0]); for (size_t i = 0; i < Z.size(); i++) for (int j = 0; j < m; j++) for (int d = 0; d < 4; d++) { ld den = (ld)U[i + p + 1] - U[i + a]; Z[i][j][d] = den ? (p - a + 1) * (Q[i + 1][j][d] - Q[i][j][d]) / den : 0; } Q = Z; }
                        for (int a = 1; a <= l; a++) { auto Z = Q; for (auto& row : Z) row.pop_back(); for (size_t i = 0; i < Z.size(); i++) for (size_t j = 0; j < Z[i].size(); j++) for (int d = 0; d < 4; d++) { ld den = (ld)V[j + q + 1] - V[j + a]; Z[i][j][d] = den ? (q - a + 1) * (Q[i][j + 1][d] - Q[i][j][d]) / den : 0; } Q = Z; }
                        ld tol = 1e-10L * sc * 10;
                        for (int a = 0; a < k; a++) tol *= 2 * p / ms; for (int a = 0; a < l; a++) tol *= 2 * q / ms;
                        for (int i = 0; i <= r1 - r0 - k; i++) for (int j = 0; j <= s1 - s0 - l; j++) for (int d = 0; d < 4; d++)
                            if (!(fabsl(K[k][l][i][j][d] - Q[r0 + i][s0 + j][d]) <= tol)) { c.fail("derivative-net", "order (%d,%d) range u %d..%d v %d..%d entry %d,%d: %.12g expected %.12Lg", k, l, r0, r1, s0, s1, i, j, K[k][l][i][j][d], Q[r0 + i][s0 + j][d]); goto done; }
                    }
                }
        done:;
    }
    // quotient rule: A^(k,l) = sum C(k,i) C(l,j) w^(i,j) S^(k-i,l-j)
    {
        int D = 3;
        static const double B[4][4] = {{1}, {1, 1}, {1, 2, 1}, {1, 3, 3, 1}};
        for (double u : inside(U, p, 1)) for (double v : inside(V, q, 1)) {
            std::vector<std::vector<vec4>> A(D + 1, std::vector<vec4>(D + 1)), S;
            for (int k = 0; k <= D; k++) for (int l = 0; l <= D; l++) { auto h = r.hom(u, v, k, l); A[k][l] = vec4((double)h[0], (double)h[1], (double)h[2], (double)h[3]); }
            for (int o = 0; o <= D; o++) {
                c.at("rat_surface_derivs", u, v, o);
                rat_surface_derivs(A, o, S);
                c.trans();
                bool ok = (int)S.size() == o + 1;
                for (int k = 0; ok && k <= o; k++) for (int l = 0; ok && l <= o; l++) for (int d = 0; d < 3; d++) {
                    ld sum = 0, big = 1;
                    for (int i = 0; i <= k; i++) for (int j = 0; j <= l; j++) { ld x = (ld)B[k][i] * B[l][j] * A[i][j].w * S[k - i][l - j][d]; sum += x; big = std::max(big, fabsl(x)); }
                    if (!(fabsl(sum - A[k][l][d]) <= 1e-9L * big)) { c.fail("quotient-rule", "(%.17g,%.17g) order (%d,%d) of %d: Leibniz identity gives %.12Lg expected %.12g", u, v, k, l, o, sum, (double)A[k][l][d]); ok = false; break; }
                }
            }
        }
    }
}

void mc_explore(mc::Ctx& c) {
    for (int p = 1; p <= 8; p++)
        for (int q = 1; q <= 8; q++) {
            if (!c.thorough && p + q > 9) continue;
            bool small = p <= 4 && q <= 4;
            auto mu = ref::mult_patterns(p <= 3 && small ? 2 : 1, p), mv = ref::mult_patterns(q <= 2 && small ? 2 : 1, q);
            for (auto& m : mu) for (auto& k : mv) {
                if (!small && !m.empty() && !k.empty() && m[0] != 1 && m[0] != p && k[0] != 1 && k[0] != q) continue;
                for (int lay : {0, 1, 4})
                    for (int wk = 0; wk < ref::kWeights; wk++) {
                        if (!c.thorough && (wk + lay + m.size()) % 2) continue;
                        int kind = (p + q + wk + lay) % 4;
                        if (!c.next("degrees %d,%d multiplicities %s %s layout %d net %d weights %d", p, q, ref::str(m).c_str(), ref::str(k).c_str(), lay, kind, wk)) continue;
                        c.guard([&] { one(c, p, q, ref::clamped(p, m, lay), ref::clamped(q, k, lay == 0 ? 1 : 0), kind, wk, true); });
                    }
            }
        }
}
