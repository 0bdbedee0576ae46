// Small linear systems and matrices, against exact integer arithmetic.
#include "lib.h"
#include "cmmcore/matrix.h"
#include "cmmcore/newthon2.h"
#include "cmmcore/ssx.h"
using namespace cmmcore;
typedef long long ll; typedef long double ld;
typedef std::vector<std::vector<ll>> IM;
static ll det(const IM& m) {   // Laplace, exact
    size_t n = m.size(); if (n == 1) return m[0][0]; if (n == 2) return m[0][0] * m[1][1] - m[0][1] * m[1][0];
    ll r = 0; for (size_t c = 0; c < n; c++) { if (!m[0][c]) continue; IM s; for (size_t i = 1; i < n; i++) { std::vector<ll> q; for (size_t j = 0; j < n; j++) if (j != c) q.push_back(m[i][j]); s.push_back(q); } r += (c % 2 ? -1 : 1) * m[0][c] * det(s); }
    return r;
}
static std::string str(const IM& m) { std::string s; for (auto& r : m) { s += "["; for (auto x : r) s += std::to_string(x) + " "; s += "]"; } return s; }
static const double SC[5] = {1, 1e-3, 1e3, 0.1, 7};
static bool inv_ok(mc::Ctx& c, const IM& m, double sc, const std::string& h) {
    size_t n = m.size(); ll d = det(m); MatrixD M(n, n), I; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) M(i, j) = m[i][j] * sc;
    auto before = M.data; bool refused = false;
    c.at("MatrixD::inverse", n); c.trans();
    try { I = M.inverse(); } catch (const std::exception&) { refused = true; }
    if (M.data != before) { c.fail("input", "%s: the inverse changed the matrix", h.c_str()); return false; }
    if (refused != (d == 0)) { c.fail("singular", "%s scale %g: determinant %lld, and the inverse was %s", h.c_str(), sc, d, refused ? "refused" : "given"); return false; }
    if (refused) return true;
    if (I.rows != n || I.cols != n || I.data.size() != n * n) { c.fail("inverse", "%s: the inverse is %zux%zu", h.c_str(), I.rows, I.cols); return false; }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { ld a = 0; for (size_t k = 0; k < n; k++) a += (ld)M(i, k) * I(k, j); if (!(fabsl(a - (i == j)) < 1e-9L)) { c.fail("inverse", "%s scale %g: matrix times inverse is %.12Lg at %zu,%zu", h.c_str(), sc, a, i, j); return false; } }
    return true;
}
template <size_t N> static bool chol(mc::Ctx& c, const IM& m, double sc) {
    bool pd = true, semi = false; for (size_t k = 1; k <= N && pd; k++) { IM s(k, std::vector<ll>(k)); for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) s[i][j] = m[i][j]; ll d = det(s); if (d <= 0) { pd = false; semi = d == 0 && k > 1; } }
    MatrixSq<N> H, L; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) H[i][j] = m[i][j] * sc;
    c.at("choleskyDecomposition", N); c.trans(); auto H0 = H;
    bool ok = choleskyDecomposition<N>(H, L);
    if (ok != pd && !(semi && ok)) { c.fail("definite", "%s scale %g: the matrix is %spositive definite, and the factors were %s", str(m).c_str(), sc, pd ? "" : "not ", ok ? "given" : "refused"); return false; }
    if (!pd) { if (!semi) { Vector<N> b{}, x{}; b[0] = 1; if (solveLinearSystem<N>(H, b, x)) { c.fail("definite", "%s: a system that is not positive definite was solved", str(m).c_str()); return false; } } return true; }
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { ld a = 0; for (size_t k = 0; k < N; k++) a += (ld)L[i][k] * L[j][k]; if (!(fabsl(a - H[i][j]) <= 1e-12L * sc * 20) || (j > i && L[i][j] != 0)) { c.fail("factor", "%s scale %g: the factor is wrong at %zu,%zu", str(m).c_str(), sc, i, j); return false; } }
    for (int r = 0; r < (1 << N); r++) {
        Vector<N> b, x; for (size_t i = 0; i < N; i++) b[i] = ((r >> i) & 1) ? sc : -2 * sc * (i + 1);
        c.at("solveLinearSystem", N, r); c.trans(); auto b0 = b;
        if (!solveLinearSystem<N>(H, b, x)) { c.fail("refused", "%s scale %g: a positive definite system was refused", str(m).c_str(), sc); return false; }
        for (size_t i = 0; i < N; i++) { ld a = -b[i]; for (size_t k = 0; k < N; k++) a += (ld)H[i][k] * x[k]; if (!(fabsl(a) <= 1e-10L * sc * 20) || b[i] != b0[i]) { c.fail("solution", "%s scale %g right side %d: the solution misses the right side by %.3Lg in row %zu", str(m).c_str(), sc, r, a, i); return false; } }
    }
    if (H != H0) { c.fail("input", "%s: solving changed the matrix", str(m).c_str()); return false; }
    return true;
}
void mc_explore(mc::Ctx& c) {
    int B = c.thorough ? 4 : 3;
    // 2x2 systems: every matrix with entries -B..B
    for (int a = -B; a <= B; a++) for (int b = -B; b <= B; b++) {
        if (!c.next("2x2 matrices with first row %d %d", a, b)) continue;
        c.guard([&] {
            for (int e = -B; e <= B; e++) for (int f = -B; f <= B; f++) for (double sc : SC) {
                IM m{{a, b}, {e, f}}; ll d = det(m); std::string h = str(m) + mc::fmt(" scale %g", sc);
                if (sc == 0.1 && d == 0) continue;      // 0.1 times integers is not exactly singular
                if (sc == 1e-3 && d == 0) continue;
                c.state(mc::mix(mc::mix(a, b), mc::mix(mc::mix(e, f), (uint64_t)(sc * 1e6))));
                c.at("Matrix2x2", a, b, e);
                Matrix2x2 M(a * sc, b * sc, e * sc, f * sc), N{{a * sc, b * sc}, {e * sc, f * sc}}; std::array<double, 2> r1{a * sc, b * sc}, r2{e * sc, f * sc}; Matrix2x2 R(r1, r2), Q(M), T; T = M;
                const Matrix2x2& MC = M; c.trans(6);
                for (auto* X : {&M, &N, &R, &Q, &T}) if ((*X)[0][0] != a * sc || (*X)[0][1] != b * sc || (*X)[1][0] != e * sc || (*X)[1][1] != f * sc) { c.fail("build", "%s: built from %s, the matrix is [%g %g][%g %g]", h.c_str(), X == &M ? "numbers" : X == &N ? "nested lists" : X == &R ? "rows" : "a copy", (*X)[0][0], (*X)[0][1], (*X)[1][0], (*X)[1][1]); return; }
                if (!(std::fabs(MC.det() - d * sc * sc) <= 1e-12 * sc * sc)) { c.fail("determinant", "%s: %.12g", h.c_str(), MC.det()); return; }
                Matrix2x2 tr = M.transpose(); if (tr[0][0] != M[0][0] || tr[0][1] != M[1][0] || tr[1][0] != M[0][1] || tr[1][1] != M[1][1]) { c.fail("transpose", "%s", h.c_str()); return; }
                bool refused = false; Matrix2x2 I; try { I = M.inverse(); } catch (const std::exception&) { refused = true; }
                if (refused != (d == 0)) { c.fail("singular", "%s: determinant %lld, and the inverse was %s", h.c_str(), d, refused ? "refused" : "given"); return; }
                if (!refused) { Matrix2x2 P = M * I; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (!(std::fabs(P[i][j] - (i == j)) < 1e-10)) { c.fail("inverse", "%s: matrix times inverse is %.12g at %d,%d", h.c_str(), P[i][j], i, j); return; } }
                Matrix2x2 E = Matrix2x2::eye(), D = Matrix2x2::fromDiag({a * sc, f * sc}); Matrix2x2 ME = M * E, DM = D * M; c.trans(4);
                for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (ME[i][j] != M[i][j] || std::fabs(DM[i][j] - (i ? f * sc : a * sc) * M[i][j]) > 1e-12 * sc * sc || D[i][j] != (i == j ? (i ? f * sc : a * sc) : 0)) { c.fail("identity", "%s: identity or diagonal at %d,%d", h.c_str(), i, j); return; }
                for (int p = -2; p <= 2; p++) for (int q = -2; q <= 2; q++) {
                    std::array<double, 2> y{(double)p, (double)q}, x{55, 55}, x2{66, 66}; c.trans(3);
                    auto v = M * y; if (std::fabs(v[0] - (a * p + b * q) * sc) > 1e-12 * sc * 20 || std::fabs(v[1] - (e * p + f * q) * sc) > 1e-12 * sc * 20) { c.fail("apply", "%s times (%d,%d) is (%.12g,%.12g)", h.c_str(), p, q, v[0], v[1]); return; }
                    Matrix2x2 W(p, q, q - 1, p + 1), MW = M * W; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { double w = M[i][0] * W[0][j] + M[i][1] * W[1][j]; if (std::fabs(MW[i][j] - w) > 1e-12 * sc * 20) { c.fail("product", "%s times [%d %d][%d %d] at %d,%d", h.c_str(), p, q, q - 1, p + 1, i, j); return; } }
                    bool ok = solve2x2(M, y, x), ok2 = solve2x2(std::array<std::array<double, 2>, 2>{{{a * sc, b * sc}, {e * sc, f * sc}}}, y, x2);
                    if (ok != (d != 0) || ok2 != (d != 0)) { c.fail("solvable", "%s: determinant %lld, and the system was %s / %s", h.c_str(), d, ok ? "solved" : "refused", ok2 ? "solved" : "refused"); return; }
                    for (auto& z : {x, x2}) if (d && (!(std::fabs(a * sc * z[0] + b * sc * z[1] - p) < 1e-9) || !(std::fabs(e * sc * z[0] + f * sc * z[1] - q) < 1e-9))) { c.fail("solution", "%s with right side (%d,%d): (%.12g,%.12g)", h.c_str(), p, q, z[0], z[1]); return; }
                }
            }
        });
    }
    // parameter steps on a surface: every pair of tangents with entries -1..1 (2), every step that lies in their plane
    int T = c.thorough ? 2 : 1;
    for (int a = -T; a <= T; a++) for (int b = -T; b <= T; b++) for (int e = -T; e <= T; e++) {
        if (!c.next("tangent steps from %d %d %d", a, b, e)) continue;
        c.guard([&] {
            for (int f = -2; f <= 2; f++) for (int g = -2; g <= 2; g++) for (int k = -2; k <= 2; k++) for (double sc : {1., 0.125, 100.}) {
                ll x = b * k - e * g, y = e * f - a * k, z = a * g - b * f; bool par = !x && !y && !z;
                vec3 du(a * sc, b * sc, e * sc), dv(f * sc, g * sc, k * sc); c.state(mc::mix(mc::mix(mc::mix(a, b), mc::mix(e, f)), mc::mix(mc::mix(g, k), (uint64_t)(sc * 8))));
                for (int s = -1; s <= 1; s++) for (int t = -1; t <= 1; t++) {
                    vec3 d = du * (s * 0.5) + dv * (t * 0.25); vec2 r(77, 88); c.at("improve_uv", a, b, e); c.trans();
                    bool ok = ssx_helpers::improve_uv(du, dv, d, r);
                    if (ok == par) { c.fail("step", "tangents %g*(%d,%d,%d), %g*(%d,%d,%d) are %sparallel, and the step was %s", sc, a, b, e, sc, f, g, k, par ? "" : "not ", ok ? "given" : "refused"); return; }
                    if (ok && (std::fabs(r.x - s * 0.5) > 1e-9 || std::fabs(r.y - t * 0.25) > 1e-9)) { c.fail("step", "tangents %g*(%d,%d,%d), %g*(%d,%d,%d): the step to (%g,%g) is (%g,%g)", sc, a, b, e, sc, f, g, k, s * 0.5, t * 0.25, r.x, r.y); return; }
                }
            }
        });
    }
    // 3x3: every matrix with entries -1..1; 4x4: every matrix of 0 and 1; 1x1; larger ones from shifted diagonals
    for (int lo = 0; lo < 27; lo++) {
        if (!c.next("3x3 matrices with first row %d", lo)) continue;
        c.guard([&] { for (int k = 0; k < 729; k++) { IM m(3, std::vector<ll>(3)); int q = lo * 729 + k; for (int i = 8; i >= 0; i--) { m[i / 3][i % 3] = q % 3 - 1; q /= 3; } c.state(mc::mix(33, lo * 729 + k)); for (double sc : {1., 1e-3, 1e3}) if (!inv_ok(c, m, sc, str(m))) return; } });
    }
    for (int lo = 0; lo < 16; lo++) {
        if (!c.next("4x4 matrices of 0 and 1 with first row %d", lo)) continue;
        c.guard([&] { for (int k = 0; k < 4096; k++) { IM m(4, std::vector<ll>(4)); int q = lo * 4096 + k; for (int i = 15; i >= 0; i--) { m[i / 4][i % 4] = q % 2; q /= 2; } c.state(mc::mix(44, lo * 4096 + k)); if (!inv_ok(c, m, 1, str(m))) return; } });
    }
    for (int n = 1; n <= 7; n++) {
        if (!c.next("%dx%d matrices: permutations, triangles, Pascal, bands", n, n)) continue;
        c.guard([&] {
            std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
            do { for (int kind = 0; kind < 5; kind++) {
                IM m(n, std::vector<ll>(n));
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ll v = 0; switch (kind) { case 0: v = i == j; break; case 1: v = j >= i ? 1 + (i + j) % 3 : 0; break; case 2: v = i == j ? 2 : std::abs(i - j) == 1 ? -1 : 0; break; case 3: { v = 1; for (int q = 0; q < j; q++) v = v * (i - q) / (q + 1); break; } default: v = i == j ? n : 1; if (n > 1 && i == n - 1) v = j == 0 ? 0 : m[p[0]][j]; } m[p[i]][j] = v; }
                if (kind == 4 && n > 1) { for (int j = 0; j < n; j++) m[p[n - 1]][j] = m[p[0]][j]; }   // two equal rows: singular
                c.state(mc::mix(mc::mix(n, kind), mc::mix(p[0], n > 1 ? p[1] : 0)));
                if (!inv_ok(c, m, 1, str(m))) return;
            } } while (std::next_permutation(p.begin(), p.begin() + std::min(n, n > 6 ? 5 : 6)));
        });
    }
    // products and transposes of every shape
    for (int r = 1; r <= 5; r++) for (int k = 1; k <= 5; k++) {
        if (!c.next("products of %dx%d matrices", r, k)) continue;
        c.guard([&] {
            MatrixD A(r, k); for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) { if (A(i, j) != 0) { c.fail("zero", "a new matrix is not zero"); return; } A(i, j) = (i + 1) * 3 - j * j + (i * j) % 2; }
            const MatrixD& AC = A; MatrixD At = A.transpose(); c.trans(2); c.state(mc::mix(r, 100 + k));
            if (At.getRows() != (size_t)k || At.getCols() != (size_t)r) { c.fail("transpose", "%dx%d: shape", r, k); return; }
            for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) if (At(j, i) != AC(i, j)) { c.fail("transpose", "%dx%d at %d,%d", r, k, i, j); return; }
            for (int k2 = 1; k2 <= 5; k2++) for (int q = 1; q <= 5; q++) {
                MatrixD Bm(k2, q); for (int i = 0; i < k2; i++) for (int j = 0; j < q; j++) Bm(i, j) = i - 2 * j + 1; c.at("MatrixD::operator*", r, k, k2); c.trans(); c.state(mc::mix(mc::mix(r, k), mc::mix(k2, q)));
                bool refused = false; MatrixD P; try { P = A * Bm; } catch (const std::exception&) { refused = true; }
                if (refused != (k != k2)) { c.fail("shapes", "%dx%d times %dx%d was %s", r, k, k2, q, refused ? "refused" : "given"); return; }
                if (refused) continue;
                if (P.getRows() != (size_t)r || P.getCols() != (size_t)q) { c.fail("product", "%dx%d times %dx%d has the wrong shape", r, k, k2, q); return; }
                for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) { double w = 0; for (int z = 0; z < k; z++) w += A(i, z) * Bm(z, j); if (P(i, j) != w) { c.fail("product", "%dx%d times %dx%d at %d,%d: %g, expected %g", r, k, k2, q, i, j, P(i, j), w); return; } }
            }
            if (r != k) { bool t = false; try { (void)A.inverse(); } catch (const std::exception&) { t = true; } if (!t) { c.fail("shapes", "a %dx%d matrix was inverted", r, k); return; } }
        });
    }
    // symmetric systems
    if (c.next("symmetric systems of 1 and 2 unknowns")) c.guard([&] {
        for (int a = -3; a <= 5; a++) for (double sc : {1., 1e-3, 1e3}) { c.state(mc::mix(1, a)); if (!chol<1>(c, {{a}}, sc)) return; for (int b = -5; b <= 5; b++) for (int d = -3; d <= 5; d++) { c.state(mc::mix(mc::mix(2, a), mc::mix(b, d))); if (!chol<2>(c, {{a, b}, {b, d}}, sc)) return; } }
    });
    for (int a = -1; a <= 4; a++) for (int b = -1; b <= 4; b++) {
        if (!c.next("symmetric systems of 3 unknowns with diagonal %d %d", a, b)) continue;
        c.guard([&] { for (int d = -1; d <= 4; d++) for (int e = -2; e <= 2; e++) for (int f = -2; f <= 2; f++) for (int g = -2; g <= 2; g++) { c.state(mc::mix(mc::mix(a, b), mc::mix(mc::mix(d, e), mc::mix(f, g)))); for (double sc : {1., 1e-3, 1e3}) if (!chol<3>(c, {{a, e, f}, {e, b, g}, {f, g, d}}, sc)) return; } });
    }
    for (int a = 1; a <= 3; a++) for (int b = 1; b <= 3; b++) {
        if (!c.next("symmetric systems of 4 unknowns with diagonal %d %d", a, b)) continue;
        c.guard([&] { for (int d = 0; d <= 3; d++) for (int e = 1; e <= 3; e++) for (int k = 0; k < 729; k++) { int q = k; ll o[6]; for (auto& x : o) { x = q % 3 - 1; q /= 3; } c.state(mc::mix(mc::mix(a, b), mc::mix(mc::mix(d, e), k))); if (!chol<4>(c, {{a, o[0], o[1], o[2]}, {o[0], b, o[3], o[4]}, {o[1], o[3], d, o[5]}, {o[2], o[4], o[5], e}}, 1)) return; } });
    }
}
