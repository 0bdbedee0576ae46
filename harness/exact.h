// Exact separation of integer point sets (dual cone of the difference set).
#pragma once
#include <algorithm>
#include <array>
#include <vector>
#include <cstdlib>
namespace ex {
typedef std::array<long, 3> I3;
inline I3 sub(I3 a, I3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline I3 add(I3 a, I3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline I3 neg(I3 a) { return {-a[0], -a[1], -a[2]}; }
inline I3 crs(I3 a, I3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline long dot(I3 a, I3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline bool zero(I3 a) { return !a[0] && !a[1] && !a[2]; }
// 0: the origin is outside conv(D) (strictly separated), 1: on its relative boundary or D is flat around it, 2: in the interior
inline int origin(const std::vector<I3>& D, I3* witness = nullptr) {
    I3 u{0, 0, 0}, n{0, 0, 0}; bool full = false;
    for (auto& d : D) if (zero(d)) goto touching;
    for (auto& d : D) {
        if (zero(u)) u = d;
        else if (zero(n)) n = crs(u, d);
        else if (dot(n, d)) full = true;
    }
    {
        std::vector<I3> rays;
        auto ok = [&](I3 w) { for (auto& d : D) if (dot(w, d) < 0) return false; return true; };
        auto put = [&](I3 w) { if (!zero(w) && ok(w)) rays.push_back(w); if (!zero(w) && ok(neg(w))) rays.push_back(neg(w)); };
        if (full) { for (size_t i = 0; i < D.size(); i++) for (size_t j = i + 1; j < D.size(); j++) put(crs(D[i], D[j])); }
        else if (!zero(n)) { for (auto& d : D) put(crs(n, d)); }
        else put(u);
        I3 s{0, 0, 0};
        for (auto& r : rays) {   // keep the numbers small: sums of primitive rays
            long g = 0; for (int k = 0; k < 3; k++) { long a = std::labs(r[k]); while (a) { long t = g % a; g = a; a = t; } }
            for (int k = 0; k < 3; k++) s[k] += r[k] / g;
        }
        bool strict = !zero(s);
        for (auto& d : D) if (dot(s, d) <= 0) { strict = false; break; }
        if (strict) { if (witness) *witness = s; return 0; }
        return full && rays.empty() ? 2 : 1;
    }
touching:
    // the origin is one of the points: interior iff no supporting plane through it
    {
        std::vector<I3> E; for (auto& d : D) if (!zero(d)) E.push_back(d);
        for (auto& d : E) { if (zero(u)) u = d; else if (zero(n)) n = crs(u, d); else if (dot(n, d)) full = true; }
        if (!full) return 1;
        for (size_t i = 0; i < E.size(); i++) for (size_t j = i + 1; j < E.size(); j++) {
            I3 w = crs(E[i], E[j]);
            if (zero(w)) continue;
            bool a = true, b = true;
            for (auto& d : E) { long s = dot(w, d); if (s < 0) a = false; if (s > 0) b = false; }
            if (a || b) return 1;
        }
        return 2;
    }
}
inline int relation(const std::vector<I3>& A, const std::vector<I3>& B, I3* w = nullptr) {
    std::vector<I3> D;
    for (auto& a : A) for (auto& b : B) D.push_back(sub(a, b));
    std::sort(D.begin(), D.end()); D.erase(std::unique(D.begin(), D.end()), D.end());
    return origin(D, w);
}
} // namespace ex
