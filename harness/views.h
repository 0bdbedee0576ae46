// Reference n-dimensional views: a shape and the list of cells in row-major order.
#pragma once
#include "mc.h"
#include "ref.h"
#include "cmmcore/memoryview.h"
namespace nd {
using cmmcore::MemoryView;
using cmmcore::Slice;
struct Ref { std::vector<size_t> shape; std::vector<long> cell; };   // cell[k]: index in the base array
inline size_t total(const std::vector<size_t>& s) { size_t n = 1; for (size_t x : s) n *= x; return n; }
inline Ref fresh(const std::vector<size_t>& s) { Ref r; r.shape = s; for (size_t i = 0; i < total(s); i++) r.cell.push_back((long)i); return r; }
struct Sl { int kind, a, b, st; };   // kind 0 all, 1 index, 2 range, 3 open start, 4 open stop, 5 both open with a step
inline Slice mk(const Sl& s) {
    if (s.kind == 0) return Slice();
    if (s.kind == 1) return Slice(s.a);
    if (s.kind == 2) return s.st == 1 ? Slice(s.a, s.b) : Slice(s.a, s.b, s.st);
    Slice r; r.step = s.st;
    if (s.kind == 3) { r.has_stop = true; r.stop = s.b; }
    if (s.kind == 4) { r.has_start = true; r.start = s.a; }
    return r;
}
inline std::string str(const Sl& s) {
    if (s.kind == 0) return ":";
    if (s.kind == 1) return mc::fmt("%d", s.a);
    if (s.kind == 2) return mc::fmt("%d:%d:%d", s.a, s.b, s.st);
    if (s.kind == 3) return mc::fmt(":%d:%d", s.b, s.st);
    if (s.kind == 4) return mc::fmt("%d::%d", s.a, s.st);
    return mc::fmt("::%d", s.st);
}
inline std::string str(const std::vector<Sl>& v) { std::string r = "["; for (auto& s : v) r += (r.size() > 1 ? "," : "") + str(s); return r + "]"; }
inline std::string str(const std::vector<size_t>& v) { std::string r = "("; for (auto s : v) r += (r.size() > 1 ? "," : "") + std::to_string(s); return r + ")"; }
enum Err { OK, RANGE, INVALID };
// positions picked along one dimension of length n
inline Err pick(const Sl& s, int n, std::vector<int>& out) {
    out.clear();
    if (s.kind == 1) { int i = s.a < 0 ? s.a + n : s.a; if (i < 0 || i >= n) return RANGE; out = {i}; return OK; }
    int st = s.kind == 0 ? 1 : s.st;
    if (st == 0) return INVALID;
    bool hs = s.kind == 2 || s.kind == 4, he = s.kind == 2 || s.kind == 3;
    long a = hs ? (s.a < 0 ? s.a + n : s.a) : st > 0 ? 0 : n - 1;
    long b = he ? (s.b < 0 ? s.b + n : s.b) : st > 0 ? n : -1;
    if (st > 0) { if (a < 0) a = 0; for (long i = a; i < b && i < n; i += st) out.push_back((int)i); }
    else { if (a > n - 1) a = n - 1; if (b < -1) b = -1; for (long i = a; i > b && i >= 0; i += st) out.push_back((int)i); }
    return OK;
}
inline Err slice(const Ref& r, const std::vector<Sl>& v, Ref& o) {
    std::vector<std::vector<int>> p(r.shape.size());
    o = Ref();
    for (size_t d = 0; d < v.size(); d++) {
        if (d >= r.shape.size()) return INVALID;
        Err e = pick(v[d], (int)r.shape[d], p[d]);
        if (e) return e;
    }
    for (size_t d = 0; d < r.shape.size(); d++) {
        if (d >= v.size()) for (size_t i = 0; i < r.shape[d]; i++) p[d].push_back((int)i);
        if (d >= v.size() || v[d].kind != 1) o.shape.push_back(p[d].size());
    }
    std::vector<size_t> ix(p.size(), 0);
    for (auto& q : p) if (q.empty()) return OK;
    for (;;) {
        size_t k = 0; for (size_t d = 0; d < p.size(); d++) k = k * r.shape[d] + p[d][ix[d]];
        o.cell.push_back(r.cell[k]);
        int d = (int)p.size() - 1;
        while (d >= 0 && ++ix[d] == p[d].size()) ix[d--] = 0;
        if (d < 0) break;
    }
    return OK;
}
inline std::vector<size_t> index_of(size_t k, const std::vector<size_t>& sh) { std::vector<size_t> r(sh.size()); for (size_t d = sh.size(); d-- > 0;) { r[d] = k % sh[d]; k /= sh[d]; } return r; }
// every observer of the view against the reference; base is the first cell
template <class T> std::string compare(const MemoryView<T>& m, const Ref& r, T* base, bool text) {
    if (m.shape() != r.shape) return "shape " + str(m.shape()) + " expected " + str(r.shape);
    if (m.size() != r.cell.size()) return mc::fmt("size() %zu expected %zu", m.size(), r.cell.size());
    for (size_t k = 0; k < r.cell.size(); k++) {
        auto ix = index_of(k, r.shape);
        T* p = &m(ix);
        if (p != base + r.cell[k]) return mc::fmt("element %s is cell %ld, expected %ld", str(ix).c_str(), (long)(p - base), r.cell[k]);
    }
    if (text) {
        for (size_t lim : {(size_t)10, (size_t)3, (size_t)0, (size_t)1000}) {
            std::string t = lim == 10 ? [&] { std::ostringstream o; o << m; return o.str(); }() : m.to_string(lim);
            std::ostringstream e; e << "Data preview: [";
            size_t n = std::min(lim, r.cell.size());
            for (size_t k = 0; k < n; k++) e << (k ? ", " : "") << base[r.cell[k]];
            if (n < r.cell.size()) e << ", ...";
            e << "]";
            size_t at = t.find("Data preview");
            if (at == std::string::npos || t.substr(at) != e.str()) return "text '" + t.substr(at == std::string::npos ? 0 : at) + "' expected '" + e.str() + "'";
            std::string sh = "shape: ("; for (size_t d = 0; d < r.shape.size(); d++) sh += (d ? ", " : "") + std::to_string(r.shape[d]); sh += ")";
            if (t.find(sh) == std::string::npos) return "text has no '" + sh + "'";
        }
    }
    return "";
}
inline std::vector<std::vector<size_t>> shapes(bool thorough) {
    std::vector<std::vector<size_t>> r;
    for (size_t a = 0; a <= 6; a++) r.push_back({a});
    for (size_t a = 0; a <= 4; a++) for (size_t b = 0; b <= 4; b++) r.push_back({a, b});
    for (size_t a = 0; a <= 3; a++) for (size_t b = 1; b <= 3; b++) for (size_t d = 0; d <= 3; d++) r.push_back({a, b, d});
    r.push_back({2, 3, 2, 2}); r.push_back({1, 2, 1, 3}); r.push_back({2, 1, 2, 1});
    if (thorough) { r.push_back({2, 2, 2, 2, 2}); r.push_back({7}); r.push_back({5, 4}); r.push_back({4, 3, 4}); r.push_back({3, 3, 3, 2}); }
    return r;
}
inline std::vector<Sl> reduced(int n) {
    std::vector<Sl> r{{0, 0, 0, 1}};
    r.push_back({1, n / 2, 0, 0}); r.push_back({1, -1, 0, 0});
    r.push_back({2, 0, n - 1, 1}); r.push_back({2, 1, n, 1}); r.push_back({2, 0, n, 2}); r.push_back({2, n - 1, 0, -1}); r.push_back({5, 0, 0, -1}); r.push_back({5, 0, 0, -2}); r.push_back({2, -2, 99, 1}); r.push_back({4, 1, 0, 2});
    return r;
}
inline std::vector<Sl> full(int n) {
    std::vector<Sl> r{{0, 0, 0, 1}};
    for (int i = -n - 2; i <= n + 1; i++) r.push_back({1, i, 0, 0});
    for (int st : {1, 2, 3, -1, -2, -3, 0}) for (int a = -n - 2; a <= n + 2; a++) {
        for (int b = -n - 2; b <= n + 2; b++) r.push_back({2, a, b, st});
        r.push_back({3, 0, a, st}); r.push_back({4, a, 0, st});
        if (a == 0) r.push_back({5, 0, 0, st});
    }
    return r;
}
inline void shapes_of(size_t n, size_t maxd, std::vector<size_t>& cur, std::vector<std::vector<size_t>>& out) {   // all shapes of n cells, up to maxd dimensions
    if (cur.size() && total(cur) == n) out.push_back(cur);
    if (cur.size() == maxd) return;
    size_t t = total(cur);
    for (size_t d = 1; d <= n / std::max<size_t>(t, 1); d++) if (t && n % (t * d) == 0) { cur.push_back(d); shapes_of(n, maxd, cur, out); cur.pop_back(); }
}
inline bool contiguous(const Ref& r) { for (size_t k = 1; k < r.cell.size(); k++) if (r.cell[k] != r.cell[k - 1] + 1) return false; return true; }
} // namespace nd
