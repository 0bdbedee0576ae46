// Array views: all slices of all small shapes, breadth-first sequences of view operations, against a reference ndarray.
#include <sstream>
#include "views.h"
using namespace nd;

struct Node { MemoryView<double> m; Ref r; std::string h; };
static uint64_t key(const Ref& r) { uint64_t h = 3; for (size_t s : r.shape) h = mc::mix(h, s + 1); for (long x : r.cell) h = mc::mix(h, x + 77); return h; }

static void refusals(mc::Ctx& c, const Node& n) {
    auto& sh = n.r.shape;
    c.at("operator()");
    for (size_t d = 0; d < sh.size(); d++) for (size_t over : {(size_t)0, (size_t)1, (size_t)1000}) {
        std::vector<size_t> ix(sh.size(), 0); ix[d] = sh[d] + over;
        bool zero = false; for (size_t e = 0; e < d; e++) zero |= sh[e] == 0;
        bool ok = false; try { n.m(ix); } catch (const std::out_of_range&) { ok = true; }
        (void)zero;
        if (!ok) { c.fail("index|accepted", "%s: index %s accepted", n.h.c_str(), str(ix).c_str()); return; }
    }
    for (int extra : {-1, 1}) {
        if (extra < 0 && sh.empty()) continue;
        std::vector<size_t> ix(sh.size() + extra, 0);
        bool ok = false; try { n.m(ix); } catch (const std::invalid_argument&) { ok = true; }
        if (!ok) { c.fail("index|count", "%s: %zu indices accepted for %zu dimensions", n.h.c_str(), ix.size(), sh.size()); return; }
    }
    c.at("operator[]");
    size_t n0 = sh.empty() ? 0 : sh[0];
    for (size_t i : {n0, n0 + 1, (size_t)-1}) {
        bool ok = false; try { n.m[i]; } catch (const std::out_of_range&) { ok = true; }
        if (!ok) { c.fail("subscript|accepted", "%s: [%zu] accepted", n.h.c_str(), i); return; }
    }
    c.trans(3);
}
static bool check(mc::Ctx& c, const Node& n, double* base) {
    c.trans();
    c.state(key(n.r));
    std::string e = compare(n.m, n.r, base, !n.r.shape.empty() && (n.h.size() < 40 || n.h.size() % 4 == 0));
    if (e.size()) { c.fail("view|" + std::string(e.substr(0, e.find(' '))), "%s: %s", n.h.c_str(), e.c_str()); return false; }
    // as text: shape, strides and the first elements in order
    if (!n.r.shape.empty() && (n.h.size() < 24 || n.h.size() % 8 == 0)) for (size_t lim : {(size_t)1, (size_t)2, (size_t)10}) {
        auto list = [](const std::vector<size_t>& v) { std::string r = "("; for (size_t i = 0; i < v.size(); i++) { if (i) r += ", "; r += std::to_string((long)v[i]) ; } return r + ")"; };
        std::string t = n.m.to_string(lim), w = "["; size_t k = std::min(lim, n.r.cell.size()); std::ostringstream o; for (size_t i = 0; i < k; i++) o << (i ? ", " : "") << base[n.r.cell[i]]; w += o.str() + (k < n.r.cell.size() ? ", ...]" : "]");
        std::ostringstream st; for (size_t i = 0; i < n.m.strides().size(); i++) st << (i ? ", " : "") << n.m.strides()[i];
        if (t.find("shape: " + list(n.r.shape)) == std::string::npos || t.find("strides: (" + st.str() + ")") == std::string::npos || t.size() < w.size() || t.compare(t.size() - w.size(), w.size(), w)) { c.fail("text", "%s: described as %s, elements %s", n.h.c_str(), t.c_str(), w.c_str()); return false; }
    }
    return true;
}
static bool do_slice(mc::Ctx& c, const Node& n, const std::vector<Sl>& v, std::vector<Node>& out) {
    Ref r; Err e = slice(n.r, v, r);
    std::vector<Slice> sv; for (auto& s : v) sv.push_back(mk(s));
    std::string h = n.h + str(v);
    c.at("slice", v.size());
    int got = OK;
    try { Node o{n.m.slice(sv), r, h}; if (e == OK) out.push_back(o); }
    catch (const std::out_of_range&) { got = RANGE; }
    catch (const std::invalid_argument&) { got = INVALID; }
    c.trans();
    if (got != e) { c.fail("slice|refusal", "%s: %s, expected %s", h.c_str(), got ? "refused" : "accepted", e ? "a refusal" : "a view"); return false; }
    return e == OK;
}
static void do_copy(mc::Ctx& c, const Node& n, double* base) {
    c.at("copy");
    MemoryView<double>* k = n.m.copy();
    Ref f = fresh(n.r.shape);
    c.trans();
    if (k->shape() != n.r.shape || k->size() != n.r.cell.size()) { c.fail("copy|shape", "%s: copy has shape %s", n.h.c_str(), str(k->shape()).c_str()); delete k; return; }
    for (size_t i = 0; i < n.r.cell.size(); i++) {
        auto ix = index_of(i, n.r.shape);
        double& x = (*k)(ix); double& y = n.m(ix);
        if (x != y) { c.fail("copy|value", "%s: copied element %s is %g, expected %g", n.h.c_str(), str(ix).c_str(), x, y); break; }
        double old = y;
        x = -12345; if (y != old) { c.fail("copy|shared", "%s: writing to the copy changes the source", n.h.c_str()); break; }
        y = -777; if (x != -12345) { c.fail("copy|shared", "%s: writing to the source changes the copy", n.h.c_str()); y = old; break; }
        y = old; x = old;
    }
    (void)base;
    delete k;
}
static void do_reshape(mc::Ctx& c, const Node& n, double* base, std::vector<Node>* out, size_t maxd) {
    size_t tot = n.r.cell.size();
    std::vector<std::vector<size_t>> S; std::vector<size_t> cur;
    if (tot) shapes_of(tot, maxd, cur, S); else S = {{0}, {0, 2}, {3, 0}};
    if (n.r.shape.empty()) return;
    for (auto& s : S) {
        Node o = n; o.h += " reshape" + str(s);
        c.at("reshape");
        bool refused = false;
        try { o.m.reshape(s); } catch (const std::invalid_argument&) { refused = true; }
        c.trans();
        if (refused) {
            c.tag("reshape refused");
            if (contiguous(n.r) || s == n.r.shape) { c.fail("reshape|refused", "%s: refused for a contiguous view", o.h.c_str()); return; }
            if (!check(c, n, base)) return;
            continue;
        }
        o.r.shape = s;
        if (!check(c, o, base)) return;
        if (out) out->push_back(o);
    }
    for (auto& s : std::vector<std::vector<size_t>>{{tot + 1}, {tot + 1, 1}, {2, tot + 1}}) {
        Node o = n; bool refused = false;
        try { o.m.reshape(s); } catch (const std::invalid_argument&) { refused = true; }
        if (!refused) { c.fail("reshape|accepted", "%s: reshape to %s accepted", n.h.c_str(), str(s).c_str()); return; }
        if (o.m.shape() != n.r.shape) { c.fail("reshape|partial", "%s: a refused reshape changed the view", n.h.c_str()); return; }
    }
}
static void all_ops(mc::Ctx& c, const Node& n, double* base, std::vector<Node>& out) {
    if (!check(c, n, base)) return;
    refusals(c, n);
    do_copy(c, n, base);
    do_reshape(c, n, base, &out, 3);
    for (size_t i = 0; n.r.shape.size() && i < n.r.shape[0]; i++) {
        Ref r; slice(n.r, {{1, (int)i, 0, 0}}, r);
        c.at("operator[]", i);
        Node o{n.m[i], r, n.h + mc::fmt("[%zu]", i)};
        if (check(c, o, base)) out.push_back(o);
    }
    // slices with every combination of the reduced alphabet over the leading dimensions
    size_t d = n.r.shape.size();
    for (size_t k = 0; k <= d + 1; k++) {
        std::vector<std::vector<Sl>> A;
        for (size_t i = 0; i < k; i++) A.push_back(reduced(i < d ? (int)n.r.shape[i] : 1));
        if (k == d + 1) for (auto& a : A) a.resize(2);
        else if (k > 2) for (auto& a : A) { a.erase(a.begin() + 8, a.end()); a.erase(a.begin() + 2, a.begin() + 4); }
        std::vector<size_t> ix(k, 0);
        for (;;) {
            std::vector<Sl> v; for (size_t i = 0; i < k; i++) v.push_back(A[i][ix[i]]);
            size_t before = out.size();
            do_slice(c, n, v, out);
            if (out.size() > before && !check(c, out.back(), base)) return;
            int i = (int)k - 1;
            while (i >= 0 && ++ix[i] == A[i].size()) ix[i--] = 0;
            if (i < 0) break;
        }
    }
}
void mc_explore(mc::Ctx& c) {
    auto S = shapes(c.thorough);
    // every single slice of a dimension, in every position
    for (auto& s : S) for (size_t d = 0; d < s.size(); d++) {
        if (!c.next("shape %s: every slice of dimension %zu", str(s).c_str(), d)) continue;
        c.guard([&] {
            std::vector<double> buf(total(s)); for (size_t i = 0; i < buf.size(); i++) buf[i] = 10.5 + i;
            Node n{MemoryView<double>(buf.data(), s), fresh(s), "array" + str(s)};
            for (auto& x : full((int)s[d])) for (int w = 0; w < (d ? 2 : 1); w++) {
                std::vector<Sl> v(d, w ? Sl{5, 0, 0, -1} : Sl{0, 0, 0, 1}); v.push_back(x);
                std::vector<Node> out;
                if (do_slice(c, n, v, out) && !check(c, out[0], buf.data())) return;
            }
        });
    }
    // breadth-first over sequences of operations
    for (auto& s : S) {
        int depth = c.thorough ? total(s) <= 3 ? 3 : total(s) <= 12 ? 2 : 1 : (s.size() <= 2 && total(s) <= 6) || (total(s) == 4 && s[0] == 2) ? 2 : 1;
        int parts = depth > 1 ? 8 : 1;
        for (int part = 0; part < parts; part++) {
        if (!c.next("shape %s: operation sequences, part %d", str(s).c_str(), part)) continue;
        c.guard([&] {
            std::vector<double> buf(total(s)); for (size_t i = 0; i < buf.size(); i++) buf[i] = 10.5 + i;
            double* b = buf.data();
            std::vector<Node> cur{{MemoryView<double>(b, s), fresh(s), "array" + str(s)}};
            std::unordered_set<uint64_t> seen;
            for (int k = 0; k <= depth; k++) {
                std::vector<Node> nx;
                if (k == 1) { std::vector<Node> mine; for (size_t i = part; i < cur.size(); i += parts) mine.push_back(cur[i]); cur.swap(mine); }
                for (auto& n : cur) {
                    // strides differ between views of the same cells only where they do not matter to cells, but matter to reshape: keep both
                    uint64_t h = key(n.r); for (size_t t : n.m.strides()) h = mc::mix(h, t);
                    if (!seen.insert(h).second) continue;
                    if (c.cur_failed) return;
                    if (k == depth) { check(c, n, b); if (h % 4 == 0) { refusals(c, n); do_copy(c, n, b); } do_reshape(c, n, b, nullptr, 2); }
                    else all_ops(c, n, b, nx);
                }
                cur.swap(nx);
            }
            // writing through a view reaches exactly its cell
            for (size_t i = 0; i < buf.size(); i++) if (buf[i] != 10.5 + i) { c.fail("base|changed", "the base array changed at %zu", i); break; }
        });
        }
    }
    if (c.next("views of a copy outlive the copy object")) c.guard([&] {
        std::vector<double> buf(24); for (int i = 0; i < 24; i++) buf[i] = i;
        MemoryView<double> m(buf.data(), {4, 3, 2});
        auto* k = m.copy();
        auto a = k->slice({Slice(1, 3), Slice(), Slice(1)}); auto b = (*k)[2]; auto d = *k; auto* e = k->copy();
        delete k;
        c.at("views of a deleted copy");
        for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 3; j++) if (a({i, j}) != buf[(i + 1) * 6 + j * 2 + 1]) c.fail("lifetime", "view of a copy changed");
        for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 2; j++) if (b({i, j}) != buf[12 + i * 2 + j] || d({2, i, j}) != b({i, j}) || (*e)({2, i, j}) != b({i, j})) c.fail("lifetime", "view of a copy changed");
        c.trans(4); c.state(1);
        delete e;
    });
    if (c.next("contiguous iteration")) c.guard([&] {
        std::vector<double> buf(24); for (int i = 0; i < 24; i++) buf[i] = i;
        MemoryView<double> m(buf.data(), {4, 3, 2});
        std::vector<double> v(m.begin(), m.end()); if (v != buf) c.fail("iteration", "begin..end of a fresh view");
        auto r = m[2]; std::vector<double> w(r.begin(), r.end());
        if (w != std::vector<double>(buf.begin() + 12, buf.begin() + 18)) c.fail("iteration", "begin..end of a row view");
        if (m.data() != buf.data()) c.fail("iteration", "data() is not the base");
        c.trans(3); c.state(2);
    });
}
