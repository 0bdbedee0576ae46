// Serialised views: round trip of every reachable view, every truncation, every type mismatch, files.
#include "views.h"
#include <sys/stat.h>
using namespace nd;

template <class T> static T val(size_t i) { return (T)(3 + 7 * i); }
struct Rgb { unsigned char r, g, b; bool operator!=(const Rgb& o) const { return r != o.r || g != o.g || b != o.b; } };
template <> Rgb val<Rgb>(size_t i) { return {(unsigned char)i, (unsigned char)(i * 3), (unsigned char)(255 - i)}; }

template <class T> static std::string differs(MemoryView<T>& g, const MemoryView<T>& m, const Ref& r) {
    if (g.shape() != r.shape) return "shape " + str(g.shape());
    for (size_t k = 0; k < r.cell.size(); k++) { auto ix = index_of(k, r.shape); if (g(ix) != m(ix)) return "element " + str(ix); }
    if (r.cell.size()) { auto ix = index_of(0, r.shape); T old = m(ix); g(ix) = val<T>(1000); if (m(ix) != old) return "shared memory"; g(ix) = old; }
    return "";
}
template <class T> static void drop(MemoryView<T>& m) { delete[] m.data(); }   // deserialize hands out an array of its own
template <class T> static void one(mc::Ctx& c, const MemoryView<T>& m, const Ref& r, const std::string& h, const std::string& dir, bool faults) {
    c.at("serialize");
    std::vector<char> b = m.serialize();
    uint64_t st = 1; for (char ch : b) st = mc::mix(st, (unsigned char)ch + 1);
    c.state(st);
    {
        c.at("deserialize");
        auto g = MemoryView<T>::deserialize(b);
        c.trans();
        std::string e = differs(g, m, r);
        if (e.size()) { c.fail("roundtrip|" + e.substr(0, e.find(' ')), "%s: %s differs after the round trip", h.c_str(), e.c_str()); drop(g); return; }
        // a second generation, and slicing the reconstruction
        std::vector<char> b2 = g.serialize();
        auto g2 = MemoryView<T>::deserialize(b2);
        e = differs(g2, m, r);
        if (e.size()) c.fail("roundtrip|second", "%s: %s differs after two round trips", h.c_str(), e.c_str());
        if (r.shape.size() && r.shape[0] > 1) {
            std::vector<Sl> v{{5, 0, 0, -2}}; Ref rs; slice(r, v, rs);
            auto gs = g.slice({mk(v[0])}), ms = m.slice({mk(v[0])});
            e = differs(gs, ms, rs);
            if (e.size()) c.fail("roundtrip|slice", "%s: slicing the reconstruction: %s", h.c_str(), e.c_str());
        }
        drop(g2);
        drop(g);
    }
    std::string fn = dir + "/view.bin";
    {
        FILE* f = fopen(fn.c_str(), "w+b");
        c.at("write_to_file"); m.write_to_file(f); fflush(f);
        c.at("read_from_file");
        auto g = MemoryView<T>::read_from_file(f);
        c.trans();
        std::string e = differs(g, m, r);
        if (e.size()) c.fail("file", "%s: %s differs after the file round trip", h.c_str(), e.c_str());
        drop(g); fclose(f);
    }
    if (!faults) return;
    for (size_t n = 0; n < b.size(); n++) {
        // exact-size heap copy: any read past the end is caught by the sanitizer
        std::vector<char> t(b.begin(), b.begin() + n);
        c.at("deserialize of a truncated buffer", n, b.size());
        bool ok = false;
        try { auto g = MemoryView<T>::deserialize(t); drop(g); } catch (const std::invalid_argument&) { ok = true; }
        c.trans();
        if (!ok) { c.fail("truncated", "%s: the first %zu of %zu bytes were accepted", h.c_str(), n, b.size()); break; }
    }
    for (size_t n = 0; n < b.size(); n += (n < 40 ? 5 : 11)) {
        FILE* f = fopen(fn.c_str(), "w+b"); fwrite(b.data(), 1, n, f); fflush(f);
        c.at("read_from_file of a truncated file", n);
        bool ok = false;
        try { auto g = MemoryView<T>::read_from_file(f); drop(g); } catch (const std::invalid_argument&) { ok = true; }
        fclose(f); c.trans();
        if (!ok) { c.fail("truncated-file", "%s: a file cut at %zu of %zu bytes was accepted", h.c_str(), n, b.size()); break; }
    }
}
// damaged headers: every number in them, and every pair of numbers, replaced by extreme ones
template <class T> static void damaged(mc::Ctx& c, const MemoryView<T>& m, const std::string& h) {
    std::vector<char> b = m.serialize(); size_t tl; memcpy(&tl, b.data(), 8); size_t nd = m.shape().size();
    std::vector<size_t> at{0}; for (size_t i = 0; i < 2 + 2 * nd; i++) at.push_back(8 + tl + 8 * i);
    auto get = [&](size_t o) { uint64_t v; memcpy(&v, &b[o], 8); return v; };
    auto values = [&](uint64_t v) { std::vector<uint64_t> r{0, 1, 2, v + 1, v - 1, 1u << 16, 1ull << 31, 1ull << 32, (1ull << 32) + 1, 1ull << 60, (1ull << 61) - 1, 1ull << 61, (1ull << 61) + 1, 1ull << 62, 1ull << 63, ~0ull, ~0ull - 7, ~0ull - 31, ~0ull / 8}; return r; };
    for (size_t i = 0; i < at.size(); i++) for (size_t j = i; j < at.size(); j++) for (uint64_t x : values(get(at[i]))) for (uint64_t y : j == i ? std::vector<uint64_t>{0} : values(get(at[j]))) {
        std::vector<char> t = b; memcpy(&t[at[i]], &x, 8); if (j != i) memcpy(&t[at[j]], &y, 8);
        c.at("deserialize of a damaged header", at[i], j == i ? -1. : at[j]); c.trans(); bool ok = false; std::string d;
        try {
            auto g = MemoryView<T>::deserialize(t); auto sh = g.shape(); size_t n = sh.empty() ? 0 : 1; bool over = false, empty = false;
            for (size_t e : sh) empty |= e == 0;
            for (size_t e : sh) { if (!empty && e > t.size()) over = true; n *= e; if (n > t.size()) over = true; }
            if (empty) n = 0;
            if (!empty && over) d = "more elements than bytes";
            else if (n * sizeof(T) > t.size()) d = "more data than bytes";
            else for (size_t k = 0; k < n; k++) { auto ix = index_of(k, sh); volatile T v = g(ix); (void)v; } // under the sanitizer
            drop(g);
        } catch (const std::bad_alloc&) { d = "it asks for all memory"; } catch (const std::exception&) { ok = true; }
        (void)ok;
        if (d.size()) { c.fail("damaged", "%s: the number at byte %zu is %llx%s: accepted: %s", h.c_str(), at[i], (unsigned long long)x, j == i ? "" : mc::fmt(" and that at byte %zu is %llx", at[j], (unsigned long long)y).c_str(), d.c_str()); return; }
    }
}
template <class T> static void damages(mc::Ctx& c, const char* type) {
    for (auto& s : std::vector<std::vector<size_t>>{{1}, {3}, {2, 2}, {3, 2}, {1, 4}, {0, 2}, {2, 1, 2}, {2, 3, 2}}) {
        if (!c.next("damaged headers of an array of %s with shape %s", type, str(s).c_str())) continue;
        c.guard([&] { std::vector<T> x(total(s) + 1); for (size_t i = 0; i < x.size(); i++) x[i] = (T)i; MemoryView<T> m(x.data(), s); damaged(c, m, std::string(type) + str(s)); c.tag("damaged"); });
    }
}
template <class U> static void wrong(mc::Ctx& c, const std::vector<char>& b, const char* from, bool expect) {
    c.at("deserialize as another type");
    bool refused = false;
    try { auto g = MemoryView<U>::deserialize(b); drop(g); } catch (const std::invalid_argument&) { refused = true; }
    c.trans();
    if (refused == expect) c.fail("type", "data of %s read as %s: %s", from, typeid(U).name(), refused ? "refused" : "accepted");
}
template <class T> static void types(mc::Ctx& c, const char* nm) {
    for (auto& s : shapes(c.thorough)) {
        if (s.size() > 2 && !c.thorough && total(s) > 12) continue;
        std::vector<T> buf(total(s)); for (size_t i = 0; i < buf.size(); i++) buf[i] = val<T>(i);
        if (!c.next("%s array %s: types", nm, str(s).c_str())) continue;
        c.guard([&] {
            auto b = MemoryView<T>(buf.data(), s).serialize();
            wrong<double>(c, b, nm, std::is_same<T, double>::value); wrong<float>(c, b, nm, std::is_same<T, float>::value); wrong<int>(c, b, nm, std::is_same<T, int>::value); wrong<unsigned>(c, b, nm, false);
            wrong<long>(c, b, nm, false); wrong<size_t>(c, b, nm, false); wrong<char>(c, b, nm, std::is_same<T, char>::value); wrong<signed char>(c, b, nm, false); wrong<Rgb>(c, b, nm, std::is_same<T, Rgb>::value);
        });
    }
}
template <class T> static void family(mc::Ctx& c, const char* nm, const std::string& dir) {
    for (auto& s : shapes(c.thorough)) {
        if (!c.next("%s array %s: views", nm, str(s).c_str())) continue;
        c.guard([&] {
            std::vector<T> buf(total(s)); for (size_t i = 0; i < buf.size(); i++) buf[i] = val<T>(i);
            MemoryView<T> m(buf.data(), s); Ref r = fresh(s);
            one(c, m, r, "array" + str(s), dir, true);
            size_t d = s.size(); int done = 0;
            std::vector<std::vector<Sl>> A; for (size_t i = 0; i < std::min<size_t>(d, 2); i++) A.push_back(reduced((int)s[i]));
            std::vector<size_t> ix(A.size(), 0);
            for (;;) {
                std::vector<Sl> v; for (size_t i = 0; i < A.size(); i++) v.push_back(A[i][ix[i]]);
                Ref o; std::vector<Slice> sv; for (auto& x : v) sv.push_back(mk(x));
                if (slice(r, v, o) == OK && o.shape.size()) {
                    one(c, m.slice(sv), o, "array" + str(s) + str(v), dir, c.thorough || done % 7 == 0); done++;
                    if (c.cur_failed) return;
                }
                int i = (int)A.size() - 1;
                while (i >= 0 && ++ix[i] == A[i].size()) ix[i--] = 0;
                if (i < 0) break;
            }
        });
    }
}
void mc_explore(mc::Ctx& c) {
    std::string dir = mc::fmt("v%d", (int)getpid());   // below the scratch directory the check runs in
    mkdir(dir.c_str(), 0700);
    family<double>(c, "double", dir);
    family<int>(c, "int", dir);
    family<char>(c, "char", dir);
    if (c.thorough) { family<float>(c, "float", dir); }
    types<double>(c, "double"); types<float>(c, "float"); types<int>(c, "int"); types<char>(c, "char");
    damages<double>(c, "double"); damages<int>(c, "int"); damages<char>(c, "char");
    if (c.next("no file")) c.guard([&] {
        double x[2] = {1, 2}; MemoryView<double> m(x, {2});
        bool a = false, b = false;
        try { m.write_to_file(nullptr); } catch (const std::invalid_argument&) { a = true; }
        try { MemoryView<double>::read_from_file(nullptr); } catch (const std::invalid_argument&) { b = true; }
        if (!a || !b) c.fail("null-file", "a null file was accepted");
        FILE* f = fopen("/dev/full", "w"); if (f) { setvbuf(f, nullptr, _IONBF, 0); bool d = false; try { m.write_to_file(f); } catch (const std::runtime_error&) { d = true; } if (!d) c.fail("full-device", "a failed write was not reported"); fclose(f); }
        // a file with room for a part of the data only: every size
        std::vector<double> big(40, 1.5); MemoryView<double> w(big.data(), {5, 8}); std::vector<char> room(1024);
        size_t need = 1024; for (size_t size = 1024; size > 0; size--) {
            FILE* g = fmemopen(room.data(), size, "wb"); if (!g) break;
            setvbuf(g, nullptr, _IONBF, 0); bool told = false; try { w.write_to_file(g); } catch (const std::exception&) { told = true; }
            long at = ftell(g); fclose(g); c.trans(1); if (size == 1024) need = at;
            if (told != (size < need)) { c.fail("torn-file", "a file with room for %zu of %zu bytes: %s", size, need, told ? "an error is reported" : "no error is reported"); break; }
        }
        c.trans(3); c.state(5);
    });
    unlink((dir + "/view.bin").c_str()); rmdir(dir.c_str());
}
