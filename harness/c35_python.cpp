// The Python interface: the example extension of the repository and a module that calls the declarations of the .pxd
// files are built with Cython from the current tree, and every call is compared with the same call from C++.
#include <fcntl.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>
#include "lib.h"
#include "cmmcore/ccx.h"
#include "cmmcore/bvh.hpp"
#include "cmmcore/monomial.h"
#include "cmmcore/polyline.h"
#include "cmmcore/serialization.h"
#include "cmmcore/_convexhull/quickhull.hpp"
using namespace cmmcore;
static const std::string PY = "/opt/veriftools/pyvenv/bin/python", DIR_ = mc::fmt("ext%d", (int)getpid());
static std::string run(const std::string& cmd, int& rc) {
    std::string out; FILE* p = popen((cmd + " 2>&1").c_str(), "r"); if (!p) { rc = -1; return "popen"; }
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n); rc = pclose(p); return out;
}
static std::string repo() { const char* e = getenv("CMMCORE_REPO"); return e ? e : "/repo"; }
static std::string here() { std::string f = __FILE__; return f.substr(0, f.rfind('/')) + "/py/"; }
static std::string problem(const std::string& t) { std::istringstream in(t); std::string l, first; while (std::getline(in, l)) { if (first.empty()) first = l; if (l.find("error") != std::string::npos || l.find(".pyx:") != std::string::npos || l.find(".pxd:") != std::string::npos || l.find("Error") != std::string::npos) return l.substr(0, 250); } return first.substr(0, 250); }
// builds once for all workers; the message of a failed build is kept beside the modules
static std::string build(const std::string& module, const std::string& pyx, const char* cc) {
    mkdir(DIR_.c_str(), 0700); std::string base = DIR_ + "/" + module, msg; int l = open((base + ".lock").c_str(), O_CREAT | O_RDWR, 0600); flock(l, LOCK_EX);
    struct stat st;
    if (stat((base + ".done").c_str(), &st)) {
        int rc; std::string o = run("cp " + pyx + " " + base + ".pyx && " + PY + " -m cython -3 --cplus -I " + repo() + " " + base + ".pyx -o " + base + ".cpp", rc);
        if (!rc) o = run(std::string(cc) + " -std=c++20 -w -O1 -ffp-contract=off -fPIC -shared -I" + repo() + " -I$(" + PY + " -c 'import sysconfig; print(sysconfig.get_paths()[\"include\"])') " + base + ".cpp -o " + base + ".so -lpthread", rc);
        if (rc) { FILE* f = fopen((base + ".msg").c_str(), "w"); std::string p = problem(o); fwrite(p.data(), 1, p.size(), f); fclose(f); }
        fclose(fopen((base + ".done").c_str(), "w"));
    }
    if (FILE* f = fopen((base + ".msg").c_str(), "r")) { char b[512]; size_t n = fread(b, 1, sizeof b, f); msg.assign(b, n); fclose(f); if (msg.empty()) msg = "?"; }
    flock(l, LOCK_UN); close(l); return msg;
}
struct Out {
    std::vector<double> v;
    template <class... A> Out& operator()(A... a) { (v.push_back((double)a), ...); return *this; }
    Out& operator()(const vec3& a) { return (*this)(a.x, a.y, a.z); }
    Out& four(const vec4& a) { return (*this)(a.x, a.y, a.z, a.w); }
};
struct Call { std::string module, name, args; Out want; };
static std::string num(double x) { return mc::fmt("%.17g", x); }
template <class T> static std::string pt(const T& p, int k) { std::string s = "("; for (int i = 0; i < k; i++) s += num(p[i]) + ","; return s + ")"; }
static std::string pts(const std::vector<vec4>& p, int k = 4) { std::string s = "["; for (auto& q : p) s += pt(q, k) + ","; return s + "]"; }
static std::string nums(const std::vector<double>& p) { std::string s = "["; for (double q : p) s += num(q) + ","; return s + "]"; }
static double r12(double x) { return std::round(x * 1e12) / 1e12; }

static void compare(mc::Ctx& c, std::vector<Call>& calls, const char* cc) {
    for (auto& m : {std::make_pair(std::string("ccx"), repo() + "/examples/cython_extension/ccx.pyx"), std::make_pair(std::string("bindings"), here() + "bindings.pyx")}) {
        bool used = false; for (auto& k : calls) used |= k.module == m.first;
        if (!used) continue;
        std::string e = build(m.first, m.second, cc);
        if (!e.empty()) { c.fail("build|" + m.first, "the extension %s does not build: %s", m.first.c_str(), e.c_str()); return; }
    }
    std::string in = mc::fmt("in%d", (int)getpid()); FILE* f = fopen(in.c_str(), "w");
    for (auto& k : calls) fprintf(f, "('%s','%s',[%s])\n", k.module.c_str(), k.name.c_str(), k.args.c_str());
    fclose(f);
    int rc; std::string o = run(PY + " " + here() + "run.py " + DIR_ + " " + in, rc); unlink(in.c_str());
    if (rc) { std::string last, l; std::istringstream s(o); while (std::getline(s, l)) if (!l.empty()) last = l; c.fail("python|" + calls[0].name, "Python ends with status %d: %s", rc, last.substr(0, 250).c_str()); return; }
    std::istringstream s(o);
    for (auto& k : calls) {
        c.trans(2); size_t n = 0; s >> n; std::vector<double> g(n); for (auto& x : g) { std::string w; s >> w; x = strtod(w.c_str(), nullptr); }
        if (!s) { c.fail("python|" + k.name, "output of Python cut off"); return; }
        if (n != k.want.v.size()) { c.fail(k.name + "|size", "%s(%s): %zu numbers from Python, %zu from C++", k.name.c_str(), k.args.substr(0, 150).c_str(), n, k.want.v.size()); continue; }
        for (size_t i = 0; i < n; i++) { double d = std::fabs(g[i] - k.want.v[i]); if (!(g[i] == k.want.v[i]) && !(d <= 1e-7 * (1 + std::fabs(k.want.v[i])))) { if (std::isnan(g[i]) && std::isnan(k.want.v[i])) continue; c.fail(k.name, "%s(%s): value %zu is %.17g from Python, %.17g from C++", k.name.c_str(), k.args.substr(0, 150).c_str(), i, g[i], k.want.v[i]); break; } }
        uint64_t h = std::hash<std::string>()(k.name); for (double x : g) h = mc::mix(h, x); c.state(h);
    }
}

static std::vector<std::vector<vec4>> nets() {
    std::vector<std::vector<vec4>> r;
    auto add = [&](std::initializer_list<std::array<double, 4>> l) { std::vector<vec4> p; for (auto& a : l) p.push_back(vec4(a[0], a[1], a[2], a[3])); r.push_back(p); };
    add({{0, 0, 0, 1}, {4, 4, 0, 1}}); add({{0, 4, 0, 1}, {4, 0, 0, 1}}); add({{0, 1, 0, 1}, {2, 5, 0, 1}, {4, 1, 0, 1}}); add({{0, 3, 0, 1}, {2, -2, 0, 1}, {4, 3, 0, 1}});
    add({{0, 0, 0, 1}, {1, 4, 0, 1}, {3, -3, 0, 1}, {4, 2, 0, 1}}); add({{1, 0, 0, 1}, {1, 4, 0, .5}, {4, 4, 0, 1}, {4, 0, 0, 1}}); add({{0, 0, 1, 1}, {1, 1, 1, 1}, {2, 0, 1, 1}, {3, 1, 1, 1}, {4, 0, 1, 1}});
    add({{0, 2, 0, 1}, {1, 0, 0, 1}, {2, 4, 0, 1}, {3, 0, 0, 1}, {4, 3, 0, 1}, {5, 1, 0, 1}});
    return r;
}
static std::vector<Call> ccxs(bool thorough) {
    std::vector<Call> r; auto N = nets();
    for (auto& a : N) for (auto& b : N) for (int da : {1, 2, 3}) for (int db : {1, 2, 3}) {
        if (&a == &b || (int)a.size() <= da || (int)b.size() <= db || (!thorough && da != db && (da + db) % 2)) continue;
        for (int cols : {3, 4}) {
            if (!thorough && cols == 3 && da != db) continue;
            std::vector<vec4> x = a, y = b; if (cols == 3) for (auto* z : {&x, &y}) for (auto& q : *z) q.w = 1;
            NURBSCurve p(x, da), q(y, db); std::vector<std::pair<double, double>> out; ccx(p, q, 1e-5, out);
            Out o; o(out.size()); for (auto& e : out) o(e.first, e.second);
            r.push_back({"ccx", "pyccx", pts(a, cols) + "," + pts(b, cols) + mc::fmt(",%d,%d", da, db) + ((int)(da + db) % 2 ? ",1e-5" : ""), o});
        }
    }
    return r;
}
static std::vector<Call> curves(bool thorough) {
    std::vector<Call> r; std::vector<double> T{0, .125, .25, .5, .7, .99, 1};
    for (auto& a : nets()) for (int d = 1; d < (int)a.size() && d < (thorough ? 6 : 4); d++) for (double cut : {.25, .5, .75}) for (int count : {1, 2}) {
        if (count > d) continue;
        NURBSCurve k(a, d), e(k), ins(k); double lo = k.interval()[0], hi = k.interval()[1], at = lo + (hi - lo) * cut; Out o; vec3 v;
        int have = 0; for (double x : k.get_knots()) have += x == at;
        if (have + count > d) continue;
        o(T.size()); for (double t : T) { k.evaluate(lo + (hi - lo) * t, v); o(v); }
        auto two = k.split(at, false); o(T.size()); for (double t : T) { double x = lo + (hi - lo) * t; if (x < at) two.first.evaluate(x, v); else two.second.evaluate(x, v); o(v); }
        ins.insert_knot(at, count); o(T.size()); for (double t : T) { ins.evaluate(lo + (hi - lo) * t, v); o(v); }
        e.normalize_knots(); o(T.size()); for (double t : T) { e.evaluate(t, v); o(v); }
        NURBSCurve g(a, d, true);
        o(k.get_degree(), k.is_periodic(), g.is_periodic(), k.get_control_points().size(), 2, 1, 1, ins.get_knots().size() - k.get_knots().size(), k.aabb().infinity());
        r.push_back({"bindings", "curve", pts(a) + mc::fmt(",%d,", d) + nums(T) + "," + num(cut) + mc::fmt(",%d", count), o});
    }
    return r;
}
static std::vector<Call> surfaces(bool thorough) {
    std::vector<Call> r;
    for (int p = 1; p <= 3; p++) for (int q = 1; q <= 3; q++) for (int n = p + 1; n <= p + 2; n++) for (int m = q + 1; m <= q + (thorough ? 3 : 2); m++) for (double cut : {.3, .45}) {
        std::vector<std::vector<vec4>> net(n); std::string P = "["; std::vector<double> ku, kv;
        for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) net[i].push_back(vec4(i, j, (i * 5 + j * 3) % 4, (i + j) % 3 ? 1 : 2)); P += pts(net[i]) + ","; } P += "]";
        for (int i = 0; i < n + p + 1; i++) ku.push_back(std::min(std::max(i - p, 0), n - p)); for (int i = 0; i < m + q + 1; i++) kv.push_back(std::min(std::max(i - q, 0), m - q));
        NURBSSurface s(net, {p, q}, ku, kv), k = s; double U = n - p, V = m - q; auto a = s.split_surface_u(cut * U, 1e-9), b = s.split_surface_v(cut * V, 1e-9); k.insert_knot_u(cut * U, 1); k.insert_knot_v(cut * V, 1);
        std::vector<NURBSSurface> bez; s.decompose(bez); Out x, y; vec3 v; std::string uv = "["; int cnt = 0;
        for (double u : {0., .2, .3, .6, 1.}) for (double w : {0., .3, .7, 1.}) { uv += "(" + num(u) + "," + num(w) + "),"; cnt++; s.evaluate(u * U, w * V, v); x(v); y(3); (u < cut ? a.first : a.second).evaluate(u * U, w * V, v); y(v); (w < cut ? b.first : b.second).evaluate(u * U, w * V, v); y(v); k.evaluate(u * U, w * V, v); y(v); }
        Out o; o(cnt); o.v.insert(o.v.end(), x.v.begin(), x.v.end()); o(cnt); o.v.insert(o.v.end(), y.v.begin(), y.v.end()); o(bez.size());
        r.push_back({"bindings", "surface", P + mc::fmt(",%d,%d,", p, q) + uv + "]," + num(cut), o});
    }
    return r;
}
static void tensor(Out& o, const Tensor2D<vec3>& t) { size_t n = 0; for (auto& r : t) n += r.size(); o(n); for (auto& r : t) for (auto& v : r) o(v); }
static std::vector<Call> monomials(bool thorough) {
    std::vector<Call> r;
    for (int n = 2; n <= 4; n++) for (int m = 2; m <= 4; m++) for (int seed = 0; seed < (thorough ? 11 : 4); seed++) {
        Tensor2D<vec3> a(n), du, dv, cr; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a[i].push_back(vec3((i * 7 + j * 5 + seed) % 11 + 3 * i, (i * 7 + j * 5 + 3 + seed) % 11 + 3 * j, (i * 7 + j * 5 + 6 + seed) % 11));
        Monomial2D b(a), d, e; NURBSSurface s; b.to_bezier(s); Monomial2D f(s); Out o; tensor(o, a); tensor(o, f.coefficients); vec3 v; std::string uv = "["; o(6);
        for (double u : {0., .4, 1.}) for (double w : {.3, 1.}) { s.evaluate(u, w, v); o(v); uv += "(" + num(u) + "," + num(w) + "),"; }
        compute_partial_derivative(a, SurfaceParameter::U, du); b.computePartialDerivative(SurfaceParameter::V, d); dv = d.coefficients; cross(du, dv, cr); b.computeNormal(e);
        tensor(o, du); tensor(o, dv); tensor(o, cr); tensor(o, e.coefficients); o(du.size(), bpmat(n - 1).getRows());
        r.push_back({"bindings", "monomials", mc::fmt("%d,%d,%d,", n, m, seed) + uv + "]", o});
    }
    return r;
}
static std::vector<Call> small(bool thorough) {
    std::vector<Call> r; double V[] = {-2, 0.5, 3};
    for (double x : V) for (double y : V) for (double s : V) {
        { vec2 a(x, y), b(s), c(a, b), u(a); u.unitize(); vec2 m = -a, d = a - b, z = a * b, w = a * 2., p = a.project(b), q = a.unit();
          Out o; o(23, a.x, a.y, 2, c.x, c.y, 1, u.x, m.x, d.x, z.y, w.y, a.dot(b), a.sqLength(), a.length(), p.x, a.projection(b), q.y, a.collinear(b), cross(a, b), dot(a, b), 1, 1, Vec2Equal()(a, b)); r.push_back({"bindings", "vec2s", num(x) + "," + num(y) + "," + num(s), o}); }
        for (double z : V) {
            { vec3 a(x, y, z), b(s), n(3, 4, 5), c(n), u = a.unit(); n.normalize(); Out o; o(34); o(a); o(b); o(3, 1, z); o(-a); o(a.dot(b), x + 2 * z); for (int k = 0; k < 2; k++) o(a.cross(b)); for (int k = 0; k < 2; k++) o(a - b); for (int k = 0; k < 2; k++) o(a + b); o(a * 2.); o(a * b); o(a / 2.); o(a / b); o(a.sqLength(), a.length()); o(u); o(u); o(r12(n.length()), 1, 1, Vec3Equal()(a, c)); o(a); o(quantize(1.5, 1), 1, 1, a.sqLength(), a.dot(b), (a - b).sqLength(), r12((a - b).length()));
              r.push_back({"bindings", "vec3s", num(x) + "," + num(y) + "," + num(z) + "," + num(s), o}); }
            { vec4 a(x, y, z, 2), b(s), u = a.unit(), k; k.set(vec3(7, 8, 9)); Out o; o(23); o.four(a); o.four(b); o(a.to_vec3()); o(a.to_vec3()); o(4, 1, 2); o.four(-a); o(a.dot(b)); for (int i = 0; i < 2; i++) o.four(a - b); for (int i = 0; i < 2; i++) o.four(a + b); o.four(a * 2.); o.four(a * b); o.four(a / 2.); o.four(a / b); double l = a.length(); o(a.sqLength(), l * l, u.length(), u.length(), u.length(), 7, 8, 9);
              r.push_back({"bindings", "vec4s", num(x) + "," + num(y) + "," + num(z) + ",2," + num(s), o}); }
            double det = x * z - y * s; if (std::fabs(det) > 0.1) { MatrixD a(2, 2); a(0, 0) = x; a(0, 1) = y; a(1, 0) = s; a(1, 1) = z; MatrixD R[] = {a * a, a.transpose(), a.inverse()}; Out o; o(5, 2, 2); for (auto& m : R) { o(4); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) o(m(i, j)); } r.push_back({"bindings", "matrices", num(x) + "," + num(y) + "," + num(s) + "," + num(z), o}); }
        }
    }
    // boxes on a line, every subset, every query cell
    for (int set = 1; set < 32; set++) for (int q = 0; q < 6; q++) for (int up = 0; up < 2; up++) {
        std::vector<int> at; for (int i = 0; i < 5; i++) if (set >> i & 1) at.push_back(i);
        if (!thorough && (set * 6 + q) % 3) continue;
        std::string B = "["; Out o, l; double lo = q - .3, hi = q + .2; int n = 0, pairs = 0; Out p; int np = 0;
        for (size_t i = 0; i < at.size(); i++) { B += mc::fmt("((%d,0,0),(%g,1,1)),", at[i], at[i] + 1.5); if (at[i] <= hi && at[i] + 1.5 >= lo) { n++; l(i); } if (at[i] <= lo && at[i] + 1.5 >= lo) { np++; p(i); } }
        for (size_t i = 0; i < at.size(); i++) for (size_t j = 0; j < at.size(); j++) pairs += std::abs(at[i] - at[j]) <= 1.5;
        B += "]"; std::string Q = "((" + num(lo) + ",.5,.5),(" + num(hi) + ",.6,.6))"; vec3 e = vec3(hi, .6, .6) - vec3(lo, .5, .5);
        o(n); o.v.insert(o.v.end(), l.v.begin(), l.v.end()); o(np); o.v.insert(o.v.end(), p.v.begin(), p.v.end()); o(pairs, 1, e.x * e.y * e.z, 1, 1, 0, 1); o(e); o(1);
        r.push_back({"bindings", "trees", B + "," + Q + (up ? ",True" : ",False"), o});
        if (!q) { Out t; t(at.size(), 1, 1); r.push_back({"bindings", "splitting", B, t}); }
    }
    // chains of segments in a square, and hulls of cube corners
    int E[4][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}}; double X[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
    for (int set = 1; set < 16; set++) for (int flip = 0; flip < 2; flip++) {
        std::vector<Segment> s; std::string S = "[";
        for (int i = 0; i < 4; i++) if (set >> i & 1) { int a = E[i][flip && i % 2], b = E[i][!(flip && i % 2)]; Segment g; g.p1 = vec3(X[a][0], X[a][1], 0); g.p2 = vec3(X[b][0], X[b][1], 0); s.push_back(g); S += "(" + pt(g.p1, 3) + "," + pt(g.p2, 3) + "),"; }
        std::vector<std::list<vec3>> br; assemble_polylines(s, br); Out o; o(br.size()); for (auto& x : br) { o(x.size()); for (auto& v : x) o(v); } PointKey k(vec3(1, 2, 3)), k2(1., 2., 3.); o(k == k2, PointKeyHash()(k) == PointKeyHash()(k2)); r.push_back({"bindings", "lines", S + "]", o});
    }
    for (int set = 0; set < 256; set++) {
        if (__builtin_popcount(set) < 4 || (!thorough && set % 5)) continue;
        std::vector<vec3> p, h; std::string S = "["; for (int i = 0; i < 8; i++) if (set >> i & 1) { p.push_back(vec3(i & 1, i >> 1 & 1, i >> 2)); S += pt(p.back(), 3) + ","; }
        bool threw = false; try { convex_hull3d(p, h); } catch (...) { threw = true; }
        if (threw) continue;
        Out o; o(h.size()); for (auto& v : h) o(v); r.push_back({"bindings", "hull", S + "]", o});
    }
    int k = 0; for (auto& a : nets()) for (int d = 1; d < (int)a.size(); d++) { Out o; o(1, 1, -7, 0.1, 1, 0.5, 4, 2, 1); r.push_back({"bindings", "storing", "'" + DIR_ + mc::fmt("/f%d_%d", (int)getpid(), k++) + "'," + pts(a) + mc::fmt(",%d", d), o}); }
    return r;
}
void mc_explore(mc::Ctx& c) {
    struct { const char* n; std::vector<Call> (*f)(bool); int parts; } K[] = {{"pyccx", ccxs, 6}, {"curves", curves, 2}, {"surfaces", surfaces, 2}, {"polynomials", monomials, 2}, {"vectors, trees, lines, hulls, files", small, 4}};
    for (auto& k : K) for (int part = 0; part < k.parts; part++) {
        if (!c.next("%s, part %d", k.n, part)) continue;
        c.guard([&] { auto all = k.f(c.thorough); std::vector<Call> mine; for (size_t i = part; i < all.size(); i += k.parts) mine.push_back(all[i]); compare(c, mine, "clang++-18 -stdlib=libc++"); c.tag(k.n); });
    }
}
