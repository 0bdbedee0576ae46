# cython: language_level=3
# Calls every declaration of the .pxd files once with values that its result is checked for.
from libc.stdint cimport uint8_t
from libcpp cimport bool
from libcpp.list cimport list as cpp_list
from libcpp.memory cimport unique_ptr
from libcpp.pair cimport pair
from libcpp.string cimport string
from libcpp.unordered_set cimport unordered_set
from libcpp.vector cimport vector
from cython.operator cimport dereference as deref
cimport cmmcore.vec as V
from cmmcore.vec cimport vec2, vec3, vec4, Vec2Hash, Vec2Equal, Vec3Hash, Vec3Equal
from cmmcore.matrix cimport Matrix
cimport cmmcore.monomial as M
from cmmcore.monomial cimport Monomial2D
cimport cmmcore.bvh as B
from cmmcore.bvh cimport AABB, Object3D, BVHNode, const_BVHNode_Ptr, Object3D_Ptr
cimport cmmcore.nurbs as N
from cmmcore.nurbs cimport NURBSCurve, NURBSSurface, SurfaceParameter, Degrees
from cmmcore.ccx cimport ccx
cimport cmmcore.serialization as S
cimport cmmcore.polyline as P
from cmmcore.polyline cimport PointKey, PointKeyHash, Segment, Endpoint, SpatialIndex
from cmmcore.quickhull cimport convex_hull3d

cdef t3(vec3 v): return (v.x, v.y, v.z)
cdef t4(vec4 v): return (v.x, v.y, v.z, v.w)

def vec2s(double ax, double ay, double bx):
    cdef vec2 a = vec2(ax, ay), b = vec2(bx), c = vec2(a, b), d, u
    d.set(1.); d.set(1., 2.); d.set(a)
    u.set(a); u.unitize()
    cdef Vec2Hash h
    cdef Vec2Equal e
    cdef vec2 x = -a, y = a - b, z = a * b, w = a * 2., p = a.project(b), q = a.unit()
    return [a.x, a[1], a.size(), c.x, c.y, d == a, u.x, x.x, y.x, z.y, w.y, a.dot(b), a.sqLength(), a.length(), p.x, a.projection(b), q.y, a.collinear(b), V.cross(a, b), V.dot(a, b), h(a) == h(d), e(a, d), e(a, b)]

def vec3s(double ax, double ay, double az, double bx):
    cdef vec3 a = vec3(ax, ay, az), b = vec3(bx), c, d, e, f, u
    c.set(3., 4., 5.); d.set(c); a.cross(b, e); a.sub(b, f)
    u.set(a); u.unitize()
    cdef vec3 g, n
    a.add(b, g); n.set(c); n.normalize()
    cdef Vec3Hash h
    cdef Vec3Equal q
    cdef double s0 = 0, s1 = 0, s2 = 0
    V.assign(a, s0, s1, s2)
    cdef vector[vec3] vv
    vv.push_back(a)
    cdef string one = V.format_vec3(a), more = V.format_vec3vec(vv)
    return [t3(a), t3(b), a.size(), c == d, a[2], t3(-a), a.dot(b), a.dot(1., 0., 2.), t3(a.cross(b)), t3(e), t3(a - b), t3(f), t3(a + b), t3(g), t3(a * 2.), t3(a * b), t3(a / 2.), t3(a / b), a.sqLength(), a.length(), t3(u), t3(a.unit()), round(n.length(), 12), h(c) == h(d), q(c, d), q(a, d), (s0, s1, s2), V.quantize(1.5, 1), len(one) > 0, len(more) > 0, V.mag2(a), V.dot(a, b), V.dist2(a, b), round(V.dist(a, b), 12)]

def vec4s(double ax, double ay, double az, double aw, double bx):
    cdef vec4 a = vec4(ax, ay, az, aw), b = vec4(bx), c = vec4(a), d, u, e, f
    d.set(c); u.set(a); u.unitize(); a.sub(b, e); a.add(b, f)
    cdef vec4 n = a.unit(), m, k
    m.set(a); m.normalize(); k.set(vec3(7., 8., 9.))
    cdef vec3 p
    a.to_vec3(p)
    return [t4(a), t4(b), t3(a.to_vec3()), t3(p), a.size(), c == d, a[3], t4(-a), a.dot(b), t4(a - b), t4(e), t4(a + b), t4(f), t4(a * 2.), t4(a * b), t4(a / 2.), t4(a / b), a.sqLength(), round(a.length() ** 2, 9), round(u.length(), 12), round(n.length(), 12), round(m.length(), 12), (k.x, k.y, k.z)]

def matrices(double p, double q, double r0, double s0):
    cdef Matrix* a = new Matrix(2, 2)

    (<double*>&deref(a)(0, 0))[0] = p; (<double*>&deref(a)(0, 1))[0] = q; (<double*>&deref(a)(1, 0))[0] = r0; (<double*>&deref(a)(1, 1))[0] = s0
    cdef vector[Matrix] r
    r.push_back(deref(a) * deref(a)); r.push_back(a.transpose()); r.push_back(a.inverse())
    out = [a.getRows(), a.getCols()] + [[r[k](i, j) for i in range(2) for j in range(2)] for k in range(3)]
    del a
    return out

ctypedef vector[vector[vec3]] Tensor

cdef Tensor net(int n, int m, int seed):
    cdef Tensor r
    cdef vector[vec3] row
    for i in range(n):
        row.clear()
        for j in range(m):
            row.push_back(vec3((i * 7 + j * 5 + seed) % 11 + 3 * i, (i * 7 + j * 5 + 3 + seed) % 11 + 3 * j, (i * 7 + j * 5 + 6 + seed) % 11))
        r.push_back(row)
    return r

cdef list flat(const Tensor& t):
    return [t3(t[i][j]) for i in range(t.size()) for j in range(t[i].size())]

def monomials(int n, int m, int seed, uvs):
    cdef Tensor a = net(n, m, seed), du, dv, c
    cdef Monomial2D b = Monomial2D(a), d, e, f
    cdef Monomial2D z = Monomial2D(n, m)
    cdef NURBSSurface s
    b.to_bezier(s)
    f = Monomial2D(s)
    cdef vec3 v
    at = []
    for u, w in uvs:
        s.evaluate(u, w, v); at.append(t3(v))
    M.compute_partial_derivative(a, SurfaceParameter.U, du)
    b.computePartialDerivative(SurfaceParameter.V, d)
    dv = d.coefficients
    M.cross(du, dv, c)
    b.computeNormal(e)
    z.set(du)
    return flat(a), flat(f.coefficients), at, flat(du), flat(dv), flat(c), flat(e.coefficients), z.n, M.bpmat(n - 1).getRows()

def trees(boxes, query, bool bottom_up):
    cdef vector[Object3D] o
    cdef vector[Object3D_Ptr] p
    cdef AABB bb
    for i, (lo, hi) in enumerate(boxes): o.push_back(Object3D(AABB(vec3(lo[0], lo[1], lo[2]), vec3(hi[0], hi[1], hi[2])), i))
    for i in range(o.size()): p.push_back(&o[i])
    cdef unique_ptr[BVHNode] t = B.build_bvh(p, bottom_up)
    cdef vector[const Object3D*] r, q
    cdef AABB qb = AABB(vec3(query[0][0], query[0][1], query[0][2]), vec3(query[1][0], query[1][1], query[1][2]))
    B.traverse_bvh(t.get(), qb, r); B.contains_point(t.get(), vec3(query[0][0], query[0][1], query[0][2]), q)
    cdef vector[pair[const_BVHNode_Ptr, const_BVHNode_Ptr]] x, y
    B.intersect_bvh_iterative(t.get(), t.get(), x); B.intersect_bvh(t.get(), t.get(), y)
    cdef BVHNode copy = BVHNode(deref(t.get()))
    cdef AABB part
    both = qb.intersection(qb, part)
    cdef AABB sum = qb.merge(part)
    sum.expand(vec3(100., 0., 0.))
    cdef vec3 ext = B.compute_extents(qb)
    cdef string s1 = B.output_bvh_nodes(t.get()), s2 = B.output_aabb(qb), s3 = B.output_objects3d(p), s4 = B.output_object3d(p[0])
    base = <size_t>&o[0]
    n = sizeof(Object3D)
    return sorted([(<size_t>r[i] - base) // n for i in range(r.size())]), sorted([(<size_t>q[i] - base) // n for i in range(q.size())]), x.size(), both, qb.volume(), sum.volume() >= qb.volume(), bb.infinity(), qb.infinity(), qb.intersects(part), t3(ext), min(len(s1), len(s2), len(s3), len(s4)) > 0

def splitting(boxes):
    cdef vector[Object3D] o
    cdef vector[Object3D_Ptr] p
    for i, (lo, hi) in enumerate(boxes): o.push_back(Object3D(AABB(vec3(lo[0], lo[1], lo[2]), vec3(hi[0], hi[1], hi[2])), i))
    for i in range(o.size()): p.push_back(&o[i])
    cdef pair[vector[Object3D_Ptr], vector[Object3D_Ptr]] h = B.split_objects(p)
    cdef unique_ptr[BVHNode] a = B.build_bvh_top_down(h.first), b = B.build_bvh_bottom_up(p)
    return h.first.size() + h.second.size(), a.get() != NULL, b.get() != NULL

cdef vector[vec4] cpts(pts) except *:
    cdef vector[vec4] r
    for q in pts: r.push_back(vec4(q[0], q[1], q[2], q[3] if len(q) > 3 else 1.))
    return r

def curve(pts, int degree, ts, double cut, int count):
    cdef vector[vec4] p = cpts(pts)
    cdef NURBSCurve c = NURBSCurve(p, degree), d = NURBSCurve(c), e, f
    cdef vec3 v
    e = c
    def_n = c.get_control_points().size()
    cdef vector[double] kn = c.get_knots()
    lo, hi = c.interval()[0], c.interval()[1]
    out = []
    for t in ts:
        c.evaluate(lo + (hi - lo) * t, v); out.append(t3(v))
    cdef double at = lo + (hi - lo) * cut
    cdef pair[NURBSCurve, NURBSCurve] two = c.split(at, False)
    halves = []
    for t in ts:
        x = lo + (hi - lo) * t
        if x < at: two.first.evaluate(x, v)
        else: two.second.evaluate(x, v)
        halves.append(t3(v))
    d.insert_knot(at, count)
    more = []
    for t in ts:
        d.evaluate(lo + (hi - lo) * t, v); more.append(t3(v))
    e.normalize_knots(); e.update_interval(); e.knots_update_hook(); e.rebuildAABB()
    unit = []
    for t in ts:
        e.evaluate(t, v); unit.append(t3(v))
    f = NURBSCurve(p, degree, kn, False)
    f.set_control_points(p); f.set_knots(kn); f.set_degree(degree); f.evaluate(hi, v)
    cdef NURBSCurve g = NURBSCurve(p, degree, True)
    cdef vector[uint8_t] data = S.serializeNURBSCurve(c)
    cdef vector[NURBSCurve] all, back
    all.push_back(c); all.push_back(d)
    cdef vector[uint8_t] bytes = S.serializeNURBSCurves(all)
    back = S.deserializeNURBSCurves(bytes)
    cdef const uint8_t* z = data.data()
    cdef NURBSCurve one = S.deserializeNURBSCurve(z)
    back[0].evaluate(lo + (hi - lo) * cut, v)
    first = t3(v)
    one.evaluate(lo + (hi - lo) * cut, v)
    back_kn = [back[1].get_knots()[i] for i in range(back[1].get_knots().size())] == [d.get_knots()[i] for i in range(d.get_knots().size())]
    return out, halves, more, unit, (c.get_degree(), c.is_periodic(), g.is_periodic(), def_n, back.size(), back_kn, first == t3(v), d.get_knots().size() - kn.size(), f.aabb().infinity())

def storing(str name, pts, int degree):
    cdef vector[NURBSCurve] a, b
    a.push_back(NURBSCurve(cpts(pts), degree))
    ok = S.writeNURBSCurvesToFile(name.encode(), a)
    b = S.readNURBSCurvesFromFile(name.encode())
    cdef vector[uint8_t] d
    cdef vector[double] vd
    vd.push_back(0.5)
    cdef vector[vec4] v4
    v4.push_back(vec4(1., 2., 3., 4.))
    S.serializeInt(d, -7); S.serializeDouble(d, 0.1); S.serializeBool(d, True); S.serializeVectorDouble(d, vd); S.serializeVec4(d, v4[0]); S.serializeVectorVec4(d, v4)
    cdef const uint8_t* z = d.data()
    return ok, b.size(), S.deserializeInt(z), S.deserializeDouble(z), S.deserializeBool(z), S.deserializeVectorDouble(z)[0], S.deserializeVec4(z).w, S.deserializeVectorVec4(z)[0].y, <size_t>z - <size_t>d.data() == d.size()

def surface(pts, int p, int q, uvs, double cut):
    cdef vector[vector[vec4]] net
    for row in pts: net.push_back(cpts(row))
    cdef vector[double] ku, kv
    cdef int n = len(pts), m = len(pts[0])
    for i in range(n + p + 1): ku.push_back(min(max(i - p, 0), n - p))
    for i in range(m + q + 1): kv.push_back(min(max(i - q, 0), m - q))
    cdef Degrees deg
    deg[0] = p; deg[1] = q
    cdef NURBSSurface s = NURBSSurface(net, deg, ku, kv)
    cdef pair[NURBSSurface, NURBSSurface] a = s.split_surface_u(cut * (n - p), 1e-9), b = s.split_surface_v(cut * (m - q), 1e-9)
    cdef NURBSSurface k = s
    k.insert_knot_u(cut * (n - p), 1); k.insert_knot_v(cut * (m - q), 1)
    cdef vector[NURBSSurface] bez
    cdef NURBSSurface t = s
    t.decompose(bez)
    cdef vec3 v
    out = []; other = []
    for u, w in uvs:
        s.evaluate(u * (n - p), w * (m - q), v); out.append(t3(v))
        row = []
        if u < cut: a.first.evaluate(u * (n - p), w * (m - q), v)
        else: a.second.evaluate(u * (n - p), w * (m - q), v)
        row.append(t3(v))
        if w < cut: b.first.evaluate(u * (n - p), w * (m - q), v)
        else: b.second.evaluate(u * (n - p), w * (m - q), v)
        row.append(t3(v))
        k.evaluate(u * (n - p), w * (m - q), v)
        row.append(t3(v))
        other.append(row)
    return out, other, bez.size()

def lines(segments):
    cdef vector[Segment] s
    cdef Segment one
    cdef vector[cpp_list[vec3]] r
    for a, b in segments:
        one.p1 = vec3(a[0], a[1], a[2]); one.p2 = vec3(b[0], b[1], b[2])
        s.push_back(one)
    P.assemble_polylines(s, r)
    cdef PointKey k = PointKey(vec3(1., 2., 3.)), l = PointKey(1., 2., 3.)
    cdef PointKeyHash hh
    out = []
    for i in range(r.size()):
        line = []
        for v in r[i]: line.append(t3(v))
        out.append(line)
    return out, k == l, hh(k) == hh(l)

def hull(pts):
    cdef vector[vec3] p, h
    for a in pts: p.push_back(vec3(a[0], a[1], a[2]))
    convex_hull3d(p, h)
    return [t3(h[i]) for i in range(h.size())]
