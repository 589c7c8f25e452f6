"""Contracts of the geometry code: utilities, circle, segment, arc (C01, C02)."""
import z3
from engine import *
from contracts import *
from proof import *
from clients import *

PTS = 'array_list<printer_point>'
R4 = [RealS] * 4
def DIST(x1, y1, x2, y2): return UF('cartesian_distance', *R4, RealS)(zr(x1), zr(y1), zr(x2), zr(y2))
def DIST_DIFF(*a):
    """lemma_distance: non-negative and determined by its square, the distance is a function of the differences"""
    a = [zr(x) for x in a]; return DIST(*a) == UF('cartesian_distance_of_differences', RealS, RealS, RealS)(a[0] - a[2], a[1] - a[3])
def FOOT_OK(*a): return UF('perpendicular_foot_inside', *([RealS] * 6), BoolS)(*[zr(x) for x in a])
def FOOT_X(*a): return UF('perpendicular_foot_x', *([RealS] * 6), RealS)(*[zr(x) for x in a])
def FOOT_Y(*a): return UF('perpendicular_foot_y', *([RealS] * 6), RealS)(*[zr(x) for x in a])
ABS = lambda x: z3.If(x >= 0, x, -x)

def xyargs(e, st, p, cls='point'):
    v = View(e, st, p, e.mod.classes()[cls]); return v.x, v.y

class Dist(FnContract):
    def __init__(s): super().__init__('utilities::get_cartesian_distance', r'^utilities::get_cartesian_distance\(double, double, double, double\)$')
    def summary(s, c):
        r = DIST(*c.args[:4])
        c.e.fact(c.st1, r >= 0)
        if c.e.opts.get('differences'): c.e.fact(c.st1, DIST_DIFF(*c.args[:4]))
        if c.e.opts.get('nl'):
            x1, y1, x2, y2 = [zr(a) for a in c.args[:4]]
            c.e.fact(c.st1, r * r == (x1 - x2) * (x1 - x2) + (y1 - y2) * (y1 - y2))
        return r
def DIST3(*a): return UF('cartesian_distance3', *([RealS] * 6), RealS)(*[zr(x) for x in a])
class Dist3(FnContract):
    def __init__(s): super().__init__('utilities::get_cartesian_distance (3D)', r'^utilities::get_cartesian_distance\(double, double, double, double, double, double\)$')
    def summary(s, c): r = DIST3(*c.args[:6]); c.e.fact(c.st1, r >= 0); return r
class Foot(FnContract):
    """static segment::get_closest_perpendicular_point(p1, p2, c, d)"""
    def __init__(s): super().__init__('segment::get_closest_perpendicular_point', r'^segment::get_closest_perpendicular_point\(point const&, point const&, point const&, point&\)$')
    def summary(s, c):
        e, st = c.e, c.st1
        a = xyargs(e, st, c.args[0]) + xyargs(e, st, c.args[1]) + xyargs(e, st, c.args[2])
        ok = FOOT_OK(*a)
        d = c.new(c.args[3], 'point')
        d.x = ite(ok, FOOT_X(*a), d.x); d.y = ite(ok, FOOT_Y(*a), d.y)
        return ok
def reg(*cs):
    r = Registry()
    for c in cs: r.add(c)
    return r

# ---- leaf functions against their mathematical meaning
def u_dist(mod):
    """get_cartesian_distance is the euclidean distance"""
    u = Unit(mod, r'^utilities::get_cartesian_distance\(double, double, double, double\)$')
    a = [z3.Real(n) for n in ('x1', 'y1', 'x2', 'y2')]; u.run(a); r = zr(u.ret)
    u.ensure('non-negative', r >= 0); u.ensure('squares to dx^2+dy^2', r * r == (a[0] - a[2]) * (a[0] - a[2]) + (a[1] - a[3]) * (a[1] - a[3])); return u
def mk_point(u, nm, cls='point'):
    o = u.obj(cls, nm); return o, u.view(o, cls)
def u_foot(mod):
    """the point returned is the foot of the perpendicular from c, and it is returned when it lies inside the segment"""
    u = Unit(mod, r'^segment::get_closest_perpendicular_point\(point const&, point const&, point const&, point&\)$')
    (o1, p1), (o2, p2), (oc, c), (od, d) = [mk_point(u, n) for n in ('p1', 'p2', 'c', 'd')]
    u.assume('segment has length', z3.Or(p1.x != p2.x, p1.y != p2.y))
    u.run([ptr(o1), ptr(o2), ptr(oc), ptr(od)])
    d1 = d.at(u.st1); ret = zb(u.ret); T = z3.Real('t'); vx, vy = p2.x - p1.x, p2.y - p1.y
    tdef = T * (vx * vx + vy * vy) == (c.x - p1.x) * vx + (c.y - p1.y) * vy
    eps = z3.RealVal('1/1000000')   # zero tolerance is 0.000005
    u.e.facts.append(((), tdef))
    u.ensure('returned point is on the segment line at parameter t', z3.Implies(ret, z3.And(d1.x == p1.x + T * vx, d1.y == p1.y + T * vy)))
    u.ensure('inside the segment: reported', z3.Implies(z3.And(T >= z3.RealVal('1/1000'), T <= z3.RealVal('999/1000')), ret))
    u.ensure('outside the segment: not reported', z3.Implies(z3.Or(T <= 0, T >= 1), z3.Not(ret)))
    for o in (o1, o2, oc): u.frame(o, [], 'point')
    return u

# ---- deviation
def good_at(e, st, pts, cx, cy, r, res, absolute=False):
    """(vertex predicate, segment predicate)"""
    el = pts.at if absolute else pts.elem
    def vert(_, k):
        p = el(st, k); return ABS(DIST(p.x, p.y, cx, cy) - r) <= res
    def seg(_, k):
        p, q = el(st, k), el(st, k + 1)
        a = (p.x, p.y, q.x, q.y, cx, cy)
        return z3.Implies(FOOT_OK(*a), ABS(DIST(FOOT_X(*a), FOOT_Y(*a), cx, cy) - r) <= res)
    return vert, seg
def deviation(pattern, neg, extra):
    def f(mod):
        u = Unit(mod, pattern, registry=reg(SeqContract(), Dist(), Foot()))
        co = u.obj('circle', 'circ'); c = u.view(co, 'circle')
        po = u.obj(PTS, 'points'); pts = seq_of(u.e, ptr(po), 'array_list', 'printer_point')
        res, tol, d3 = z3.Real('res'), z3.Real('tol'), z3.Bool('allow3d')
        n = pts.cnt(u.st); u.assume('at least three points', n >= 3)
        cx, cy, r = c.center.x, c.center.y, c.radius
        vert, seg = good_at(u.e, u.st, pts, cx, cy, r, res)
        args = [ptr(co), ptr(po), res, tol, d3]
        if extra: oo = Obj('param', 'total'); args.append(ptr(oo))
        u.e.opts['loops'] = Auto(ints=[('n', lambda st: n)], foralls=[('vertex', vert), ('segment', seg)])
        u.run(args)
        ok = b_not(u.ret) if neg else zb(u.ret)
        k = z3.Int('k')
        u.ensure('accepted: every inner vertex is within the tolerance of the circle', z3.Implies(z3.And(ok, k >= 1, k < n - 1), vert(None, k)))
        u.ensure('accepted: the closest point of every segment is within the tolerance', z3.Implies(z3.And(ok, k >= 0, k < n - 1), seg(None, k)))
        u.frame(co, [], 'circle')
        u.ensure('points unchanged', eq(pts.cnt(u.st1), n)); u.ensure('points unchanged (elements)', all_same(u, pts))
        return u
    f.__doc__ = 'acceptance implies the deviation bound at every vertex and segment'; return f
def all_same(u, q):
    cs = []
    for off, t in q.leaves:
        so = u.e.sort_of(t)
        cs.append(eq(u.e.arr_get(u.st0, q.elems, off, so), u.e.arr_get(u.st1, q.elems, off, so)))
    return b_and(*cs)
GEOM1 = [u_dist, u_foot, deviation(r'^circle::is_over_deviation', True, False), deviation(r'^circle::get_deviation_sum_squared', False, True)]
for f, n in zip(GEOM1, ('get_cartesian_distance', 'get_closest_perpendicular_point', 'is_over_deviation', 'get_deviation_sum_squared')): f.__name__ = n

def circ_eq(a, b): return b_and(eq(a.center.x, b.center.x), eq(a.center.y, b.center.y), eq(a.center.z, b.center.z), eq(a.radius, b.radius))
# ---- circle through three points
def u_circle3(mod):
    """the circle passes through all three points and respects the radius limit"""
    u = Unit(mod, r'^circle::try_create_circle\(point const&, point const&, point const&, double, circle&\)$', registry=reg(Dist()), opts={'nl': False, 'differences': True})
    (o1, p1), (o2, p2), (o3, p3) = [mk_point(u, n) for n in ('p1', 'p2', 'p3')]
    co = u.obj('circle', 'circ'); mx = z3.Real('max_radius')
    u.run([ptr(o1), ptr(o2), ptr(o3), mx, ptr(co)])
    c = u.view(co, 'circle', u.st1); ret = zb(u.ret)
    cx, cy = c.center.x, c.center.y
    sq = lambda p: (p.x - cx) * (p.x - cx) + (p.y - cy) * (p.y - cy)
    u.ensure_eq('accepted: centre at the same distance from the first and second point', ret, sq(p1), sq(p2))
    u.ensure_eq('accepted: centre at the same distance from the first and third point', ret, sq(p1), sq(p3))
    u.e.facts.append(((), DIST_DIFF(cx, cy, p1.x, p1.y)))
    u.ensure('accepted: radius is the distance from the centre to the first point', z3.Implies(ret, c.radius == DIST(cx, cy, p1.x, p1.y)))
    u.ensure('accepted: radius not negative', z3.Implies(ret, c.radius >= 0))
    u.ensure('accepted: radius within the maximum', z3.Implies(ret, c.radius <= mx))
    u.ensure('accepted: centre Z is the start Z', z3.Implies(ret, c.center.z == p1.z))
    c0 = u.view(co, 'circle', u.st0)
    u.ensure('refused: the circle is left alone', z3.Implies(z3.Not(ret), circ_eq(c0, c)))
    for o in (o1, o2, o3): u.frame(o, [], 'point')
    return u
GEOM1.append(u_circle3)

def lemma_distance(mod):
    """lemma: a non-negative number is determined by its square (so equal squared distances are equal distances)"""
    u = Unit(mod, None); a, b = z3.Reals('a b'); u.st1 = u.st0 = u.st; u.e.topname = 'lemma (squares of distances)'
    u.ensure('a,b>=0, a^2=b^2 -> a=b', z3.Implies(z3.And(a >= 0, b >= 0, a * a == b * b), a == b)); return u
class Circle3(FnContract):
    def __init__(s): super().__init__('circle::try_create_circle(p1,p2,p3)', r'^circle::try_create_circle\(point const&, point const&, point const&, double, circle&\)$')
    def summary(s, c):
        e, st = c.e, c.st1
        ok = fresh(BoolS, 'circle_ok')
        ps = [xyargs(e, st, p) for p in c.args[:3]]; z1 = c.new(c.args[0], 'point').z
        n = c.new(c.args[4], 'circle')
        cx, cy, r = fresh(RealS, 'cx'), fresh(RealS, 'cy'), fresh(RealS, 'r')
        e.fact(st, z3.Implies(ok, z3.And(r <= zr(c.args[3]), r >= 0, *[DIST(x, y, cx, cy) == r for x, y in ps])))
        n.center.x = ite(ok, cx, n.center.x); n.center.y = ite(ok, cy, n.center.y); n.center.z = ite(ok, z1, n.center.z); n.radius = ite(ok, r, n.radius)
        return ok
class OverDeviation(FnContract):
    def __init__(s): super().__init__('circle::is_over_deviation', r'^circle::is_over_deviation\(')
    def summary(s, c):
        e, st = c.e, c.st1
        r = fresh(BoolS, 'over'); cc = c.new(c.args[0], 'circle'); pts = seq_of(e, c.args[1], 'array_list', 'printer_point')
        e.fact(st, z3.Implies(z3.Not(r), DEV(e, st, pts, cc, zr(c.args[2]))))
        return r
class DevSum(FnContract):
    def __init__(s): super().__init__('circle::get_deviation_sum_squared', r'^circle::get_deviation_sum_squared\(')
    def summary(s, c):
        e, st = c.e, c.st1
        r = fresh(BoolS, 'devok'); cc = c.new(c.args[0], 'circle'); pts = seq_of(e, c.args[1], 'array_list', 'printer_point')
        e.fact(st, z3.Implies(r, DEV(e, st, pts, cc, zr(c.args[2]))))
        e.store(st, c.args[5], fresh(RealS, 'total'), Ty('double'))
        return r
def DEV(e, st, pts, cc, res):
    n = pts.cnt(st); b = zi(pts.get(st, 'base'))
    vert, seg = good_at(e, st, pts, cc.center.x, cc.center.y, cc.radius, res, True)
    return z3.And(ForAllPos(pts, st, b + 1, b + n - 1, lambda i: vert(None, i), 'x'), ForAllPos(pts, st, b, b + n - 1, lambda i: seg(None, i), 'x'))
def ENDS(e, st, pts, cc, mx):
    n = pts.cnt(st); a, b = pts.elem(st, 0), pts.elem(st, n - 1)
    return b_and(DIST(a.x, a.y, cc.center.x, cc.center.y) == cc.radius, DIST(b.x, b.y, cc.center.x, cc.center.y) == cc.radius, cc.radius <= mx, cc.radius >= 0)
def GOOD(e, st, pts, cc, res, mx): return b_and(DEV(e, st, pts, cc, res), ENDS(e, st, pts, cc, mx))
def pts_setup(u, minn=3):
    po = u.obj(PTS, 'points'); pts = seq_of(u.e, ptr(po), 'array_list', 'printer_point')
    n = pts.cnt(u.st); u.assume('at least %d points' % minn, n >= minn)
    return po, pts, n
def u_circle_points(mod):
    """the circle chosen passes through both ends, respects the radius limit and the deviation bound everywhere"""
    u = Unit(mod, r'^circle::try_create_circle\(array_list', registry=reg(SeqContract(), Dist(), Circle3(), OverDeviation(), DevSum()))
    po, pts, n = pts_setup(u)
    co = u.obj('circle', 'circ'); res, tol, mx, d3 = z3.Real('res'), z3.Real('tol'), z3.Real('max_radius'), z3.Bool('allow3d')
    good = lambda st: GOOD(u.e, st, pts, u.view(co, 'circle', st), res, mx)
    u.e.opts['loops'] = Auto(ints=[('n', lambda st: n)], flags=[('good circle', good)], extra=[('good circle', good)])
    u.run([ptr(po), mx, res, tol, d3, ptr(co)]); ret = zb(u.ret)
    cc = u.view(co, 'circle', u.st1)
    vert, seg = good_at(u.e, u.st1, pts, cc.center.x, cc.center.y, cc.radius, res); k = z3.Int('k')
    u.ensure('accepted: both ends on the circle, radius within the maximum', z3.Implies(ret, ENDS(u.e, u.st1, pts, cc, mx)))
    u.ensure('accepted: every inner vertex is within the tolerance', z3.Implies(z3.And(ret, k >= 1, k < n - 1), vert(None, k)))
    u.ensure('accepted: the closest point of every segment is within the tolerance', z3.Implies(z3.And(ret, k >= 0, k < n - 1), seg(None, k)))
    u.ensure('points unchanged', b_and(eq(pts.cnt(u.st1), n), all_same(u, pts)))
    return u
GEOM1 += [lemma_distance, u_circle_points]

# ---- angles
PI = zr(Fraction(*(3.14159265358979323846).as_integer_ratio()))
def pi_const(mod):
    """the PI constant the code really uses"""
    return PI
def POLAR(cx, cy, px, py): return UF('polar_radians', *R4, RealS)(zr(cx), zr(cy), zr(px), zr(py))
class Polar(FnContract):
    def __init__(s): super().__init__('circle::get_polar_radians', r'^circle::get_polar_radians\(point const&\) const$')
    def summary(s, c):
        cc, p = c.new(c.args[0], 'circle'), c.new(c.args[1], 'point')
        r = POLAR(cc.center.x, cc.center.y, p.x, p.y); c.e.fact(c.st1, z3.And(r >= 0, r < 2 * PI)); return r
def atan2_axiom(u, y, x):
    t = UF('atan2', RealS, RealS, RealS)(y, x); u.e.facts.append(((), z3.And(t > -PI, t <= PI))); u.e.assumed.add('libm atan2 range (-pi, pi], pi = the double constant'); return t
def u_polar(mod):
    """the polar angle is atan2 of the offset from the centre, normalised to [0, 2pi)"""
    u = Unit(mod, r'^circle::get_polar_radians\(point const&\) const$')
    co, po = u.obj('circle', 'circ'), u.obj('point', 'p'); c, p = u.view(co, 'circle'), u.view(po, 'point')
    t = atan2_axiom(u, p.y - c.center.y, p.x - c.center.x)
    u.run([ptr(co), ptr(po)]); r = zr(u.ret)
    u.ensure('in [0, 2pi)', z3.And(r >= 0, r < 2 * PI)); u.ensure('same direction as atan2', z3.Or(r == t, r == t + 2 * PI))
    u.frame(co, [], 'circle'); u.frame(po, [], 'point'); return u
def SWEEP(ts, te, ccw):
    s = z3.If(te > ts, te - ts, te - ts + 2 * PI)
    return z3.If(ccw, s, 2 * PI - s)
def HYPOT(a, b): return UF('hypot', RealS, RealS, RealS)(zr(a), zr(b))
class Hypot(FnContract):
    def __init__(s): super().__init__('utilities::hypot', r'^utilities::hypot\(double, double\)$')
    def summary(s, c):
        r = HYPOT(*c.args); c.e.fact(c.st1, r >= 0); return r
def u_hypot(mod):
    """hypot is the length of the hypotenuse"""
    u = Unit(mod, r'^utilities::hypot\(double, double\)$')
    x, y = z3.Reals('x y'); u.run([x, y]); r = zr(u.ret)
    u.ensure('non-negative', r >= 0)
    # the scaled form: r = m*s with m = max(|x|,|y|), s^2 = 1 + (min/m)^2
    X, Y = ABS(x), ABS(y); m, n = z3.If(X < Y, Y, X), z3.If(X < Y, X, Y)
    sq = UF('sqrt', RealS, RealS)
    u.ensure('shape of the result', r == z3.If(n == 0, m, m * sq(1 + (n / m) * (n / m))))
    return u
def lemma_hypot(mod):
    """lemma: m*sqrt(1+(n/m)^2) squares to m^2+n^2"""
    u = Unit(mod, None); m, n, s, q = z3.Reals('m n s q'); u.st1 = u.st0 = u.st; u.e.topname = 'lemma (hypot)'
    u.ensure('s^2 = 1+q^2, q*m = n -> (m s)^2 = m^2+n^2', z3.Implies(z3.And(s * s == 1 + q * q, q * m == n), m * m * (s * s) == m * m + n * n)); return u
CCW, CW = 1, 2
def arc_len(r, sw, z0, z1, d3): return z3.If(z3.And(zb(d3), z0 != z1), HYPOT(r * sw, z1 - z0), r * sw)
def PCT(v1, v2): return z3.If(v1 != 0, (v2 - v1) / v1, 0)
def pp_eq(a, b): return b_and(*[eq(getattr(a, f), getattr(b, f)) for f in ('x', 'y', 'z', 'e_offset', 'e_relative', 'f', 'distance', 'is_extruder_relative')])
def opaque(name, *xs):
    xs = [Z(x) for x in xs]; return UF(name, *[x.sort() for x in xs], BoolS)(*xs)
def ARC_OK(a, ts, te, L, tol, d3, reveal=False):
    """direction/length/sign part of an accepted arc"""
    ccw = eq(a.direction, CCW)
    ln = arc_len(a.radius, SWEEP(ts, te, Z(ccw)), a.start_point.z, a.end_point.z, d3)
    if reveal: len_ok, path_ok = eq(a.length, ln), ABS(PCT(a.length, L)) < tol
    else: len_ok, path_ok = opaque('length_of_sweep', zr(a.length), zr(a.radius), ts, te, zi(a.direction), zr(a.start_point.z), zr(a.end_point.z), zb(d3)), opaque('path_within_tolerance', zr(a.length), zr(L), zr(tol))
    return [('turns one way or the other', b_or(ccw, eq(a.direction, CW))),
            ('start and end differ in angle', ts != te),
            ('recorded length is the length of the sweep in that direction', len_ok),
            ('path length within the tolerance of the arc length', path_ok),
            ('angle is negative exactly when clockwise', eq(zr(a.angle_radians) < 0, Z(eq(a.direction, CW)))),
            ('recorded polar angles', b_and(eq(a.polar_start_theta, ts), eq(a.polar_end_theta, te)))]
def u_arc3(mod):
    """direction, sweep and length of an accepted arc; the arc copies circle and end points"""
    u = Unit(mod, r'^arc::try_create_arc\(circle const&', registry=reg(Polar(), Hypot()))
    co = u.obj('circle', 'circ'); c = u.view(co, 'circle'); u.assume('the radius is a distance', c.radius >= 0)
    so, mo, eo, ao = u.obj('printer_point', 'sp'), u.obj('printer_point', 'mp'), u.obj('printer_point', 'ep'), u.obj('arc', 'target')
    L, res, tol, d3 = z3.Real('approx_len'), z3.Real('res'), z3.Real('pathtol'), z3.Bool('allow3d')
    sp, mp, ep = [u.view(o, 'printer_point') for o in (so, mo, eo)]
    u.run([ptr(co), ptr(so), ptr(mo), ptr(eo), ptr(ao), L, res, tol, d3]); ret = zb(u.ret)
    a = u.view(ao, 'arc', u.st1)
    ts, te, tm = [POLAR(c.center.x, c.center.y, p.x, p.y) for p in (sp, ep, mp)]
    for nm, f in ARC_OK(a, ts, te, L, tol, d3, True): u.ensure('accepted: ' + nm, z3.Implies(ret, Z(f)))
    u.ensure('accepted: centre and radius are the circle\'s', z3.Implies(ret, Z(circ_eq(a, c))))
    u.ensure('accepted: starts at the start point', z3.Implies(ret, Z(pp_eq(a.start_point, sp))))
    u.ensure('accepted: ends at the end point', z3.Implies(ret, Z(pp_eq(a.end_point, ep))))
    # the middle point decides the direction unless only the opposite sweep has the path's length
    ccw = Z(eq(a.direction, CCW)); inside = SWEEP(ts, tm, ccw) < SWEEP(ts, te, ccw)
    alt = arc_len(c.radius, SWEEP(ts, te, z3.Not(ccw)), sp.z, ep.z, d3)
    u.ensure('accepted: the sweep contains the middle point, or the opposite sweep has the wrong length', z3.Implies(ret, z3.Or(inside, z3.Not(ABS(PCT(alt, L)) < tol))))
    a0 = u.view(ao, 'arc', u.st0)
    u.ensure('refused: the target arc is left alone', z3.Implies(z3.Not(ret), Z(arc_eq(a0, a))))
    for o, k in ((co, 'circle'), (so, 'printer_point'), (mo, 'printer_point'), (eo, 'printer_point')): u.frame(o, [], k)
    return u
ARCF = ('length', 'angle_radians', 'polar_start_theta', 'polar_end_theta', 'direction')
def arc_eq(a, b): return b_and(circ_eq(a, b), *[eq(getattr(a, f), getattr(b, f)) for f in ARCF], pp_eq(a.start_point, b.start_point), pp_eq(a.end_point, b.end_point))
def SLICE(a, tp):
    """the polar angle tp lies strictly between start and end in the direction of travel"""
    ccw = Z(eq(a.direction, CCW)); ts, te = zr(a.polar_start_theta), zr(a.polar_end_theta)
    up = lambda p, q, r: z3.If(p < r, z3.And(p < q, q < r), z3.Or(q > p, q < r))      # from p upwards to r
    return z3.If(ccw, up(ts, tp, te), up(te, tp, ts))
def u_slice(mod):
    """accepted: the last point before the end lies on the swept side of the arc"""
    u = Unit(mod, r'^arc::are_points_within_slice\(', registry=reg(SeqContract(), Polar()))
    po, pts, n = pts_setup(u); ao = u.obj('arc', 'arc'); a = u.view(ao, 'arc')
    u.assume('start and end angles differ', a.polar_start_theta != a.polar_end_theta)
    u.assume('direction set', Z(b_or(eq(a.direction, CCW), eq(a.direction, CW))))
    u.assume('radius', a.radius > 0)
    tp = (lambda p: POLAR(a.center.x, a.center.y, p.x, p.y))(pts.elem(u.st, n - 2))
    u.run([ptr(ao), ptr(po)]); ret = zb(u.ret)
    u.ensure('accepted: the point before the end is inside the sweep', z3.Implies(ret, SLICE(a, tp)))
    u.frame(ao, [], 'arc'); u.ensure('points unchanged', b_and(eq(pts.cnt(u.st1), n), all_same(u, pts)))
    return u
class Slice(FnContract):
    def __init__(s): super().__init__('arc::are_points_within_slice', r'^arc::are_points_within_slice\(')
    def pre(s, c):
        a = c.new(c.args[0], 'arc')
        return [('start and end angles differ', zr(a.polar_start_theta) != zr(a.polar_end_theta)), ('direction set', Z(b_or(eq(a.direction, CCW), eq(a.direction, CW))))]
    def summary(s, c):
        e, st = c.e, c.st1
        a = c.new(c.args[0], 'arc'); pts = seq_of(e, c.args[1], 'array_list', 'printer_point'); p = pts.elem(st, pts.cnt(st) - 2)
        r = fresh(BoolS, 'in_slice')
        e.fact(st, z3.Implies(r, SLICE(a, POLAR(a.center.x, a.center.y, p.x, p.y)))); return r
class CirclePts(FnContract):
    """circle::try_create_circle(points, max_radius, resolution, tolerance, 3d, circle&)"""
    def __init__(s): super().__init__('circle::try_create_circle(points)', r'^circle::try_create_circle\(array_list')
    def summary(s, c):
        e, st = c.e, c.st1
        pts = seq_of(e, c.args[0], 'array_list', 'printer_point'); n = c.new(c.args[5], 'circle')
        ok = fresh(BoolS, 'circle_ok')
        for f in ('x', 'y', 'z'): setattr(n.center, f, fresh(RealS, 'c' + f))
        n.radius = fresh(RealS, 'r')
        e.fact(st, z3.Implies(ok, Z(GOOD(e, st, pts, n, zr(c.args[2]), zr(c.args[1])))))
        return ok
class Arc3(FnContract):
    """arc::try_create_arc(circle, start, mid, end, target, ...)"""
    def __init__(s): super().__init__('arc::try_create_arc(circle)', r'^arc::try_create_arc\(circle const&')
    def summary(s, c):
        e, st = c.e, c.st1
        cc = c.old(c.args[0], 'circle'); sp, mp, ep = [c.old(p, 'printer_point') for p in c.args[1:4]]
        a = c.new(c.args[4], 'arc'); L, tol, d3 = c.args[5], c.args[7], c.args[8]
        ok = fresh(BoolS, 'arc_ok')
        new = {}
        ts, te, tm = [POLAR(cc.center.x, cc.center.y, p.x, p.y) for p in (sp, ep, mp)]
        for f in ('length', 'angle_radians', 'polar_start_theta', 'polar_end_theta'): setattr(a, f, ite(ok, fresh(RealS, f), getattr(a, f)))
        a.direction = ite(ok, fresh(IntS, 'dir'), a.direction)
        for f in ('x', 'y', 'z'): setattr(a.center, f, ite(ok, getattr(cc.center, f), getattr(a.center, f)))
        a.radius = ite(ok, cc.radius, a.radius)
        for dst, src in ((a.start_point, sp), (a.end_point, ep)):
            for f in ('x', 'y', 'z', 'e_offset', 'e_relative', 'f', 'distance', 'is_extruder_relative'): setattr(dst, f, ite(ok, getattr(src, f), getattr(dst, f)))
        e.fact(st, z3.Implies(ok, Z(b_and(*[Z(f) for _, f in ARC_OK(a, ts, te, zr(L), zr(tol), d3)]))))
        return ok
def ACCEPTED(e, st, pts, a, L, res, mx, tol, d3):
    """everything promised about an accepted arc over the points: list of (name, formula)"""
    n = pts.cnt(st); p0, p1, pe = pts.elem(st, 0), pts.elem(st, n - 1), pts.elem(st, n - 2)
    ts, te, tp = [POLAR(a.center.x, a.center.y, p.x, p.y) for p in (p0, p1, pe)]
    return [('deviation within the resolution', DEV(e, st, pts, a, res)), ('both ends at the radius from the centre, radius within the maximum', ENDS(e, st, pts, a, mx)),
            ('starts at the first point', pp_eq(a.start_point, p0)), ('ends at the last point', pp_eq(a.end_point, p1)),
            ('the point before the end is inside the sweep', SLICE(a, tp))] + ARC_OK(a, ts, te, L, tol, d3)
def u_arc_points(mod):
    """an accepted arc: deviation, ends, direction, sweep, length; a refused one leaves the target alone"""
    u = Unit(mod, r'^arc::try_create_arc\(array_list', registry=reg(SeqContract(), CirclePts(), Arc3(), Slice(), Polar()))
    po, pts, n = pts_setup(u); ao = u.obj('arc', 'target'); a0 = u.view(ao, 'arc')
    L, mx, res, tol, xt, mm = z3.Reals('approx max_radius resolution path_tol xyz_tol mm_per_seg'); ms = z3.Int('min_segs'); d3 = z3.Bool('allow3d')
    u.run([ptr(po), ptr(ao), L, mx, res, tol, ms, mm, xt, d3]); ret = zb(u.ret)
    a = u.view(ao, 'arc', u.st1)
    for nm, f in ACCEPTED(u.e, u.st1, pts, a, L, res, mx, tol, d3): u.ensure('accepted: ' + nm, z3.Implies(ret, Z(f)))
    u.ensure('refused: the arc is left alone', z3.Implies(z3.Not(ret), Z(arc_eq(u.view(ao, 'arc', u.st0), a))))
    u.ensure('points unchanged', b_and(eq(pts.cnt(u.st1), n), all_same(u, pts)))
    return u
GEOM2 = [u_polar, u_hypot, lemma_hypot, u_arc3, u_slice, u_arc_points]
