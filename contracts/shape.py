"""Contracts of segmented_arc: the run of points being welded and the arc fitted to it (C01-C04, C14)."""
import z3
from engine import *
from contracts import *
from proof import *
from clients import *
from geom import *

TOL0 = zr(Fraction(*(0.000005).as_integer_ratio()))
def SGN(x): return z3.If(zr(x) > 0, z3.IntVal(1), z3.If(zr(x) < 0, z3.IntVal(-1), z3.IntVal(0)))
CFG = ('min_segments_', 'max_segments_', 'xyz_precision_', 'xyz_tolerance_', 'e_precision_', 'resolution_mm_', 'path_tolerance_percent_', 'max_radius_mm_', 'min_arc_segments_',
       'mm_per_arc_segment_', 'allow_3d_arcs_', 'max_gcode_length_', 'is_extruding_')
def FINE(v, r, L):
    """a circle of radius r is drawn with the minimum number of segments, or a path of length L is no longer than that fraction of it"""
    c, m = 2 * PI * zr(r), z3.ToReal(zi(v.min_arc_segments_)); return z3.Or(c >= m * zr(v.mm_per_arc_segment_), c >= m * zr(L))
def u8(x): return z3.If(zi(x) < 0, zi(x) + 256, zi(x))
def TOLP(p): return UF('pow', RealS, RealS, RealS)(z3.RealVal(10), -z3.ToReal(u8(p)))
class SA:
    """a segmented_arc at pointer p"""
    def __new__(cls, e, p):
        if len(p.alts) == 1 and p.alts[0][1] is not None:
            r = e.__dict__.get('opaque', {}).get((p.alts[0][1].id, p.alts[0][2]))
            if r is not None: return r
        return super().__new__(cls)
    def __init__(s, e, p):
        if s.opaque: return
        s.e, s.p = e, p; s.ref = e.mod.classes().get('segmented_arc')
        if s.ref is None: raise ToolLimit('class segmented_arc not found')
        set_vptr(e, p, 'segmented_arc')
        v = View(e, State(), p, s.ref)
        s.pts = seq_of(e, v.ptr_of('points_'), 'array_list', 'printer_point')
    def v(s, st): return View(s.e, st, s.p, s.ref)
    def arc(s, st): return s.v(st).current_arc_
    def cnt(s, st): return s.pts.cnt(st)
    def accepted(s, st):
        v = s.v(st)
        return ACCEPTED(s.e, st, s.pts, v.current_arc_, v.original_shape_length_, v.resolution_mm_, v.max_radius_mm_, v.path_tolerance_percent_, v.allow_3d_arcs_) + s.nondeg(st)
    def nondeg(s, st):
        v = s.v(st); a = v.current_arc_; t = v.xyz_tolerance_
        return [s.comp(v, a.radius, v.original_shape_length_), ('the centre offset I,J is not zero', z3.Not(z3.And(ABS(a.center.x - a.start_point.x) < t, ABS(a.center.y - a.start_point.y) < t))), ('the arc is not shorter than the coordinate step', a.length >= t)]
    @staticmethod
    def comp(v, r, L): return ('firmware compensation: enough segments per circle, or no longer than that part of the circle', z3.Implies(z3.And(v.min_arc_segments_ > 0, v.mm_per_arc_segment_ > 0), FINE(v, r, L)))
    def config(s, st):
        v = s.v(st); return [('at least three points make a shape', v.min_segments_ >= 3), ('the coordinate tolerance is one unit of the last printed decimal', v.xyz_tolerance_ == TOLP(v.xyz_precision_))]
    def totals(s, st):
        v, q = s.v(st), s.pts
        return [('extrusion total is the sum over the moves of the run', v.e_relative_ == q.get(st, 'sum e_relative')), ('length total is the sum over the moves of the run', v.original_shape_length_ == q.get(st, 'sum distance'))]
    def uniform(s, st):
        q = s.pts; n = s.cnt(st); d3 = Z(zb(s.v(st).allow_3d_arcs_)); b = zi(q.get(st, 'base'))
        z = lambda i: ABS(q.at(st, i).z - q.at(st, i + 1).z) < TOL0
        t = lambda i: SGN(q.at(st, i).e_relative) == SGN(q.at(st, i + 1).e_relative)
        return [('without 3D arcs all points share their Z', z3.Or(d3, ForAllPos(q, st, b, b + n - 1, z, 'z'))),
                ('all moves of the run extrude, retract or travel alike', ForAllPos(q, st, b + 1, b + n - 1, t, 'e_relative'))]
    def shape_count(s, st):
        v = s.v(st); sh = Z(zb(v.is_shape_))
        return [('a shape has enough points', z3.Implies(sh, s.cnt(st) >= v.min_segments_)), ('enough points are always a shape', z3.Implies(s.cnt(st) >= v.min_segments_, sh))]
    def shape(s, st):
        sh = Z(zb(s.v(st).is_shape_))
        return s.shape_count(st) + [('shape: ' + n, z3.Implies(sh, Z(f))) for n, f in s.accepted(st)]
    def lenok(s, st):
        v = s.v(st); return [('the arc text fits the configured maximum length', z3.Implies(z3.And(Z(zb(v.is_shape_)), v.max_gcode_length_ > 0), GLEN(v) <= v.max_gcode_length_))]
    def inv(s, st):
        """class invariant. Opaque use (clients that only pass it between calls): a ghost flag says that it holds; any
        store to the object, its points or their count outside the contracts clears the flag (engine.store, Seq.set)"""
        if s.opaque:
            if st.ghost.get(s.flag) is True: return s.light(st)
            raise NeedFull()
        return s.lenok(st) + s.config(st) + s.totals(st) + s.uniform(st) + s.shape(st)
    def light(s, st): return s.config(st)[:1] + s.shape_count(st)
    opaque = False
    def make_opaque(s, st):
        """the caller assumes the invariant in st"""
        (_, o, off, _), = s.p.alts; s.opaque = True; s.flag = ('inv', 'segmented_arc', o.id, off)
        o.watch = tuple(o.watch) + ((off, off + int(s.e.mod.meta(s.ref)[1]['size']) // 8, s.flag),); s.pts.watch = s.flag
        s.pts.elems.watch = ((0, 1 << 60, s.flag),)
        st.ghost[s.flag] = True; Engine.ghost_default[s.flag] = True; s.e.__dict__.setdefault('opaque', {})[(o.id, off)] = s
    def established(s, st):
        """a contract that ensures the class invariant"""
        if s.opaque: st.ghost[s.flag] = True
def pp_fields(v): return [getattr(v, f) for f in ('x', 'y', 'z', 'e_offset', 'e_relative', 'f', 'distance', 'is_extruder_relative')]
def suffix_plus(e, st0, q0, st1, q, d, p, n0):
    """elements of q in st1 = elements d.. of q in st0, then p (if given)"""
    k = z3.Int('k!q')
    same = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n0 - d), Z(pp_eq(q.elem(st1, k), q.elem(st0, k + d)))))
    return same
class ArcPoints(FnContract):
    """arc::try_create_arc(points, arc&, length, max_radius, resolution, path_tolerance, ...)"""
    def __init__(s): super().__init__('arc::try_create_arc(points)', r'^arc::try_create_arc\(array_list')
    def pre(s, c):
        pts = seq_of(c.e, c.args[0], 'array_list', 'printer_point'); return [('at least three points', pts.cnt(c.st0) >= 3)]
    def summary(s, c):
        e, st = c.e, c.st1
        pts = seq_of(e, c.args[0], 'array_list', 'printer_point'); a = c.new(c.args[1], 'arc')
        ok = fresh(BoolS, 'arc_ok')
        havoc_arc(a, ok)
        for _, f in ACCEPTED(e, st, pts, a, zr(c.args[2]), zr(c.args[4]), zr(c.args[3]), zr(c.args[5]), c.args[9]): e.fact(st, z3.Implies(ok, Z(f)))
        m, circ = z3.ToReal(zi(c.args[6])), 2 * PI * zr(a.radius)
        for d in (zr(c.args[7]), zr(c.args[2])):     # lemma_div
            e.fact(st, z3.Implies(d > 0, (circ / d >= m) == (circ >= m * d))); e.fact(st, z3.Implies(z3.And(d <= 0, m > 0, circ >= 0), z3.And(circ >= m * d, z3.Implies(d < 0, circ / d <= 0))))
        c.e.last_arc = (ok, Snap(arc_snap(a)))
        return ok
class Snap:
    def __init__(s, d): s.__dict__.update(d)
def arc_snap(a):
    f = lambda v, names: Snap({k: getattr(v, k) for k in names.split()})
    return {'radius': a.radius, 'length': a.length, 'center': f(a.center, 'x y'), 'start_point': f(a.start_point, 'x y z f'), 'end_point': f(a.end_point, 'x y z f e_offset is_extruder_relative')}
def havoc_arc(a, ok):
    for f in ('length', 'angle_radians', 'polar_start_theta', 'polar_end_theta', 'radius'): setattr(a, f, ite(ok, fresh(RealS, f), getattr(a, f)))
    a.direction = ite(ok, fresh(IntS, 'dir'), a.direction)
    for f in ('x', 'y', 'z'): setattr(a.center, f, ite(ok, fresh(RealS, 'c' + f), getattr(a.center, f)))
    for p in (a.start_point, a.end_point):
        for f in ('x', 'y', 'z', 'e_offset', 'e_relative', 'f', 'distance'): setattr(p, f, ite(ok, fresh(RealS, 'p' + f), getattr(p, f)))
        p.is_extruder_relative = ite(ok, fresh(BoolS, 'rel'), p.is_extruder_relative)
class ShapeLen(FnContract):
    def __init__(s): super().__init__('segmented_arc::get_shape_gcode_length', r'^segmented_arc::get_shape_gcode_length\(\)$')
    def summary(s, c):
        v = SA(c.e, c.args[0]).v(c.st1)
        return GLEN(v)
def glen_args(v):
    a = v.current_arc_
    return [zr(a.start_point.x), zr(a.start_point.y), zr(a.start_point.z), zr(a.start_point.f), zr(a.center.x), zr(a.center.y)] + [zr(a.end_point.x), zr(a.end_point.y), zr(a.end_point.z), zr(a.end_point.f), zr(a.end_point.e_offset), zr(v.e_relative_), zr(v.xyz_tolerance_)] + \
        [zb(a.end_point.is_extruder_relative), zb(v.allow_3d_arcs_)] + [zi(v.xyz_precision_), zi(v.e_precision_)]
def GLEN(v):
    xs = [Z(x) for x in glen_args(v)]
    return UF('shape_gcode_length', *[x.sort() for x in xs], IntS)(*xs)
def sa_setup(u):
    o = u.obj('segmented_arc', 'sa', dyn='segmented_arc'); sa = SA(u.e, ptr(o))
    po = u.obj('printer_point', 'p')
    for nm, f in sa.inv(u.st): u.assume(nm, Z(f))
    return o, sa, po, u.view(po, 'printer_point')
def cfg_same(u, sa):
    a, b = sa.v(u.st0), sa.v(u.st1)
    for f in CFG: u.ensure('configuration unchanged: ' + f, Z(eq(getattr(a, f), getattr(b, f))), kind='frame')
def u_add_internal(mod):
    """one more point: accepted exactly when the longer run is still an arc; refused leaves everything as it was"""
    u = Unit(mod, r'^segmented_arc::try_add_point_internal_\(', registry=reg(SeqContract(), ArcPoints(), ShapeLen()))
    o, sa, po, p = sa_setup(u); st = u.st
    n = sa.cnt(st); u.assume('room for the point', n < sa.pts.get(st, 'cap')); u.assume('enough points', n >= sa.v(st).min_segments_ - 1)
    pnew = [Z(x) for x in pp_fields(p)]
    d3 = Z(zb(sa.v(st).allow_3d_arcs_))
    u.assume('caller checked Z', z3.Or(d3, ABS(sa.pts.elem(st, n - 1).z - p.z) < TOL0)); u.assume('caller checked the kind of move', SGN(sa.pts.elem(st, n - 1).e_relative) == SGN(p.e_relative))
    v0 = sa.v(u.st); e0, l0, sh0 = v0.e_relative_, v0.original_shape_length_, Z(zb(v0.is_shape_))
    u.assume('counters below 2^30', z3.And(v0.num_firmware_compensations_ < 1 << 30, v0.num_gcode_length_exceptions_ < 1 << 30))
    u.run([ptr(o), ptr(po)]); ret = Z(zb(u.ret))
    internal_post(u, sa, ret, p, n, e0, l0, sh0)
    cfg_same(u, sa)
    made, a = u.e.last_arc; v1 = sa.v(u.st1); L1 = l0 + p.distance
    full = Snap({k: getattr(v0, k) for k in ('xyz_tolerance_', 'allow_3d_arcs_', 'xyz_precision_', 'e_precision_')}); full.current_arc_ = a; full.e_relative_ = e0 + p.e_relative
    on = z3.And(v0.min_arc_segments_ > 0, v0.mm_per_arc_segment_ > 0); coarse = z3.And(on, z3.Not(FINE(v0, a.radius, L1)))
    long = z3.And(v0.max_gcode_length_ > 0, GLEN(full) > v0.max_gcode_length_); t = v0.xyz_tolerance_
    degen = z3.Or(z3.And(ABS(a.center.x - a.start_point.x) < t, ABS(a.center.y - a.start_point.y) < t), a.length < t)
    nf0, nl0 = View(u.e, u.st0, sa.p, sa.ref).num_firmware_compensations_, View(u.e, u.st0, sa.p, sa.ref).num_gcode_length_exceptions_
    u.ensure('C18: only an arc that would be drawn too coarsely counts as compensated', z3.Implies(L1 > 0, v1.num_firmware_compensations_ == nf0 + z3.If(z3.And(made, coarse), 1, 0)))
    u.ensure('C18: a fitted arc is refused only for its length in characters, its coarseness or because it is degenerate', z3.Implies(z3.And(made, z3.Not(ret), L1 > 0), z3.Or(long, coarse, degen)))
    u.ensure('C18: compensation off refuses nothing', z3.Implies(z3.And(made, z3.Not(on), z3.Not(long), z3.Not(degen)), ret))
    u.ensure('C14: without a maximum length no arc is refused for it', v1.num_gcode_length_exceptions_ == nl0 + z3.If(z3.And(made, long), 1, 0))
    return u
def internal_post(u, sa, ret, p, n, e0, l0, sh0):
    st0, st1 = u.st0, u.st1; v1 = sa.v(st1); n1 = sa.cnt(st1); k = z3.Int('k')
    u.ensure('accepted: one more point', z3.Implies(ret, n1 == n + 1)); u.ensure('refused: same number of points', z3.Implies(z3.Not(ret), n1 == n))
    u.ensure('accepted: the new point is last', z3.Implies(ret, Z(pp_eq(sa.pts.elem(st1, n1 - 1), p))))
    u.ensure('earlier points are kept', z3.Implies(z3.And(k >= 0, k < n), Z(pp_eq(sa.pts.elem(st1, k), sa.pts.elem(st0, k)))))
    u.ensure('accepted: is a shape', z3.Implies(ret, Z(zb(v1.is_shape_)))); u.ensure('refused: shape flag kept', z3.Implies(z3.Not(ret), Z(zb(v1.is_shape_)) == sh0))
    u.ensure('accepted: length total grows by the move', z3.Implies(ret, v1.original_shape_length_ == l0 + p.distance)); u.ensure('refused: length total kept', z3.Implies(z3.Not(ret), v1.original_shape_length_ == l0))
    u.ensure('refused: arc kept', z3.Implies(z3.Not(ret), Z(arc_eq(sa.arc(st0), sa.arc(st1)))))
    for nm, f in sa.accepted(st1): u.ensure('accepted: ' + nm, z3.Implies(ret, Z(f)))
    u.ensure('accepted: extrusion total grows by the move', z3.Implies(ret, v1.e_relative_ == e0 + p.e_relative)); u.ensure('refused: extrusion total kept', z3.Implies(z3.Not(ret), v1.e_relative_ == e0))
    for nm, f in sa.lenok(st1): u.ensure('accepted: ' + nm, z3.Implies(ret, Z(f)))
class AddInternal(FnContract):
    def __init__(s): super().__init__('segmented_arc::try_add_point_internal_', r'^segmented_arc::try_add_point_internal_\(')
    def pre(s, c):
        sa = SA(c.e, c.args[0]); st = c.st0; p = c.old(c.args[1], 'printer_point'); n = sa.cnt(st); v = sa.v(st); last = sa.pts.elem(st, n - 1)
        return [(a, Z(b)) for a, b in sa.inv(st)] + [('room for the point', n < zi(sa.pts.get(st, 'cap'))), ('enough points', n >= v.min_segments_ - 1),
          ('Z checked', z3.Or(Z(zb(v.allow_3d_arcs_)), ABS(last.z - p.z) < TOL0)), ('kind of move checked', SGN(last.e_relative) == SGN(p.e_relative))]
    def summary(s, c):
        e, st0, st = c.e, c.st0, c.st1; sa = SA(e, c.args[0]); p = c.old(c.args[1], 'printer_point'); v0, v = sa.v(st0), sa.v(st); q = sa.pts
        ok = fresh(BoolS, 'added'); n = sa.cnt(st0); base = q.get(st0, 'base')
        push(e, st, q, c.args[1], i_add(base, n))
        q.set(st, 'cnt', ite(ok, n + 1, n))
        for k, f in (('sum e_relative', 'e_relative'), ('sum distance', 'distance')): q.set(st, k, ite(ok, zr(q.get(st0, k)) + zr(getattr(p, f)), q.get(st0, k)))
        v.original_shape_length_ = ite(ok, zr(v0.original_shape_length_) + zr(p.distance), v0.original_shape_length_)
        v.e_relative_ = ite(ok, zr(v0.e_relative_) + zr(p.e_relative), v0.e_relative_)
        v.is_shape_ = ite(ok, True, v0.is_shape_)
        havoc_arc(v.current_arc_, ok)
        for f in ('num_firmware_compensations_', 'num_gcode_length_exceptions_'): setattr(v, f, fresh(IntS, f))
        for nm, f in sa.accepted(st) + sa.lenok(st): e.fact(st, z3.Implies(ok, Z(f)))
        return ok
def push(e, st, q, pp, pos):
    for off, t in q.leaves:
        v = e.load(st, padd(pp, off), t); e.store(st, ptr(q.elems, off, pos), v, t)
class AddPoint(FnContract):
    """segmented_arc::try_add_point(p): the class invariant is kept; accepted = old run minus d front points plus p; refused = old run minus d front points"""
    def __init__(s, measure=None): super().__init__('segmented_arc::try_add_point', r'^segmented_arc::try_add_point\(printer_point\)$'); s.measure = measure
    def pre(s, c):
        sa = SA(c.e, c.args[0]); st = c.st0; p = c.old(c.args[1], 'printer_point'); n = sa.cnt(st)
        r = [(a, Z(b)) for a, b in sa.inv(st)] + [('the first point of a run carries no distance', z3.Implies(n == 0, p.distance == 0)), ('not too many points', zi(sa.pts.get(st, 'cap')) < (1 << 27))]
        if s.measure is not None: r.append(('recursion has fewer points (termination)', n < s.measure()))
        return r
    def summary(s, c):
        e, st0, st = c.e, c.st0, c.st1; sa = SA(e, c.args[0]); p = c.old(c.args[1], 'printer_point'); v0, v = sa.v(st0), sa.v(st); q = sa.pts
        ok = fresh(BoolS, 'added'); d = fresh(IntS, 'dropped'); n = sa.cnt(st0); base = q.get(st0, 'base')
        push(e, st, q, c.args[1], i_add(base, n))
        q.set(st, 'cnt', n - d + z3.If(ok, 1, 0)); q.set(st, 'base', i_add(base, d)); cap = fresh(IntS, 'cap'); q.set(st, 'cap', cap); e.fact(st, z3.And(cap >= zi(q.get(st0, 'cap')), cap <= 2 * zi(q.get(st0, 'cap')), n - d + z3.If(ok, 1, 0) <= cap))
        for k in ('sum e_relative', 'sum distance'): q.set(st, k, fresh(RealS, k))
        v.original_shape_length_ = fresh(RealS, 'len'); v.e_relative_ = fresh(RealS, 'e'); v.is_shape_ = fresh(BoolS, 'shape')
        havoc_arc(v.current_arc_, z3.Not(z3.And(z3.Not(ok), d == 0)))
        for f in ('num_firmware_compensations_', 'num_gcode_length_exceptions_'): setattr(v, f, fresh(IntS, f))
        sa.established(st)
        for nm, f in sa.inv(st): e.fact(st, Z(f))
        for nm, f in add_post(sa, st0, st, p, ok, d): e.fact(st, Z(f))
        return ok
def add_post(sa, st0, st, p, ok, d):
    v0, v = sa.v(st0), sa.v(st); n = sa.cnt(st0); n1 = sa.cnt(st); mn = v0.min_segments_
    sh0 = Z(zb(v0.is_shape_)); sh = Z(zb(v.is_shape_))
    return [('points dropped from the front only while too few for a shape', z3.And(d >= 0, z3.Implies(d > 0, z3.And(n < mn, d < n)))),
            ('number of points', n1 == n - d + z3.If(ok, 1, 0)),
            ('a shape is kept when a point is refused', z3.Implies(sh0, z3.And(d == 0, sh))),
            ('the first point is always accepted', z3.Implies(n == 0, ok)),
            ('an accepted move has some length', z3.Implies(z3.And(ok, n > 0), ABS(p.distance) >= TOL0)),
            ('refused without dropping: totals as before', z3.Implies(z3.And(z3.Not(ok), d == 0), z3.And(v.e_relative_ == v0.e_relative_, v.original_shape_length_ == v0.original_shape_length_, sh == sh0)))]
def lemma_div(mod):
    """lemma: dividing by a positive number keeps the order"""
    u = Unit(mod, None); u.st1 = u.st0 = u.st; u.e.topname = 'lemma (division)'; c, d, m, q = z3.Reals('c d m q')
    u.ensure('quotient by a negative number', z3.Implies(z3.And(d < 0, q * d == c, c >= 0), q <= 0)); u.ensure('product with a negative number', z3.Implies(z3.And(d <= 0, m > 0, c >= 0), c >= m * d))
    u.ensure('order of quotients', z3.Implies(z3.And(d > 0, q * d == c), (q >= m) == (c >= m * d)))
    return u
def u_add_point(mod):
    """class invariant of the run (totals, uniformity, shape) and exact effect of adding a point"""
    m = []
    u = Unit(mod, r'^segmented_arc::try_add_point\(printer_point\)$', registry=reg(SeqContract(), AddInternal(), AddPoint(lambda: m[0])))
    o, sa, po, p = sa_setup(u); st = u.st
    n = sa.cnt(st); m.append(n); u.assume('first point carries no distance', z3.Implies(n == 0, p.distance == 0)); u.assume('not too many points', zi(sa.pts.get(st, 'cap')) < (1 << 26))
    u.run([ptr(o), ptr(po)]); ret = Z(zb(u.ret)); st0, st1 = u.st0, u.st1
    q = sa.pts; d = zi(q.get(st1, 'base')) - zi(q.get(st0, 'base'))
    for nm, f in sa.inv(st1): u.ensure('invariant: ' + nm, Z(f), kind='inv')
    for nm, f in add_post(sa, st0, st1, p, ret, d): u.ensure(nm, Z(f))
    k = z3.Int('k'); n1 = sa.cnt(st1)
    u.ensure('accepted: the new point is last', z3.Implies(ret, Z(pp_eq(q.elem(st1, n1 - 1), p))))
    u.ensure('the remaining points are the old ones in order', z3.Implies(z3.And(k >= 0, k < n - d), Z(pp_eq(q.elem(st1, k), q.elem(st0, k + d)))))
    u.ensure('refused without dropping: arc kept', z3.Implies(z3.And(z3.Not(ret), d == 0), Z(arc_eq(sa.arc(st0), sa.arc(st1)))))
    cfg_same(u, sa)
    return u
# ---- the text of the arc
DTOS = lambda x, p: UF('dtos', RealS, IntS, StrS)(zr(x), zi(p))
class Dtos(FnContract):
    def __init__(s): super().__init__('utilities::dtos', r'^utilities::dtos(\[abi:cxx11\])?\(double, unsigned char\)$')
    def summary(s, c):
        p = c.args[2]; p = p if not isz(p) else z3.If(p < 0, p + 256, p)
        c.e.store(c.st1, c.args[0], DTOS(c.args[1], p), 'str'); return None
def text_parts(v):
    a = v.current_arc_; xp, ep = u8(v.xyz_precision_), u8(v.e_precision_)
    d3 = Z(zb(v.allow_3d_arcs_)); has_z = z3.And(d3, z3.Not(ABS(a.start_point.z - a.end_point.z) < v.xyz_tolerance_))
    e = z3.If(Z(zb(a.end_point.is_extruder_relative)), v.e_relative_, a.end_point.e_offset)
    f = z3.If(a.start_point.f == a.end_point.f, z3.RealVal(0), a.end_point.f)
    has_f = z3.Or(f > 1, ABS(f - 1) < TOL0)
    return a, xp, ep, has_z, e, v.e_relative_ != 0, f, has_f
def SHAPE_TEXT(v, word):
    a, xp, ep, has_z, e, has_e, f, has_f = text_parts(v)
    S = z3.StringVal; O = lambda c, t: z3.If(c, t, S(''))
    return z3.Concat(word, S(' X'), DTOS(a.end_point.x, xp), S(' Y'), DTOS(a.end_point.y, xp), O(has_z, z3.Concat(S(' Z'), DTOS(a.end_point.z, xp))),
        S(' I'), DTOS(a.center.x - a.start_point.x, xp), S(' J'), DTOS(a.center.y - a.start_point.y, xp), O(has_e, z3.Concat(S(' E'), DTOS(e, ep))), O(has_f, z3.Concat(S(' F'), DTOS(f, 0))))
def u_gcode(mod):
    """the text is G2 exactly for clockwise arcs (else G3), X Y [Z] = end point, I J = centre minus start, [E], [F]"""
    u = Unit(mod, r'^segmented_arc::get_shape_gcode(\[abi:cxx11\])?\(\) const$', registry=reg(SeqContract(), Dtos()))
    o = u.obj('segmented_arc', 'sa', dyn='segmented_arc'); sa = SA(u.e, ptr(o)); v = sa.v(u.st); a = v.current_arc_
    for nm, f in sa.inv(u.st): u.assume(nm, Z(f))
    u.assume('is a shape', Z(zb(v.is_shape_)))
    ro = Obj('param', 'result')
    u.run([ptr(ro), ptr(o)])
    t = u.e.load(u.st1, ptr(ro), 'str')
    word = z3.If(Z(eq(a.direction, CW)), z3.StringVal('G2'), z3.StringVal('G3'))
    u.ensure('text of the arc command', Z(eq(t, SHAPE_TEXT(v, word))))
    q = sa.pts; n = sa.cnt(u.st); last, first = q.elem(u.st, n - 1), q.elem(u.st, 0)
    parts = text_parts(v)
    u.ensure('E word is the run total (relative) or the E of the last point (absolute)', parts[4] == z3.If(Z(zb(last.is_extruder_relative)), zr(q.get(u.st, 'sum e_relative')), last.e_offset))
    u.ensure('E word present exactly when something is extruded', parts[5] == (zr(q.get(u.st, 'sum e_relative')) != 0))
    u.ensure('X Y end at the last point', z3.And(a.end_point.x == last.x, a.end_point.y == last.y, a.start_point.x == first.x, a.start_point.y == first.y))
    u.frame(o, [], 'segmented_arc')
    return u
def NDIG(x, p): return UF('num_digits', RealS, IntS, IntS)(zr(x), zi(p))
def PLACES(x, p): return UF('integer places of the text', RealS, IntS, IntS)(zr(x), zi(p))     # characters before the point, without the sign
P10 = z3.Function('10^', IntS, IntS)
def u_num_digits(mod):
    """get_num_digits(x, precision) is never below the number of integer places of the printed number (for each of the 256 precisions)"""
    return [num_digits(mod, p) for p in range(256)]
def num_digits(mod, p):
    u = Unit(mod, r'^utilities::get_num_digits\(double, int\)$'); e = u.e; x = z3.Real('x'); pl = z3.Int('places'); P = 10 ** p
    def mpow(s_, st, a, ins, n, d):
        s_.assumed.add('pow(10, p) is the integer 10^p'); s_.oblige(st, 'a power of ten', z3.And(zi(a[0]) == 10, zr(a[1]) == p), s_.where(ins), 'pre'); return Fraction(P)
    u.assume('the number fits an int', z3.And(x > -2 * 10 ** 9, x < 2 * 10 ** 9)); u.assume('at most 10 places', z3.And(pl >= 1, pl <= 10))
    for m in range(1, 10): u.assume('places of the text', z3.Implies(pl >= m + 1, zr(ABS(x)) * P + z3.RealVal('1/2') >= 10 ** m * P))    # lemma_places
    saved = models.M.rules[:]; models.M.rules.insert(0, (re.compile(r'std::pow(<[^(]*>)?\((int|double), (int|double)\)$'), mpow)); models.M.cache.clear()
    try: u.run([x, p])
    finally: models.M.rules[:] = saved; models.M.cache.clear()
    u.ensure('C14: the places of the text are predicted (precision %d)' % p, zi(u.ret) >= pl)
    u.ensure('1 to 10 digits (precision %d)' % p, z3.And(zi(u.ret) >= 1, zi(u.ret) <= 10))
    return u
def lemma_places(mod):
    """lemma: a rounded text with m+1 integer places denotes at least 10^m, and rounding moves the number by at most half a unit"""
    u = Unit(mod, None); u.st1 = u.st0 = u.st; u.e.topname = 'lemma (integer places)'
    V, g = z3.Function('V', IntS, IntS), z3.Function('g', IntS, IntS); k, m, W = z3.Ints('k m W'); x, P, T = z3.Reals('x P T')
    u.ensure('the first of two or more places is not 0', z3.Implies(z3.And(V(0) == 0, V(1) == 10 * V(0) + g(0), g(0) >= 1), V(1) >= P10(0) * 0 + 1))
    u.ensure('each further place multiplies by ten', z3.Implies(z3.And(V(k + 1) == 10 * V(k) + g(k), g(k) >= 0, V(k) >= P10(k - 1), P10(k) == 10 * P10(k - 1)), V(k + 1) >= P10(k)))
    u.ensure('bound on the number', z3.Implies(z3.And(x * P - z3.ToReal(W) <= z3.RealVal('1/2'), z3.ToReal(W) - x * P <= z3.RealVal('1/2'), z3.ToReal(W) >= T * P), x * P + z3.RealVal('1/2') >= T * P))
    return u
class NumDigits(FnContract):
    def __init__(s): super().__init__('utilities::get_num_digits(x, precision) (proved by u_num_digits, lemma_places)', r'^utilities::get_num_digits\(double, int\)$')
    def summary(s, c):
        r = NDIG(c.args[0], c.args[1]); c.e.fact(c.st1, z3.And(r >= 1, r <= 10, r >= PLACES(c.args[0], c.args[1])))
        c.e.assumed.add('numbers of the arc are below 2*10^9'); return r
def u_gcode_len(mod):
    """the predicted length is never below the length of the text (each number: its digits, its decimals, its sign)"""
    u = Unit(mod, r'^segmented_arc::get_shape_gcode_length\(\)$', registry=reg(SeqContract(), NumDigits()))
    o = u.obj('segmented_arc', 'sa', dyn='segmented_arc'); sa = SA(u.e, ptr(o)); v = sa.v(u.st)
    for nm, f in sa.inv(u.st): u.assume(nm, Z(f))
    u.assume('is a shape', Z(zb(v.is_shape_)))
    a, xp, ep, has_z, e, has_e, f, has_f = text_parts(v)
    # length contract of dtos (C13, u_fpconv_dtos): sign, integer places, point and decimals; 0 is one character
    for x, p in ((a.end_point.x, xp), (a.end_point.y, xp), (a.end_point.z, xp), (a.center.x - a.start_point.x, xp), (a.center.y - a.start_point.y, xp), (e, ep), (f, z3.IntVal(0))):
        u.e.facts.append(((), z3.And(PLACES(x, p) >= 1, z3.Length(DTOS(x, p)) <= PLACES(x, p) + z3.If(zi(p) > 0, 1 + zi(p), 0) + z3.If(zr(x) < 0, 1, 0))))
    u.e.assumed.add('a printed number is its sign, its integer places, the point and its decimals (proved for the real printing code by C13)')
    u.assume('feed rates are not negative', f >= 0)
    u.run([ptr(o)])
    L = lambda x, p: z3.Length(DTOS(x, p))
    O = lambda c, t: z3.If(c, t, z3.IntVal(0))
    total = 2 + 2 + L(a.end_point.x, xp) + 2 + L(a.end_point.y, xp) + O(has_z, 2 + L(a.end_point.z, xp)) + 2 + L(a.center.x - a.start_point.x, xp) + 2 + L(a.center.y - a.start_point.y, xp) + O(has_e, 2 + L(e, ep)) + O(has_f, 2 + L(f, z3.IntVal(0)))
    u.ensure('prediction covers the text', zi(u.ret) >= total)
    u.ensure('prediction is within one dot per number of the digits (no arc is refused for a length far off)', zi(u.ret) <= 2 + 7 * 3 + 6 * 0 + 7 * 11 + zi(xp) * 5 + zi(ep) + 6)
    u.frame(o, [], 'segmented_arc')
    return u
def lemma_text_length(mod):
    """lemma: the length of the arc text is the sum of the lengths of its words"""
    u = Unit(mod, None); u.st1 = u.st0 = u.st; u.e.topname = 'lemma (length of the arc text)'
    w, x, y, z, i, j, e, f = z3.Strings('w x y z i j e f'); S = z3.StringVal; hz, he, hf = z3.Bools('hz he hf')
    O = lambda c, t: z3.If(c, t, S('')); I = lambda c, t: z3.If(c, t, z3.IntVal(0)); L = z3.Length
    t = z3.Concat(w, S(' X'), x, S(' Y'), y, O(hz, z3.Concat(S(' Z'), z)), S(' I'), i, S(' J'), j, O(he, z3.Concat(S(' E'), e)), O(hf, z3.Concat(S(' F'), f)))
    u.ensure('length of concatenation', z3.Implies(L(w) == 2, L(t) == 2 + 2 + L(x) + 2 + L(y) + I(hz, 2 + L(z)) + 2 + L(i) + 2 + L(j) + I(he, 2 + L(e)) + I(hf, 2 + L(f)))); return u
def u_ctor(mod):
    """a new run is empty; the tolerance kept is half the configured resolution; the radius limit is at most 9999"""
    u = Unit(mod, r'^segmented_arc::segmented_arc\(int, int,', registry=reg(SeqContract()))
    o = u.obj('segmented_arc', 'sa'); sa = SA(u.e, ptr(o))
    mn, mxs, ms, ml = z3.Ints('min_segments max_segments min_arc_segments max_gcode_length'); res, tol, mr, mm = z3.Reals('resolution path_tol max_radius mm_per_seg'); d3 = z3.Bool('allow3d'); xp, ep = z3.Ints('xyz_prec e_prec')
    for x in (mn, mxs, ms, ml): u.assume('int range', z3.And(x > -(1 << 31), x < (1 << 31) - 1))
    u.assume('at least one point slot', z3.And(mxs >= 1, mxs < (1 << 26))); u.assume('precision range', z3.And(xp >= 0, xp <= 127, ep >= 0, ep <= 127))
    u.run([ptr(o), mn, mxs, res, tol, mr, ms, mm, d3, xp, ep, ml]); v = sa.v(u.st1)
    u.ensure('tolerance is half the resolution', v.resolution_mm_ == res / 2)
    u.ensure('radius limit', v.max_radius_mm_ == z3.If(mr > 9999, z3.RealVal(9999), mr))
    u.ensure('path tolerance', v.path_tolerance_percent_ == tol); u.ensure('3D setting', Z(zb(v.allow_3d_arcs_)) == d3)
    u.ensure('maximum length (0 = none)', v.max_gcode_length_ == z3.If(ml < 1, z3.IntVal(0), ml)); u.ensure('precisions', z3.And(v.xyz_precision_ == xp, v.e_precision_ == ep))
    u.ensure('compensation: minimum segments', v.min_arc_segments_ == z3.If(ms < 0, z3.IntVal(0), ms)); u.ensure('compensation: segment length', z3.Or(v.mm_per_arc_segment_ == mm, mm <= 0))
    for nm, f in sa.inv(u.st1): u.ensure('invariant: ' + nm, Z(f), kind='inv')
    u.ensure('no points', sa.cnt(u.st1) == 0); u.ensure('not a shape', z3.Not(Z(zb(v.is_shape_))))
    return u
def u_pops(mod):
    """clear empties the run and its totals"""
    u = Unit(mod, r'^segmented_shape::clear\(\)$', registry=reg(SeqContract()))
    o, sa, po, p = sa_setup(u); u.run([ptr(o)]); st = u.st1
    u.ensure('no points', sa.cnt(st) == 0)
    for nm, f in sa.inv(st): u.ensure('invariant: ' + nm, Z(f), kind='inv')
    u.ensure('not a shape', z3.Not(Z(zb(sa.v(st).is_shape_))))
    u.frame(o, ['points_', 'is_shape_', 'e_relative_', 'original_shape_length_', 'current_arc_'], 'segmented_arc'); return u
u_pops.__name__ = 'u_clear'
class Clear(FnContract):
    """segmented_shape::clear(): an empty run with the same configuration"""
    def __init__(s): super().__init__('segmented_shape::clear', r'^segmented_shape::clear\(\)$')
    def pre(s, c): return [(a, Z(b)) for a, b in SA(c.e, c.args[0]).inv(c.st0)]
    def summary(s, c):
        st = c.st1; sa = SA(c.e, c.args[0]); v = sa.v(st)
        sa.pts.set(st, 'cnt', z3.IntVal(0)); sa.pts.set(st, 'base', fresh(IntS, 'base'))
        for k in sa.pts.tails: sa.pts.set(st, k, z3.RealVal(0))
        v.is_shape_ = False; v.e_relative_ = z3.RealVal(0); v.original_shape_length_ = z3.RealVal(0)
        havoc_arc(v.current_arc_, True)
        sa.established(st)
        for nm, g in sa.inv(st): c.e.fact(st, Z(g))
        return None
UPREC = r'^segmented_arc::update_(xyz|e)_precision\(unsigned char\)$'
class UpdatePrecision(FnContract):
    """update_xyz/e_precision: the number of decimals never goes down; the class invariant (with the length limit) is kept; nothing else changes"""
    def __init__(s): super().__init__('segmented_arc::update_precision', UPREC)
    def pre(s, c): return [(a, Z(b)) for a, b in SA(c.e, c.args[0]).inv(c.st0)]
    def summary(s, c):
        sa = SA(c.e, c.args[0]); v0, v = sa.v(c.st0), sa.v(c.st1); f = 'xyz_precision_' if 'update_xyz' in c.ins.x['callee'].v else 'e_precision_'
        p = fresh(IntS, 'precision'); c.e.fact(c.st1, z3.And(p >= -128, p < 128, u8(p) >= u8(getattr(v0, f)))); setattr(v, f, p)
        if f[0] == 'x': v.xyz_tolerance_ = TOLP(p)
        sa.established(c.st1)
        for nm, g in sa.inv(c.st1): c.e.fact(c.st1, Z(g))
        return None
def u_precision(kind):
    def u_(mod):
        u = Unit(mod, r'^segmented_arc::update_%s_precision\(unsigned char\)$' % kind, registry=reg(SeqContract(), ShapeLen()))
        o, sa, po, p = sa_setup(u); q = z3.Int('precision'); u.assume('an unsigned char', z3.And(q >= -128, q <= 127)); v0 = sa.v(u.st); f = kind + '_precision_'
        old = u8(getattr(v0, f))
        u.e.assumed.add('pow(10, -p) falls as p grows')
        if kind == 'xyz': u.e.facts.append(((), z3.And(z3.Implies(u8(q) >= old, TOLP(q) <= TOLP(getattr(v0, f))), TOLP(q) > 0)))
        u.run([ptr(o), q]); v1 = sa.v(u.st1)
        u.ensure('the precision never goes down', u8(getattr(v1, f)) >= old)
        u.ensure('it becomes the wanted one, or stays when that is lower or would exceed the length limit', z3.Or(u8(getattr(v1, f)) == u8(q), z3.And(u8(getattr(v1, f)) == old, z3.Or(u8(q) <= old, z3.And(Z(zb(v0.is_shape_)), v0.max_gcode_length_ > 0)))))
        for nm, g in sa.inv(u.st1): u.ensure('invariant: ' + nm, Z(g), kind='inv')
        u.frame(o, [f] + (['xyz_tolerance_'] if kind == 'xyz' else []), 'segmented_arc')
        return u
    u_.__name__ = 'u_update_%s_precision' % kind; u_.__doc__ = 'raising the precision (%s) keeps the length limit of the open arc' % kind; return u_
u_uxyz, u_ue = u_precision('xyz'), u_precision('e')
SHAPE = [u_uxyz, u_ue, u_add_internal, lemma_div, u_add_point, u_gcode, u_num_digits, lemma_places, u_gcode_len, lemma_text_length, u_ctor, u_pops]
