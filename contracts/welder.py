"""Contracts of arc_welder: pending commands, output text, moves taken into arcs, statistics (C04, C05, C06, C17)."""
import z3
from engine import *
from contracts import *
from proof import *
import clients
from clients import *
from geom import *
from shape import *

S = z3.StringVal
def LINE(gcode, comment): return z3.Concat(zs(gcode), z3.If(z3.Length(zs(comment)) > 0, z3.Concat(S(';'), zs(comment)), S('')), S('\n'))
def B(x): return Z(zb(x))
BLANK_ = z3.Function('blank', StrS, BoolS)
def BLANK(x): return z3.Or(x == S(''), BLANK_(x))   # only white space
def isg(v): return B(v.is_g0_g1)
def counted(v, kind):
    """the pending command counts as a target segment of this kind when it is written"""
    mv = z3.And(z3.Or(B(v.is_g0_g1), B(v.is_g2_g3)), v.length > 0); x, r, t = B(v.is_extrusion), B(v.is_retraction), B(v.is_travel)
    return z3.And(mv, {'ext': x, 'ret': z3.And(z3.Not(x), r), 'tra': z3.And(z3.Not(x), z3.Not(r), t)}[kind])
plus = lambda a, b: a + b
ONE = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
clients.PREFIX['unwritten_command'] = [
    ('CUM', StrS, lambda v: LINE(v.gcode, v.comment), lambda a, b: z3.Concat(a, b)),
    ('NG', IntS, lambda v: ONE(isg(v)), plus)]
for _k in ('ext', 'ret', 'tra'):
    clients.PREFIX['unwritten_command'] += [('N' + _k, IntS, lambda v, k=_k: ONE(counted(v, k)), plus), ('L' + _k, RealS, lambda v, k=_k: z3.If(counted(v, k), v.length, z3.RealVal(0)), plus)]
KINDS = (('ext', 'segment_statistics_'), ('ret', 'segment_retraction_statistics_'), ('tra', 'travel_statistics_'))

class W:
    """an arc_welder at pointer p"""
    def __init__(s, e, p):
        s.e, s.p = e, p; s.ref = e.mod.classes().get('arc_welder')
        if s.ref is None: raise ToolLimit('class arc_welder not found')
        (_, s.o, _, _), = p.alts
        v = View(e, State(), p, s.ref)
        s.q = seq_of(e, v.ptr_of('unwritten_commands_'), 'array_list', 'unwritten_command')
        s.sa = SA(e, v.ptr_of('current_arc_'))
    def v(s, st): return View(s.e, st, s.p, s.ref)
    def okey(s): return ('out', s.o.id)
    def out(s, st):
        v = st.ghost.get(s.okey())
        return zs(v if v is not None else s.e.stream_init(s.okey()))
    def base(s, st): return zi(s.q.get(st, 'base'))
    def cnt(s, st): return s.q.cnt(st)
    def end(s, st): return s.base(st) + s.cnt(st)
    def P(s, st, n): return s.q.pre(st, n)
    def full(s, st): return s.P(st, 'CUM')[s.end(st)]
    def ng(s, st): return s.P(st, 'NG')[s.end(st)] - s.P(st, 'NG')[s.base(st)]
    def n(s, st): return s.sa.cnt(st)
    def waiting(s, st): return B(s.v(st).waiting_for_arc_)
    def stat(s, st, k): return getattr(s.v(st), dict(KINDS)[k])
    def text_inv(s, st): return [('the text written so far ends where the pending commands start', s.P(st, 'CUM')[s.base(st)] == s.out(st))]
    def travel(s, st): return B(s.v(st).allow_travel_arcs_)
    def pend(s, st, pre, k):
        """ghost total over the pending commands"""
        x = s.P(st, pre + k); d = x[s.end(st)] - x[s.base(st)]
        return d if k != 'tra' else z3.If(s.travel(st), d, d - d)
def logger_call(e, st, ins, fv):
    """virtual call on the logger"""
    a = e.val(st, ins.a[0])
    if isinstance(a, Ptr) and all(o is not None and getattr(o, 'is_logger', False) for (_, o, _, _) in a.alts):
        e.assumed.add('logger calls do not change the welder'); return st, UNDEF
    return None
def welder(u):
    u.e.opts['indirect'] = logger_call
    o = u.obj('arc_welder', 'w')
    lg = Obj('param', 'logger'); lg.is_logger = True
    f = u.mod.class_fields(u.cref('arc_welder'))
    if 'p_logger_' in f: o.ptr_targets[f['p_logger_'][0]] = lg
    w = W(u.e, ptr(o))
    u.assume('pending commands below 2^26', zi(w.q.get(u.st, 'cap')) < (1 << 26)); w.q.obj.autogrow = {w.q.off: True}
    return o, w
def dropin(u, w, *more):
    """loop invariants: counters against the pending commands, text moved from pending to written"""
    e = u.e; e.opts['trig'] = False
    Q = lambda n: (lambda st: w.P(st, n)[w.end(st)])
    rel = [('pending', w.cnt), ('first pending', w.base), ('last pending', w.end)]
    rel += [('moves up to the last pending', lambda st: w.P(st, 'NG')[w.end(st)])]
    for k, f in KINDS:
        for fld, pre in (('total_count_target', 'N'), ('total_length_target', 'L')):
            def q(st, k=k, fld=fld, pre=pre):
                x = w.P(st, pre + k)[w.base(st)]; c = getattr(w.stat(st, k), fld)
                return c - x if k != 'tra' else c - z3.If(w.travel(st), x, x - x)
            rel.append(('%s %s against the prefix' % (k, fld), q))
    streqs = [('written text plus local text = prefix', lambda st, s_: z3.Concat(w.out(st), s_) == w.P(st, 'CUM')[w.base(st)])]
    st0 = u.st.copy(); c0 = w.cnt(st0)
    extra = w_extra(w) + [('a count', lambda st: z3.And(w.cnt(st) >= 0, w.cnt(st) <= c0)), ('an already removed command was a move', lambda st: z3.Implies(w.cnt(st) < c0, isg(w.q.elem(st, w.cnt(st)))))]
    u.e.opts['loops'] = Auto(ints=[('pending', w.cnt), ('all', lambda st: c0), ('points', w.n)], rel=rel, streqs=streqs, extra=extra + list(more), lows=(0,))
def w_extra(w): return [(n, lambda st, n=n: [f for m, f in w.text_inv(st) if m == n][0]) for n, _ in w.text_inv(State())]
class StatUpdate(FnContract):
    """source_target_segment_statistics::update(length, is_source): one more segment with its length, if it has any"""
    def __init__(s): super().__init__('source_target_segment_statistics::update', r'^source_target_segment_statistics::update\(double, bool\)$')
    def summary(s, c):
        v = c.new(c.args[0], 'source_target_segment_statistics'); L = zr(c.args[1]); src = zb(c.args[2])
        for f, b in (('source', src), ('target', b_not(src))):
            g = b_and(L > 0, b)
            if g is False: continue
            cn, ln = getattr(v, 'total_count_' + f), getattr(v, 'total_length_' + f)
            setattr(v, 'total_count_' + f, ite(g, cn + 1, cn)); setattr(v, 'total_length_' + f, ite(g, ln + L, ln))
        return None
def u_write_unwritten(mod):
    """every pending command is written once, in order, as its text with its comment; the statistics count each segment once"""
    u = Unit(mod, r'^arc_welder::write_unwritten_gcodes_to_file\(\)$', registry=reg(SeqContract(), StatUpdate()))
    o, w = welder(u)
    for nm, f in w.text_inv(u.st): u.assume(nm, f)
    dropin(u, w)
    u.run([ptr(o)]); st0, st1 = u.st0, u.st1
    written_post(u.ensure, w, st0, st1)
    for nm, f in w.text_inv(st1): u.ensure(nm, f)
    u.frame(o, ['unwritten_commands_', 'segment_statistics_', 'segment_retraction_statistics_', 'travel_statistics_', 'output_file_', 'current_arc_', 'source_path_'], 'arc_welder')
    return u
def written_post(ensure, w, st0, st1):
    ensure('the output grows by exactly the pending commands, in order', w.out(st1) == w.full(st0))
    ensure('nothing is pending afterwards', w.cnt(st1) == 0)
    for k, f in KINDS:
        ensure('%s: each written segment is counted once' % f, w.stat(st1, k).total_count_target == w.stat(st0, k).total_count_target + w.pend(st0, 'N', k))
        ensure('%s: each written segment is counted with its length' % f, w.stat(st1, k).total_length_target == w.stat(st0, k).total_length_target + w.pend(st0, 'L', k))
        ensure('%s: source side untouched' % f, z3.And(w.stat(st1, k).total_count_source == w.stat(st0, k).total_count_source, w.stat(st1, k).total_length_source == w.stat(st0, k).total_length_source))
class WriteUnwritten(FnContract):
    def __init__(s): super().__init__('arc_welder::write_unwritten_gcodes_to_file', r'^arc_welder::write_unwritten_gcodes_to_file\(\)$')
    def pre(s, c): return W(c.e, c.args[0]).text_inv(c.st0)
    def summary(s, c):
        e, st0, st = c.e, c.st0, c.st1; w = W(e, c.args[0]); n = w.cnt(st0)
        set_written(w, st, w.full(st0)); w.q.set(st, 'base', w.end(st0)); w.q.set(st, 'cnt', z3.IntVal(0))
        for k, f in KINDS:
            v = w.stat(st, k); a, b = v.total_count_target, v.total_length_target
            v.total_count_target = a + w.pend(st0, 'N', k); v.total_length_target = b + w.pend(st0, 'L', k)
        return n
def set_written(w, st, x): st.ghost[w.okey()] = x
class ArcComment(FnContract):
    """get_comment_for_arc: some text made from the comments of the pending commands; changes nothing"""
    def __init__(s): super().__init__('arc_welder::get_comment_for_arc', r'^arc_welder::get_comment_for_arc(\[abi:cxx11\])?\(\)$')
    def pre(s, c):
        w = W(c.e, c.args[1]); return [('as many pending commands as moves in the arc', z3.And(w.n(c.st0) >= 1, w.cnt(c.st0) >= w.n(c.st0) - 1))]
    def summary(s, c):
        x = fresh(StrS, 'comment'); c.e.store(c.st1, c.args[0], x, 'str'); c.st1.ghost[('w', 'comment')] = x; return None
def u_comment(mod):
    """the arc comment is built from existing pending commands only (index safety) and changes nothing"""
    u = Unit(mod, r'^arc_welder::get_comment_for_arc(\[abi:cxx11\])?\(\)$', registry=reg(SeqContract()))
    o, w = welder(u); n = w.n(u.st)
    u.assume('as many pending commands as moves in the arc', z3.And(n >= 1, w.cnt(u.st) >= n - 1))
    u.e.opts['loops'] = Auto(ints=[('pending', w.cnt)], lows=(0,))
    r = Obj('param', 'result'); u.run([ptr(r), ptr(o)])
    u.ensure('pending commands unchanged', z3.And(w.cnt(u.st1) == w.cnt(u.st0), w.base(u.st1) == w.base(u.st0)))
    u.frame(o, [], 'arc_welder'); return u
def SHAPE_G(v):
    xs = [Z(x) for x in glen_args(v)]
    return UF('shape_gcode', *[x.sort() for x in xs], StrS)(*xs)
class ShapeGcode(FnContract):
    """segmented_arc::get_shape_gcode: the text proved by C02/C03 (u_gcode), as a function of the arc; a shape is required"""
    def __init__(s): super().__init__('segmented_arc::get_shape_gcode', r'^segmented_arc::get_shape_gcode(\[abi:cxx11\])?\(\) const$')
    def pre(s, c): return [('there is an arc', B(SA(c.e, c.args[1]).v(c.st0).is_shape_))]
    def summary(s, c):
        c.e.store(c.st1, c.args[0], SHAPE_G(SA(c.e, c.args[1]).v(c.st1)), 'str'); return None
def arc_line(w, st): 
    c = st.ghost.get(('w', 'comment'), z3.StringVal('')); return LINE(SHAPE_G(w.sa.v(st)), c)
UPD = ('gp', 'updates')
class Undo(FnContract):
    def __init__(s): super().__init__('gcode_position::undo_update', r'^gcode_position::undo_update\(\)$')
    def summary(s, c):
        c.st1.ghost[UPD] = i_sub(c.st1.ghost.get(UPD, D0), 1); return None
D0 = z3.Int('position updates'); Engine.ghost_default[UPD] = D0
def arc_pre(w, st):
    n = w.n(st)
    return w.text_inv(st) + [('there is an arc', B(w.sa.v(st).is_shape_)), ('the arc has moves', n >= 2), ('at least as many pending moves as the arc has', w.ng(st) >= n - 1), ('as many pending commands as moves in the arc', w.cnt(st) >= n - 1)]
def arc_post(w, st0, st1):
    n = w.n(st0); b = w.base(st1); NG = w.P(st0, 'NG')
    r = [('nothing is pending afterwards', w.cnt(st1) == 0),
         ('exactly the moves of the arc were taken out of the pending commands', NG[b] == NG[w.end(st0)] - (n - 1)),
         ('the first command taken out is the first move of the arc', z3.And(w.base(st0) <= b, b < w.end(st0), isg(w.q.at(st0, b)))),
         ('everything pending before the arc is written first, then the arc, and nothing else', w.out(st1) == z3.Concat(w.P(st0, 'CUM')[b], arc_line_of(w, st0, st1))),
         ('the position is taken back by exactly the command that ended the arc', zi(st1.ghost.get(UPD, D0)) == zi(st0.ghost.get(UPD, D0)) - 1)]
    v = w.sa.v(st0); L, e = v.current_arc_.length, v.e_relative_
    for k, f in KINDS:
        g = z3.And(L > 0, {'ext': e > 0, 'ret': e < 0, 'tra': z3.And(e == 0, w.travel(st0))}[k])
        for fld, pre, d in (('total_count_target', 'N', z3.If(g, z3.IntVal(1), z3.IntVal(0))), ('total_length_target', 'L', z3.If(g, L, z3.RealVal(0)))):
            x = w.P(st0, pre + k); s_ = x[b] - x[w.base(st0)]
            if k == 'tra': s_ = z3.If(w.travel(st0), s_, s_ - s_)
            r.append(('%s: written segments and the arc are counted (%s)' % (f, fld), getattr(w.stat(st1, k), fld) == getattr(w.stat(st0, k), fld) + s_ + d))
    return r
def arc_line_of(w, st0, st1): return LINE(SHAPE_G(w.sa.v(st0)), st1.ghost.get(('w', 'comment'), z3.StringVal('')))
def u_write_arc(mod):
    """exactly the n-1 moves of the arc are taken out of the pending commands, the rest is written first, then the arc; the position is taken back once"""
    u = Unit(mod, r'^arc_welder::write_arc_gcodes\(double\)$', registry=reg(SeqContract(), StatUpdate(), WriteUnwritten(), ArcComment(), ShapeGcode(), Undo()))
    o, w = welder(u)
    for nm, f in arc_pre(w, u.st): u.assume(nm, f)
    dropin(u, w)
    u.run([ptr(o), z3.Real('feedrate')])
    for nm, f in arc_post(w, u.st0, u.st1): u.ensure(nm, f)
    u.frame(o, ['unwritten_commands_', 'segment_statistics_', 'segment_retraction_statistics_', 'travel_statistics_', 'output_file_', 'source_path_'], 'arc_welder')
    return u
WELDER = [u_write_unwritten, u_comment, u_write_arc]
import engine as _eng
def spec(f):
    """specification code: reading the state creates no obligations"""
    def g(*a, **k):
        _eng.SPEC[0] += 1
        try: return f(*a, **k)
        finally: _eng.SPEC[0] -= 1
    g.__name__ = f.__name__; return g
# ---------------------------------------------------------------- one command
CUR, PRE = ('gp', 'cur'), ('gp', 'pre')
MAXP = ('gp', 'max positions')
def new_position(e, name, like=None):
    """a position object with its own extruder storage (like: same contents at another place)"""
    o = Obj('param', name, cls='position'); o.ty = e.cls_ty('position'); x = Obj('heap', name + '.extruders')
    fs = e.mod.class_fields(e.mod.classes()['position']); xr = e.mod.classes()['extruder']
    x.stride = int(e.mod.meta(xr)[1]['size']) // 8; x.dwleaves = list(flat_leaves(e.mod, xr)); x.ety = e.cls_ty('extruder')
    o.ptr_targets[fs['p_extruders'][0]] = x; o.ext = x
    v = View(e, State(), ptr(o), e.mod.classes()['position'])
    if like is not None:
        o.base = dict(like.base); x.base = dict(like.ext.base); o.base.pop(fs['p_extruders'][0], None)
    x.len = v.num_extruders
    return o
def pos(e, st, p): return View(e, st, p, e.mod.classes()['position'])
def cur_ext(e, st, p):
    """view of the extruder in use"""
    v = pos(e, st, p); (_, o, _, _), = [a for a in p.alts if a[1] is not None][:1]
    return View(e, st, Ptr([(g, ob.ext, 0, zi(pos(e, st, ptr(ob)).current_tool)) for g, ob, _, _ in p.alts if ob is not None]), e.mod.classes()['extruder'])
def pos_range(v): return [('the tool in use is one of the extruders', z3.And(v.num_extruders >= 1, v.current_tool >= 0, v.current_tool < v.num_extruders))]
SAMEPOS = ('x', 'y', 'z', 'f', 'x_null', 'y_null', 'z_null', 'x_offset', 'y_offset', 'z_offset', 'x_firmware_offset', 'y_firmware_offset', 'z_firmware_offset', 'is_relative', 'is_extruder_relative', 'current_tool', 'num_extruders')
MOVES = ('G0', 'G1', 'G2', 'G3', 'G10', 'G11', 'G20', 'G21', 'G28', 'G90', 'G91', 'G92', 'M82', 'M83', 'M207', 'M208', 'M218', 'M563', 'T')   # the commands the tracker acts on (proved equal to its table: position.u_table)
@spec
def pos_facts(e, st, p): return pos_range(pos(e, st, p))
class Update(FnContract):
    """gcode_position::update(cmd): one more position; the old current position is the previous one and is unchanged; a command the tracker does not act on moves nothing (proved: position.UPDATE)"""
    def __init__(s): super().__init__('gcode_position::update', r'^gcode_position::update\(parsed_command&, long, long, long\)$')
    def pre(s, c): return [('room for two positions', zi(c.st0.ghost[MAXP]) >= 2)]
    def summary(s, c):
        e, st = c.e, c.st1; o = new_position(e, 'pos%d' % next(PN)); pre = st.ghost[CUR]
        st.ghost[UPD] = i_add(st.ghost.get(UPD, D0), 1); st.ghost[PRE] = pre; st.ghost[CUR] = ptr(o)
        v = pos(e, st, ptr(o)); cmd = c.new(c.args[1], 'parsed_command')
        for nm, f in pos_facts(e, st, ptr(o)): e.fact(st, f)
        e.fact(st, Z(eq(v.command.command, cmd.command)))
        p, x = pos(e, st, pre), cur_ext(e, st, ptr(o)); acts = z3.And(B(cmd.is_known_command), z3.Not(B(cmd.is_empty)), z3.Or([zs(cmd.command) == S(k) for k in MOVES]))
        e.fact(st, z3.Implies(z3.Not(acts), z3.And([Z(eq(getattr(v, f), getattr(p, f))) for f in SAMEPOS] + [x.e_relative == 0])))
        e.fact(st, z3.Implies(z3.And(acts, B(v.has_xy_position_changed), z3.Or(B(x.is_extruding), B(x.is_retracting))), x.e_relative != 0))
        return None
import itertools
PN = itertools.count()
class GetPos(FnContract):
    def __init__(s): super().__init__('gcode_position::get_*_position_ptr', r'^gcode_position::get_(current|previous)_position_ptr\(\)$')
    def summary(s, c): return c.st1.ghost[CUR if 'current' in c.ins.x['callee'].v else PRE]
class MaxPos(FnContract):
    def __init__(s): super().__init__('gcode_position::get_max_positions', r'^gcode_position::get_max_positions\(\)$')
    def summary(s, c): return c.st1.ghost[MAXP]
class GrowPos(FnContract):
    """grow_max_positions: same positions at a new place; the old places are gone"""
    def __init__(s): super().__init__('gcode_position::grow_max_positions', r'^gcode_position::grow_max_positions\(int\)$')
    def summary(s, c):
        st = c.st1; n = zi(c.args[1]); m0 = zi(st.ghost[MAXP]); g = n >= m0
        for k in (CUR, PRE):
            p = st.ghost[k]; alts = []
            for gd, o, off, i in p.alts:
                q = new_position(c.e, o.name + "'", o); alts.append((b_and(gd, g), q, off, i)); alts.append((b_and(gd, z3.Not(g)), o, off, i))
                for ob in (o, o.ext): st.freed[ob.id] = b_or(st.freed.get(ob.id, False), b_and(gd, g))
            st.ghost[k] = Ptr(alts)
        st.ghost[MAXP] = z3.If(g, n, m0); return None
class UndoPos(Undo):
    def summary(s, c):
        super().summary(c); st = c.st1; o = new_position(c.e, 'older%d' % next(PN)); st.ghost[CUR] = st.ghost[PRE]; st.ghost[PRE] = ptr(o)
        for nm, f in pos_facts(c.e, st, ptr(o)): c.e.fact(st, f)
        return None
class ArcDist(FnContract):
    """utilities::get_arc_distance: a function of the chord, the centre offset and the direction (proved by u_arc_distance)"""
    def __init__(s): super().__init__('utilities::get_arc_distance', r'^utilities::get_arc_distance\(')
    def summary(s, c):
        a = [zr(x) for x in c.args[:9]] + [Z(zb(c.args[9]))]; r = UF('arc_distance', *[x.sort() for x in a], RealS)(*a); c.e.fact(c.st1, r >= 0); return r
class ToStr(FnContract):
    def __init__(s): super().__init__('utilities::to_string', r'^utilities::to_string(\[abi:cxx11\])?\(double\)$')
    def summary(s, c): c.e.store(c.st1, c.args[0], UF('to_string', RealS, StrS)(zr(c.args[1])), 'str'); return None
@spec
def w_inv(w, st):
    """holds before and after every command"""
    v = w.v(st); n = w.n(st); wt = w.waiting(st); q = w.q; e = w.e; sp = w.sa.pts; b, en = w.base(st), w.end(st); NG = w.P(st, 'NG'); pb = zi(sp.get(st, 'base'))
    cur = st.ghost[CUR]; p = pos(e, st, cur); last = sp.elem(st, n - 1)
    r = w.text_inv(st) + [(a, Z(f)) for a, f in w.sa.inv(st)]
    r += [('no arc is open: no points', z3.Implies(z3.Not(wt), n == 0)), ('an arc is open: start and at least one move', z3.Implies(wt, n >= 2)),
          ('an arc is open: every move of it is pending', z3.Implies(wt, z3.And(w.ng(st) >= n - 1, w.cnt(st) >= n - 1))),
          ('an arc is open: only moves and blank lines are pending', z3.Implies(wt, ForAllPos(q, st, b, en, lambda k: z3.Or(isg(q.at(st, k)), z3.And(BLANK(zs(q.at(st, k).gcode)), zs(q.at(st, k).comment) == S(''))), 'gcode'))),
          ('an arc is open: its last point is the current position', z3.Implies(wt, z3.And(last.x == p.x - p.x_offset + p.x_firmware_offset, last.y == p.y - p.y_offset + p.y_firmware_offset, last.z == p.z - p.z_offset + p.z_firmware_offset, last.f == p.f, B(last.is_extruder_relative) == B(p.is_extruder_relative)))),
          ('an arc is open: its last point has some length', z3.Implies(wt, ABS(last.distance) >= TOL0)),
          ('an arc is open: the rate kept is that of its last move', z3.Implies(z3.And(wt, v.extrusion_rate_variance_percent_ != 0, last.e_relative != 0), v.previous_extrusion_rate_ == last.e_relative / last.distance)),
          ('an arc is open: not in relative mode', z3.Implies(wt, z3.Not(B(p.is_relative))))]
    return r + pos_facts(e, st, cur)
class Weld(AddPoint):
    """try_add_point as process_gcode may use it: only moves an arc can stand for (C04)"""
    def __init__(s, w, cmdp): super().__init__(); s.w, s.cmdp = w, cmdp
    @spec
    def pre(s, c):
        r = super().pre(c); e, st, w = c.e, c.st0, s.w; p = c.old(c.args[1], 'printer_point'); v = w.v(st)
        cur, pre = pos(e, st, st.ghost[CUR]), pos(e, st, st.ghost[PRE]); xc, xp = cur_ext(e, st, st.ghost[CUR]), cur_ext(e, st, st.ghost[PRE]); n = w.n(st); first = n == 0
        cmd = View(e, st, s.cmdp, e.mod.classes()['parsed_command']); wt = w.waiting(st); near = lambda a, b: ABS(a - b) < TOL0
        at = lambda q: z3.And(p.x == q.x - q.x_offset + q.x_firmware_offset, p.y == q.y - q.y_offset + q.y_firmware_offset, p.z == q.z - q.z_offset + q.z_firmware_offset, p.f == q.f)
        rate = xc.e_relative / p.distance; pr = w.v(st).previous_extrusion_rate_
        k = lambda nm, f: r.append(('C04: ' + nm, f))
        k('the command is a known, non-empty G0/G1', z3.And(B(cmd.is_known_command), z3.Not(B(cmd.is_empty)), z3.Or(zs(cmd.command) == S('G0'), zs(cmd.command) == S('G1'))))
        k('an arc starts at the previous position', z3.Implies(first, z3.And(at(pre), B(p.is_extruder_relative) == B(pre.is_extruder_relative))))
        k('nothing is pending from before the arc', z3.Implies(first, w.cnt(st) == 0))
        k('a move ends at the current position', z3.Implies(z3.Not(first), z3.And(at(cur), p.e_relative == xc.e_relative, p.e_offset == xc.e - xc.e_offset)))
        k('the start of the move is known', z3.And(z3.Not(B(pre.x_null)), z3.Not(B(pre.y_null)), B(pre.z_null) == B(cur.z_null)))
        k('XYZ mode is absolute', z3.Not(B(cur.is_relative)))
        k('the offsets are those of the previous position', z3.And([near(getattr(cur, f), getattr(pre, f)) for f in SAMEPOS if f.endswith('_offset')]))
        k('the extruder mode is that of the previous position', B(cur.is_extruder_relative) == B(pre.is_extruder_relative))
        k('Z only changes when 3D arcs are allowed', z3.Or(B(v.allow_3d_arcs_), near(cur.z, pre.z)))
        k('an open arc keeps its feedrate', z3.Implies(wt, pre.f == cur.f)); k('an open arc keeps its feature tag', z3.Implies(wt, pre.feature_type_tag == cur.feature_type_tag))
        k('travel only when travel arcs are allowed', z3.Implies(z3.And(wt, z3.Not(first), ABS(p.distance) >= TOL0, p.e_relative == 0), w.travel(st)))
        k('the extrusion rate of an open arc varies no more than allowed', z3.Implies(z3.And(wt, s.var0 != 0, s.rate0 > 0, xc.e_relative != 0, p.distance > 0), ABS((rate - s.rate0) / s.rate0) < s.var0 + TOL0))
        return r
class WriteArc(FnContract):
    def __init__(s): super().__init__('arc_welder::write_arc_gcodes', r'^arc_welder::write_arc_gcodes\(double\)$')
    @spec
    def pre(s, c):
        w = W(c.e, c.args[0]); st = c.st0; p = pos(c.e, st, st.ghost[PRE]); last = w.sa.pts.elem(st, w.n(st) - 1)
        return arc_pre(w, st) + [('the position taken back is the end of the arc', z3.And(last.x == p.x - p.x_offset + p.x_firmware_offset, last.y == p.y - p.y_offset + p.y_firmware_offset, last.z == p.z - p.z_offset + p.z_firmware_offset, last.f == p.f))]
    def summary(s, c):
        e, st0, st = c.e, c.st0, c.st1; w = W(e, c.args[0]); UndoPos().summary(c)
        b = fresh(IntS, 'split'); st.ghost[('w', 'split')] = b; cm = fresh(StrS, 'comment'); st.ghost[('w', 'comment')] = cm; out = fresh(StrS, 'out'); set_written(w, st, out)
        w.q.set(st, 'base', b); w.q.set(st, 'cnt', z3.IntVal(0)); w.q.set(st, 'pre CUM', z3.Store(w.P(st0, 'CUM'), b, out))
        for k, f in KINDS:
            v = w.stat(st, k); v.total_count_target = fresh(IntS, 'n'); v.total_length_target = fresh(RealS, 'l')
        for nm, f in arc_post(w, st0, st): e.fact(st, f)
        st.ghost[ARCS] = i_add(st.ghost.get(ARCS, z3.IntVal(0)), 1)
        st.ghost[('w', 'arcline')] = arc_line_of(w, st0, st)
        return None
ARCS = ('w', 'arcs'); Engine.ghost_default[ARCS] = z3.IntVal(0); Engine.ghost_default[('w', 'arcline')] = S(''); Engine.ghost_default[('w', 'comment')] = S(''); Engine.ghost_default[('w', 'split')] = z3.IntVal(0)
# the parameters of a command: the value of the last one with a given letter
def is_letter(e, st, q, k, ch): return UF('char_at', StrS, IntS, IntS)(zs(q.at(st, k).name), z3.IntVal(0)) == ord(ch)
def last_param(e, st, q, ch, field='double_value', default=0):
    """ghost function LAST(k): value of the last parameter named ch among the first k"""
    arrs = dict((o, a) for o, t, a in q.arrs(st)); fs = e.mod.class_fields(q.ref); nm, vl = arrs[fs['name'][0]], arrs[fs[field][0]]
    f = UF('last_%s_%s_%d_%d' % (ch, field, nm.get_id(), vl.get_id()), IntS, vl.sort().range())
    d = e.__dict__.setdefault('lastp', set())
    if f.name() not in d:
        d.add(f.name()); k = z3.Int('k!p'); v = q.at(st, k); d0 = z3.RealVal(default) if vl.sort().range() == RealS else z3.IntVal(default)
        e.facts.append(((), f(0) == d0))
        e.facts.append(((), z3.ForAll([k], z3.Implies(k >= 0, f(k + 1) == z3.If(is_letter(e, st, q, k, ch), getattr(v, field), f(k))), patterns=[nm[k]])))
    return f
class Recursion(FnContract):
    """process_gcode(cmd, false, true) with no arc open: the command becomes pending or written text, nothing else is lost; the arc counters stay"""
    def __init__(s, unit): super().__init__('arc_welder::process_gcode', r'^arc_welder::process_gcode\(parsed_command, bool, bool\)$'); s.u = unit
    def pre(s, c):
        w = W(c.e, c.args[0])
        return [('no arc is open (termination)', z3.Not(w.waiting(c.st0))), ('not at the end', b_not(zb(c.args[2]))), ('the command is not counted twice', zb(c.args[3]))] + w_inv(w, c.st0)
    def summary(s, c):
        e, st0, st = c.e, c.st0, c.st1; w = W(e, c.args[0]); cmd = c.old(c.args[1], 'parsed_command')
        s.u.upd.summary(Ctx(e, st.copy(), st, [None, c.args[1]], None))
        havoc_welder(w, st)
        for nm, f in w_inv(w, st): e.fact(st, f)
        for nm, f in plain_post(w, st0, st, cmd, s.u): e.fact(st, f)
        return fresh(IntS, 'lines')
def havoc_welder(w, st):
    v, e = w.v(st), w.e
    for f in ('waiting_for_arc_',): setattr(v, f, fresh(BoolS, f))
    v.previous_extrusion_rate_ = fresh(RealS, 'rate'); v.previous_feedrate_ = fresh(RealS, 'feed'); v.arcs_aborted_by_flow_rate_ = fresh(IntS, 'aborted')
    a = w.sa.v(st); havoc_arc(a.current_arc_, True)
    for f, so in (('is_shape_', BoolS), ('original_shape_length_', RealS), ('e_relative_', RealS), ('xyz_precision_', IntS), ('e_precision_', IntS), ('xyz_tolerance_', RealS), ('num_firmware_compensations_', IntS), ('num_gcode_length_exceptions_', IntS)): setattr(a, f, fresh(so, f))
    for q in (w.q, w.sa.pts):
        for k, t in q.i0.items():
            x = fresh(t.sort(), k); q.set(st, k, x)
            if k.startswith('leaf'): st.arrs[(q.elems.id, int(k[4:]))] = x
        if not q.prefix:
            for off, t in q.leaves: st.arrs[(q.elems.id, off)] = fresh(z3.ArraySort(IntS, e.sort_of(t)), 'el')
        e.fact(st, z3.And(q.cnt(st) >= 0, q.cnt(st) <= zi(q.get(st, 'cap')), zi(q.get(st, 'cap')) < (1 << 28)))
    w.sa.established(st); st.ghost[w.okey()] = fresh(StrS, 'out')
    for k, f in KINDS:
        x = w.stat(st, k); x.total_count_target = fresh(IntS, 'n'); x.total_length_target = fresh(RealS, 'l')
    st.ghost[MAXP] = fresh(IntS, 'maxp'); e.fact(st, zi(st.ghost[MAXP]) >= 2)
def text_of(cmd): return LINE(cmd.gcode, cmd.comment)
def totals(w, st, pre, fld, k):
    """written plus pending"""
    x = w.P(st, pre + k); p = x[w.end(st)] - x[w.base(st)]
    return getattr(w.stat(st, k), fld) + (p if k != 'tra' else z3.If(w.travel(st), p, p - p))
@spec
def plain_post(w, st0, st, cmd, u):
    """no arc was written: everything written or pending before is still there in order, followed by the command"""
    v0, v = w.v(st0), w.v(st)
    r = [('no arc: the text written and pending grows by exactly this command', w.full(st) == z3.Concat(w.full(st0), text_of(cmd))),
         ('no arc: the number of arcs stays', v.arcs_created_ == v0.arcs_created_), ('no arc: the number of compressed points stays', v.points_compressed_ == v0.points_compressed_),
         ('no arc: one position more', zi(st.ghost[UPD]) == zi(st0.ghost[UPD]) + 1)]
    for k, f in KINDS:
        r.append(('no arc: written and pending %s segments grow by this command' % k, totals(w, st, 'N', 'total_count_target', k) == totals(w, st0, 'N', 'total_count_target', k) + z3.If(u.kind(k), z3.IntVal(1), z3.IntVal(0))))
        r.append(('no arc: written and pending %s length grows by this command' % k, totals(w, st, 'L', 'total_length_target', k) == totals(w, st0, 'L', 'total_length_target', k) + z3.If(u.kind(k), u.length, z3.RealVal(0))))
    return r
class Once:
    """Update as a function of the position before it and the command: the same command from the same position gives the same position"""
class UpdateF(Update):
    def __init__(s): super().__init__(); s.first = None
    def summary(s, c):
        super().summary(c); e, st = c.e, c.st1; p = st.ghost[CUR]
        if s.first is None: s.first = (p, st.ghost[PRE], st); return None
        a, b = s.first[0], st.ghost[PRE]
        if len(b.alts) == 1 and len(s.first[1].alts) == 1 and b.alts[0][1] is s.first[1].alts[0][1]:
            va, vb = pos(e, State(), a), pos(e, st, p)
            for f in ('x', 'y', 'z', 'has_xy_position_changed'): e.fact(st, Z(eq(getattr(va, f), getattr(vb, f))))
            e.fact(st, cur_ext(e, State(), a).e_relative == cur_ext(e, st, p).e_relative)
        return None
def u_process_gcode(mod, full=False):
    """one command: it is passed on verbatim; an arc replaces exactly its own moves; only moves an arc can stand for are welded; counters agree"""
    u = Unit(mod, r'^arc_welder::process_gcode\(parsed_command, bool, bool\)$')
    e = u.e; upd = u.upd = UpdateF(); weld = Weld(None, None); e.registry = u.reg = reg(SeqContract(), StatUpdate(), WriteUnwritten(), WriteArc(), upd, GetPos(), MaxPos(), GrowPos(), UpdatePrecision(), Clear(), weld, Recursion(u), Dist(), Dist3(), ArcDist(), ToStr())
    o, w = welder(u); e.opts['trig'] = False; st = u.st
    weld.w = w
    if not full: w.sa.make_opaque(st)
    st.ghost[UPD] = z3.Int('position updates'); st.ghost[MAXP] = z3.Int('max positions'); u.assume('room for two positions', z3.And(st.ghost[MAXP] >= 2, st.ghost[MAXP] < (1 << 28)))
    st.ghost[CUR] = ptr(new_position(e, 'pos0')); st.ghost[PRE] = ptr(new_position(e, 'pos_1'))
    for p in (st.ghost[PRE],):
        for nm, f in pos_facts(e, st, p): u.assume(nm, f)
    co = u.obj('parsed_command', 'cmd'); cmd = u.view(co, 'parsed_command'); weld.cmdp = ptr(co)
    for nm, f in w_inv(w, st): u.assume(nm, f)
    u.assume('runs of fewer than 2^26 points', zi(w.sa.pts.get(st, 'cap')) < (1 << 26)); w.sa.pts.obj.autogrow = getattr(w.sa.pts.obj, 'autogrow', {})
    v = w.v(st); weld.rate0, weld.var0 = v.previous_extrusion_rate_, v.extrusion_rate_variance_percent_
    is_end, is_re = z3.Bools('is_end is_reprocess'); u.assume('an empty command has only white space as text', z3.Implies(z3.And(B(cmd.is_empty), z3.Not(is_end)), BLANK(zs(cmd.gcode)))); u.assume('a command that is not known has no name; an empty one is not known', z3.Implies(z3.Or(z3.Not(B(cmd.is_known_command)), B(cmd.is_empty)), z3.And(z3.Not(B(cmd.is_known_command)), zs(cmd.command) == S('')))); u.assume('at the end an arc is open', z3.Implies(is_end, z3.And(w.waiting(st), B(w.sa.v(st).is_shape_)))); u.assume('reprocessed only after an arc was closed', z3.Implies(is_re, z3.Not(w.waiting(st))))
    u.assume('counters below 2^30', z3.And(v.points_compressed_ < (1 << 30), v.arcs_created_ < (1 << 30), v.arcs_aborted_by_flow_rate_ < (1 << 30)))
    pq = vec_of(e, cmd.ptr_of('parameters'), 'parsed_command_parameter')
    LP = {ch: last_param(e, st, pq, ch) for ch in 'IJR'}
    e.opts['loops'] = Auto(ints=[('parameters', pq.cnt)], eqs=[('value of the last %s' % ch, lambda s_, i, ch=ch: LP[ch](i)) for ch in 'IJR'], extra=[(nm, lambda s_, j=j: Z(w.sa.inv(s_)[j][1])) for j, (nm, _) in enumerate(w.sa.inv(st))], lows=(0,), guards=(None,))
    u.kind = None
    @spec
    def setup_kind():
        cur, pre, _ = upd.first; e0 = State(); c, p = pos(e, e0, cur), pos(e, e0, pre); x = cur_ext(e, e0, cur).e_relative
        g23 = z3.Or(zs(cmd.command) == S('G2'), zs(cmd.command) == S('G3')); g01 = z3.Or(zs(cmd.command) == S('G0'), zs(cmd.command) == S('G1')); n = pq.cnt(st); i, j, r = [LP[ch](n) for ch in 'IJR']
        rr = z3.If(r == 0, UF('sqrt', RealS, RealS)(i * i + j * j), r)
        a = [zr(t) for t in (p.x, p.y, p.z, c.x, c.y, c.z, i, j, rr)] + [zs(c.command.command) == S('G2')]
        arc = UF('arc_distance', *[t.sort() for t in a], RealS)(*a)
        u.length = z3.If(B(c.has_xy_position_changed), z3.If(g23, arc, z3.If(B(v.allow_3d_arcs_), DIST3(p.x, p.y, p.z, c.x, c.y, c.z), DIST(p.x, p.y, c.x, c.y))), z3.RealVal(0))
        mv = z3.And(z3.Or(g01, g23), u.length > 0)
        u.kind = lambda k: z3.And(mv, {'ext': x > 0, 'ret': x < 0, 'tra': z3.And(x == 0, w.travel(st))}[k])
        u.src = lambda k: z3.And(u.length > 0, z3.Not(is_re), {'ext': x > 0, 'ret': x < 0, 'tra': z3.And(x == 0, z3.Or(g01, g23), w.travel(st))}[k])
    u.setup_kind = setup_kind
    u.kind = lambda k: (setup_kind(), u.kind(k))[1]
    u.run([ptr(o), ptr(co), is_end, is_re])
    setup_kind()
    st0, st1 = u.st0, u.st1; ar = zi(st1.ghost.get(ARCS, z3.IntVal(0))) > 0; na = z3.Not(ar)
    for nm, f in w_inv(w, st1): u.ensure('afterwards: ' + nm, z3.Implies(z3.Or(na, z3.Not(is_end)), Z(f)), kind='inv')
    for nm, f in w.text_inv(st1): u.ensure('always: ' + nm, f, kind='inv')
    u.ensure('at the end the open arc is written and the last command is not repeated', z3.Implies(is_end, ar))
    u.ensure('no arc is written unless one is open', z3.Implies(ar, w.waiting(st0)))
    for nm, f in plain_post(w, st0, st1, cmd, u): u.ensure(nm, z3.Implies(na, f))
    n = w.n(st0); v0, v1 = w.v(st0), w.v(st1); b = zi(st1.ghost.get(('w', 'split'), z3.IntVal(0)))
    u.ensure('arc: everything before its first move, the arc, then this command (unless it is the last)', z3.Implies(ar, w.full(st1) == z3.Concat(w.P(st0, 'CUM')[b], zs(st1.ghost.get(('w', 'arcline'), S(''))), z3.If(is_end, S(''), text_of(cmd)))))
    u.ensure('arc: counted once', z3.Implies(ar, v1.arcs_created_ == v0.arcs_created_ + 1))
    u.ensure('arc: the moves it replaces are counted', z3.Implies(ar, v1.points_compressed_ == v0.points_compressed_ + n - 1))
    u.ensure('arc: the position is that after this command, or at the end of the file that of the last move of the arc', z3.Implies(ar, zi(st1.ghost[UPD]) == zi(st0.ghost[UPD]) + z3.If(is_end, 0, 1)))
    NG = w.P(st0, 'NG')
    u.ensure('arc: exactly as many moves as the arc was built from are replaced by it, with the blank lines between them', z3.Implies(ar, z3.And(w.base(st0) <= b, b < w.end(st0), NG[b] == NG[w.end(st0)] - (n - 1), isg(w.q.at(st0, b)))))
    v, L, ae = w.sa.v(st0), w.sa.v(st0).current_arc_.length, w.sa.v(st0).e_relative_
    for k, f in KINDS:
        g = z3.And(L > 0, {'ext': ae > 0, 'ret': ae < 0, 'tra': z3.And(ae == 0, w.travel(st0))}[k])
        for fld, pre, one, d in (('total_count_target', 'N', z3.IntVal(1), z3.If(g, z3.IntVal(1), z3.IntVal(0))), ('total_length_target', 'L', u.length, z3.If(g, L, z3.RealVal(0)))):
            x = w.P(st0, pre + k); gone = x[w.end(st0)] - x[b]
            if k == 'tra': gone = z3.If(w.travel(st0), gone, gone - gone)
            u.ensure('arc: written and pending %s: the replaced moves are taken off, the arc and this command are counted (%s)' % (k, fld),
                     z3.Implies(ar, totals(w, st1, pre, fld, k) == totals(w, st0, pre, fld, k) - gone + d + z3.If(z3.And(z3.Not(is_end), u.kind(k)), one, one - one)))
    for k, f in KINDS:
        x0, x1 = w.stat(st0, k), w.stat(st1, k)
        u.ensure('%s: a source segment is counted once' % f, x1.total_count_source == x0.total_count_source + z3.If(u.src(k), z3.IntVal(1), z3.IntVal(0)))
        u.ensure('%s: a source segment is counted with its length' % f, x1.total_length_source == x0.total_length_source + z3.If(u.src(k), u.length, z3.RealVal(0)))
    return u
u_process_gcode.procs = 8
WELDER.append(u_process_gcode)
# ---------------------------------------------------------------- lengths and counters (C17)
def u_dist3(mod):
    """the 3D distance is the euclidean distance"""
    u = Unit(mod, r'^utilities::get_cartesian_distance\(double, double, double, double, double, double\)$')
    a = [z3.Real(n) for n in ('x1', 'y1', 'z1', 'x2', 'y2', 'z2')]; u.run(a); r = zr(u.ret); d = [a[k] - a[k + 3] for k in range(3)]
    u.ensure('non-negative', r >= 0); u.ensure('squares to dx^2+dy^2+dz^2', r * r == d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); return u
def u_arc_distance(mod):
    """length of a G2/G3 in I/J form: radius (distance start - centre) times the angle swept in its direction, with the height"""
    u = Unit(mod, r'^utilities::get_arc_distance\(', registry=reg(Hypot()))
    x1, y1, z1, x2, y2, z2, i, j, r = a = [z3.Real(n) for n in ('x1', 'y1', 'z1', 'x2', 'y2', 'z2', 'i', 'j', 'r')]; cw = z3.Bool('clockwise')
    sx, sy, ex, ey = -i, -j, x2 - (x1 + i), y2 - (y1 + j)
    t = atan2_axiom(u, z3.simplify(j * ex - i * ey), z3.simplify(-i * ex - j * ey))
    u.run(a + [cw]); full = z3.And(x1 == x2, y1 == y2)
    A = UF('atan2', RealS, RealS, RealS); y, x = sx * ey - sy * ex, sx * ex + sy * ey; t2 = A(y, x)
    u.e.facts.append(((), z3.And(t2 > -PI, t2 <= PI))); ccw = z3.If(t2 < 0, t2 + 2 * PI, t2)
    swept = z3.If(cw, ccw - 2 * PI, ccw); swept = z3.If(z3.And(full, swept == 0), 2 * PI, swept)
    u.ensure('radius times swept angle, with the height', zr(u.ret) == HYPOT(swept * HYPOT(i, j), ABS(z2 - z1)))
    u.ensure('the swept angle is at most a full turn', z3.And(ABS(swept) <= 2 * PI)); return u
def stat_update(src):
    def f(mod):
        u = Unit(mod, r'^source_target_segment_statistics::update\(double, bool\)$', registry=reg(SeqContract()))
        o = u.obj('source_target_segment_statistics', 'stats'); v = u.view(o, 'source_target_segment_statistics'); L = z3.Real('length')
        u.assume('counters below 2^30', z3.And(v.total_count_source >= 0, v.total_count_source < (1 << 30), v.total_count_target >= 0, v.total_count_target < (1 << 30)))
        q = vec_of(u.e, v.ptr_of('source_segments' if src else 'target_segments'), 'segment_statistic'); other = vec_of(u.e, v.ptr_of('target_segments' if src else 'source_segments'), 'segment_statistic')
        off = u.mod.class_fields(q.ref)['count'][0]; C0 = dict((o_, a) for o_, t, a in q.arrs(u.st))[off]; k = z3.Int('k'); u.assume('bucket counters below 2^30', z3.ForAll([k], z3.And(C0[k] >= 0, C0[k] < (1 << 30)), patterns=[C0[k]]))
        same = lambda st: dict((o_, a) for o_, t, a in q.arrs(st))[off] == C0
        u.e.opts['loops'] = Auto(ints=[('buckets', q.cnt)], lows=(0,), extra=[('no bucket touched yet', same)])
        u.run([ptr(o), L, src]); v0, v1 = u.view(o, 'source_target_segment_statistics', u.st0), u.view(o, 'source_target_segment_statistics', u.st1); me, ot = ('source', 'target') if src else ('target', 'source')
        one = z3.If(L > 0, z3.IntVal(1), z3.IntVal(0))
        u.ensure('counted once', getattr(v1, 'total_count_' + me) == getattr(v0, 'total_count_' + me) + one); u.ensure('counted with its length', getattr(v1, 'total_length_' + me) == getattr(v0, 'total_length_' + me) + z3.If(L > 0, L, z3.RealVal(0)))
        u.ensure('the other side is untouched', z3.And(getattr(v1, 'total_count_' + ot) == getattr(v0, 'total_count_' + ot), getattr(v1, 'total_length_' + ot) == getattr(v0, 'total_length_' + ot)))
        C1 = dict((o_, a) for o_, t, a in q.arrs(u.st1))[off]; m, n_ = z3.Ints('m n'); n = q.cnt(u.st0)
        u.ensure('at most one bucket grows, by one', z3.Implies(z3.And(m != n_, C1[m] != C0[m]), z3.And(C1[n_] == C0[n_], C1[m] == C0[m] + 1, m >= 0, m < n)))
        lo, hi = q.at(u.st0, m).min_mm, q.at(u.st0, m).max_mm
        u.ensure('a bucket that grows contains the length, or is the last', z3.Implies(C1[m] != C0[m], z3.Or(m == n - 1, z3.And(lo <= L, L < hi))))
        for (o_, t, a), (_, _, b) in zip(other.arrs(u.st0), other.arrs(u.st1)): u.ensure('the other side is untouched', a == b, kind='frame')
        return u
    f.__name__ = 'u_stat_update_' + ('source' if src else 'target'); f.__doc__ = 'one segment is counted once, with its length, on its side only'; return f
u_stat_source, u_stat_target = stat_update(True), stat_update(False)
STATS = [u_dist3, u_arc_distance, u_stat_source, u_stat_target]
