"""Contracts of the position tracker: gcode_position::update, the process_* functions, position and its extruders (C09, C10).
Each command has an executable specification spec_*(...) that changes a position the way a printer would; a unit proves that the
real function changes exactly what its specification changes (every field of the position and of every extruder is compared),
and the callers use the specification as the callee's contract."""
import z3
from engine import *
from contracts import *
from proof import *
import clients, models
from clients import *
from geom import *
from shape import *
import welder
from welder import S, B, spec, new_position, pos, pos_range, CUR, PRE, UPD, SAMEPOS

TOL = None
def ext_obj(e, st, p):
    """the storage of the extruders of the position at p"""
    (_, o, off, _), = [a for a in p.alts if a[1] is not None]
    v = st.ghost.get(('pos', 'ext', o.id, off))
    return v if v is not None else o.ext
def X(e, st, p, i): return View(e, st, ptr(ext_obj(e, st, p), 0, zi(i)), e.mod.classes()['extruder'])
def cur(e, st, p): return X(e, st, p, pos(e, st, p).current_tool)
def pos_leaves(e, st, p):
    for n, q, ref in pos(e, st, p).leaves():
        if n.startswith('command.parameters') or n == 'p_extruders': continue
        yield n, read_ref(e, st, q, ref)
def ext_arrs(e, st, p):
    o = ext_obj(e, st, p)
    return [(off, e.arr_get(st, o, off, e.sort_of(t))) for off, t in o.dwleaves]
@spec
def same_pos(e, st0, p0, st1, p1, but=()):
    """[(name, formula)]: the two positions agree in every field and in every extruder"""
    r = []
    for (n, a), (_, b) in zip(list(pos_leaves(e, st0, p0)), list(pos_leaves(e, st1, p1))):
        if n not in but: r.append((n, Z(eq(a, b))))
    names = {off: n for n, (off, _) in e.mod.class_fields(e.mod.classes()['extruder']).items()}; k = z3.Int('extruder')
    inr = z3.And(k >= 0, k < zi(pos(e, st0, p0).num_extruders)); other = k != zi(pos(e, st1, p1).current_tool)
    for (off, a), (_, b) in zip(ext_arrs(e, st0, p0), ext_arrs(e, st1, p1)):
        f = '.' + names[off] in but        # free for the extruder in use
        if 'extruders' not in but and not a.eq(b): r.append(('%s of every %sextruder' % (names[off], 'other ' if f else ''), z3.Implies(z3.And(inr, other) if f else inr, a[k] == b[k])))
    return r
def set_if(v, name, g, val):
    old = getattr(v, name); setattr(v, name, ite(g, val, old))
# ---------------------------------------------------------------- the parameters of a command
def fold(e, st, q, key, init, step):
    """ghost function F(k): value computed from the first k parameters, F(0) = init, F(k+1) = step(parameter k, F(k))"""
    arrs = dict((o, a) for o, t, a in q.arrs(st)); fs = e.mod.class_fields(q.ref); nm = arrs[fs['name'][0]]
    init = Z(init) if isinstance(init, bool) else z3.IntVal(init) if isinstance(init, int) else init
    f = UF('fold_%s_%s' % (key, '_'.join(str(a.get_id()) for a in arrs.values())), IntS, init.sort()); d = e.__dict__.setdefault('folds', set())
    if f.name() not in d:
        d.add(f.name()); k = z3.Int('k!p'); e.facts.append(((), f(0) == init))
        e.facts.append(((), z3.ForAll([k], z3.Implies(k >= 0, f(k + 1) == step(q.at(st, k), f(k))), patterns=[nm[k]])))
    return f
def named(v, ch): return zs(v.name) == S(ch)
def typed(v, ch): return zi(v.value_type) == ord(ch)
def val_of(e, st, q, ch): return fold(e, st, q, 'value_' + ch, z3.RealVal(0), lambda v, p: z3.If(named(v, ch), v.double_value, p))
def has(e, st, q, ch): return fold(e, st, q, 'has_' + ch, False, lambda v, p: z3.Or(named(v, ch), p))
def num_of(e, st, q, ch): return fold(e, st, q, 'number_' + ch, z3.RealVal(0), lambda v, p: z3.If(z3.And(named(v, ch), typed(v, 'F')), v.double_value, p))
def has_num(e, st, q, ch): return fold(e, st, q, 'hasnum_' + ch, False, lambda v, p: z3.If(named(v, ch), typed(v, 'F'), p))
def round_half(x): w = x + z3.RealVal('1/2') - z3.If(x < 0, z3.RealVal(1), z3.RealVal(0)); return z3.If(w >= 0, z3.ToInt(w), -z3.ToInt(-w))
def to_int(x): return wrap(x, 32)
def tool_of(e, st, q, ch): return fold(e, st, q, 'tool_' + ch, 0, lambda v, p: z3.If(z3.And(named(v, ch), typed(v, 'L')), to_int(v.unsigned_long_value), z3.If(z3.And(named(v, ch), typed(v, 'F')), round_half(v.double_value), p)))
def has_tool(e, st, q, ch): return fold(e, st, q, 'hastool_' + ch, False, lambda v, p: z3.If(named(v, ch), z3.Or(typed(v, 'L'), typed(v, 'F')), p))
def clamp(gv, t):
    t = z3.If(B(gv.zero_based_extruder_), t, t - 1); n = zi(gv.num_extruders_)
    return z3.If(t < 0, z3.IntVal(0), z3.If(t > n - 1, n - 1, t))
class Cmd:
    """what a command says: for each letter whether it is given and its (last) value"""
    def __init__(s, e, st, cmdp):
        v = View(e, st, cmdp, e.mod.classes()['parsed_command']); q = s.q = vec_of(e, v.ptr_of('parameters'), 'parsed_command_parameter'); s.n = n = q.cnt(st)
        s.e, s.st = e, st
    def __call__(s, f, ch): return f(s.e, s.st, s.q, ch)(s.n)
    def has(s, ch): return s(has, ch)
    def val(s, ch): return s(val_of, ch)
# ---------------------------------------------------------------- specifications
@spec
def spec_move(e, st, gv, p, x, ux, y, uy, z, uz, ev, ue, f, uf, force, g1):
    """a move: only the named axes change; absolute: they get the value (plus offsets), relative: it is added; nothing is added to an unknown coordinate"""
    v, t = pos(e, st, p), cur(e, st, p); ux, uy, uz, ue, uf, force, g1 = [B(b) for b in (ux, uy, uz, ue, uf, force, g1)]
    xy = z3.Or(ux, uy); tr = z3.And(g1, z3.Not(ue))
    set_if(v, 'is_xyz_travel', z3.And(tr, uz), xy); set_if(v, 'is_xy_travel', z3.And(tr, z3.Not(uz)), xy)
    set_if(v, 'f', uf, f); set_if(v, 'f_null', uf, z3.BoolVal(False))
    known, rel = z3.Not(B(v.is_relative_null)), B(v.is_relative); absm = z3.And(z3.Not(force), known, z3.Not(rel)); relm = z3.And(z3.Not(force), known, rel)
    for a, u_, w in (('x', ux, x), ('y', uy, y), ('z', uz, z)):
        old, off, fo = getattr(v, a), getattr(v, a + '_offset'), getattr(v, a + '_firmware_offset'); tf = getattr(t, a + '_firmware_offset'); null = B(getattr(v, a + '_null'))
        set_if(v, a + '_firmware_offset', z3.And(absm, u_), tf)
        setattr(v, a, z3.If(z3.And(force, u_), w + off - fo, z3.If(z3.And(absm, u_), w + off - tf, z3.If(z3.And(relm, u_, z3.Not(null)), old + w, zr(old)))))
        set_if(v, a + '_null', z3.And(u_, z3.Or(force, absm)), z3.BoolVal(False))
    ek, er = z3.Not(B(v.is_extruder_relative_null)), B(v.is_extruder_relative); old = t.e
    t.e = z3.If(z3.And(ue, z3.Or(force, z3.And(ek, z3.Not(er)))), ev + t.e_offset, z3.If(z3.And(ue, ek, er), old + ev, zr(old)))
def spec_g0_g1(e, st, gv, p, c):
    a = []
    for ch in 'XYZEF': a += [c.val(ch), c.has(ch)]
    spec_move(e, st, gv, p, *a, z3.BoolVal(False), z3.BoolVal(True))
def spec_offsets(ch):
    def f(e, st, gv, p, c):
        """G10 / M218: the firmware offsets of the named extruder (nearest existing one) are set; nothing else changes"""
        t = X(e, st, p, clamp(gv, c(tool_of, ch))); g = c(has_tool, ch)
        for a in 'xyz': set_if(t, a + '_firmware_offset', z3.And(g, c(has_num, a.upper())), c(num_of, a.upper()))
    return f
spec_g10, spec_m218 = spec_offsets('P'), spec_offsets('T')
def spec_none(e, st, gv, p, c): pass
def spec_g28(e, st, gv, p, c):
    """home: the named axes (all if none is named) are homed: at the home position if it is known, else unknown"""
    v = pos(e, st, p); none = z3.Not(z3.Or([c.has(a) for a in 'XYZ']))
    for a in 'xyz':
        h = z3.Or(none, c.has(a.upper())); unknown = B(getattr(gv, 'home_%s_none_' % a))
        set_if(v, a + '_homed', h, z3.BoolVal(True)); set_if(v, a, z3.And(h, z3.Not(unknown)), getattr(gv, 'home_%s_' % a)); set_if(v, a + '_null', h, unknown)
def spec_mode(xyz, relative):
    def f(e, st, gv, p, c):
        v = pos(e, st, p); r = z3.BoolVal(relative)
        if xyz: v.is_relative = r; v.is_relative_null = z3.BoolVal(False)
        g = B(gv.g90_influences_extruder_) if xyz else z3.BoolVal(True)
        set_if(v, 'is_extruder_relative', g, r); set_if(v, 'is_extruder_relative_null', g, z3.BoolVal(False))
    return f
spec_g90, spec_g91, spec_m82, spec_m83 = spec_mode(True, False), spec_mode(True, True), spec_mode(False, False), spec_mode(False, True)
def spec_g92(e, st, gv, p, c):
    """G92: the named axes read the given value from now on (all axes read 0 if none is named): only their offsets change; an axis that was never homed is taken to be there"""
    v, t = pos(e, st, p), cur(e, st, p); o = c.has('O'); none = z3.Not(z3.Or([c.has(a) for a in 'XYZEO']))
    for a in 'xyz': set_if(v, a + '_homed', o, z3.BoolVal(True))
    for a in 'xyz':
        null, homed, h, w = B(getattr(v, a + '_null')), B(getattr(v, a + '_homed')), c.has(a.upper()), c.val(a.upper()); x, fo, off = getattr(v, a), getattr(v, a + '_firmware_offset'), getattr(v, a + '_offset')
        ok = z3.And(z3.Not(null), homed); fresh_ = z3.And(h, z3.Not(ok))
        setattr(v, a + '_offset', z3.If(z3.And(none, z3.Not(null)), x + fo, z3.If(z3.And(h, ok), x + fo - w, z3.If(fresh_, z3.RealVal(0), zr(off)))))
        set_if(v, a, fresh_, w); set_if(v, a + '_null', fresh_, z3.BoolVal(False))
    t.e_offset = z3.If(none, zr(t.e), z3.If(c.has('E'), t.e - c.val('E'), zr(t.e_offset)))
def rfold(e, st, q, key, init, step):
    """ghost function G(k): value computed from the parameters k, k+1, ...: G(count) = init, G(k) = step(parameter k, G(k+1))"""
    arrs = dict((o, a) for o, t, a in q.arrs(st)); fs = e.mod.class_fields(q.ref); nm = arrs[fs['name'][0]]
    init = Z(init) if isinstance(init, bool) else z3.IntVal(init)
    f = UF('fold_%s_%s' % (key, '_'.join(str(a.get_id()) for a in arrs.values())), IntS, init.sort()); d = e.__dict__.setdefault('folds', set()); n = q.cnt(st)
    if f.name() not in d:
        d.add(f.name()); k = z3.Int('k!p'); e.facts.append(((), f(n) == init))
        e.facts.append(((), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), f(k) == step(q.at(st, k), f(k + 1))), patterns=[nm[k]])))
    return f
def is_tool(v): return z3.And(named(v, 'T'), typed(v, 'U'))
def first_has(e, st, q, ch='T'): return rfold(e, st, q, 'has_first_tool', False, lambda v, p: z3.Or(is_tool(v), p))
def first_tool(e, st, q, ch='T'): return rfold(e, st, q, 'first_tool', 0, lambda v, p: z3.If(is_tool(v), zi(v.unsigned_long_value), p))
def spec_t(e, st, gv, p, c):
    """T: the extruder named (the nearest existing one) is in use"""
    v = pos(e, st, p); set_if(v, 'current_tool', first_has(e, c.st, c.q)(0), clamp(gv, to_int(first_tool(e, c.st, c.q)(0))))
TABLE = {'G0': ('process_g0_g1', spec_g0_g1), 'G1': ('process_g0_g1', spec_g0_g1), 'G2': ('process_g2', spec_g0_g1), 'G3': ('process_g3', spec_g0_g1), 'G10': ('process_g10', spec_g10), 'G11': ('process_g11', spec_none),
         'G20': ('process_g20', spec_none), 'G21': ('process_g21', spec_none), 'G28': ('process_g28', spec_g28), 'G90': ('process_g90', spec_g90), 'G91': ('process_g91', spec_g91), 'G92': ('process_g92', spec_g92),
         'M82': ('process_m82', spec_m82), 'M83': ('process_m83', spec_m83), 'M207': ('process_m207', spec_none), 'M208': ('process_m208', spec_none), 'M218': ('process_m218', spec_m218), 'M563': ('process_m563', spec_none), 'T': ('process_t', spec_t)}
# ---------------------------------------------------------------- std::map of the command table (assumed contract)
MAPT = r'std::map<std::__cxx11::basic_string<.*>, void \(gcode_position::\*\)\(position\*, parsed_command&\), .*> >'
ITT = r'std::_Rb_tree_iterator<std::pair<std::__cxx11::basic_string<.*> const, void \(gcode_position::\*\)\(position\*, parsed_command&\)> >'
def mkey(p): (_, o, off, _), = p.alts; return ('map', o.id, off)
END = Obj('heap', 'map end')
R_ = models.M.rule
def mapname(m, rest): return r'^%s::%s' % (m, rest)
def contents(s, st, p): return st.ghost.get(mkey(p), s.opts.get('map', ()))
@R_(mapname(MAPT, r'(map\(\)|~map\(\))$'))
def map_ctor(s, st, a, ins, n, d):
    s.assumed.add('std::map: finite map from text to function'); st.ghost[mkey(a[0])] = (); return None
@R_(mapname(MAPT, r'operator=\('))
def map_assign(s, st, a, ins, n, d): st.ghost[mkey(a[0])] = contents(s, st, a[1]); return a[0]
@R_(r'std::make_pair<char const \(&\) \[\d+\], void \(gcode_position::\*\)\(position\*, parsed_command&\)>\(')
def map_pair(s, st, a, ins, n, d):
    s.store(st, a[0], a[1], Ty('ptr'), ins)
    for off in (0, 8): s.store(st, padd(a[0], 8 + off), s.load(st, padd(a[2], off), Ty('i', 64), ins), Ty('i', 64), ins)
    return None
@R_(MAPT + r'::insert<std::pair<char const\*, ')
def map_insert(s, st, a, ins, n, d):
    k = models.cstrval(s, st, s.load(st, a[1], Ty('ptr'), ins)); c = contents(s, st, a[0])
    if all(x != k for x, _ in c): st.ghost[mkey(a[0])] = c + ((k, s.load(st, padd(a[1], 8), Ty('i', 64), ins)),)
    return Agg([UNDEF, UNDEF])
@R_(mapname(MAPT, r'find\('))
def map_find(s, st, a, ins, n, d):
    s.assumed.add('std::map: finite map from text to function'); k = zs(s.load(st, a[1], 'str', ins)); c = contents(s, st, a[0])
    for x, fn in c:
        if s.prove_now(st, k == zs(x)):
            o = Obj('heap', 'map node'); o.base.update({0: x, 32: fn, 40: 0}); return ptr(o)
    if s.prove_now(st, z3.And([k != zs(x) for x, _ in c])): return ptr(END)
    raise ToolLimit('map lookup not decided')
@R_(mapname(MAPT, r'end\(\)$'))
def map_end(s, st, a, ins, n, d): return ptr(END)
@R_(r'^std::operator(!=|==)\(' + ITT + ' const&, ')
def map_ne(s, st, a, ins, n, d):
    r = ptr_eq(s.load(st, a[0], Ty('ptr'), ins), s.load(st, a[1], Ty('ptr'), ins)); return r if d.startswith('std::operator==') else b_not(r)
@R_(mapname(ITT, r'(operator->\(\) const|operator\*\(\) const)$'))
def map_arrow(s, st, a, ins, n, d): return s.load(st, a[0], Ty('ptr'), ins)
@R_(mapname(ITT, r'_Rb_tree_iterator\(\)$'))
def map_it(s, st, a, ins, n, d): return None
def table(mod): return tuple((k, FnRef([n for n, d in mod.demangled().items() if n in mod.funcs and d.startswith('gcode_position::%s(' % fn)][0])) for k, (fn, _) in TABLE.items())
# ---------------------------------------------------------------- units
def tracker(u):
    """a gcode_position with at least one extruder and its per-extruder settings"""
    e = u.e; e.opts['trig'] = False; o = u.obj('gcode_position', 'gp'); v = u.view(o, 'gcode_position'); n = v.num_extruders_
    u.assume('at least one extruder', z3.And(zi(n) >= 1, zi(n) < (1 << 20)))
    for f in ('retraction_lengths_', 'z_lift_heights_'):
        a = u.arr(f, 8, n, Ty('double')); o.ptr_targets[u.mod.class_fields(u.cref('gcode_position'))[f][0]] = a
    return o, v
def a_position(u, name, gv):
    o = new_position(u.e, name); v = pos(u.e, u.st, ptr(o))
    u.assume(name + ': as many extruders as configured', zi(v.num_extruders) == zi(gv.num_extruders_))
    for nm, f in pos_range(v): u.assume('%s: %s' % (name, nm), f)
    return o
class UpdatePosition(FnContract):
    def __init__(s): super().__init__('gcode_position::update_position', r'^gcode_position::update_position\(')
    def pre(s, c): return pos_range(pos(c.e, c.st0, c.args[1]))
    def summary(s, c): spec_move(c.e, c.st1, c.new(c.args[0], 'gcode_position'), c.args[1], *[zr(a) if i in (0, 2, 4, 6, 8) else a for i, a in enumerate(c.args[2:])]); return None
def check_spec(u, o, p, sp, name='afterwards'):
    """the final state of the position is what the specification gives"""
    e = u.e; st = u.st0.copy(); sp(st)
    for n, f in same_pos(e, st, ptr(p), u.st1, ptr(p)): u.ensure('%s: %s' % (name, n), f)
    u.frame(o, [], 'gcode_position')
def u_update_position(mod):
    """a move changes exactly the axes it names"""
    u = Unit(mod, r'^gcode_position::update_position\(', registry=reg()); o, gv = tracker(u); p = a_position(u, 'p', gv)
    a = [z3.Real('x'), z3.Bool('ux'), z3.Real('y'), z3.Bool('uy'), z3.Real('z'), z3.Bool('uz'), z3.Real('e'), z3.Bool('ue'), z3.Real('f'), z3.Bool('uf'), z3.Bool('force'), z3.Bool('g1')]
    u.run([ptr(o), ptr(p)] + a); check_spec(u, o, p, lambda st: spec_move(u.e, st, gv, ptr(p), *a)); return u
class ProcessCommand(FnContract):
    """process_*: the specification of the command"""
    def __init__(s, fn, sp): super().__init__('gcode_position::' + fn, r'^gcode_position::%s\(' % fn); s.sp = sp
    def pre(s, c): return pos_range(pos(c.e, c.st0, c.args[1]))
    def summary(s, c): spec(s.sp)(c.e, c.st1, c.new(c.args[0], 'gcode_position'), c.args[1], Cmd(c.e, c.st0, c.args[2])); return None
FOLDS = {spec_g0_g1: [('XYZEF', (val_of, has))], spec_g10: [('XYZ', (num_of, has_num)), ('P', (tool_of, has_tool))], spec_m218: [('XYZ', (num_of, has_num)), ('T', (tool_of, has_tool))], spec_g28: [('XYZ', (has,))], spec_g92: [('XYZEO', (val_of, has))]}
def u_process(fn, sp):
    def f(mod):
        u = Unit(mod, r'^gcode_position::%s\(' % fn, registry=reg(UpdatePosition(), *([ProcessCommand('process_g2', spec_g0_g1)] if fn == 'process_g3' else []))); e = u.e; o, gv = tracker(u); p = a_position(u, 'p', gv); co = u.obj('parsed_command', 'cmd')
        c = Cmd(e, u.st, ptr(co)); st0 = u.st.copy(); q = c.q
        F = {}; e.opts['pure_split'] = True; e.opts['prove_ms'] = 2000
        for letters, gs in FOLDS.get(sp, ()):
            for ch in letters:
                for g in gs: F[g.__name__ + ch] = g(e, st0, q, ch)
        ft, fh = first_tool(e, st0, q), first_has(e, st0, q)
        e.opts['loops'] = Auto(rel=[('tool in use', lambda st: zi(pos(e, st, ptr(p)).current_tool))], ints=[('parameters', q.cnt)], eqs=[(n, lambda st, i, f=f: f(i)) for n, f in F.items() if f.range() != IntS], ieqs=[(n, lambda st, i, f=f: f(i)) for n, f in F.items() if f.range() == IntS], lows=(0,), guards=(None,), ifacts=[('no tool number yet', lambda st, i: z3.And(ft(i) == ft(0), fh(i) == fh(0)))] if fn == 'process_t' else [])
        u.run([ptr(o), ptr(p), ptr(co)]); check_spec(u, o, p, lambda st: spec(sp)(e, st, gv, ptr(p), c))
        cv = u.view(co, 'parsed_command'); u.frame(co, ['parameters'], 'parsed_command')
        return u
    f.__name__ = 'u_' + fn; f.__doc__ = sp.__doc__ or 'changes what the command is for and nothing else'; return f
PROCESS = [u_process(fn, sp) for fn, sp in dict(TABLE.values()).items()]
STEPS = [u_update_position] + PROCESS

# ---------------------------------------------------------------- positions and their extruders
EXT_OFF = lambda e: e.mod.class_fields(e.mod.classes()['position'])['p_extruders'][0]
def new_ext(e, st, n, name='extruders'):
    """fresh storage of n extruders"""
    x = Obj('heap', name); xr = e.mod.classes()['extruder']; x.stride = int(e.mod.meta(xr)[1]['size']) // 8; x.dwleaves = list(flat_leaves(e.mod, xr)); x.ety = e.cls_ty('extruder'); x.len = n
    return x
def set_ext(e, st, p, x):
    (_, o, off, _), = p.alts
    e.store(st, padd(p, EXT_OFF(e)), ptr(x, 0, z3.IntVal(0)), Ty('ptr')); st.ghost[('pos', 'ext', o.id, off)] = x
def copy_pos(e, st, dst, src, but=('has_been_deleted',)):
    """dst becomes a copy of src with its own extruders"""
    a, b = pos(e, st, dst), pos(e, st, src)
    for (n, q, ref), (_, q2, _) in zip(list(a.leaves()), list(b.leaves())):
        if n == 'p_extruders' or n in but or n.startswith('command.parameters'): continue
        write_ref(e, st, q, ref, read_ref(e, st, q2, ref))
    if 'has_been_deleted' in but: a.has_been_deleted = False
    va, vb = vec_of(e, a.command.ptr_of('parameters'), 'parsed_command_parameter'), vec_of(e, b.command.ptr_of('parameters'), 'parsed_command_parameter')
    for off, t, ar in vb.arrs(st): st.arrs[(va.elems.id, off)] = ar
    va.set(st, vb.cnt(st)); y = ext_obj(e, st, src); x = new_ext(e, st, pos(e, st, src).num_extruders, 'copy of ' + y.name)
    for off, t in y.dwleaves: st.arrs[(x.id, off)] = e.arr_get(st, y, off, e.sort_of(t))
    set_ext(e, st, dst, x)
def u_extruder(mod):
    """a new extruder holds nothing"""
    u = Unit(mod, r'^extruder::extruder\(\)$'); o = u.obj('extruder', 'x'); u.run([ptr(o)])
    for n, p, ref in u.view(o, 'extruder', u.st1).leaves(): v = read_ref(u.e, u.st1, p, ref); u.ensure('%s is 0' % n, Z(v) == (z3.BoolVal(False) if Z(v).sort() == BoolS else z3.RealVal(0)))
    return u
def zero(t): return z3.RealVal(0) if t.k == 'double' else z3.IntVal(0)
def ext_size(e): return int(e.mod.meta(e.mod.classes()['extruder'])[1]['size']) // 8
def typed_new(e, st, nbytes, ins):
    """new extruder[n]: n elements"""
    sz = ext_size(e); n = nbytes if isz(nbytes) else z3.IntVal(nbytes)
    return new_ext(e, st, n / sz, 'new extruders')
def ext_alts(e, st, p):
    """the storage p_extruders points to: [(guard, object)]"""
    return [(g, o) for g, o, off, i in e.load(st, padd(p, EXT_OFF(e)), Ty('ptr')).alts]
def leafs(e, st, o): return [(off, t, e.arr_get(st, o, off, e.sort_of(t))) for off, t in o.dwleaves]
def u_set_num(mod):
    """set_num_extruders: storage of exactly that many extruders, all empty; the old storage is released; the same number changes nothing"""
    u = Unit(mod, r'^position::set_num_extruders\(int\)$'); e = u.e; o = new_position(e, 'p'); v = pos(e, u.st, ptr(o)); n = z3.Int('n'); u.assume('number of extruders', z3.And(n >= 1, n < (1 << 20))); old = o.ext; made = []; n0 = zi(v.num_extruders)
    def new(e, st, nb, ins): x = typed_new(e, st, nb, ins); made.append(x); return x
    e.opts['newarray'] = new
    e.opts['loops'] = Auto(ints=[('extruders', lambda st: n)], foralls=[('all empty', lambda st, k: z3.And([a[k] == zero(t) for _, t, a in leafs(e, st, made[-1])]))], lows=(0,), shifts=(0,))
    u.run([ptr(o), n]); v1 = pos(e, u.st1, ptr(o)); k = z3.Int('k'); same = n == n0
    for g, x in ext_alts(e, u.st1, ptr(o)):
        if x in made:
            u.ensure('storage of n extruders', implies(g, x.len == n)); u.ensure('alive', implies(g, b_not(st_freed(u.st1, x))))
            u.ensure('all of them empty', implies(g, z3.Implies(z3.And(k >= 0, k < n), z3.And([a[k] == zero(t) for _, t, a in leafs(e, u.st1, x)]))))
        else: u.ensure('the old storage is kept only for the same number', implies(g, b_and(x is old, same)))
    u.ensure('the number is kept', zi(v1.num_extruders) == n)
    u.ensure('the old storage is released exactly when replaced', eq(Z(st_freed(u.st1, old)), n != n0))
    for (off, t, a), (_, _, b) in zip(leafs(e, u.st0, old), leafs(e, u.st1, old)): u.ensure('same number: nothing changes', z3.Implies(same, a == b))
    u.frame(o, ['num_extruders', 'p_extruders'], 'position'); return u
def st_freed(st, o): return st.freed.get(o.id, False)
class SetNum(FnContract):
    def __init__(s): super().__init__('position::set_num_extruders', r'^position::set_num_extruders\(int\)$')
    def pre(s, c): return [('at least one extruder', zi(c.args[1]) >= 1)]
    def summary(s, c):
        e, st = c.e, c.st1; p = c.args[0]; v = pos(e, st, p); n = zi(c.args[1]); same = zi(v.num_extruders) == n
        old = e.load(st, padd(p, EXT_OFF(e)), Ty('ptr')); x = new_ext(e, st, n, 'new extruders'); c.made = x
        for off, t in x.dwleaves: st.arrs[(x.id, off)] = z3.K(IntS, zero(t))
        for g, o, off, i in old.alts:
            if o is not None: st.freed[o.id] = b_or(st_freed(st, o), b_and(g, z3.Not(same)))
        fresh_ = ptr(x, 0, z3.IntVal(0)); e.store(st, padd(p, EXT_OFF(e)), fresh_ if e.prove_now(st, z3.Not(same)) else ptr_ite(same, old, fresh_), Ty('ptr')); v.num_extruders = n
        e.__dict__.setdefault('made', []).append(x); return None
def copy_loops(e, src, dst, n): return Auto(ints=[('extruders', lambda st: n)], foralls=[('copied', lambda st, k: z3.And([a[k] == b[k] for (_, _, a), (_, _, b) in zip(leafs(e, st, dst(st)), leafs(e, st, src))]))], lows=(0,), shifts=(0,))
def is_copy(u, p, src, srcx, but):
    """p is a copy of the source with storage of its own"""
    e = u.e; a, b = pos(e, u.st1, p), pos(e, u.st0, ptr(src)); k = z3.Int('k'); n = zi(b.num_extruders); own = []
    for (nm, q, ref), (_, q2, _) in zip(list(a.leaves()), list(b.leaves())):
        if nm == 'p_extruders' or nm in but or nm.startswith('command.parameters'): continue
        u.ensure('%s is copied' % nm, eq(read_ref(e, u.st1, q, ref), read_ref(e, u.st0, q2, ref)))
    va, vb = vec_of(e, a.command.ptr_of('parameters'), 'parsed_command_parameter'), vec_of(e, b.command.ptr_of('parameters'), 'parsed_command_parameter')
    u.ensure('the parameters of the command are copied', z3.And([eq(va.cnt(u.st1), vb.cnt(u.st0))] + [x == y for (_, _, x), (_, _, y) in zip(va.arrs(u.st1), vb.arrs(u.st0))]))
    for g, x in ext_alts(e, u.st1, p):
        u.ensure('the extruders have storage of their own', implies(g, x is not None and x is not srcx))
        if x is None or x is srcx: continue
        u.ensure('as many extruders', implies(g, eq(x.len, n))); u.ensure('the storage is alive', implies(g, b_not(st_freed(u.st1, x))))
        for (off, t, c), (_, _, d) in zip(leafs(e, u.st1, x), leafs(e, u.st0, srcx)): u.ensure('every extruder is copied', implies(g, z3.Implies(z3.And(k >= 0, k < n), c[k] == d[k])))
    u.ensure('the storage of the source stays', b_not(st_freed(u.st1, srcx)))
    for (off, t, c), (_, _, d) in zip(leafs(e, u.st1, srcx), leafs(e, u.st0, srcx)): u.ensure('the source is unchanged', c == d)
    u.frame(src, ['command.parameters'], 'position')
def u_copy(mod):
    """position(const position&): a copy with extruders of its own"""
    u = Unit(mod, r'^position::position\(position const&\)$', registry=reg(SetNum())); e = u.e; src = new_position(e, 'src'); o = u.obj('position', 'p'); n = pos(e, u.st, ptr(src)).num_extruders
    u.assume('at least one extruder', z3.And(n >= 1, n < (1 << 20)))
    e.opts['loops'] = copy_loops(e, src.ext, lambda st: e.made[-1], zi(n))
    u.run([ptr(o), ptr(src)]); is_copy(u, ptr(o), src, src.ext, ('has_been_deleted',)); u.ensure('not deleted', z3.Not(B(pos(e, u.st1, ptr(o)).has_been_deleted))); return u
def u_assign(mod, same=True):
    """operator= between positions with as many extruders: a copy with extruders of its own"""
    u = Unit(mod, r'^position::operator=\(position const&\)$', registry=reg(SetNum())); e = u.e; src = new_position(e, 'src'); o = new_position(e, 'p'); n = pos(e, u.st, ptr(src)).num_extruders; n0 = pos(e, u.st, ptr(o)).num_extruders
    u.assume('at least one extruder', z3.And(n >= 1, n < (1 << 20), n0 >= 1, n0 < (1 << 20))); u.assume('as many extruders' if same else 'another number of extruders', (n == n0) == same)
    e.opts['prune'] = True; e.opts['loops'] = copy_loops(e, src.ext, lambda st: o.ext if same else e.made[-1], zi(n))
    u.run([ptr(o), ptr(src)]); is_copy(u, ptr(o), src, src.ext, ('has_been_deleted',))
    u.ensure('the storage is replaced exactly for another number', eq(Z(st_freed(u.st1, o.ext)), z3.BoolVal(not same))); return u
def u_assign_resize(mod):
    """operator= between positions with different numbers of extruders"""
    return u_assign(mod, False)
def u_dtor(mod):
    """~position: the storage is released once"""
    u = Unit(mod, r'^position::~position\(\)$'); e = u.e; o = new_position(e, 'p'); u.run([ptr(o)])
    u.ensure('the storage is released unless it was before', eq(Z(st_freed(u.st1, o.ext)), z3.Not(B(pos(e, u.st0, ptr(o)).has_been_deleted)))); u.ensure('marked', B(pos(e, u.st1, ptr(o)).has_been_deleted)); return u
POSITION = [u_extruder, u_set_num, u_copy, u_assign, u_assign_resize, u_dtor]
# ---------------------------------------------------------------- small accessors
def u_clamp(fn, sym):
    def f(mod):
        """the extruder in use / named is one of the configured ones (the nearest); nothing changes"""
        u = Unit(mod, r'^position::%s\(' % fn); e = u.e; o = new_position(e, 'p'); v = pos(e, u.st, ptr(o)); u.assume('at least one extruder', z3.And(v.num_extruders >= 1, v.num_extruders < (1 << 20)))
        i = z3.Int('i') if sym else zi(v.current_tool); u.run([ptr(o)] + ([i] if sym else [])); n = zi(v.num_extruders)
        for g, x, off, ix in u.ret.alts:
            off, ix = e.norm(x, off, ix); u.ensure('refers to an extruder', implies(g, x is o.ext and off == 0)); u.ensure('C10: the nearest existing one', implies(g, eq(ix, z3.If(i < 0, z3.IntVal(0), z3.If(i >= n, n - 1, i)))))
        u.frame(o, [], 'position'); return u
    f.__name__ = 'u_' + fn; f.__doc__ = 'the extruder is one of the configured ones (the nearest)'; return f
def u_gcode_coord(a):
    def f(mod):
        u = Unit(mod, r'^position::get_gcode_%s\(\) const$' % a); o = new_position(u.e, 'p'); v = pos(u.e, u.st, ptr(o)); u.run([ptr(o)]); u.ensure('the coordinate as the commands give it', zr(u.ret) == getattr(v, a) - getattr(v, a + '_offset') + getattr(v, a + '_firmware_offset')); u.frame(o, [], 'position'); return u
    f.__name__ = 'u_get_gcode_' + a; f.__doc__ = 'coordinate without offsets'; return f
ACCESS = [u_clamp('get_current_extruder', False), u_clamp('get_extruder', True)] + [u_gcode_coord(a) for a in 'xyz']
RESET = ('is_layer_change', 'is_height_change', 'is_height_increment_change', 'is_xy_travel', 'is_xyz_travel', 'has_position_changed', 'has_received_home_command')
def spec_reset(e, st, p):
    """a new line: what belongs to one command only is cleared"""
    v = pos(e, st, p)
    for f in RESET: setattr(v, f, z3.BoolVal(False))
    v.gcode_ignored = z3.BoolVal(True); v.z_relative = z3.RealVal(0); v.feature_type_tag = z3.IntVal(0); cur(e, st, p).e_relative = z3.RealVal(0)
def u_reset(mod):
    """reset_state"""
    u = Unit(mod, r'^position::reset_state\(\)$'); p = new_position(u.e, 'p'); v = pos(u.e, u.st, ptr(p))
    for nm, f in pos_range(v): u.assume(nm, f)
    u.run([ptr(p)])
    st = u.st0.copy(); spec(spec_reset)(u.e, st, ptr(p))
    for n, f in same_pos(u.e, st, ptr(p), u.st1, ptr(p)): u.ensure('afterwards: ' + n, f)
    return u
ACCESS += [u_reset]
# ---------------------------------------------------------------- the ring of positions
from welder import MAXP, UPD
class CopyCtor(FnContract):
    def __init__(s): super().__init__('position::position(copy)', r'^position::position\(position const&\)$')
    def summary(s, c): copy_pos(c.e, c.st1, c.args[0], c.args[1]); return None
class Dtor(FnContract):
    def __init__(s): super().__init__('position::~position', r'^position::~position\(\)$')
    def summary(s, c): return None
class RingAt(FnContract):
    """circular_buffer<position>::operator[]: element 0 is the current position, element 1 the one before"""
    def __init__(s): super().__init__('circular_buffer<position>::operator[]', r'^circular_buffer<position>::operator\[\]\(int\) const$')
    def pre(s, c): return [('index within the ring', z3.And(zi(c.args[1]) >= 0, zi(c.args[1]) < zi(c.st0.ghost[MAXP])))]
    def summary(s, c):
        if c.args[1] not in (0, 1): raise ToolLimit('ring index %s' % c.args[1])
        return c.st1.ghost[(CUR, PRE)[c.args[1]]]
class RingPush(FnContract):
    def __init__(s): super().__init__('circular_buffer<position>::push_front', r'^circular_buffer<position>::push_front\(position\)$')
    def summary(s, c):
        e, st = c.e, c.st1; o = new_position(e, 'pushed'); copy_pos(e, st, ptr(o), c.args[1], ()); st.ghost[PRE] = st.ghost[CUR]; st.ghost[CUR] = ptr(o); st.ghost[UPD] = i_add(st.ghost[UPD], 1); return None
class RingPop(FnContract):
    def __init__(s): super().__init__('circular_buffer<position>::pop_front', r'^circular_buffer<position>::pop_front\(\)$')
    def summary(s, c): st = c.st1; r = st.ghost[CUR]; st.ghost[CUR] = st.ghost[PRE]; st.ghost[PRE] = ptr(new_position(c.e, 'older')); st.ghost[UPD] = i_sub(st.ghost[UPD], 1); return r
class CommentUpdate(FnContract):
    """gcode_comment_processor::update(position): of the position only the feature type changes"""
    def __init__(s): super().__init__('gcode_comment_processor::update', r'^gcode_comment_processor::update\(position&\)$')
    def summary(s, c):
        v = pos(c.e, c.st1, c.args[1]); v.feature_type_tag = fresh(IntS, 'feature'); w = c.new(c.args[0], 'gcode_comment_processor'); w.processing_type_ = fresh(IntS, 'processing'); return None
def u_comment_update(mod):
    """the comment processor changes only the feature type of the position"""
    u = Unit(mod, r'^gcode_comment_processor::update\(position&\)$'); e = u.e; o = u.obj('gcode_comment_processor', 'cp'); p = new_position(e, 'p'); u.run([ptr(o), ptr(p)])
    for n, f in same_pos(e, u.st0, ptr(p), u.st1, ptr(p), ('feature_type_tag',)): u.ensure('unchanged: ' + n, f)
    u.frame(o, ['processing_type_'], 'gcode_comment_processor'); return u
def retracted(e, st, p, k):
    a = e.arr_get(st, ext_obj(e, st, p), e.mod.class_fields(e.mod.classes()['extruder'])['retraction_length'][0], RealS); return z3.Implies(z3.And(k >= 0, k < zi(pos(e, st, p).num_extruders)), a[k] >= 0), a[k]
def ring(u, gv):
    """two positions in the ring, as many extruders as configured"""
    st = u.st; st.ghost[MAXP] = z3.Int('max positions'); st.ghost[UPD] = z3.Int('position updates'); u.assume('room for two positions', z3.And(st.ghost[MAXP] >= 2, st.ghost[MAXP] < (1 << 28)))
    for k, n in ((CUR, 'cur'), (PRE, 'pre')):
        st.ghost[k] = ptr(a_position(u, n, gv)); k = z3.Int('k!q'); f, g = retracted(u.e, st, st.ghost[CUR if n == 'cur' else PRE], k); u.assume(n + ': retraction lengths are not negative', z3.ForAll([k], f, patterns=[g]))
RINGC = lambda: (CopyCtor(), Dtor(), RingAt(), RingPush(), RingPop(), CommentUpdate())
def spec_add(e, st, src, dst, cmdp):
    """a new position: a copy of the current one with what belongs to one command cleared"""
    copy_pos(e, st, dst, src, ()); spec_reset(e, st, dst); v, c = pos(e, st, dst), View(e, st, cmdp, e.mod.classes()['parsed_command'])
    for n in ('command', 'gcode', 'comment', 'is_empty', 'is_known_command'): setattr(v.command, n, getattr(c, n))
    v.is_empty = z3.BoolVal(False)
STATE = ('.extrusion_length', '.extrusion_length_total', '.retraction_length', '.deretraction_length', '.is_extruding_start', '.is_extruding', '.is_primed', '.is_retracting_start', '.is_retracting', '.is_retracted', '.is_partially_retracted', '.is_deretracting_start', '.is_deretracting', '.is_deretracted')
LAYER = ('is_in_bounds', 'is_printer_primed', 'last_extrusion_height', 'last_extrusion_height_null', 'height', 'is_layer_change', 'layer', 'height_increment', 'is_height_increment_change', 'height_increment_change_count', 'is_zhop')
def u_table(mod):
    """the table of commands: each command has the function that does what it is for, and there are no others"""
    u = Unit(mod, r'^gcode_position::get_gcode_functions'); o = u.obj('gcode_position', 'gp'); r = Obj('param', 'result'); u.run([ptr(r), ptr(o)])
    got = dict(u.st1.ghost.get(mkey(ptr(r)), ())) if u.st1 is not None else {}; want = dict(table(mod))
    for k in sorted(set(got) | set(want)): u.ensure('C09: %s is done by the function for it' % k if k in want else 'C09: %s is not in the table' % k, got.get(k) == want.get(k))
    u.frame(o, [], 'gcode_position'); return u
def u_update(K):
    def f(mod):
        rg = reg(*RINGC(), *[ProcessCommand(fn, sp) for fn, sp in dict(TABLE.values()).items()])
        u = Unit(mod, r'^gcode_position::update\(parsed_command&, long, long, long\)$', registry=rg); e = u.e; o, gv = tracker(u); ring(u, gv); co = u.obj('parsed_command', 'cmd'); cv = u.view(co, 'parsed_command'); st = u.st
        e.opts['pure_split'] = True; e.opts['prune'] = True; e.opts['map'] = table(mod)
        u.assume('the command', z3.And(B(cv.is_known_command), z3.Not(B(cv.is_empty)), zs(cv.command) == S(K)) if K in TABLE else z3.Or(z3.Not(B(cv.is_known_command)), B(cv.is_empty)) if K == '' else z3.And([zs(cv.command) != S(k) for k in TABLE]))
        ln = [z3.Int(n) for n in ('file_line', 'gcode_number', 'file_position')]
        u.run([ptr(o), ptr(co)] + ln)
        p0, q, pre = st_ghost(u.st0, CUR), st_ghost(u.st1, CUR), st_ghost(u.st1, PRE)
        u.ensure('C09: the position before is the previous one', eq(pre, p0)); u.ensure('one position more', zi(u.st1.ghost[UPD]) == zi(u.st0.ghost[UPD]) + 1)
        for n, g in same_pos(e, u.st0, p0, u.st1, pre): u.ensure('C09: the previous position is unchanged: ' + n, g)
        s2 = u.st0.copy(); spec(spec_add)(e, s2, p0, q, ptr(co))
        if K in TABLE: spec(TABLE[K][1])(e, s2, gv, q, Cmd(e, u.st0, ptr(co)))
        spec(spec_after if K in TABLE else lambda *a: None)(e, s2, u.st0, p0, q)
        v = pos(e, s2, q); v.file_line_number, v.gcode_number, v.file_position = ln
        for n, g in same_pos(e, s2, q, u.st1, q, ('feature_type_tag', 'has_been_deleted') + (STATE + LAYER if K in TABLE else ())): u.ensure('C09: the new position: ' + n, g)
        for n, g in pos_range(pos(e, u.st1, q)): u.ensure('C10: ' + n, g)
        k = z3.Int('k'); u.ensure('retraction lengths are not negative', retracted(e, u.st1, q, k)[0])
        x = cur(e, u.st1, q); u.ensure('C09: only a command that changes E makes an XY move extrude or retract', z3.Implies(z3.And(B(pos(e, u.st1, q).has_xy_position_changed), z3.Or(B(x.is_extruding), B(x.is_retracting))), x.e_relative != 0)) if K in TABLE else None
        u.frame(o, ['positions_', 'comment_processor_', 'gcode_functions_', 'gcode_functions_iterator_'], 'gcode_position'); u.frame(co, ['parameters'], 'parsed_command')
        return u
    f.__name__ = 'u_update_%s' % (K or 'unknown'); f.__doc__ = 'update with %s: the new position follows the command, the one before is kept' % (K or 'no known command'); return f
def st_ghost(st, k): return st.ghost[k]
def near(a, b): d = a - b; t = zr(Fraction(*(0.000005).as_integer_ratio())); return z3.And(d < t, -d < t)
def spec_after(e, st, st0, p0, q):
    """after a command: what it changed relative to the position before"""
    v, b, t = pos(e, st, q), pos(e, st0, p0), cur(e, st, q); old = X(e, st0, p0, v.current_tool)
    v.gcode_ignored = z3.BoolVal(False); t.e_relative = t.e - old.e; v.z_relative = v.z - b.z
    v.has_xy_position_changed = z3.Or(z3.Not(near(v.x, b.x)), z3.Not(near(v.y, b.y)))
    v.has_position_changed = z3.Or(B(v.has_xy_position_changed), z3.Not(near(v.z, b.z)), z3.Not(near(t.e_relative, 0)), B(v.x_null) != B(b.x_null), B(v.y_null) != B(b.y_null), B(v.z_null) != B(b.z_null))
    set_if(v, 'has_definite_position', z3.Not(B(v.has_definite_position)), z3.And(B(v.is_metric), z3.Not(z3.Or([B(getattr(v, n)) for n in ('is_metric_null', 'x_null', 'y_null', 'z_null', 'is_relative_null', 'is_extruder_relative_null')]))))
def u_undo(mod):
    """undo_update: the position before is the current one again, unchanged"""
    u = Unit(mod, r'^gcode_position::undo_update\(\)$', registry=reg(*RINGC())); e = u.e; o, gv = tracker(u); ring(u, gv); u.run([ptr(o)])
    u.ensure('C09: the position before is the current one', eq(u.st1.ghost[CUR], u.st0.ghost[PRE])); u.ensure('one position less', zi(u.st1.ghost[UPD]) == zi(u.st0.ghost[UPD]) - 1)
    for n, g in same_pos(e, u.st0, u.st0.ghost[PRE], u.st1, u.st1.ghost[CUR]): u.ensure('C09: unchanged: ' + n, g)
    u.frame(o, ['positions_'], 'gcode_position'); return u
def u_ptrs(k):
    def f(mod):
        """get_current_position_ptr / get_previous_position_ptr"""
        n = ('current', 'previous')[k]; u = Unit(mod, r'^gcode_position::get_%s_position_ptr\(\)$' % n, registry=reg(*RINGC())); o, gv = tracker(u); ring(u, gv); u.run([ptr(o)])
        u.ensure('C09: the %s position' % n, eq(u.ret, u.st0.ghost[(CUR, PRE)[k]])); u.frame(o, [], 'gcode_position'); return u
    f.__name__ = 'u_get_%s' % ('current', 'previous')[k]; f.__doc__ = 'pointer to the %s position' % ('current', 'previous')[k]; return f
def u_position_n(mod):
    """position(n): n empty extruders, the first one in use, nothing known"""
    u = Unit(mod, r'^position::position\(int\)$', registry=reg(SetNum())); e = u.e; o = u.obj('position', 'p'); n = z3.Int('n'); u.assume('at least one extruder', z3.And(n >= 1, n < (1 << 20))); u.run([ptr(o), n]); v = pos(e, u.st1, ptr(o))
    for nm, f in pos_range(v): u.ensure('C10: ' + nm, f)
    u.ensure('n extruders', zi(v.num_extruders) == n); u.ensure('C09: no coordinate is known', z3.And([B(getattr(v, a + '_null')) for a in 'xyzf'] + [z3.Not(B(getattr(v, a + '_homed'))) for a in 'xyz'])); u.ensure('C09: no offsets', z3.And([zr(getattr(v, a + b)) == 0 for a in 'xyz' for b in ('', '_offset', '_firmware_offset')]))
    for g, x in ext_alts(e, u.st1, ptr(o)): u.ensure('storage of its own', implies(g, x in e.made))
    return u
UPDATE = [u_table, u_comment_update, u_undo, u_ptrs(0), u_ptrs(1), u_position_n] + [u_update(k) for k in TABLE] + [u_update(''), u_update('other')]
