"""Callee contracts of the containers as clients see them: a ghost sequence (elements, base, count, capacity) per
container object.  These contracts are the ones proved for the real container code by C07/C08 (element type generic)."""
import re, z3
from engine import *
from contracts import *
import models

PAT = re.compile(r'^(array_list|circular_buffer)<(.+?)>::(~?\w+|operator\[\])\((.*)\)( const)?$')

TAILS = {'printer_point': ('e_relative', 'distance')}    # ghost: sum over the elements 1..count-1
# ghost prefix arrays: P[k+1] = op(P[k], contribution of the element at position k), for the positions of the sequence
#   T -> [(name, sort, fn(element view) -> contribution, op(a, b))]
PREFIX = {}
_named = {}
class Seq:
    def pre(s, st, name): return s.get(st, 'pre ' + name)
    def leaf_terms(s, st): return [(off, s.e.arr_get(st, s.elems, off, s.e.sort_of(t))) for off, t in s.leaves]
    def prefix_ok(s, st):
        """the ghost prefixes describe the elements as stored through push operations: no element was changed in place"""
        for off, a in s.leaf_terms(st):
            g = s.get(st, 'leaf%d' % off)
            if not g.eq(a): raise ToolLimit('element of %s changed in place' % s.T)
    def inst(s, st, pos):
        """definition of the ghost prefixes at position pos"""
        if not s.prefix: return
        s.prefix_ok(st)
        b = zi(s.get(st, 'base')); inr = z3.And(zi(pos) >= b, zi(pos) < b + s.cnt(st)); v = s.at(st, pos)
        for n, (sort, fn, op) in s.prefix.items():
            P = s.pre(st, n); s.e.fact(st, z3.Implies(inr, P[zi(pos) + 1] == op(P[zi(pos)], fn(v))))
    def tail_add(s, st, cond, k, pos, sign):
        off = s.tails[k]; v = s.e.load(st, ptr(s.elems, off, pos), Ty('double'))
        s.set(st, k, z3.If(Z(cond), zr(s.get(st, k)) + sign * zr(v), zr(s.get(st, k))))
    def __init__(s, e, obj, off, cls, T):
        s.e, s.obj, s.off, s.cls, s.T = e, obj, off, cls, T
        ref = e.mod.classes().get(T)
        if ref is None: raise ToolLimit('element class %s' % T)
        s.ref = ref
        m = e.mod.meta(ref)
        s.stride = int(m[1]['size']) // 8
        s.leaves = list(flat_leaves(e.mod, ref))
        el = Obj('heap', '%s+%d.elems' % (obj.name, off)); el.stride = s.stride
        el.dwleaves = s.leaves
        ty = e.cls_ty(T)
        if ty is not None: el.ety = ty
        s.elems = el
        n = '%s.%s!%d' % (obj.name, off, obj.id)
        s.i0 = {'cnt': z3.Int('count(%s)' % n), 'cap': z3.Int('cap(%s)' % n), 'base': z3.Int('base(%s)' % n)}
        for k in s.i0: Engine.ghost_default[s.key(k)] = s.i0[k]
        s.tails = {}
        fs = e.mod.class_fields(ref)
        for f in TAILS.get(T, ()):
            if f in fs:
                s.tails['sum ' + f] = fs[f][0]; v = s.i0['sum ' + f] = z3.Real('sum(%s.%s)' % (n, f)); Engine.ghost_default[s.key('sum ' + f)] = v
                e.facts.append(((), z3.Implies(s.i0['cnt'] <= 1, v == 0)))
        s.prefix = {}
        for nm, sort, fn, op in PREFIX.get(T, ()):
            s.prefix[nm] = (sort, fn, op); k = 'pre ' + nm; s.i0[k] = z3.Const('%s(%s)' % (nm, n), z3.ArraySort(IntS, sort)); Engine.ghost_default[s.key(k)] = s.i0[k]
        if s.prefix:
            for off, t in s.leaves:
                k = 'leaf%d' % off; s.i0[k] = e.arr_get(State(), el, off, e.sort_of(t)); Engine.ghost_default[s.key(k)] = s.i0[k]
        e.facts.append(((), z3.And(s.i0['cnt'] >= 0, s.i0['cnt'] <= s.i0['cap'], s.i0['cap'] >= 1, s.i0['cap'] < (1 << 28))))
    def key(s, k): return ('seq', s.obj.id, s.off, k)
    def get(s, st, k): return st.ghost.get(s.key(k), s.i0[k])
    watch = None
    def set(s, st, k, v):
        st.ghost[s.key(k)] = v
        if s.watch is not None: st.ghost[s.watch] = False
    def cnt(s, st): return zi(s.get(st, 'cnt'))
    def eptr(s, st, i): return ptr(s.elems, 0, i_add(s.get(st, 'base'), i))
    def name_arrays(s, st):
        """give composite array terms a name (definitional), so that quantifier patterns stay simple"""
        for off, t in s.leaves:
            a = s.e.arr_get(st, s.elems, off, s.e.sort_of(t))
            if a.num_args() == 0: continue
            c = _named.get(a.get_id())
            if c is None:
                c = (fresh(a.sort(), 'arr'), a); _named[a.get_id()] = c
            if all(f is not c[0] for _, f in s.e.__dict__.setdefault('named', [])): s.e.named.append((None, c[0])); s.e.facts.append(((), c[0] == a))
            st.arrs[(s.elems.id, off)] = c[0]
    def at(s, st, pos): return View(s.e, st, ptr(s.elems, 0, pos), s.ref)
    def elem(s, st, i): return View(s.e, st, s.eptr(st, i), s.ref)
def ForAllPos(q, st, lo, hi, P, name=None):
    """forall positions lo <= pos < hi of the sequence (absolute positions): P(pos)"""
    q.name_arrays(st)
    pos = z3.Int('pos!q'); b = Z(P(pos))
    t = None
    off, ty = q.leaves[0] if name is None else (q.e.mod.class_fields(q.ref)[name][0], [t for o, t in q.leaves if o == q.e.mod.class_fields(q.ref)[name][0]][0])
    pat = q.e.arr_get(st, q.elems, off, q.e.sort_of(ty))[pos]
    if isinstance(lo, int): lo = z3.IntVal(lo)
    return z3.ForAll([pos], z3.Implies(z3.And(pos >= lo, pos < hi), b), patterns=[pat])
def flat_leaves(mod, ref, base=0):
    for nm, (off, r) in mod.class_fields(ref).items():
        r = mod.strip(r); k = kind_of(mod, r)
        if k == 'class': yield from flat_leaves(mod, r, base + off)
        elif k == 'array': raise ToolLimit('array in element')
        else: yield base + off, ir_type(mod, r)
def seq_of(e, p, cls, T):
    alts = [a for a in p.alts if a[1] is not None]
    if len(alts) != 1 or alts[0][3] is not None: raise ToolLimit('ambiguous container %r' % p)
    _, o, off, _ = alts[0]
    d = e.__dict__.setdefault('seqs', {})
    q = d.get((o.id, off))
    if q is None: q = d[(o.id, off)] = Seq(e, o, off, cls, T)
    return q
def reset_lazy(e, st, q):
    st.ghost.pop
class SeqContract:
    name = 'container'
    def __init__(s, only=None): s.only = only
    def matches(s, name, dem): return PAT.match(dem) is not None
    def apply(s, e, st, args, ins):
        d = e.dem[ins.x['callee'].v.lstrip('@').strip('"')] if ins.x['callee'].k != 'loc' else None
        return s.do(e, st, args, ins, d)
    def do(s, e, st, args, ins, d):
        m = PAT.match(d); cls, T, meth = m.group(1), m.group(2), m.group(3)
        circ = cls == 'circular_buffer'
        s2 = '%s::%s' % (cls, meth)
        e.called_contracts.add('%s (proved by %s)' % (s2, 'C08' if circ else 'C07'))
        if meth.startswith('~'): return st, None
        q = seq_of(e, args[0], cls, T)
        w = e.where(ins)
        cnt, cap, base = q.get(st, 'cnt'), q.get(st, 'cap'), q.get(st, 'base')
        if meth == cls:
            q.set(st, 'cnt', 0); q.set(st, 'base', z3.IntVal(0)); q.set(st, 'cap', args[1] if len(args) > 1 else 50)
            for k in q.tails: q.set(st, k, z3.RealVal(0))
            return st, None
        if meth == 'count': return st, cnt
        if meth == 'get_max_size': return st, cap
        if meth in ('operator[]', 'get'):
            e.oblige(st, '%s: index within the sequence' % s2, b_and(cmpint('sge', args[1], 0), cmpint('slt', args[1], cnt)), w, 'pre')
            q.inst(st, i_add(base, args[1]))
            return st, q.eptr(st, args[1])
        if meth == 'clear':
            q.set(st, 'cnt', 0)
            for k in q.tails: q.set(st, k, z3.RealVal(0))
            return st, None
        if meth == 'resize':
            e.oblige(st, '%s: new capacity holds the elements' % s2, b_and(cmpint('sge', args[1], cnt), cmpint('sge', args[1], 1)), w, 'pre')
            q.set(st, 'cap', args[1]); return st, None
        if meth in ('pop_front', 'pop_back'):
            # throws on an empty sequence
            e.oblige(st, '%s: not empty' % s2, cmpint('sgt', cnt, 0), w, 'pre')
            for k in q.tails: e.fact(st, z3.Implies(zi(cnt) == 2, zr(q.get(st, k)) == zr(e.load(st, ptr(q.elems, q.tails[k], i_add(base, 1)), Ty('double')))))     # definition of the sum
            for k in q.tails: q.tail_add(st, cmpint('sge', cnt, 2), k, i_add(base, 1 if meth == 'pop_front' else i_sub(cnt, 1)), -1)
            for k in q.tails: q.set(st, k, z3.If(zi(cnt) <= 2, z3.RealVal(0), zr(q.get(st, k))))      # a single element has an empty tail
            q.inst(st, base if meth == 'pop_front' else i_add(base, i_sub(cnt, 1)))
            q.set(st, 'cnt', i_sub(cnt, 1))
            if meth == 'pop_front':
                q.set(st, 'base', i_add(base, 1)); return st, ptr(q.elems, 0, base)
            return st, ptr(q.elems, 0, i_add(base, i_sub(cnt, 1)))
        if meth in ('push_back', 'push_front'):
            if not circ:
                auto = s.autogrow(e, st, q)
                if auto is not True: e.oblige(st, '%s: not full' % s2, b_or(auto, cmpint('slt', cnt, cap)), w, 'pre')
                newcap = ite(cmpint('slt', cnt, cap), cap, i_mul(cap, 2)); newcnt = i_add(cnt, 1)
            else: newcap = cap; newcnt = ite(cmpint('slt', cnt, cap), i_add(cnt, 1), cap)
            if meth == 'push_front': nb = i_sub(base, 1); pos = nb
            else:
                pos = i_add(base, cnt); nb = base if not circ else ite(cmpint('slt', cnt, cap), base, i_add(base, 1))
            if q.prefix: q.prefix_ok(st)
            for off, t in q.leaves:
                v = e.load(st, padd(args[1], off), t, ins); e.store(st, ptr(q.elems, off, pos), v, t, ins)
            if q.prefix:
                if meth == 'push_front' or circ: raise ToolLimit('push_front with ghost prefixes')
                v = View(e, st, args[1], q.ref)
                for n, (sort, fn, op) in q.prefix.items():
                    P = q.pre(st, n); q.set(st, 'pre ' + n, z3.Store(P, zi(pos) + 1, op(P[zi(pos)], fn(v))))
                for off, a in q.leaf_terms(st): q.set(st, 'leaf%d' % off, a)
            if q.tails and (meth == 'push_front' or circ): raise ToolLimit('push_front with ghost sums')
            for k in q.tails: q.tail_add(st, cmpint('sge', cnt, 1), k, pos, 1)
            q.set(st, 'base', nb); q.set(st, 'cnt', newcnt); q.set(st, 'cap', newcap)
            return st, None
        if meth == 'copy':
            q2 = seq_of(e, args[1], cls, T)
            if q.prefix: raise ToolLimit('copy with ghost prefixes')
            for off, t in q.leaves:
                so = e.sort_of(t)
                st.arrs[(q.elems.id, off)] = e.arr_get(st, q2.elems, off, so)
            for k in ['cnt', 'base'] + list(q.tails): q.set(st, k, q2.get(st, k))
            q.set(st, 'cap', ite(cmpint('slt', cap, q2.get(st, 'cap')), q2.get(st, 'cap'), cap))
            return st, None
        raise ToolLimit('container method %s' % d)
    def autogrow(s, e, st, q):
        return getattr(q.obj, 'autogrow', {}).get(q.off, q.i0.get('auto', False))

class Auto:
    """loop-invariant templates, independent of variable names:
       ints:    list of (name, fn(st)) upper bounds; every integer local i written by the loop gets lo<=i, i<=B
       foralls: list of (name, fn(st, k)); every i gets  forall k. c<=k<i+d -> P(k)
       eqs:     list of (name, fn(st, i)); every double/bool local written gets  cell == f(i), also guarded by i>c
       ieqs:    the same for integer locals;  ifacts: list of (name, fn(st, i)) for every counter i
       extra:   list of (name, fn(st))"""
    def __init__(s, ints=(), foralls=(), eqs=(), extra=(), lows=(0, 1), shifts=(-1, 0, 1), guards=(None, 1), rel=(), flags=(), streqs=(), ieqs=(), ifacts=()):
        s.streqs, s.ieqs, s.ifacts = streqs, ieqs, ifacts
        s.ints, s.foralls, s.eqs, s.extra, s.lows, s.shifts, s.guards, s.rel, s.flags = ints, foralls, eqs, extra, lows, shifts, guards, rel, flags
    def __call__(s, e, f, header, body, entry): return s
    def invariants(s, e, fr, header, entry, mod):
        out = []
        icells = []
        for kd, k in mod:
            if kd == 'c':
                sz, proto = e.havoc_proto[(kd, k)]
                if sz in (4, 8) and not isinstance(proto, (Ptr, Undef, str, Fraction, FnRef)) and not (isz(proto) and proto.sort() != IntS) and OBJS[k[0]].kind in ('alloca', 'param', 'heap'): icells.append(k)
        k = z3.Int('k!q')
        def iv(c):
            def f(st):
                v = st.cells[c][1] if c in st.cells else e.load1(st, OBJS[c[0]], c[1], None, Ty('i', 32))
                return fresh(IntS, 'undef') if isinstance(v, Undef) else zi(v)
            return f
        def pv(c):
            def f(st):
                _, o, off, i = st.cells[c][1].alts[0]
                return zi(e.norm(o, off, i)[1])
            return f
        gs = [iv(c) for c in icells]
        for kd, k0 in mod:
            if kd == 'c':
                sz, proto = e.havoc_proto[(kd, k0)]
                if isinstance(proto, Ptr) and len(proto.alts) == 1 and proto.alts[0][1] is not None and proto.alts[0][1].stride and k0 in entry.cells and isinstance(entry.cells[k0][1], Ptr): gs.append(pv(k0))
            if kd == 'r':
                v = entry.regs.get(k0)
                if isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is not None and v.alts[0][1].stride:
                    def rv(st, k0=k0): _, o, off, i = st.regs[k0].alts[0]; return zi(e.norm(o, off, i)[1])
                    gs.append(rv)
        # relative quantities: unchanged since entry, alone or together with a counter
        for nm, Q in s.rel:
            q0 = Q(entry)
            if q0 is None: continue
            out.append(('%s as at entry' % nm, lambda st, Q=Q, q0=q0: Q(st) == q0, False))
            if q0.sort() == IntS:
                for g in gs:
                    g0 = g(entry)
                    for sg in (1, -1): out.append(('%s%+di as at entry' % (nm, sg), lambda st, Q=Q, q0=q0, g=g, g0=g0, sg=sg: Q(st) + sg * g(st) == q0 + sg * g0, False))
        for kd, c in mod:
            if kd == 'c' and s.streqs:
                proto = e.havoc_proto[(kd, c)][1]
                if isinstance(proto, str) or (isz(proto) and proto.sort() == StrS):
                    for nm, F in s.streqs: out.append((nm, lambda st, F=F, c=c: F(st, zs(st.cells[c][1])) if c in st.cells and not isinstance(st.cells[c][1], Undef) else False, False))
        for ci, gc in [(c, iv(c)) for c in icells]:
            for nm, F in s.ieqs:
                for gi, c in [(iv(c), c) for c in icells]:
                    if c != ci: out.append(('int cell=%s' % nm, lambda st, gc=gc, gi=gi, F=F: gc(st) == F(st, gi(st)), False))
        for nm, F in s.ifacts:
            for g in gs: out.append((nm, lambda st, g=g, F=F: F(st, g(st)), False))
        for g in gs:
            for lo in s.lows: out.append(('%d<=i' % lo, lambda st, g=g, lo=lo: g(st) >= lo, False))
            for nm, B in s.ints:
                for d in (0, -1, 1): out.append(('i<=%s%+d' % (nm, d), lambda st, g=g, B=B, d=d: g(st) <= zi(B(st)) + d, False))
            for nm, P in s.foralls:
                for lo in s.lows:
                    for d in s.shifts:
                        out.append(('%s for %d<=k<i%+d' % (nm, lo, d), lambda st, g=g, P=P, lo=lo, d=d: z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < g(st) + d), P(st, k))), False))
        for kd, c in mod:
            if kd != 'c' or c in icells: continue
            sz, proto = e.havoc_proto[(kd, c)]
            if isinstance(proto, (Ptr, FnRef, str)) or (isz(proto) and proto.sort() == StrS): continue
            for nm, F in s.eqs:
                for gi in gs or [lambda st: z3.IntVal(0)]:
                    for gd in s.guards:
                        def fn(st, c=c, F=F, gi=gi, gd=gd):
                            if c not in st.cells: return False
                            v = st.cells[c][1]
                            if isinstance(v, Undef): return True if gd is not None and not isz(gd) and False else z3.BoolVal(False) if gd is None else z3.Not(gi(st) > gd)
                            t = F(st, gi(st))
                            if t is None: return False
                            q = eq(v, t)
                            return q if gd is None else z3.Implies(gi(st) > gd, Z(q) if not isz(q) else q)
                        out.append(('cell=%s%s' % (nm, '' if gd is None else ' if i>%d' % gd), fn, False))
        # flags: (name, fn(st)) : a boolean local that holds implies P (or its negation does)
        for kd, c in mod:
            if kd != 'c' or e.havoc_proto[(kd, c)][0] != 1: continue
            proto = e.havoc_proto[(kd, c)][1]
            if isinstance(proto, (Ptr, FnRef)): continue
            def bv(st, c=c):
                v = st.cells[c][1] if c in st.cells else e.load1(st, OBJS[c[0]], c[1], None, Ty('i', 8))
                if isinstance(v, Undef): return None
                b = as_bool01(v)
                return b if b is not None else ((zi(v) % 2) != 0)
            for nm, F in s.flags:
                for neg in (False, True):
                    def fn(st, bv=bv, F=F, neg=neg):
                        b = bv(st)
                        if b is None: return False
                        return implies(b_not(b) if neg else b, F(st))
                    out.append(('%sflag => %s' % ('not ' if neg else '', nm), fn, False))
        for nm, F in s.extra: out.append((nm, F, False))
        return out

# ---------------------------------------------------------------- std::vector (assumed contract): elements and count
VEC = re.compile(r'^std::vector<(?:std::(?:__cxx11::)?)?(\w+)(?:<char.*?>)?, std::allocator<.*?> ?>::(~?\w+|operator\[\]|operator=)\((.*)\)( const)?$')
class Vec:
    def __init__(s, e, obj, off, T):
        s.e, s.obj, s.off, s.T = e, obj, off, T
        prim = {'double': Ty('double'), 'int': Ty('i', 32), 'long': Ty('i', 64), 'basic_string': 'str'}
        if T in prim: s.ref = None; s.stride = 32 if T == 'basic_string' else e.mod.size(prim[T]); s.leaves = [(0, prim[T])]
        else:
            s.ref = e.mod.classes().get(T)
            if s.ref is None: raise ToolLimit('vector element %s' % T)
            s.stride = int(e.mod.meta(s.ref)[1]['size']) // 8; s.leaves = list(flat_leaves(e.mod, s.ref))
        el = Obj('heap', '%s+%d.vec' % (obj.name, off)); el.stride = s.stride; el.dwleaves = s.leaves
        ty = e.cls_ty(T)
        if ty is not None: el.ety = ty
        s.elems = el
        s.n0 = z3.Int('size(%s.%s!%d)' % (obj.name, off, obj.id)); Engine.ghost_default[s.key()] = s.n0
        e.facts.append(((), z3.And(s.n0 >= 0, s.n0 < (1 << 28))))
        el.len = None
    def key(s): return ('vec', s.obj.id, s.off)
    def cnt(s, st): return st.ghost.get(s.key(), s.n0)
    def set(s, st, v): st.ghost[s.key()] = v
    def at(s, st, i): return View(s.e, st, ptr(s.elems, 0, i), s.ref)
    def arrs(s, st): return [(off, t, s.e.arr_get(st, s.elems, off, s.e.sort_of(t))) for off, t in s.leaves]
def vec_of(e, p, T):
    alts = [a for a in p.alts if a[1] is not None]
    if len(alts) != 1 or alts[0][3] is not None: raise ToolLimit('ambiguous vector %r' % p)
    _, o, off, _ = alts[0]
    d = e.__dict__.setdefault('vecs', {})
    if (o.id, off) not in d: d[(o.id, off)] = Vec(e, o, off, T)
    return d[(o.id, off)]
@models.M.rule(VEC.pattern)
def vec_model(s, st, a, ins, n, d):
    m = VEC.match(d); T, meth, sig = m.group(1), m.group(2), m.group(3)
    s.assumed.add('std::vector: elements and size behave as a sequence')
    if meth.startswith('~'): return None
    sret = meth in ()
    q = vec_of(s, a[0], T); c = q.cnt(st); w = s.where(ins)
    if meth == 'vector' and len(a) == 1 or meth == 'clear': q.set(st, 0); return None
    if meth == 'size': return c
    if meth == 'empty': return cmpint('eq', c, 0)
    if meth == 'begin': return ptr(q.elems, 0, 0)
    if meth == 'end': return ptr(q.elems, 0, c)
    if meth in ('operator[]', 'at'):
        s.oblige(st, 'vector index within the elements', b_and(cmpint('sge', a[1], 0), cmpint('slt', a[1], c)), w, 'safety'); return ptr(q.elems, 0, a[1])
    if meth == 'back':
        s.oblige(st, 'vector not empty', cmpint('sgt', c, 0), w, 'safety'); return ptr(q.elems, 0, i_sub(c, 1))
    if meth == 'reserve': return None
    if meth == 'push_back':
        for off, t in q.leaves: s.store(st, ptr(q.elems, off, c), s.load(st, padd(a[1], off), t, ins), t, ins)
        q.set(st, i_add(c, 1)); return None
    if meth in ('vector', 'operator=') and 'std::vector<' in sig:
        q2 = vec_of(s, a[1], T)
        for off, t, ar in q2.arrs(st): st.arrs[(q.elems.id, off)] = ar
        q.set(st, q2.cnt(st)); return a[0] if meth == 'operator=' else None
    raise ToolLimit('std::vector method %s' % d)
