"""Contracts of array_list<T> and circular_buffer<T> (GcodeProcessorLib/array_list.h, circular_buffer.h).
Abstract view of both: the finite sequence  view(k) = items_[(front_index_ + k) mod max_size_], 0<=k<count_."""
import z3
from engine import *
from contracts import *
from proof import *

AL = 'array_list<long>'
CB = 'circular_buffer<long>'
ELT = Ty('i', 64)

def wf_setup(u, o, cls, nm, sym=True):
    """well-formed container: the representation invariant, and nothing else"""
    v = u.view(o, cls)
    it = u.arr(nm + '.items', 8, None, ELT)
    o.ptr_targets[u.mod.class_fields(u.cref(cls))['items_'][0]] = it
    mx, fr, ct = v.max_size_, v.front_index_, v.count_
    it.len = mx
    u.assume(nm + ' representation invariant', wf(v))
    u.assume(nm + ' capacity below 2^28', mx < (1 << 28))
    return v
def wf(v):
    return b_and(v.max_size_ >= 1 if isz(v.max_size_) else v.max_size_ >= 1, zi(v.front_index_) >= 0, zi(v.front_index_) < zi(v.max_size_), zi(v.count_) >= 0, zi(v.count_) <= zi(v.max_size_))
def items(u, v, st):
    p = u.e.load(st, v.ptr_of('items_'), Ty('ptr'))
    if len(p.alts) == 1:
        return [(True, p.alts[0][1])]
    return [(g, o) for (g, o, _, _) in p.alts]
def view_fn(u, v, st):
    """returns (k -> element term) for the container in state st"""
    v = v.at(st)
    fr, mx = zi(v.front_index_), zi(v.max_size_)
    its = items(u, v, st)
    def at(k):
        pos = z3.If(fr + k >= mx, fr + k - mx, fr + k)
        r = None
        for (g, o) in reversed(its):
            x = z3.Select(u.e.arr_get(st, o, 0, IntS), pos)
            r = x if r is None else ite(g, x, r)
        return r
    return at
def store_ok(u, v, st):
    """the storage block has max_size_ elements and is alive"""
    v = v.at(st); cs = []
    for (g, o) in items(u, v, st):
        cs.append(implies(g, b_and(o is not None, True if o is None else b_not(st.freed.get(o.id, False)), True if o is None else eq(cap(o), v.max_size_))))
    return b_and(*cs)
def cap(o):
    if o.len is not None: return o.len
    nb = getattr(o, 'nbytes', None)
    if nb is None: return -1
    return nb // 8 if not isz(nb) else z3.If(zi(nb) % 8 == 0, zi(nb) / 8, -1)

def cellv(e, st, k):
    c = st.cells.get(k)
    return zi(c[1] if c is not None else e.load1(st, OBJS[k[0]], k[1], None, Ty('i', 32)))
class ViewCopyLoops:
    """loop template: for every integer i and array A written by the loop: A[k] for k<i agrees with the view
    of the source container; bounds of i come from the source's count"""
    def __init__(s, u, v, st0): s.u, s.v, s.st0 = u, v, st0
    def __call__(s, e, f, header, body, entry): return s
    def invariants(s, e, fr, header, entry, mod):
        u = s.u
        src = view_fn(u, s.v, s.st0)
        n = zi(s.v.at(s.st0).count_)
        ints = [k for kd, k in mod if kd == 'c' and isinstance(e.havoc_proto[(kd, k)][0], int) and e.havoc_proto[(kd, k)][0] == 4]
        arrs = [k for kd, k in mod if kd == 'a']
        out = []
        k = z3.Int('k!q')
        for ik in ints:
            g = lambda st, ik=ik: cellv(e, st, ik)
            out.append(('0<=i', lambda st, g=g: g(st) >= 0, False))
            out.append(('i<=count', lambda st, g=g: g(st) <= n, False))
            for ak in arrs:
                if e.arr_get(entry, OBJS[ak[0]], ak[1], IntS).sort().range() != IntS: continue
                A = lambda st, ak=ak: e.arr_get(st, OBJS[ak[0]], ak[1], IntS)
                out.append(('prefix copied', lambda st, g=g, A=A: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < g(st)), z3.Select(A(st), k) == src(k))), False))
        return out

def mk(mod, cls, method, opts=None, nm='c'):
    o = {'overflow': True, 'unroll': 6}
    o.update(opts or {})
    u = Unit(mod, r'^%s::%s' % (re.escape(cls), method), opts=o)
    obj = u.obj(cls, nm)
    v = wf_setup(u, obj, cls, nm)
    # new[] blocks: element count from the byte size
    return u, obj, v

def after(u, v, name=''):
    st = u.st1
    if st is None: u.ensure('returns', False); return None
    v1 = v.at(st)
    u.ensure('representation invariant re-established', wf(v1))
    u.ensure('storage block matches the capacity', store_ok(u, v1, st))
    return v1
def no_throw(u):
    for st, w in u.throwlist: u.e.oblige(st, 'does not throw', False, w, 'post')

def seq_units(cls, P):
    """units shared by both containers"""
    def count(mod):
        """count() returns the length of the view and changes nothing"""
        u, o, v = mk(mod, cls, r'count\(\) const$')
        u.run([ptr(o)]); u.ensure('result is the element count', eq(u.ret, v.at(u.st0).count_)); u.frame(o, [], cls); return u
    def get_max(mod):
        u, o, v = mk(mod, cls, r'get_max_size\(\) const$')
        u.run([ptr(o)]); u.ensure('result is the capacity', eq(u.ret, v.at(u.st0).max_size_)); u.frame(o, [], cls); return u
    def index_pos(mod):
        u, o, v = mk(mod, cls, r'get_index_position\(int\) const$')
        i = z3.Int('i'); u.assume('0<=i<=capacity', z3.And(i >= 0, i <= v.max_size_))
        u.run([ptr(o), i]); v0 = v.at(u.st0)
        fr, mx = v0.front_index_, v0.max_size_
        u.ensure('wraps around the capacity', eq(u.ret, z3.If(i == mx, fr, z3.If(fr + i >= mx, fr + i - mx, fr + i)))); u.frame(o, [], cls); return u
    def elem(method):
        def f(mod):
            u, o, v = mk(mod, cls, method)
            i = z3.Int('i'); u.assume('0<=i<count', z3.And(i >= 0, i < v.count_))
            u.run([ptr(o), i])
            for (g, oo, off, ix) in u.ret.alts:
                v0 = v.at(u.st0); fr, mx = v0.front_index_, v0.max_size_
                ok = oo is items(u, v, u.st0)[0][1] and off == 0 and ix is not None
                u.ensure('refers to element i of the view', implies(g, b_and(ok, eq(ix, z3.If(fr + i >= mx, fr + i - mx, fr + i)) if ok else False)))
            u.frame(o, [], cls); return u
        f.__doc__ = method; return f
    def clear(mod):
        u, o, v = mk(mod, cls, r'clear\(\)$'); u.run([ptr(o)]); v1 = after(u, v)
        u.ensure('empty', eq(v1.count_, 0)); u.frame(o, ['count_', 'front_index_'], cls); return u
    def pop(front):
        def f(mod):
            u, o, v = mk(mod, cls, r'pop_%s\(\)$' % ('front' if front else 'back'))
            c0 = v.count_; u.run([ptr(o)])
            src = view_fn(u, v, u.st0); arr0 = u.e.arr_get(u.st0, items(u, v, u.st0)[0][1], 0, IntS)
            if u.st1 is None: u.ensure('returns', False); return u
            v1 = after(u, v)
            new = view_fn(u, v, u.st1)
            k = z3.Int('k')
            u.ensure('one element fewer', eq(v1.count_, c0 - 1))
            u.ensure('remaining elements in order', z3.Implies(z3.And(k >= 0, k < zi(v1.count_)), new(k) == src(k + (1 if front else 0))))
            for (g, oo, off, ix) in u.ret.alts:
                val = z3.Select(u.e.arr_get(u.st1, oo, 0, IntS), zi(ix)) if oo is not None and oo.stride else None
                u.ensure('returns the removed element', implies(g, eq(val, src(0 if front else c0 - 1)) if val is not None else False))
            u.ensure('only returns on a non-empty container', c0 > 0)
            for st, w in u.throwlist:
                u.e.oblige(st, 'throws only when empty', c0 == 0, w, 'post')
                u.e.oblige(st, 'throw leaves the container unchanged', b_and(eq(v.at(st).count_, c0), eq(v.at(st).front_index_, v.at(u.st0).front_index_)), w, 'post')
            u.frame(o, ['count_', 'front_index_'], cls)
            return u
        f.__doc__ = 'pop_%s' % ('front' if front else 'back'); return f
    return [('count', count), ('get_max_size', get_max), ('index', index_pos), ('operator[]', elem(r'operator\[\]\(int\) const$')), ('get', elem(r'get\(int\) const$')), ('clear', clear), ('pop_front', pop(True)), ('pop_back', pop(False))]

def al_push(front):
    def f(mod):
        u, o, v = mk(mod, AL, r'push_%s\(long\)$' % ('front' if front else 'back'))
        x = z3.Int('x'); st0 = u.st.copy()
        u.e.opts['loops'] = ViewCopyLoops(u, v, st0)
        u.run([ptr(o), x]); v0 = v.at(u.st0); c0 = zi(v0.count_)
        src = view_fn(u, v, u.st0)
        v1 = after(u, v)
        if v1 is None: return u
        new = view_fn(u, v, u.st1); k = z3.Int('k')
        u.ensure('one element more', eq(v1.count_, c0 + 1))
        if front:
            u.ensure('new element is first', new(z3.IntVal(0)) == x)
            u.ensure('old elements follow in order', z3.Implies(z3.And(k >= 0, k < c0), new(k + 1) == src(k)))
        else:
            u.ensure('new element is last', new(c0) == x)
            u.ensure('old elements precede in order', z3.Implies(z3.And(k >= 0, k < c0), new(k) == src(k)))
        u.ensure('capacity unchanged unless full', z3.Implies(c0 < zi(v0.max_size_), eq(v1.max_size_, v0.max_size_)))
        u.ensure('a full fixed-capacity list does not return', z3.Implies(c0 == zi(v0.max_size_), zb(v0.auto_grow_)))
        for st, w in u.throwlist:
            u.e.oblige(st, 'throws only when full and not growable', b_and(c0 == zi(v0.max_size_), b_not(v0.auto_grow_)), w, 'post')
            u.e.oblige(st, 'throw leaves the container unchanged', b_and(eq(v.at(st).count_, c0), eq(v.at(st).front_index_, v0.front_index_), eq(v.at(st).max_size_, v0.max_size_)), w, 'post')
        u.frame(o, ['items_', 'max_size_', 'count_', 'front_index_'], AL)
        return u
    f.__doc__ = 'array_list push_%s' % ('front' if front else 'back'); return f
def resize_unit(cls):
    def f(mod):
        """resize keeps every element in order"""
        u, o, v = mk(mod, cls, r'resize\(int\)$')
        n = z3.Int('n'); u.assume('new capacity holds the elements', z3.And(n >= 1, n >= v.count_, n < (1 << 29)))
        u.e.opts['loops'] = ViewCopyLoops(u, v, u.st.copy())
        u.run([ptr(o), n]); src = view_fn(u, v, u.st0); v1 = after(u, v)
        if v1 is None: return u
        new = view_fn(u, v, u.st1); k = z3.Int('k')
        u.ensure('element count unchanged', eq(v1.count_, v.at(u.st0).count_)); u.ensure('capacity is n', eq(v1.max_size_, n))
        u.ensure('elements unchanged and in order', z3.Implies(z3.And(k >= 0, k < zi(v1.count_)), new(k) == src(k)))
        no_throw(u); return u
    return f
def copy_unit(cls):
    def f(mod):
        """copy makes the target an equal sequence, whatever its own or the source's rotation, and leaves the source alone"""
        u, o, v = mk(mod, cls, r'copy\(%s const&\)$' % re.escape(cls))
        so = u.obj(cls, 'src'); sv = wf_setup(u, so, cls, 'src')
        u.e.opts['loops'] = CopyLoops(u, sv, v, u.st.copy())
        u.run([ptr(o), ptr(so)]); src = view_fn(u, sv, u.st0); v1 = after(u, v)
        if v1 is None: return u
        new = view_fn(u, v, u.st1); k = z3.Int('k')
        u.ensure('element count equals the source', eq(v1.count_, sv.at(u.st0).count_))
        u.ensure('elements equal the source in order', z3.Implies(z3.And(k >= 0, k < zi(v1.count_)), new(k) == src(k)))
        u.ensure('source unchanged', z3.Implies(z3.And(k >= 0, k < zi(v1.count_)), view_fn(u, sv, u.st1)(k) == src(k)))
        u.frame(so, [], cls); no_throw(u); return u
    return f
class CopyLoops(ViewCopyLoops):
    def __init__(s, u, sv, v, st0): s.u, s.v, s.tv, s.st0 = u, sv, v, st0
    def invariants(s, e, fr, header, entry, mod):
        out = super().invariants(e, fr, header, entry, mod)
        # the resize loop inside copy copies the target's own (discarded) elements: only bounds matter
        n2 = zi(s.tv.at(entry).count_)
        src = view_fn(s.u, s.v, s.st0); n = zi(s.v.at(s.st0).count_); kk = z3.Int('k!q')
        for kd, k in list(mod):
            if kd == 'c' and e.havoc_proto[(kd, k)][0] == 4:
                g = lambda st, k=k: cellv(e, st, k)
                def pre(st, g=g):
                    tv = view_fn(s.u, s.tv, st)
                    return z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < g(st)), tv(kk) == src(kk)))
                out.append(('target prefix copied', pre, False))
                out.append(('i<=own count', lambda st, k=k: cellv(e, st, k) <= n2, False))
        return out
def al_ctor(sized):
    def f(mod):
        u = Unit(mod, r'^%s::array_list\(%s\)$' % (re.escape(AL), 'int' if sized else ''), opts={'overflow': True})
        o = u.obj(AL, 'c'); n = z3.Int('n'); u.assume('1<=n', z3.And(n >= 1, n < (1 << 28)))
        u.run([ptr(o)] + ([n] if sized else [])); v = u.view(o, AL, u.st1); after(u, v)
        u.ensure('starts empty', eq(v.count_, 0)); u.ensure('growable iff default constructed', eq(zb(v.auto_grow_), z3.BoolVal(not sized)))
        if sized: u.ensure('capacity is n', eq(v.max_size_, n))
        return u
    return f

def named(lst, pre):
    out = []
    for n, f in lst:
        def g(mod, f=f): return f(mod)
        g.__name__ = pre + '.' + n; g.__doc__ = f.__doc__; out.append(g)
    return out
ARRAY_LIST = named(seq_units(AL, None) + [('push_front', al_push(True)), ('push_back', al_push(False)), ('resize', resize_unit(AL)), ('copy', copy_unit(AL)), ('ctor()', al_ctor(False)), ('ctor(int)', al_ctor(True))], 'array_list')

# ---------------------------------------------------------------- circular_buffer
def cb_push_front(mod):
    """push_front puts the element first; when full it overwrites the oldest (last) element"""
    u, o, v = mk(mod, CB, r'push_front\(long\)$')
    x = z3.Int('x'); u.run([ptr(o), x]); v0 = v.at(u.st0); c0 = zi(v0.count_); mx = zi(v0.max_size_)
    src = view_fn(u, v, u.st0); v1 = after(u, v)
    if v1 is None: return u
    new = view_fn(u, v, u.st1); k = z3.Int('k')
    u.ensure('count grows by one up to the capacity', eq(v1.count_, z3.If(c0 < mx, c0 + 1, mx)))
    u.ensure('new element is first', new(z3.IntVal(0)) == x)
    u.ensure('kept elements follow in order', z3.Implies(z3.And(k >= 0, k + 1 < zi(v1.count_)), new(k + 1) == src(k)))
    u.frame(o, ['count_', 'front_index_'], CB); no_throw(u); return u
def cb_push_back(mod):
    """push_back puts the element last; when full it overwrites the oldest (first) element"""
    u, o, v = mk(mod, CB, r'push_back\(long\)$')
    x = z3.Int('x'); u.run([ptr(o), x]); v0 = v.at(u.st0); c0 = zi(v0.count_); mx = zi(v0.max_size_)
    src = view_fn(u, v, u.st0); v1 = after(u, v)
    if v1 is None: return u
    new = view_fn(u, v, u.st1); k = z3.Int('k')
    u.ensure('count grows by one up to the capacity', eq(v1.count_, z3.If(c0 < mx, c0 + 1, mx)))
    u.ensure('new element is last', new(zi(v1.count_) - 1) == x)
    u.ensure('kept elements precede in order', z3.Implies(z3.And(k >= 0, k < zi(v1.count_) - 1), new(k) == z3.If(c0 < mx, src(k), src(k + 1))))
    u.frame(o, ['count_', 'front_index_'], CB); no_throw(u); return u
class BoundsOnly:
    """every int counter i written by the loop stays within [0, capacity]; containers stay well formed"""
    def __init__(s, u, v): s.u, s.v = u, v
    def __call__(s, e, f, header, body, entry): return s
    def invariants(s, e, fr, header, entry, mod):
        out = []
        n = zi(s.v.at(entry).max_size_)
        for kd, k in mod:
            if kd == 'c' and e.havoc_proto[(kd, k)][0] == 4:
                g = lambda st, k=k: cellv(e, st, k)
                out += [('0<=i', lambda st, g=g: g(st) >= 0, False), ('i<=capacity', lambda st, g=g: g(st) <= n, False), ('i<capacity', lambda st, g=g: g(st) < n, False)]
        out.append(('container well formed', lambda st: wf(s.v.at(st)), False))
        return out
def cb_initialize(mod):
    """initialize leaves an empty, well-formed buffer of the same capacity"""
    u, o, v = mk(mod, CB, r'initialize\(long\)$')
    x = z3.Int('x'); u.e.opts['loops'] = BoundsOnly(u, v); u.run([ptr(o), x]); v1 = after(u, v)
    if v1 is None: return u
    u.ensure('empty', eq(v1.count_, 0)); u.frame(o, ['count_', 'front_index_'], CB); no_throw(u); return u
class FillLoops(ViewCopyLoops):
    """as ViewCopyLoops, and for the filling loop: elements below the source count keep their value, counter in range"""
    def __init__(s, u, v, st0, n): s.u, s.v, s.st0, s.n = u, v, st0, n
    def invariants(s, e, fr, header, entry, mod):
        out = super().invariants(e, fr, header, entry, mod)
        src = view_fn(s.u, s.v, s.st0); n = zi(s.v.at(s.st0).count_); k = z3.Int('k!q')
        for kd, q in mod:
            if kd == 'c' and e.havoc_proto[(kd, q)][0] == 4:
                g = lambda st, q=q: cellv(e, st, q)
                out += [('i>=count', lambda st, g=g: g(st) >= n, False), ('i<=capacity', lambda st, g=g: g(st) <= s.n, False)]
            if kd == 'a' and e.arr_get(entry, OBJS[q[0]], q[1], IntS).sort().range() == IntS:
                A = lambda st, q=q: e.arr_get(st, OBJS[q[0]], q[1], IntS)
                out.append(('copied elements kept', lambda st, A=A: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(A(st), k) == src(k))), False))
        return out
def cb_resize_fill(mod):
    """resize(n, object) keeps every element in order"""
    u, o, v = mk(mod, CB, r'resize\(int, long\)$')
    n = z3.Int('n'); x = z3.Int('x'); u.assume('new capacity holds the elements', z3.And(n >= 1, n >= v.count_, n < (1 << 29)))
    u.e.opts['loops'] = FillLoops(u, v, u.st.copy(), n)
    u.run([ptr(o), n, x]); src = view_fn(u, v, u.st0); v1 = after(u, v)
    if v1 is None: return u
    new = view_fn(u, v, u.st1); k = z3.Int('k')
    u.ensure('element count unchanged', eq(v1.count_, v.at(u.st0).count_)); u.ensure('capacity is n', eq(v1.max_size_, n))
    u.ensure('elements unchanged and in order', z3.Implies(z3.And(k >= 0, k < zi(v1.count_)), new(k) == src(k)))
    no_throw(u); return u
def cb_ctor(sized):
    def f(mod):
        u = Unit(mod, r'^%s::circular_buffer\(%s\)$' % (re.escape(CB), 'int' if sized else ''), opts={'overflow': True})
        o = u.obj(CB, 'c'); n = z3.Int('n'); u.assume('1<=n', z3.And(n >= 1, n < (1 << 28)))
        u.run([ptr(o)] + ([n] if sized else [])); v = u.view(o, CB, u.st1); after(u, v)
        u.ensure('starts empty', eq(v.count_, 0))
        if sized: u.ensure('capacity is n', eq(v.max_size_, n))
        return u
    return f
CIRCULAR = named(seq_units(CB, None) + [('push_front', cb_push_front), ('push_back', cb_push_back), ('initialize', cb_initialize), ('resize', resize_unit(CB)), ('resize_fill', cb_resize_fill), ('copy', copy_unit(CB)), ('ctor()', cb_ctor(False)), ('ctor(int)', cb_ctor(True))], 'circular_buffer')
# ---------------------------------------------------------------- circular_buffer as a ring: all capacity slots, whatever the count
# (gcode_position::initialize leaves the count at 0 with every slot filled; update and undo then read slots 0 and 1)
def ring_at(mod):
    """operator[] / get: slot k of the ring for every k below the capacity, whatever the count"""
    u, o, v = mk(mod, CB, r'operator\[\]\(int\) const$'); i = z3.Int('i'); u.assume('0<=i<capacity', z3.And(i >= 0, i < v.max_size_)); u.run([ptr(o), i])
    for (g, oo, off, ix) in u.ret.alts:
        v0 = v.at(u.st0); fr, mx = v0.front_index_, v0.max_size_; ok = oo is items(u, v, u.st0)[0][1] and off == 0 and ix is not None
        u.ensure('refers to slot i of the ring', implies(g, b_and(ok, eq(ix, z3.If(fr + i >= mx, fr + i - mx, fr + i)) if ok else False)))
    u.frame(o, [], CB); no_throw(u); return u
def ring_push(mod):
    """push_front: the new element is slot 0, every other slot moves up by one, the last one is dropped"""
    u, o, v = mk(mod, CB, r'push_front\(long\)$'); x = z3.Int('x'); u.run([ptr(o), x]); mx = zi(v.at(u.st0).max_size_); src = view_fn(u, v, u.st0); v1 = after(u, v)
    if v1 is None: return u
    new = view_fn(u, v, u.st1); k = z3.Int('k'); u.ensure('slot 0 is the new element', new(z3.IntVal(0)) == x); u.ensure('the others move up', z3.Implies(z3.And(k >= 0, k + 1 < mx), new(k + 1) == src(k)))
    u.ensure('not empty afterwards', zi(v1.count_) > 0); no_throw(u); return u
def ring_pop(mod):
    """pop_front: every slot moves down by one; it throws only when nothing was pushed"""
    u, o, v = mk(mod, CB, r'pop_front\(\)$'); u.run([ptr(o)]); mx = zi(v.at(u.st0).max_size_); c0 = zi(v.at(u.st0).count_); src = view_fn(u, v, u.st0); v1 = after(u, v)
    if v1 is None: return u
    new = view_fn(u, v, u.st1); k = z3.Int('k'); u.ensure('the others move down', z3.Implies(z3.And(k >= 0, k + 1 < mx), new(k) == src(k + 1)))
    for st, w in u.throwlist: u.e.oblige(st, 'throws only when nothing was pushed', c0 == 0, w, 'post')
    return u
RING = named([('slot', ring_at), ('push', ring_push), ('pop', ring_pop)], 'ring')
