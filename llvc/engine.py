import os
"""llvc: a deductive verification-condition generator for LLVM IR, with z3 as the back end.

* one function at a time, all inputs, all iterations; callers use callee contracts
* loops are cut by invariants (given by the contract or inferred from templates); a loop is only
  unrolled when its trip count is decided by the path condition (complete, not bounded)
* memory = objects (parameters, locals, heap blocks, globals) with byte-offset cells; arrays of
  symbolic index are SMT arrays per leaf offset of the element
* double is interpreted as real (assumption A-REAL), iN as a mathematical integer kept in range
"""
import z3, itertools, time, os
from fractions import Fraction
from ir import *

z3.set_param('smt.random_seed', 0)
RealS, IntS, BoolS, StrS = z3.RealSort(), z3.IntSort(), z3.BoolSort(), z3.StringSort()
MAXD = Fraction(*(1.7976931348623157e308).as_integer_ratio())

# ------------------------------------------------------------------ terms (python const or z3)
def isz(x): return isinstance(x, z3.ExprRef)
def zi(x): return x if isz(x) else z3.IntVal(int(x))
def zr(x):
    if isz(x): return z3.ToReal(x) if x.sort() == IntS else x
    if isinstance(x, Fraction): return z3.RealVal(str(x.numerator) + '/' + str(x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    return z3.RealVal(x)
def zb(x): return x if isz(x) else z3.BoolVal(bool(x))
def zs(x): return x if isz(x) else z3.StringVal(x)
def Z(x):
    if isz(x): return x
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return zr(x)
    if isinstance(x, str): return z3.StringVal(x)
    raise ToolLimit('not a term: %r' % (x,))
def b_and(*xs):
    out = []
    for x in xs:
        if isz(x):
            if z3.is_true(x): continue
            if z3.is_false(x): return False
            out.append(x)
        elif not x: return False
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def b_or(*xs):
    out = []
    for x in xs:
        if isz(x):
            if z3.is_false(x): continue
            if z3.is_true(x): return True
            out.append(x)
        elif x: return True
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def b_not(x):
    if not isz(x): return not x
    if z3.is_not(x): return x.arg(0)
    if z3.is_true(x): return False
    if z3.is_false(x): return True
    return z3.Not(x)
def implies(a, b):
    return b_or(b_not(a), b)
def same(a, b):
    if isz(a) and isz(b): return a.eq(b)
    if isz(a) or isz(b): return False
    return type(a) == type(b) and a == b
def ite(c, a, b):
    if not isz(c): return a if c else b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if same(a, b): return a
    if isinstance(a, Ptr) or isinstance(b, Ptr): return ptr_ite(c, a, b)
    if isinstance(a, Agg): return Agg([ite(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if isinstance(a, FnRef) or isinstance(b, FnRef):
        if a == b: return a
        raise ToolLimit('merge of function pointers')
    if isinstance(a, (bool,)) or (isz(a) and a.sort() == BoolS):
        if not isz(a) and not isz(b): return c if a else b_not(c)
        if not isz(a): return b_or(c, b) if a else b_and(b_not(c), b)
        if not isz(b): return b_or(b_not(c), a) if b else b_and(c, a)
        return z3.If(c, a, b)
    za, zb_ = Z(a), Z(b)
    if za.sort() != zb_.sort():
        if za.sort() == RealS or zb_.sort() == RealS: za, zb_ = zr(za), zr(zb_)
        else: raise ToolLimit('merge sorts %s %s' % (za.sort(), zb_.sort()))
    return z3.If(c, za, zb_)
def eq(a, b):
    if isinstance(a, Ptr): return ptr_eq(a, b)
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    za, zb_ = Z(a), Z(b)
    if za.sort() != zb_.sort() and (za.sort() == RealS or zb_.sort() == RealS): za, zb_ = zr(za), zr(zb_)
    return za == zb_

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()
class Agg:
    def __init__(s, v): s.v = v
class FnRef:
    def __init__(s, name): s.name = name
    def __eq__(s, o): return isinstance(o, FnRef) and s.name == o.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return 'fn ' + s.name

# ------------------------------------------------------------------ objects and pointers
class Obj:
    _n = itertools.count()
    def __init__(s, kind, name, size=None, lazy=True, ty=None, cls=None):
        s.id = next(Obj._n); s.kind = kind; s.name = name; s.size = size; s.lazy = lazy; s.ty = ty; s.cls = cls
        s.stride = None      # array object: element size
        s.len = None         # array object: number of elements (term) or None
        s.dyn = None         # dynamic class (for virtual calls)
        s.base = {}          # offset -> initial (lazily created) value
        s.const_init = None
        s.addr = None
        s.ptr_targets = {}   # offset -> Obj or callable for lazily loaded pointers
        s.ghost = {}
        s.watch = ()         # (lo, hi, ghost key): a store in that range clears the ghost flag
    def __repr__(s): return '<%s %s#%d>' % (s.kind, s.name, s.id)

class Ptr:
    """alternatives: list of (guard, obj|None, off, idx) ; idx is None or an Int term (element index)"""
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts
    def __repr__(s): return 'Ptr%r' % (s.alts,)
def ptr(obj, off=0, idx=None): return Ptr([(True, obj, off, idx)])
NULL = Ptr([(True, None, 0, None)])
def ptr_ite(c, a, b):
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise ToolLimit('ptr merge with non pointer')
    out = []
    for (g, o, f, i) in a.alts: out.append((b_and(c, g), o, f, i))
    nc = b_not(c)
    for (g, o, f, i) in b.alts:
        for k, (g2, o2, f2, i2) in enumerate(out):
            if o2 is o and f2 == f:
                if (i is None and i2 is None) or (i is not None and i2 is not None and same(i, i2)):
                    out[k] = (b_or(g2, b_and(nc, g)), o2, f2, i2); break
                if o is not None:
                    out[k] = (b_or(g2, b_and(nc, g)), o2, f2, ite(g2, i2 if i2 is not None else 0, i if i is not None else 0)); break
        else: out.append((b_and(nc, g), o, f, i))
    out = [a for a in out if a[0] is not False]
    if len(out) == 1: out = [(True,) + out[0][1:]]
    return Ptr(out)
def ptr_eq(a, b):
    cs = []
    for (g, o, f, i) in a.alts:
        for (g2, o2, f2, i2) in b.alts:
            if o is not o2: continue
            if o is None: cs.append(b_and(g, g2)); continue
            st = o.stride or 1
            if i is None and i2 is None:
                if f == f2: cs.append(b_and(g, g2))
            else:
                d = f - f2
                # off+idx*stride equal
                cs.append(b_and(g, g2, eq(i_add(i_mul(0 if i is None else i, st), f), i_add(i_mul(0 if i2 is None else i2, st), f2))))
    return b_or(*cs)

def i_add(a, b):
    if not isz(a) and not isz(b): return a + b
    if not isz(a) and a == 0: return b
    if not isz(b) and b == 0: return a
    return zi(a) + zi(b)
def i_sub(a, b):
    if not isz(a) and not isz(b): return a - b
    if not isz(b) and b == 0: return a
    if isz(a) and isz(b) and a.eq(b): return 0
    return zi(a) - zi(b)
def i_mul(a, b):
    if not isz(a) and not isz(b): return a * b
    if not isz(a) and a == 1: return b
    if not isz(b) and b == 1: return a
    if (not isz(a) and a == 0) or (not isz(b) and b == 0): return 0
    return zi(a) * zi(b)
def c_div(a, b):
    if not isz(a) and not isz(b):
        q = abs(a) // abs(b); return q if (a >= 0) == (b >= 0) else -q
    a, b = zi(a), zi(b)
    # truncation toward zero
    return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
def c_rem(a, b):
    return i_sub(a, i_mul(b, c_div(a, b))) if not (isz(a) or isz(b)) else z3.If(zi(a) >= 0, zi(a) % zi(b), -((-zi(a)) % zi(b)))
def wrap(x, n):
    if n >= 128: return x
    M = 1 << n
    if not isz(x):
        x &= M - 1
        return x - M if x >> (n - 1) else x
    return z3.If(z3.And(x >= -(M >> 1), x < (M >> 1)), x, (x + (M >> 1)) % M - (M >> 1))
def unsig(x, n):
    if not isz(x): return x & ((1 << n) - 1)
    return z3.If(x < 0, x + (1 << n), x)

# real arithmetic
def r_op(op, a, b):
    if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
    if not isz(a) and not isz(b):
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if b != 0: return Fraction(a) / b
    a, b = zr(a), zr(b)
    if op == '+': return a + b
    if op == '-': return a - b
    if op == '*': return a * b
    return a / b

_uf = {}
def UF(name, *sorts):
    if name not in _uf: _uf[name] = z3.Function(name, *sorts)
    return _uf[name]
_fresh = itertools.count()
def fresh(sort, name): return z3.Const('%s!%d' % (name, next(_fresh)), sort)

# ------------------------------------------------------------------ state
class State:
    """pc: tuple of z3 conjuncts; cells: {(objid, off): (size, value)}; arrs: {(objid, leafoff): z3 array}"""
    def __init__(s):
        s.pc = ()
        s.cells = {}
        s.arrs = {}
        s.regs = {}
        s.freed = {}
        s.over = {}    # objid -> list of (dstoff,len,srcobj,srcoff) lazy origins (memcpy from lazy object)
        s.ghost = {}
    def copy(s):
        t = State()
        t.pc = s.pc; t.cells = dict(s.cells); t.arrs = dict(s.arrs); t.regs = dict(s.regs); t.freed = dict(s.freed)
        t.over = dict(s.over); t.ghost = dict(s.ghost)
        return t
    def add(s, c):
        if isz(c):
            if z3.is_true(c): return True
            if z3.is_false(c): return False
            s.pc = s.pc + (c,)
            return True
        return bool(c)

class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'nf', 'where', 'kind', 'status', 'time', 'backend', 'model', 'snap', 'reason', 'ring')
    def __init__(s, name, pc, goal, nf, where, kind):
        s.name, s.pc, s.goal, s.nf, s.where, s.kind = name, pc, goal, nf, where, kind
        s.status = None; s.time = 0; s.backend = None; s.model = None; s.snap = None; s.reason = None; s.ring = None

class Quiet(Exception): pass

class Contract:
    """Contract on a function of /repo.
    pre(c) / post(c, ret) return lists of (name, formula); modifies(c) performs the havoc.
    'apply' (callers) = assert pre; havoc frame; assume post.  Subclasses may override apply with a
    deterministic transition (functional contract)."""
    name = None

SPEC = [0]     # >0 while specification code reads the state
class Engine:
    def __init__(s, mod, registry, models, opts=None):
        s.mod, s.registry, s.models = mod, registry, models
        s.opts = opts or {}
        s.dem = mod.demangled()
        s.facts = []           # (guard pc tuple, formula)
        s.obls = []
        s.quiet = 0
        s.assumed = set()      # external contracts used
        s.inlined = set()
        s.called_contracts = set()
        s.depth = 0
        s.cur = None
        s.gobjs = {}
        s.loopinv = {}
        s.unroll_max = s.opts.get('unroll', 64)
        s.check_bounds = s.opts.get('bounds', True)
        s.check_overflow = s.opts.get('overflow', False)
        s.throws = []          # stack of lists of (state, info)
        s.stack = []
        s.feas_timeout = 2000
        s.topname = None
        s.t_feas = 0
        s.path_hooks = []
    # ---------- facts / obligations
    def fact(s, st, f):
        if isz(f) and not z3.is_true(f): s.facts.append((st.pc, f))
        elif f is False: s.facts.append((st.pc, z3.BoolVal(False)))
    def fact_expr(s, i):
        pc, f = s.facts[i]
        return f if not pc else z3.Implies(z3.And(*pc) if len(pc) > 1 else pc[0], f)
    def oblige(s, st, name, goal, where='', kind='post'):
        if s.quiet or SPEC[0]: return
        if goal is True: goal = z3.BoolVal(True)
        if goal is False: goal = z3.BoolVal(False)
        s.obls.append(Obligation(name, st.pc, goal, len(s.facts), where, kind))
    def where(s, ins=None):
        if s.stack:
            f = s.stack[-1]
            l = s.mod.line_of(ins.line) if ins is not None and ins.line else 0
            return '%s:%s' % (s.dem.get(f.name, f.name).split('(')[0], l)
        return ''
    def feasible(s, pc, extra=None):
        t = time.time()
        sol = z3.Solver(); sol.set('timeout', s.feas_timeout)
        for i in range(len(s.facts)):
            sol.add(s.fact_expr(i))
        for c in pc: sol.add(c)
        if extra is not None: sol.add(Z(extra))
        r = sol.check()
        s.t_feas += time.time() - t
        return r != z3.unsat
    # ---------- memory
    def obj_arrayize(s, obj, stride):
        if obj.stride is None: obj.stride = stride
        return obj.stride
    def lazy(s, st, obj, off, ty, size, hintbool=False):
        key = off
        if key in obj.base: return obj.base[key]
        if not obj.lazy:
            obj.base[key] = UNDEF; return UNDEF
        nm = '%s.%s' % (obj.name, off)
        if ty == 'str': v = z3.Const(nm + '$s!%d' % obj.id, StrS)
        elif ty.k == 'double' or ty.k == 'float': v = z3.Const(nm + '!%d' % obj.id, RealS)
        elif ty.k == 'i':
            if ty.n == 8 and hintbool:
                v = z3.If(z3.Const(nm + 'b!%d' % obj.id, BoolS), z3.IntVal(1), z3.IntVal(0))
            elif ty.n == 1: v = z3.Const(nm + '!%d' % obj.id, BoolS)
            else:
                v = z3.Const(nm + '!%d' % obj.id, IntS)
                s.facts.append(((), z3.And(v >= -(1 << (ty.n - 1)), v < (1 << (ty.n - 1)))))
        elif ty.k == 'ptr':
            tg = obj.ptr_targets.get(off)
            if tg is None:
                o = Obj('param', nm + '*'); v = ptr(o)
            elif callable(tg): v = tg()
            elif isinstance(tg, Ptr): v = tg
            else: v = ptr(tg)
        else: raise ToolLimit('lazy %r' % ty)
        obj.base[key] = v
        return v
    def arr_get(s, st, obj, leaf, sort):
        k = (obj.id, leaf)
        a = st.arrs.get(k)
        if a is None:
            bk = ('arr', leaf)
            if bk not in obj.base:
                for (off, v) in list(obj.base.items()): pass
                obj.base[bk] = z3.Const('%s[].%s!%d' % (obj.name, leaf, obj.id), z3.ArraySort(IntS, sort))
            a = obj.base[bk]
        if a.sort().range() != sort:
            raise ToolLimit('array leaf sort mismatch %s %s %s' % (obj, leaf, sort))
        return a
    def norm(s, obj, off, idx):
        """normalise a location: returns (leafoff, idx or None)"""
        if obj.stride:
            if obj.stride > 0:
                q, r = divmod(off, obj.stride)
                return r, i_add(idx if idx is not None else 0, q)
        if idx is not None:
            if not isz(idx): raise ToolLimit('idx on scalar obj')
            raise ToolLimit('symbolic index into non-array object %r' % obj)
        return off, None
    def sort_of(s, ty):
        if ty == 'str': return StrS
        if ty.k in ('double', 'float'): return RealS
        if ty.k == 'i': return BoolS if ty.n == 1 else IntS
        raise ToolLimit('array element of type %r' % ty)
    def tysize(s, ty): return 32 if ty == 'str' else s.mod.size(ty)
    def load(s, st, p, ty, ins=None, hintbool=False):
        if isinstance(p, Undef): raise ToolLimit('load through undef %s' % s.where(ins))
        if not isinstance(p, Ptr): raise ToolLimit('load through %r' % (p,))
        res = None
        alts = p.alts
        nonnull = [a for a in alts if a[1] is not None]
        if len(nonnull) != len(alts):
            g = b_or(*[a[0] for a in nonnull])
            s.oblige(st, 'no null dereference', g, s.where(ins), 'safety')
            if not nonnull: return s.fresh_of(ty)
        for (g, o, off, idx) in reversed(nonnull):
            v = s.load1(st, o, off, idx, ty, ins, hintbool, g)
            res = v if res is None else ite(g, v, res)
        return res
    def fresh_of(s, ty, nm='u'):
        if ty == 'str': return fresh(StrS, nm)
        if ty.k in ('double', 'float'): return fresh(RealS, nm)
        if ty.k == 'i':
            if ty.n == 1: return fresh(BoolS, nm)
            v = fresh(IntS, nm)
            s.facts.append(((), z3.And(v >= -(1 << (ty.n - 1)), v < (1 << (ty.n - 1)))))
            return v
        if ty.k == 'ptr': return ptr(Obj('param', nm + '*'))
        raise ToolLimit('fresh %r' % ty)
    def chk_access(s, st, o, i, ins, g, write=False):
        fr = st.freed.get(o.id)
        if fr is not None:
            s.oblige(st, 'no use after delete', b_not(b_and(g, fr)), s.where(ins), 'safety')
        if i is not None and o.len is not None and s.check_bounds:
            s.oblige(st, 'array index in bounds', implies(g, b_and(zi(i) >= 0, zi(i) < zi(o.len)) if isz(i) or isz(o.len) else (0 <= i < o.len)), s.where(ins), 'safety')
    def load1(s, st, o, off, idx, ty, ins=None, hintbool=False, g=True):
        off, i = s.norm(o, off, idx)
        s.chk_access(st, o, i, ins, g)
        if i is not None:
            if ty != 'str' and ty.k == 'ptr': raise ToolLimit('pointer array element load %r' % o)
            if o.const_init is not None and not isz(i) and 0 <= i < len(o.const_init): return o.const_init[i]
            k = (o.id, off)
            if k not in st.arrs and o.const_init is not None:
                a = z3.K(IntS, z3.IntVal(0)) if s.sort_of(ty) == IntS else z3.K(IntS, z3.RealVal(0))
                for j, v in enumerate(o.const_init): a = z3.Store(a, j, Z(v))
                st.arrs[k] = a
            r = z3.Select(s.arr_get(st, o, off, s.sort_of(ty)), zi(i))
            r = z3.simplify(r) if not isz(i) else r
            if z3.is_int_value(r): r = r.as_long()
            if ty != 'str' and ty.k == 'i' and ty.n > 1 and isz(r):
                s.facts.append(((), z3.And(r >= -(1 << (ty.n - 1)), r < (1 << (ty.n - 1)))))
            return r
        c = st.cells.get((o.id, off))
        size = s.tysize(ty)
        if c is not None:
            if c[0] == size: 
                v = c[1]
                if isinstance(v, Undef) : return UNDEF
                return s.coerce(v, ty)
            if c[0] == 'zero':
                pass
            else:
                raise ToolLimit('load size mismatch at %r+%s: %s vs %s (%s)' % (o, off, c[0], size, s.where(ins)))
        ov = st.over.get(o.id)
        if ov:
            for (d, ln, so, soff) in reversed(ov):
                if d <= off < d + ln:
                    if so is None: return s.zero_of(ty)
                    if so == 'havoc':
                        v = s.fresh_of(ty, 'hv'); st.cells[(o.id, off)] = (size, v); return v
                    if so.const_init is not None: raise ToolLimit('memcpy of const')
                    return s.load_base(st, so, soff + off - d, ty, size, hintbool)
        return s.load_base(st, o, off, ty, size, hintbool)
    def load_base(s, st, o, off, ty, size, hintbool):
        v = s.lazy(st, o, off, ty, size, hintbool)
        return s.coerce(v, ty)
    def coerce(s, v, ty):
        if isinstance(v, Undef): return v
        if ty == 'str': return v
        if ty.k == 'i' and ty.n > 1 and isinstance(v, bool): return int(v)
        if ty.k == 'i' and ty.n > 1 and isz(v) and v.sort() == BoolS: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if ty.k == 'i' and isz(v) and v.sort() == RealS: raise ToolLimit('real cell loaded as int')
        if ty.k == 'i' and isinstance(v, Fraction): raise ToolLimit('real cell loaded as int')
        if ty.k == 'double' and ((isz(v) and v.sort() == IntS)): raise ToolLimit('int cell loaded as real')
        if ty.k == 'ptr' and not isinstance(v, (Ptr, FnRef)):
            raise ToolLimit('non-pointer cell loaded as ptr')
        return v
    def zero_of(s, ty):
        if ty == 'str': return ''
        if ty.k in ('double', 'float'): return Fraction(0)
        if ty.k == 'i': return False if ty.n == 1 else 0
        if ty.k == 'ptr': return NULL
        raise ToolLimit('zero')
    def store(s, st, p, v, ty, ins=None):
        if isinstance(p, Undef) or not isinstance(p, Ptr): raise ToolLimit('store through %r %s' % (p, s.where(ins)))
        alts = p.alts
        nonnull = [a for a in alts if a[1] is not None]
        if len(nonnull) != len(alts):
            g = b_or(*[a[0] for a in nonnull])
            s.oblige(st, 'no null dereference', g, s.where(ins), 'safety')
        for (g, o, off, idx) in nonnull:
            off2, i = s.norm(o, off, idx)
            s.chk_access(st, o, i, ins, g, True)
            if i is not None:
                so = s.sort_of(ty) if not isinstance(v, Ptr) else None
                if so is None: raise ToolLimit('pointer stored in array element')
                a = s.arr_get(st, o, off2, so)
                vv = fresh(so, 'undef') if isinstance(v, Undef) else (zr(v) if so == RealS else Z(v))
                n = z3.Store(a, zi(i), vv)
                st.arrs[(o.id, off2)] = n if g is True else z3.If(g, n, a)
                for lo, hi, key in o.watch: st.ghost[key] = False
                continue
            size = s.tysize(ty)
            # kill overlapping cells
            k = (o.id, off2)
            old = st.cells.get(k)
            if g is not True:
                oldv = s.load1(st, o, off, idx, ty, ins)
                v2 = ite(g, v, oldv)
            else: v2 = v
            if old is None or old[0] != size:
                for d in range(1, 8):
                    q = st.cells.get((o.id, off2 - d))
                    if q is not None and isinstance(q[0], int) and q[0] > d: raise ToolLimit('overlapping store %r+%d %s' % (o, off2, s.where(ins)))
                for d in range(1, size):
                    st.cells.pop((o.id, off2 + d), None)
            st.cells[k] = (size, v2)
            for lo, hi, key in o.watch:
                if lo <= off2 < hi: st.ghost[key] = False
    def bytes_at(s, p):
        """(object, index) of a place in a byte array, or None"""
        if not isinstance(p, Ptr) or len(p.alts) != 1: return None
        (_, o, off, i), = p.alts
        if o is None or o.stride != 1 or o.const_init is not None: return None
        return o, i_add(i if i is not None else 0, off)
    def fill(s, st, d, n, val, ins, src=None):
        """bytes d[0..n) := val(k); n may be symbolic"""
        o, i = d; w = s.where(ins); n = zi(n); i = zi(i)
        s.oblige(st, 'length of the copy is not negative', n >= 0, w, 'safety')
        for (ob, ix) in (d,) + ((src,) if src else ()):
            fr = st.freed.get(ob.id)
            if fr is not None: s.oblige(st, 'no use after delete', b_not(fr), w, 'safety')
            if ob.len is not None and s.check_bounds: s.oblige(st, 'array index in bounds', z3.Implies(n > 0, z3.And(zi(ix) >= 0, zi(ix) + n <= zi(ob.len))), w, 'safety')
        if src is not None and src[0] is o: raise ToolLimit('memcpy within a byte array %s' % w)
        a = s.arr_get(st, o, 0, IntS); b = fresh(a.sort(), 'bytes'); k = z3.Int('k!q')
        s.facts.append((st.pc, z3.ForAll([k], b[k] == z3.If(z3.And(k >= i, k < i + n), val(k - i), a[k]), patterns=[b[k]])))
        st.arrs[(o.id, 0)] = b
        for lo, hi, key in o.watch: st.ghost[key] = False
    def memcpy(s, st, d, sr, n, ins=None):
        bd, bs = s.bytes_at(d), s.bytes_at(sr)
        if bd and bs:
            sa = s.arr_get(st, bs[0], 0, IntS); return s.fill(st, bd, n, lambda k: sa[k + zi(bs[1])], ins, bs)
        if isz(n): raise ToolLimit('memcpy of symbolic size %s' % s.where(ins))
        if not isinstance(d, Ptr) or not isinstance(sr, Ptr): raise ToolLimit('memcpy ptr')
        das = [a for a in d.alts if a[1] is not None]
        sas = [a for a in sr.alts if a[1] is not None]
        if len(das) != 1: 
            raise ToolLimit('memcpy to ambiguous pointer %s' % s.where(ins))
        (_, do, doff, didx) = das[0]
        # known leaf cells of the destination/source type
        if len(sas) == 1 and sas[0][3] is None and didx is None and not do.stride and not sas[0][1].stride:
            (_, so, soff, _) = sas[0]
            if so is do and soff == doff: return   # copy of an object onto itself
            cells = [(off, c) for ((oid, off), c) in st.cells.items() if oid == so.id and soff <= off < soff + n]
            ovs = list(st.over.get(so.id, ()))
            for ((oid, off)) in [k for k in st.cells if k[0] == do.id and doff <= k[1] < doff + n]:
                if so is do: raise ToolLimit('memcpy within object')
                del st.cells[(oid, off)]
            for lo, hi, key in do.watch:
                if lo < doff + n and doff < hi: st.ghost[key] = False
            lst = list(st.over.get(do.id, ()))
            lst.append((doff, n, so, soff))
            for (dd, ln, oo, ooff) in ovs:
                lo, hi = max(dd, soff), min(dd + ln, soff + n)
                if lo < hi: lst.append((lo - soff + doff, hi - lo, oo, (ooff + lo - dd) if isinstance(oo, Obj) else 0))
            st.over[do.id] = lst
            for off, c in cells: st.cells[(do.id, off - soff + doff)] = c
            return
        # element-wise via leaf types
        lv = s.leaf_types(do, doff, n) or None
        if lv is None:
            for (_, so, soff, _) in sas:
                lv = s.leaf_types(so, soff, n)
                if lv: break
        if lv is None: raise ToolLimit('memcpy of untyped elements %r %r %s' % (do, sas, s.where(ins)))
        vals = [(o, t, s.load(st, padd(sr, o), t, ins)) for o, t in lv]
        for o, t, v in vals: s.store(st, padd(d, o), v, t, ins)
    def leaf_types(s, o, off, n):
        ty = getattr(o, 'ety', None)
        base = 0
        if ty is None: ty = o.ty
        if ty is None and o.cls:
            ty = s.cls_ty(o.cls)
        if ty is None: return None
        st = o.stride or 0
        off0 = off % st if st else off
        out = [(a - off0, t) for a, t in s.mod.leaves(ty) if off0 <= a < off0 + n]
        if off0 + n > s.mod.size(ty): return None
        return out
    def cls_ty(s, cls):
        for pre in ('%class.', '%struct.'):
            if pre + cls in s.mod.types: return Ty('named', name=pre + cls)
        return None
    # ---------- merge
    def merge(s, states):
        """states: list of State (same function frame).  Returns merged state."""
        if len(states) == 1: return states[0]
        # common prefix
        pcs = [x.pc for x in states]
        n = 0
        m = min(len(p) for p in pcs)
        while n < m and all(same(p[n], pcs[0][n]) for p in pcs): n += 1
        rests = [b_and(*p[n:]) for p in pcs]
        rests = [Z(r) if not isz(r) else r for r in rests]
        out = State()
        tot = simp_or(rests)
        out.pc = pcs[0][:n] + (() if tot is True else (tot,))
        def mg(vals):
            r = vals[-1]
            for g, v in zip(reversed(rests[:-1]), reversed(vals[:-1])): r = ite(g, v, r)
            return r
        # regs
        keys = set(states[0].regs)
        for x in states[1:]: keys &= set(x.regs)
        for k in keys:
            vs = [x.regs[k] for x in states]
            if all(same_v(v, vs[0]) for v in vs[1:]): out.regs[k] = vs[0]
            else:
                try: out.regs[k] = mg(vs)
                except ToolLimit: pass     # dead register with incompatible shapes
        # cells
        keys = set()
        for x in states: keys |= set(x.cells)
        objs = {}
        for x in states:
            for k, lst in x.over.items():
                objs.setdefault(k, set()).add(id(lst))
        # over lists: if differ, materialise
        okeys = set()
        for x in states: okeys |= set(x.over)
        for k in okeys:
            ls = [x.over.get(k, ()) for x in states]
            if all(list(l) == list(ls[0]) for l in ls[1:]): out.over[k] = ls[0]
            else:
                # materialise all leaves covered on any path
                for x in states: pass
                covered = []
                for l in ls: covered += [(d, ln) for (d, ln, _, _) in l]
                o = s.objs_by_id[k]
                lv = s.leaf_types(o, 0, s.mod.size(o.ty)) if o.ty is not None else (s.leaf_types(o, 0, s.mod.size(s.cls_ty(o.cls))) if o.cls and s.cls_ty(o.cls) else None)
                if lv is None:
                    # try source objects
                    raise ToolLimit('merge of memcpy origins for %r' % o)
                for x in states:
                    for off, t in lv:
                        if any(d <= off < d + ln for d, ln in covered) and (k, off) not in x.cells:
                            try: x.cells[(k, off)] = (s.mod.size(t), s.load1(x, o, off, None, t, None, t.k == 'i' and t.n == 8))
                            except ToolLimit: pass
                            keys.add((k, off))
                out.over[k] = [e for l in ls for e in l][:0]
                keys |= {(k, off) for off, t in lv if any((k, off) in x.cells for x in states)}
        for k in keys:
            cs = [x.cells.get(k) for x in states]
            if all(c is not None and c[0] == cs[0][0] and same_v(c[1], cs[0][1]) for c in cs if True) if cs[0] is not None else False:
                out.cells[k] = cs[0]; continue
            size = next(c[0] for c in cs if c is not None)
            proto = next(c[1] for c in cs if c is not None)
            o = s.objs_by_id.get(k[0])
            vals = []
            ok = True
            for x, c in zip(states, cs):
                if c is None or c[0] != size:
                    if o is not None and o.kind == 'alloca' and not x.over.get(k[0]): vals.append(UNDEF); continue
                    ty = ty_like(proto, size)
                    try: vals.append(s.load1(x, o, k[1], None, ty, None, False))
                    except ToolLimit: ok = False; break
                else: vals.append(c[1])
            if not ok: continue
            try: out.cells[k] = (size, mg(vals))
            except ToolLimit:
                if o is not None and o.kind == 'alloca': continue
                raise
        keys = set()
        for x in states: keys |= set(x.arrs)
        for k in keys:
            a0 = next(x.arrs[k] for x in states if k in x.arrs)
            o = s.objs_by_id[k[0]]
            vs = [x.arrs.get(k) if k in x.arrs else s.arr_get(x, o, k[1], a0.sort().range()) for x in states]
            out.arrs[k] = vs[0] if all(v.eq(vs[0]) for v in vs[1:]) else mg(vs)
        keys = set()
        for x in states: keys |= set(x.freed)
        for k in keys: out.freed[k] = mg([x.freed.get(k, False) for x in states])
        keys = set()
        for x in states: keys |= set(x.ghost)
        for k in keys:
            vs = [x.ghost.get(k) for x in states]
            if any(v is None for v in vs):
                if k in s.ghost_default: vs = [s.ghost_default[k] if v is None else v for v in vs]
                else: continue
            out.ghost[k] = vs[0] if all(same_v(v, vs[0]) for v in vs[1:]) else mg(vs)
        return out
    ghost_default = {}
    @property
    def objs_by_id(s): return OBJS
    # ---------- operands
    def val(s, st, v):
        k = v.k
        if k == 'loc':
            r = st.regs.get(v.v)
            if r is None: raise ToolLimit('undefined register %s in %s' % (v.v, s.where()))
            return r
        if k == 'int': return v.v
        if k == 'bool': return v.v
        if k == 'float':
            d = v.v
            if d != d or d in (float('inf'), float('-inf')): 
                return z3.Const('fp_%s' % ('nan' if d != d else 'inf' if d > 0 else 'ninf'), RealS)
            return Fraction(*d.as_integer_ratio())
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero':
            t = s.mod.resolve(v.ty)
            if t.k in ('i', 'double', 'ptr', 'float'): return s.zero_of(t)
            return ('zero', t)
        if k == 'glob': return s.glob(v.v.lstrip('@').strip('"'))
        if k == 'gep':
            ops = [s.val(st, o) for o in v.x]
            return s.gep(st, v.v, ops, None)
        if k == 'cast':
            return s.val(st, v.x)
        if k == 'agg':
            return Agg([s.val(st, o) for o in v.v])
        if k == 'meta': return None
        raise ToolLimit('operand %s' % k)
    def glob(s, name):
        if name in s.mod.funcs or name in s.mod.decls: return FnRef(name)
        o = s.gobjs.get(name)
        if o is None:
            o = Obj('global', name); OBJS[o.id] = o
            gi = s.mod.ginit(name)
            if gi:
                t, v, const = gi
                rt = s.mod.resolve(t)
                o.ty = t
                if const and v is not None:
                    if v.k == 'cstr':
                        o.const_init = cstr(v.v); o.stride = 1; o.len = len(o.const_init); o.text = bytes(x & 255 for x in o.const_init)
                    elif v.k == 'zero' and rt.k == 'arr' and rt.e.k == 'i':
                        o.const_init = [0] * rt.n; o.stride = s.mod.size(rt.e); o.len = rt.n
                        o.text = bytes(rt.n) if o.stride == 1 else None
                    elif rt.k == 'arr' and v.k == 'agg' and rt.e.k in ('i', 'double'):
                        o.const_init = [x.v if x.k in ('int', 'bool') else (Fraction(*x.v.as_integer_ratio()) if x.k == 'float' else 0) for x in v.v]
                        o.stride = s.mod.size(rt.e); o.len = rt.n
                    elif rt.k == 'arr' and v.k == 'agg' and s.mod.resolve(rt.e).k == 'struct':
                        o.stride = s.mod.size(rt.e); o.len = rt.n; o.ety = rt.e
                        o.aggs = v.v
                        for fi in range(len(s.mod.resolve(rt.e).e)):
                            fo, ft = s.mod.field_off(rt.e, fi)
                            col = [(x.v[fi].v if x.k == 'agg' else 0) for x in v.v]
                            a = z3.K(IntS, z3.IntVal(0))
                            for j, q in enumerate(col): a = z3.Store(a, j, z3.IntVal(q))
                            o.base[('arr', fo)] = a
                    elif rt.k in ('i', 'double') :
                        o.base[0] = v.v if v.k != 'float' else Fraction(*v.v.as_integer_ratio())
                    else:
                        o.init = v
                        s.fill_const(o, v, t, 0)
                elif rt.k == 'arr' and rt.e.k in ('i', 'double'):
                    o.stride = s.mod.size(rt.e); o.len = rt.n
            s.gobjs[name] = o
        return ptr(o)
    def fill_const(s, o, v, t, off):
        rt = s.mod.resolve(t)
        if v.k == 'agg':
            if rt.k == 'struct':
                for i, x in enumerate(v.v):
                    fo, ft = s.mod.field_off(rt, i); s.fill_const(o, x, ft, off + fo)
            elif rt.k == 'arr':
                sz = s.mod.size(rt.e)
                for i, x in enumerate(v.v): s.fill_const(o, x, rt.e, off + i * sz)
        elif v.k == 'zero':
            for a, lt in s.mod.leaves(t, off): o.base[a] = s.zero_of(lt)
        elif v.k == 'int': o.base[off] = v.v
        elif v.k == 'float': o.base[off] = Fraction(*v.v.as_integer_ratio())
        elif v.k in ('glob', 'null', 'gep'):
            try: o.base[off] = s.val(State(), v)
            except ToolLimit: pass
    def gep(s, st, bt, ops, ins):
        p = ops[0]
        if isinstance(p, Undef): raise ToolLimit('gep on undef')
        off = 0
        symb = []    # (index term, stride)
        i0 = ops[1]
        sz = s.mod.size(bt)
        if isz(i0): symb.append((i0, sz, None))
        else: off += i0 * sz
        t = bt
        for i in ops[2:]:
            rt = s.mod.resolve(t)
            if rt.k == 'struct':
                o, t = s.mod.field_off(rt, i); off += o
            elif rt.k in ('arr', 'vec'):
                es = s.mod.size(rt.e); t = rt.e
                if isz(i): symb.append((i, es, rt))
                else: off += i * es
            else: raise ToolLimit('gep into %r' % rt)
        out = []
        for (g, o, f, ix) in p.alts:
            if o is None: out.append((g, o, 0, None)); continue
            nf, nix = f + off, ix
            for (iv, es, rt) in symb:
                if o.stride is None:
                    # an array object discovered by symbolic indexing
                    if o.kind == 'alloca' and o.size is not None and o.ty is not None and s.mod.resolve(o.ty).k == 'arr':
                        pass
                    s.obj_arrayize(o, es)
                    if o.kind in ('alloca', 'global') and rt is not None and o.len is None: o.len = rt.n
                    if not hasattr(o, 'ety'): o.ety = t if len(symb) == 1 and rt is not None else bt
                    # migrate existing scalar cells
                    for (oid, coff) in [k for k in st.cells if k[0] == o.id]:
                        sz_, cv = st.cells.pop((oid, coff))
                        if isinstance(cv, Undef): continue
                        q, r = divmod(coff, es)
                        so = RealS if (isinstance(cv, Fraction) or (isz(cv) and cv.sort() == RealS)) else IntS
                        a = s.arr_get(st, o, r, so)
                        st.arrs[(o.id, r)] = z3.Store(a, q, zr(cv) if so == RealS else Z(cv))
                    if st.over.get(o.id):
                        raise ToolLimit('array from memcpy origin')
                if o.stride == es: nix = i_add(nix if nix is not None else 0, iv)
                elif es % o.stride == 0: nix = i_add(nix if nix is not None else 0, i_mul(iv, es // o.stride))
                else: raise ToolLimit('stride mismatch %r %s %s at %s' % (o, o.stride, es, s.where(ins)))
            out.append((g, o, nf, nix))
        return Ptr(out)
    # ---------- expressions
    def exec_ins(s, st, ins):
        op = ins.op
        R = st.regs
        if op == 'load':
            p = s.val(st, ins.a[0])
            hb = False
            if ins.ty.k == 'i' and ins.ty.n == 8: hb = ins.res in s.stack[-1].boolregs
            if ins.ty.k not in ('i', 'double', 'ptr', 'float'): 
                rt = s.mod.resolve(ins.ty); ls = list(s.mod.leaves(rt)) if rt.k == 'struct' else ()
                if not ls or len(ls) != len(rt.e): raise ToolLimit('load aggregate %r' % ins.ty)
                R[ins.res] = Agg([s.load(st, padd(p, off), t, ins) for off, t in ls]); return
            R[ins.res] = s.load(st, p, ins.ty, ins, hb)
        elif op == 'store':
            v = s.val(st, ins.a[0]); p = s.val(st, ins.a[1])
            if isinstance(v, tuple) and v and v[0] == 'zero':
                for off, t in s.mod.leaves(v[1]): s.store(st, padd(p, off), s.zero_of(t), t, ins)
            elif isinstance(v, Agg):
                for (off, t), x in zip(s.mod.leaves(ins.a[0].ty), flat(v)): s.store(st, padd(p, off), x, t, ins)
            else: s.store(st, p, v, ins.a[0].ty, ins)
        elif op == 'alloca':
            n = s.val(st, ins.a[0]) if ins.a else 1
            o = Obj('alloca', s.stack[-1].func.locals_dbg.get(ins.res, ins.res), s.mod.size(ins.ty) * (n if not isz(n) else 1), lazy=False, ty=ins.ty)
            OBJS[o.id] = o
            rt = s.mod.resolve(ins.ty)
            if rt.k == 'arr' and rt.e.k in ('i', 'double'):
                o.stride = s.mod.size(rt.e); o.len = rt.n; o.ety = rt.e
                o.lazy = True
            R[ins.res] = ptr(o)
        elif op == 'getelementptr':
            R[ins.res] = s.gep(st, ins.ty, [s.val(st, a) for a in ins.a], ins)
        elif op in BIN: R[ins.res] = s.binop(st, ins)
        elif op == 'fneg':
            a = s.val(st, ins.a[0]); R[ins.res] = -a if not isinstance(a, Undef) else a
        elif op in CONV: R[ins.res] = s.conv(st, ins)
        elif op == 'icmp': R[ins.res] = s.icmp(st, ins)
        elif op == 'fcmp': R[ins.res] = s.fcmp(ins.x, s.val(st, ins.a[0]), s.val(st, ins.a[1]))
        elif op == 'select':
            c = s.val(st, ins.a[0]); R[ins.res] = ite(c, s.val(st, ins.a[1]), s.val(st, ins.a[2]))
        elif op == 'freeze': R[ins.res] = s.val(st, ins.a[0])
        elif op == 'extractvalue':
            v = s.val(st, ins.a[0])
            if isinstance(v, Undef): R[ins.res] = v
            else:
                for i in ins.x: v = v.v[i]
                R[ins.res] = v
        elif op == 'insertvalue':
            v = s.val(st, ins.a[0]); w = s.val(st, ins.a[1])
            n = len(s.mod.resolve(ins.ty).e)
            if isinstance(v, Undef): v = Agg([UNDEF] * n)
            v = Agg(list(v.v)); v.v[ins.x[0]] = w; R[ins.res] = v
        elif op == 'landingpad': R[ins.res] = Agg([UNDEF, UNDEF])
        else: raise ToolLimit('instruction %s in %s' % (op, s.where(ins)))
    def binop(s, st, ins):
        op = ins.op
        a, b = s.val(st, ins.a[0]), s.val(st, ins.a[1])
        if isinstance(a, Undef) or isinstance(b, Undef): return s.fresh_of(ins.ty)
        if op == 'fadd': return r_op('+', a, b)
        if op == 'fsub': return r_op('-', a, b)
        if op == 'fmul': return r_op('*', a, b)
        if op == 'fdiv': return r_op('/', a, b)
        n = ins.ty.n
        if isinstance(a, FnRef) and op == 'and' and b == 1: return 0        # member pointers: functions are at even addresses
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] is b.alts[0][1]:
                    o = a.alts[0][1]; sd = o.stride or 1
                    return i_add(i_mul(i_sub(a.alts[0][3] or 0, b.alts[0][3] or 0), sd), a.alts[0][2] - b.alts[0][2])
            raise ToolLimit('pointer arithmetic %s' % s.where(ins))
        if n == 1:
            if op == 'and': return b_and(a, b)
            if op == 'or': return b_or(a, b)
            if op == 'xor':
                if a is True: return b_not(b)
                if b is True: return b_not(a)
                return z3.Xor(zb(a), zb(b))
            if op in ('add', 'sub'): return z3.Xor(zb(a), zb(b))
            raise ToolLimit('i1 %s' % op)
        if op in ('add', 'sub', 'mul'):
            r = {'add': i_add, 'sub': i_sub, 'mul': i_mul}[op](a, b)
            if 'nsw' in ins.flags:
                if isz(r) and s.check_overflow:
                    s.oblige(st, 'no signed overflow', z3.And(r >= -(1 << (n - 1)), r < (1 << (n - 1))), s.where(ins), 'overflow')
                elif not isz(r): r = wrap(r, n)
                else: s.assumed.add('A-INT: signed arithmetic does not overflow (nsw) where no overflow obligation is generated')
                return r
            return wrap(r, n)
        if op in ('sdiv', 'srem'):
            if isz(b): s.oblige(st, 'no division by zero', b != 0, s.where(ins), 'safety')
            elif b == 0: s.oblige(st, 'no division by zero', False, s.where(ins), 'safety'); return s.fresh_of(ins.ty)
            return c_div(a, b) if op == 'sdiv' else c_rem(a, b)
        if op in ('udiv', 'urem'):
            if isz(b): s.oblige(st, 'no division by zero', b != 0, s.where(ins), 'safety')
            ua, ub = unsig(a, n), unsig(b, n)
            if not isz(ua) and not isz(ub): r = ua // ub if op == 'udiv' else ua % ub
            else: r = zi(ua) / zi(ub) if op == 'udiv' else zi(ua) % zi(ub)
            return wrap(r, n)
        if op == 'shl' and not isz(b): return wrap(i_mul(a, 1 << b), n)
        if op == 'lshr' and not isz(b):
            u = unsig(a, n); return wrap(u >> b if not isz(u) else u / (1 << b), n)
        if op == 'ashr' and not isz(b):
            return a >> b if not isz(a) else a / (1 << b)
        if not isz(a) and not isz(b):
            ua, ub = unsig(a, n), unsig(b, n)
            return wrap({'and': ua & ub, 'or': ua | ub, 'xor': ua ^ ub}[op], n) if op in ('and', 'or', 'xor') else s.bad(op)
        if op in ('and', 'or', 'xor'):
            # 0/1 valued integers
            ba, bb = as_bool01(a), as_bool01(b)
            if ba is not None and bb is not None:
                r = b_and(ba, bb) if op == 'and' else b_or(ba, bb) if op == 'or' else (z3.Xor(zb(ba), zb(bb)))
                return z3.If(r, z3.IntVal(1), z3.IntVal(0)) if isz(r) else int(r)
            if op == 'and':
                for x, y in ((a, b), (b, a)):
                    if not isz(y) and y >= 0 and (y & (y + 1)) == 0: return zi(x) % (y + 1)
                    if not isz(y):
                        # a mask of consecutive bits
                        m = y & ((1 << n) - 1); lo = m & -m
                        if m and ((m // lo) & (m // lo + 1)) == 0: return wrap((zi(unsig(x, n)) / lo) % (m // lo + 1) * lo, n)
            s.assumed.add('bit operations outside 0/1 flags and low masks go through z3 bit-vectors')
            B = lambda x: z3.Int2BV(zi(x), n)
            r = {'and': B(a) & B(b), 'or': B(a) | B(b), 'xor': B(a) ^ B(b)}[op]
            return z3.BV2Int(r, True)
        raise ToolLimit('binop %s %s' % (op, s.where(ins)))
    def bad(s, op): raise ToolLimit(op)
    def conv(s, st, ins):
        op = ins.op; v = s.val(st, ins.a[0]); ft = ins.a[0].ty; tt = ins.ty
        if isinstance(v, Undef):
            return s.fresh_of(tt, 'undef')
        if op == 'trunc':
            if tt.n == 1:
                bv = as_bool01(v)
                if bv is not None: return bv
                if not isz(v): return bool(v & 1)
                return (v % 2) != 0
            return wrap(v, tt.n)
        if op == 'zext':
            if ft.n == 1: return (int(v) if not isz(v) else z3.If(v, z3.IntVal(1), z3.IntVal(0)))
            if as_bool01(v) is not None: return v
            return unsig(v, ft.n)
        if op == 'sext':
            if ft.n == 1: return (-int(v) if not isz(v) else z3.If(v, z3.IntVal(-1), z3.IntVal(0)))
            return v
        if op in ('sitofp', 'uitofp'):
            if op == 'uitofp':
                v = s.coerce(v, Ty('i', 32)) if ft.n == 1 else unsig(v, ft.n)
            return Fraction(v) if not isz(v) else z3.ToReal(v)
        if op in ('fptosi', 'fptoui'):
            if not isz(v):
                q = int(v)
                return wrap(q, tt.n)
            r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            if tt.n < 32: s.oblige(st, 'float to %d bit integer conversion in range' % tt.n, z3.And(r >= -(1 << (tt.n - 1)) if op == 'fptosi' else r >= 0, r < (1 << (tt.n - (op == 'fptosi')))), s.where(ins), 'safety')
            else: s.assumed.add('A-FP2INT: float-to-integer conversions are in range (32 bits and more; narrower ones are obligations)')
            return r
        if op in ('fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'bitcast' and ft.k != tt.k: raise ToolLimit('bitcast')
            return v
        raise ToolLimit('conv ' + op)
    def icmp(s, st, ins):
        a, b = s.val(st, ins.a[0]), s.val(st, ins.a[1])
        pr = ins.x
        if isinstance(a, Undef) or isinstance(b, Undef): return fresh(BoolS, 'undefcmp')
        if isinstance(a, (Ptr, FnRef)) or isinstance(b, (Ptr, FnRef)):
            if isinstance(a, FnRef) or isinstance(b, FnRef): raise ToolLimit('fn ptr compare')
            if not isinstance(a, Ptr): a = NULL
            if not isinstance(b, Ptr): b = NULL
            e = ptr_eq(a, b)
            if pr == 'eq': return e
            if pr == 'ne': return b_not(e)
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] is b.alts[0][1] and a.alts[0][1] is not None:
                o = a.alts[0][1]; sd = o.stride or 1
                x = i_add(i_mul(a.alts[0][3] or 0, sd), a.alts[0][2]); y = i_add(i_mul(b.alts[0][3] or 0, sd), b.alts[0][2])
                return cmpint(pr.replace('u', 's'), x, y)
            raise ToolLimit('pointer compare')
        t = ins.ty
        if t.n == 1:
            if pr == 'eq': return b_not(z3.Xor(zb(a), zb(b))) if isz(a) or isz(b) else a == b
            if pr == 'ne': return z3.Xor(zb(a), zb(b)) if isz(a) or isz(b) else a != b
        if pr in ('eq', 'ne') and not isz(b) and b in (0, 1):
            bv = as_bool01(a)
            if bv is not None:
                r = bv if b == 1 else b_not(bv)
                return r if pr == 'eq' else b_not(r)
        if pr[0] == 'u':
            a, b = unsig(a, t.n), unsig(b, t.n); pr = 's' + pr[1:]
        return cmpint(pr, a, b)
    def fcmp(s, pr, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return fresh(BoolS, 'undefcmp')
        if pr in ('ord',): return True
        if pr in ('uno',): return False
        pr = pr[1:]
        if not isz(a) and not isz(b):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr]
        a, b = zr(a), zr(b)
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[pr]()
    # ---------- control flow
    def analyze(s, f):
        if hasattr(f, 'topo'): return
        f.parse()
        blocks = f.blocks
        entry = f.order[0]
        # reachable + RPO
        seen = set(); post = []
        stack = [(entry, iter(blocks[entry].succ))]; seen.add(entry)
        while stack:
            n, it = stack[-1]
            for q in it:
                if q not in seen:
                    seen.add(q); stack.append((q, iter(blocks[q].succ))); break
            else:
                post.append(n); stack.pop()
        rpo = post[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        # dominators
        dom = {b: None for b in rpo}; dom[entry] = entry
        ch = True
        preds = {b: [p for p in blocks[b].pred if p in pos] for b in rpo}
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = None
                for p in preds[b]:
                    if dom[p] is None: continue
                    if nd is None: nd = p
                    else:
                        x, y = p, nd
                        while x != y:
                            while pos[x] > pos[y]: x = dom[x]
                            while pos[y] > pos[x]: y = dom[y]
                        nd = x
                if dom[b] != nd: dom[b] = nd; ch = True
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = dom[b]
        loops = {}
        for b in rpo:
            for q in blocks[b].succ:
                if pos[q] <= pos[b]:
                    if not dominates(q, b): raise ToolLimit('irreducible loop in %s' % f.name)
                    body = loops.setdefault(q, {q})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x); wl += preds[x]
        f.loops = loops
        f.entry = entry
        f.rpo = rpo; f.pos = pos
        f.preds = preds
        # bool-only i8 loads
        uses = {}
        for b in blocks.values():
            for i in b.ins:
                ops = list(i.a or []) 
                if i.op == 'phi': ops = [v for v, _ in i.x]
                for o in ops:
                    if isinstance(o, Val) and o.k == 'loc': uses.setdefault(o.v, []).append(i)
        f.boolregs = {r for r, us in uses.items() if all(u.op == 'trunc' and u.ty.n == 1 for u in us)}
        f.topo = True
    def run_function(s, f, args, st):
        """inline/execute function body.  returns (state, ret) ; state None if no normal return"""
        s.analyze(f)
        if s.depth > 40: raise ToolLimit('recursion depth in %s' % f.name)
        fr = Frame(f); fr.boolregs = f.boolregs
        saved_regs = st.regs
        st.regs = {}
        for (nm, t, at), v in zip(f.params, args):
            if 'byval' in at:
                bt = at['byval']
                o = Obj('alloca', f.name + '.' + nm, s.mod.size(bt), lazy=False, ty=bt); OBJS[o.id] = o
                s.memcpy(st, ptr(o), v, s.mod.size(bt)); v = ptr(o)
            st.regs[nm] = v
        s.stack.append(fr); s.depth += 1
        try:
            fr.rets = []
            s.exec_region(fr, set(f.rpo), f.entry, st, None)
            rets = fr.rets
        finally:
            s.stack.pop(); s.depth -= 1
        if not rets: return None, None
        for (x, r) in rets: x.regs = {'$ret': r} if r is not None else {}
        m = s.merge([x for x, _ in rets])
        r = m.regs.get('$ret')
        m.regs = saved_regs
        return m, r
    def exec_region(s, fr, region, entry, st, loop_header):
        """execute blocks of region starting at entry. If loop_header: edges to it are back edges, collected.
        Returns (backedge states, exit list [(target, state, from)])"""
        f = fr.func
        incoming = {entry: [(None, st)]}
        backs, exits = [], []
        order = [b for b in f.rpo if b in region]
        done = set()
        def edge(frm, to, x):
            if loop_header is not None and to == loop_header: backs.append((frm, x))
            elif to not in region: exits.append((to, x, frm))
            else: incoming.setdefault(to, []).append((frm, x))
        for b in order:
            if b in done: continue
            ins = incoming.get(b)
            if not ins: continue
            blk = f.blocks[b]
            if b in f.loops and b != loop_header:
                inner = f.loops[b]
                outs = s.exec_loop(fr, b, inner, ins)
                done |= inner
                for (to, x, frm) in outs: edge(frm, to, x)
                continue
            x = s.enter(fr, blk, ins) if not (b == entry and ins[0][0] is None) else s.enter(fr, blk, ins, nophi=(loop_header == b))
            s.exec_block(fr, blk, x, edge)
        return backs, exits
    def enter(s, fr, blk, ins, nophi=False):
        phis = [i for i in blk.ins if i.op == 'phi']
        sts = []
        for frm, x in ins:
            if phis and not nophi:
                x = x if len(ins) == 1 else x
                vals = {}
                for ph in phis:
                    for v, l in ph.x:
                        if l == frm: vals[ph.res] = s.val(x, v); break
                    else: raise ToolLimit('phi edge')
                x.regs = dict(x.regs); x.regs.update(vals)
            sts.append(x)
        return s.merge(sts)
    def exec_block(s, fr, blk, st, edge):
        for ins in blk.ins:
            op = ins.op
            if op == 'phi': continue
            if op in ('call', 'invoke'):
                st2, r = s.call(st, ins)
                if st2 is None: return
                st = st2
                if ins.res: st.regs[ins.res] = r if r is not None else UNDEF
                if op == 'invoke': edge(blk.name, ins.x['normal'], st)
                continue
            if op == 'br':
                if len(ins.x) == 1: edge(blk.name, ins.x[0], st); return
                c = s.val(st, ins.a[0])
                if isinstance(c, Undef): c = fresh(BoolS, 'undefbr')
                if not isz(c):
                    edge(blk.name, ins.x[0] if c else ins.x[1], st); return
                c = z3.simplify(c) if c.num_args() and small(c) else c
                if z3.is_true(c) or z3.is_false(c):
                    edge(blk.name, ins.x[0] if z3.is_true(c) else ins.x[1], st); return
                nc = b_not(c)
                # syntactic pruning
                for p in st.pc:
                    if p.eq(c): edge(blk.name, ins.x[0], st); return
                    if p.eq(nc): edge(blk.name, ins.x[1], st); return
                if ins.x[0] == ins.x[1]: edge(blk.name, ins.x[0], st); return
                if s.opts.get('prune'):        # branches decided by the path condition
                    if s.prove_now(st, c, 300): edge(blk.name, ins.x[0], st); return
                    if s.prove_now(st, nc, 300): edge(blk.name, ins.x[1], st); return
                a = st.copy(); a.pc = a.pc + (c,)
                b = st; b.pc = b.pc + (nc,)
                edge(blk.name, ins.x[0], a); edge(blk.name, ins.x[1], b); return
            if op == 'switch':
                v = s.val(st, ins.a[0]); d, cs = ins.x
                if not isz(v):
                    for cv, l in cs:
                        if cv.v == v: edge(blk.name, l, st); return
                    edge(blk.name, d, st); return
                tg = {}
                for cv, l in cs: tg.setdefault(l, []).append(v == cv.v)
                for l, conds in tg.items():
                    x = st.copy(); x.pc = x.pc + (b_or(*conds),); edge(blk.name, l, x)
                x = st.copy(); x.pc = x.pc + (z3.And(*[v != cv.v for cv, l in cs]),); edge(blk.name, d, x)
                return
            if op == 'ret':
                fr.rets.append((st, s.val(st, ins.a[0]) if ins.a else None)); return
            if op == 'unreachable' or op == 'resume': return
            s.exec_ins(st, ins)
    # ---------- loops
    def exec_loop(s, fr, header, body, ins):
        f = fr.func
        blk = f.blocks[header]
        entry = s.enter(fr, blk, ins)
        spec = None
        key = (f.name, header)
        finder = s.opts.get('loops')
        if finder: spec = finder(s, f, header, body, entry)
        if spec is None: return s.unroll(fr, header, body, entry)
        mark = (len(s.obls), len(s.facts), len(fr.rets), [len(t) for t in s.throws])
        try:
            return s.unroll(fr, header, body, entry.copy(), s.opts.get('try_unroll', 4))
        except ToolLimit as ex:
            if 'not decided' not in str(ex): raise
            del s.obls[mark[0]:]; del s.facts[mark[1]:]; del fr.rets[mark[2]:]
            for t, n in zip(s.throws, mark[3]): del t[n:]
        return s.cut_loop(fr, header, body, entry, spec)
    def step(s, fr, header, body, st):
        """execute one iteration from header state st (phis already in regs)"""
        blk = fr.func.blocks[header]
        backs, exits = s.exec_region(fr, body, header, st, header)
        return backs, exits
    def unroll(s, fr, header, body, st, maxn=None):
        outs = []
        n = 0
        blk = fr.func.blocks[header]
        mx = maxn or s.unroll_max
        while True:
            n += 1
            if n > mx: raise ToolLimit('loop without invariant not decided after %d iterations: %s' % (mx, s.where(blk.ins[-1])))
            backs, exits = s.step(fr, header, body, st)
            outs += exits
            if not backs: break
            st = s.enter(fr, blk, backs)
            if n >= 2 or any(isz(c) for c in st.pc):
                if not s.feasible(st.pc): break
        return outs
    def havoc_value(s, v, size, name):
        if isinstance(v, Ptr):
            alts = []
            objs = []
            for (g, o, f, i) in v.alts:
                objs.append((o, f, i))
            if len(objs) == 1 and objs[0][0] is not None and objs[0][0].stride:
                return ptr(objs[0][0], objs[0][1] % objs[0][0].stride, fresh(IntS, name + '.idx'))
            if len(objs) == 1: 
                o = objs[0][0]
                raise ToolLimit('havoc of pointer %s' % name)
            raise ToolLimit('havoc of pointer %s' % name)
        if isinstance(v, Undef): return UNDEF
        if isinstance(v, bool) or (isz(v) and v.sort() == BoolS): return fresh(BoolS, name)
        if isinstance(v, Fraction) or (isz(v) and v.sort() == RealS): return fresh(RealS, name)
        if isinstance(v, str) or (isz(v) and v.sort() == StrS): return fresh(StrS, name)
        if isinstance(v, int) or (isz(v) and v.sort() == IntS):
            if as_bool01(v) is not None and size == 1 :
                return z3.If(fresh(BoolS, name), z3.IntVal(1), z3.IntVal(0))
            x = fresh(IntS, name)
            n = 8 * size if isinstance(size, int) else 32
            s.facts.append(((), z3.And(x >= -(1 << (n - 1)), x < (1 << (n - 1)))))
            return x
        if isz(v): return fresh(v.sort(), name)
        raise ToolLimit('havoc %r' % (v,))
    def pinnable(s, v):
        return isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is not None and not (isz(v.alts[0][2]) or isz(v.alts[0][3]))
    pins = {}
    def make_havoc(s, fr, header, entry, mod):
        # a pointer local that is not set before the loop and is set to one fixed place in it keeps that value
        # at the head (checked at the back edges in cut_loop); reading it before it is set would be undefined
        s.pins = {}
        """mod: set of ('c',key) ('a',key) ('r',reg) ('g',key)"""
        st = entry.copy()
        for kind, k in sorted(mod, key=str):
            if kind == 'c':
                c = st.cells.get(k)
                o = OBJS.get(k[0])
                nm = '%s.%s' % (o.name if o else '?', k[1])
                if c is None:
                    pv = s.havoc_proto[(kind, k)]
                    if s.pinnable(pv[1]) and o is not None and o.kind == 'alloca' and not st.over.get(k[0]): st.cells[k] = pv; s.pins[k] = pv[1]
                    else: st.cells[k] = (pv[0], s.havoc_value(pv[1], pv[0], nm))
                elif isinstance(c[1], Undef) and s.pinnable(s.havoc_proto[(kind, k)][1]):
                    st.cells[k] = s.havoc_proto[(kind, k)]; s.pins[k] = st.cells[k][1]
                else:
                    proto = c[1]
                    if isinstance(proto, Undef): proto = s.havoc_proto[(kind, k)][1]
                    elif isinstance(proto, Ptr): 
                        p2 = s.havoc_proto[(kind, k)][1]
                        if isinstance(p2, Ptr): proto = ptr_union(proto, p2)
                    else:
                        p2 = s.havoc_proto[(kind, k)][1]
                        if as_bool01(proto) is not None and as_bool01(p2) is None: proto = p2
                    st.cells[k] = (c[0], s.havoc_value(proto, c[0], nm))
            elif kind == 'a':
                o = OBJS[k[0]]
                sort = s.havoc_proto[(kind, k)].sort()
                st.arrs[k] = fresh(sort, '%s[].%s' % (o.name, k[1]))
            elif kind == 'r':
                ty = s.havoc_proto[(kind, k)][0]
                st.regs[k] = s.havoc_value(s.havoc_proto[(kind, k)][1], s.tysize(ty), k)
            elif kind == 'g':
                st.ghost[k] = s.havoc_value(s.havoc_proto[(kind, k)], 8, str(k))
        return st
    def diff(s, base, x, fr, header):
        """locations where x differs from base (memory only)"""
        mod = set()
        for k, c in x.cells.items():
            b = base.cells.get(k)
            if b is None or not (b[0] == c[0] and same_v(b[1], c[1])):
                o = OBJS.get(k[0])
                if b is None and o is not None:
                    if o.id >= s.loop_obj_floor: continue      # object created inside the loop
                    # compare with lazily-created value
                    if k[1] in o.base and same_v(o.base[k[1]], c[1]) and not base.over.get(k[0]): continue
                mod.add(('c', k)); s.havoc_proto[('c', k)] = c
        for k, a in x.arrs.items():
            b = base.arrs.get(k)
            o = OBJS.get(k[0])
            if o is not None and o.id >= s.loop_obj_floor: continue
            if b is None: b = o.base.get(('arr', k[1]))
            if b is None or not b.eq(a): mod.add(('a', k)); s.havoc_proto[('a', k)] = a
        for k, g in x.ghost.items():
            b = base.ghost.get(k)
            if b is None or not same_v(b, g): mod.add(('g', k)); s.havoc_proto[('g', k)] = g
        for k, l in x.over.items():
            o = OBJS.get(k)
            if o is not None and o.id >= s.loop_obj_floor: continue
            if list(base.over.get(k, ())) != list(l):
                # materialise
                for off, t in (s.leaf_types(o, 0, s.mod.size(o.ty)) if o.ty is not None else s.leaf_types(o, 0, s.mod.size(s.cls_ty(o.cls)))):
                    kk = (k, off)
                    try: v = s.load1(x, o, off, None, t, None, False)
                    except ToolLimit: continue
                    mod.add(('c', kk)); s.havoc_proto[('c', kk)] = (s.mod.size(t), v)
        for k, g in x.freed.items():
            o = OBJS.get(k)
            if o is not None and o.id >= s.loop_obj_floor: continue
            if k not in base.freed: raise ToolLimit('delete inside loop of outer object')
        return mod
    havoc_proto = {}
    def cut_loop(s, fr, header, body, entry, spec):
        f = fr.func
        blk = f.blocks[header]
        saved_floor = getattr(s, 'loop_obj_floor', 0)
        saved_proto = s.havoc_proto
        s.havoc_proto = dict(saved_proto)
        s.loop_obj_floor = next(Obj._n)
        phis = [i for i in blk.ins if i.op == 'phi']
        mod = set()
        for ph in phis:
            mod.add(('r', ph.res)); s.havoc_proto[('r', ph.res)] = (ph.ty, entry.regs[ph.res])
        # 1. write set by dry runs to a fixpoint
        s.quiet += 1
        nf = len(s.facts)
        try:
            for _ in range(6):
                h = s.make_havoc(fr, header, entry, mod)
                base = h.copy()
                backs, exits = s.step(fr, header, body, h)
                new = set(mod)
                for _, x in backs:
                    new |= s.diff(base, x, fr, header)
                    for ph in phis:
                        for v, l in ph.x:
                            if l == _ : pass
                if new == mod: break
                mod = new
            else: raise ToolLimit('loop frame did not stabilise %s' % s.where(blk.ins[-1]))
        finally:
            s.quiet -= 1
            # keep range facts only
            del s.facts[nf:]
        cands = spec.invariants(s, fr, header, entry, mod)      # list of (name, fn(state)->Bool, mandatory)
        # 2. initiation, Houdini over the optional ones
        active = []
        for (nm, fn, mand) in cands:
            g0 = fn(entry)
            if mand:
                s.oblige(entry, 'loop invariant holds initially: ' + nm, g0, s.where(blk.ins[-1]), 'inv-init'); active.append((nm, fn, mand))
            elif s.prove_now(entry, g0): active.append((nm, fn, mand))
        opt = [a for a in active if not a[2]]
        if opt:
            s.quiet += 1
            while True:
                nf = len(s.facts)
                h = s.make_havoc(fr, header, entry, mod)
                for (nm, fn, mand) in active: s.fact(h, fn(h))
                backs, exits = s.step(fr, header, body, h)
                bad = []
                if backs:
                    m = s.enter(fr, blk, backs)
                    for a in active:
                        if a[2]: continue
                        if not s.prove_now(m, a[1](m)): bad.append(a)
                del s.facts[nf:]
                if not bad: break
                active = [a for a in active if a not in bad]
            s.quiet -= 1
        if os.environ.get('LLVC_INV'): print('loop', s.where(blk.ins[-1]), [a[0] for a in active], flush=True)
        # 3. real iteration
        h = s.make_havoc(fr, header, entry, mod)
        for (nm, fn, mand) in active: s.fact(h, fn(h))
        if hasattr(spec, 'assume'): spec.assume(s, h)
        pins = s.pins
        backs, exits = s.step(fr, header, body, h)
        for _, x in backs:
            for k, v in pins.items():
                if k not in x.cells or not same_v(x.cells[k][1], v): raise ToolLimit('pointer %s changes in the loop' % (k,))
        if backs:
            m = s.enter(fr, blk, backs)
            for (nm, fn, mand) in active:
                s.oblige(m, 'loop invariant preserved: ' + nm, fn(m), s.where(blk.ins[-1]), 'inv-step' if mand else 'inv-auto')
        s.loop_obj_floor = saved_floor
        s.havoc_proto = saved_proto
        return exits
    def prove_now(s, st, goal, timeout=None):
        timeout = timeout or s.opts.get('prove_ms', 3000)
        if goal is True: return True
        if goal is False: goal = z3.BoolVal(False)
        fs = [s.fact_expr(i) for i in range(len(s.facts))] + list(st.pc)
        if s.opts.get('pure_split') and isz(goal):
            from contracts import features
            if 'arr' not in features(goal) and 'q' not in features(goal): fs = [f for f in fs if 'q' not in features(f)]
            else:
                sol = z3.SimpleSolver(); sol.set('timeout', timeout); sol.set('mbqi', False)
                for f in fs: sol.add(f)
                sol.add(z3.Not(goal))
                return sol.check() == z3.unsat
        sol = z3.Solver(); sol.set('timeout', timeout)
        for f in fs: sol.add(f)
        sol.add(z3.Not(goal))
        return sol.check() == z3.unsat
    # ---------- calls
    def call(s, st, ins):
        cal = ins.x['callee']
        if cal.k == 'loc':
            fv = s.val(st, cal)
            if not isinstance(fv, FnRef):
                h = s.opts.get('indirect')
                if h:
                    r = h(s, st, ins, fv)
                    if r is not None: return r
                raise ToolLimit('indirect call through %r at %s' % (fv, s.where(ins)))
            name = fv.name
        else:
            name = cal.v.lstrip('@').strip('"'); name = s.mod.aliases.get(name, name)
        if name.startswith('llvm.'):
            return st, s.intrinsic(st, name, ins)
        args = [s.val(st, a) for a in ins.a]
        return s.call_name(st, name, args, ins)
    def call_name(s, st, name, args, ins):
        d = s.dem.get(name, name)
        c = s.registry.lookup(name, d) if s.registry else None
        if c is not None and not (s.depth == 0):
            s.called_contracts.add(c.name)
            return c.apply(s, st, args, ins)
        m = s.models.lookup(name, d)
        if m is not None:
            r = m(s, st, args, ins, name, d)
            if isinstance(r, tuple) and len(r) == 2 and (r[0] is None or isinstance(r[0], State)): return r
            return st, r
        f = s.mod.funcs.get(name)
        if f is not None and s.models.may_inline(name, d):
            s.inlined.add(d)
            return s.run_function(f, args, st)
        raise ToolLimit('no contract or model for callee %s (at %s)' % (d, s.where(ins)))
    def intrinsic(s, st, name, ins):
        a = ins.a
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            s.memcpy(st, s.val(st, a[0]), s.val(st, a[1]), s.val(st, a[2]), ins); return None
        if name.startswith('llvm.abs.'):
            v = s.val(st, a[0]); return abs(v) if not isz(v) else z3.If(v < 0, -v, v)
        if name.startswith('llvm.memset'):
            v = s.val(st, a[1]); n = s.val(st, a[2]); p = s.val(st, a[0])
            if s.bytes_at(p) and (isz(n) or v != 0): s.fill(st, s.bytes_at(p), n, lambda k: zi(v), ins); return None
            if isz(v) or isz(n) or v != 0 or len(p.alts) != 1: raise ToolLimit('memset %s' % s.where(ins))
            _, o, off, idx = p.alts[0]
            if o.stride: 
                for k in range(n // o.stride):
                    for (lo, t) in s.mod.leaves(getattr(o, 'ety', Ty('i', 8 * o.stride))): s.store(st, padd(p, k * o.stride + lo), s.zero_of(t), t, ins)
                return None
            for k in [k for k in st.cells if k[0] == o.id and off <= k[1] < off + n]: del st.cells[k]
            st.over[o.id] = list(st.over.get(o.id, ())) + [(off, n, None, 0)]
            return None
        if name.startswith('llvm.fabs'):
            v = s.val(st, a[0]); return abs(v) if not isz(v) else z3.If(v >= 0, v, -v)
        if name.startswith('llvm.floor'):
            v = s.val(st, a[0]); return z3.ToReal(z3.ToInt(zr(v)))
        if name.startswith('llvm.ceil'):
            v = s.val(st, a[0]); return -z3.ToReal(z3.ToInt(-zr(v)))
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'):
            x, y, w = [s.val(st, q) for q in a]; return r_op('+', r_op('*', x, y), w)
        if name.startswith('llvm.umul.with.overflow'):
            x, y = s.val(st, a[0]), s.val(st, a[1]); n = a[0].ty.n
            r = i_mul(unsig(x, n), unsig(y, n))
            return Agg([r, (r >= (1 << n)) if isz(r) else r >= (1 << n)])
        if name.startswith('llvm.uadd.with.overflow'):
            x, y = s.val(st, a[0]), s.val(st, a[1]); n = a[0].ty.n
            r = i_add(unsig(x, n), unsig(y, n)); return Agg([r, (r >= (1 << n)) if isz(r) else r >= (1 << n)])
        if name in ('llvm.trap',): return None
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.stack') or name.startswith('llvm.assume') or name.startswith('llvm.eh'): return UNDEF
        if name.startswith('llvm.expect'): return s.val(st, a[0])
        if name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            x, y = s.val(st, a[0]), s.val(st, a[1]); c = cmpint('sgt', x, y)
            return ite(c, x, y) if 'max' in name else ite(c, y, x)
        raise ToolLimit('intrinsic %s' % name)

class Frame:
    def __init__(s, func): s.func = func; s.name = func.name; s.rets = []

class _Objs(dict):
    pass
OBJS = _Objs()
_oinit = Obj.__init__
def _init(self, *a, **k):
    _oinit(self, *a, **k); OBJS[self.id] = self
Obj.__init__ = _init

def same_v(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return len(a.alts) == len(b.alts) and all(x[1] is y[1] and x[2] == y[2] and ((x[3] is None and y[3] is None) or (x[3] is not None and y[3] is not None and same(x[3], y[3]))) and same(x[0], y[0]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, (Ptr, Undef, FnRef, Agg)) or isinstance(b, (Ptr, Undef, FnRef, Agg)):
        return a == b if isinstance(a, FnRef) else (isinstance(a, Undef) and isinstance(b, Undef))
    return same(a, b)
def padd(p, off):
    return Ptr([(g, o, f + off, i) for (g, o, f, i) in p.alts])
def ptr_union(a, b):
    out = list(a.alts)
    for x in b.alts:
        if not any(y[1] is x[1] for y in out): out.append(x)
    return Ptr(out)
def flat(v):
    for x in v.v:
        if isinstance(x, Agg): yield from flat(x)
        else: yield x
def ty_like(v, size):
    if isinstance(v, Ptr): return Ty('ptr')
    if isinstance(v, str) or (isz(v) and v.sort() == StrS): return 'str'
    if isinstance(v, Fraction) or (isz(v) and v.sort() == RealS): return Ty('double')
    if isinstance(v, Undef): return Ty('i', 8 * size) if isinstance(size, int) else Ty('i', 8)
    if isinstance(v, FnRef): raise ToolLimit('fn cell')
    return Ty('i', 8 * size)
def as_bool01(v):
    """if v is If(b,1,0)-shaped or 0/1 constant return b"""
    if not isz(v): return bool(v) if v in (0, 1) else None
    if z3.is_int_value(v):
        n = v.as_long(); return bool(n) if n in (0, 1) else None
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = as_bool01(v.arg(1)), as_bool01(v.arg(2))
        if a is None or b is None: return None
        return ite(v.arg(0), a, b)
    return None
def cmpint(pr, a, b):
    if not isz(a) and not isz(b):
        return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pr]
    if isz(a) and isz(b) and a.eq(b): return pr in ('eq', 'sle', 'sge')
    a, b = zi(a), zi(b)
    return {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pr]()
def small(c):
    n = 0
    st = [c]
    while st:
        x = st.pop(); n += 1
        if n > 60: return False
        st += x.children()
    return True
def simp_or(rs):
    """disjunction of path-condition remainders; recognises complementary pairs"""
    if any(z3.is_true(r) for r in rs): return True
    lits = [list(conj(r)) for r in rs]
    ch = True
    while ch:
        ch = False
        for i in range(len(lits)):
            for j in range(i + 1, len(lits)):
                a, b = lits[i], lits[j]
                # a = C + [x], b = C + [not x]
                if len(a) == len(b) and a and all(x.eq(y) for x, y in zip(a[:-1], b[:-1])) and compl(a[-1], b[-1]):
                    lits[i] = a[:-1]; del lits[j]; ch = True; break
                # a = C+[x], b = C+[not x, ...] -> a or (C and ...)
                if a and len(a) < len(b) and all(x.eq(y) for x, y in zip(a[:-1], b[:-1])) and compl(a[-1], b[len(a) - 1]):
                    lits[j] = b[:len(a) - 1] + b[len(a):]; ch = True; break
                if b and len(b) < len(a) and all(x.eq(y) for x, y in zip(b[:-1], a[:-1])) and compl(b[-1], a[len(b) - 1]):
                    lits[i] = a[:len(b) - 1] + a[len(b):]; ch = True; break
                # absorption: a prefix-subset of b
                if len(a) <= len(b) and all(x.eq(y) for x, y in zip(a, b)):
                    del lits[j]; ch = True; break
                if len(b) < len(a) and all(x.eq(y) for x, y in zip(a, b)):
                    del lits[i]; ch = True; break
            if ch: break
    if any(not l for l in lits): return True
    return b_or(*[b_and(*l) for l in lits])
def conj(r):
    if z3.is_and(r):
        for c in r.children(): yield from conj(c)
    else: yield r
def compl(a, b):
    if z3.is_not(a) and a.arg(0).eq(b): return True
    if z3.is_not(b) and b.arg(0).eq(a): return True
    return False
def cstr(v):
    v = v[2:-1] if v.startswith('c"') else v[1:-1]
    out = []
    i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(v[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(v[i])); i += 1
    return [x - 256 if x > 127 else x for x in out]
