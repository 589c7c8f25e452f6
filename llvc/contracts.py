"""Contract registry, typed views over the state (named by the debug info of the real classes), and the
obligation discharge driver."""
import re, z3, time, os, json, multiprocessing, subprocess, tempfile, traceback
from engine import *
import models

def is_string_ref(mod, ref):
    m = mod.meta(ref)
    return m and m[1].get('name', '').startswith('basic_string<char')

class View:
    """typed access to an object:  v.field, v.base.field, v.array[i]"""
    def __init__(s, eng, st, p, cref):
        object.__setattr__(s, '_e', eng); object.__setattr__(s, '_st', st); object.__setattr__(s, '_p', p); object.__setattr__(s, '_c', cref)
    def at(s, st): return View(s._e, st, s._p, s._c)
    def fieldref(s, name):
        mod = s._e.mod
        fs = mod.class_fields(s._c)
        if name not in fs: raise ToolLimit('class %s has no field %s' % (mod.meta(s._c)[1].get('name'), name))
        off, ref = fs[name]
        return padd(s._p, off), mod.strip(ref)
    def __getattr__(s, name):
        p, ref = s.fieldref(name)
        return read_ref(s._e, s._st, p, ref)
    def ptr_of(s, name): return s.fieldref(name)[0]
    def __setattr__(s, name, v):
        p, ref = s.fieldref(name)
        write_ref(s._e, s._st, p, ref, v)
    def deref(s, name):
        """view of *field"""
        p, ref = s.fieldref(name)
        pv = s._e.load(s._st, p, Ty('ptr'))
        m = s._e.mod.meta(ref)
        return View(s._e, s._st, pv, s._e.mod.strip(m[1]['baseType']))
    def elem(s, i):
        """pointer element view"""
        return View(s._e, s._st, pidx(s._p, i), s._c)
    def leaves(s, pre=''):
        mod = s._e.mod
        for nm, (off, ref) in mod.class_fields(s._c).items():
            ref = mod.strip(ref)
            k = kind_of(mod, ref)
            if k == 'class':
                yield from View(s._e, s._st, padd(s._p, off), ref).leaves(pre + nm + '.')
            else: yield pre + nm, padd(s._p, off), ref
def set_vptr(e, p, cls):
    """the object at p has dynamic type cls"""
    (_, o, off, idx), = p.alts
    g = '_ZTV%d%s' % (len(cls), cls)
    if e.mod.ginit(g) is None: raise ToolLimit('no vtable for ' + cls)
    o.base[off] = Ptr([(g_, o_, f_ + 16, i_) for g_, o_, f_, i_ in e.glob(g).alts])
def pidx(p, i):
    return Ptr([(g, o, f, i_add(ix if ix is not None else 0, i)) for (g, o, f, ix) in p.alts])
def kind_of(mod, ref):
    m = mod.meta(ref)
    if m is None: return 'void'
    if m[0] == 'DIBasicType': return 'basic'
    if m[0] == 'DICompositeType':
        t = m[1].get('tag')
        if t == 'DW_TAG_enumeration_type': return 'enum'
        if t == 'DW_TAG_array_type': return 'array'
        if m[1].get('name', '').startswith('basic_string<char'): return 'str'
        return 'class'
    if m[0] == 'DIDerivedType': return 'ptr'
    return '?'
def ir_type(mod, ref):
    k = kind_of(mod, ref); m = mod.meta(ref)
    if k == 'basic':
        sz = int(m[1].get('size', 0)); nm = m[1].get('name')
        if nm in ('double', 'float'): return Ty(nm)
        return Ty('i', sz)
    if k == 'enum': return Ty('i', int(m[1].get('size', 32)))
    if k == 'ptr': return Ty('ptr')
    if k == 'str': return 'str'
    raise ToolLimit('leaf type %s %s' % (k, m))
def is_bool(mod, ref):
    m = mod.meta(ref); return m and m[0] == 'DIBasicType' and m[1].get('name') == 'bool'
def read_ref(e, st, p, ref):
    mod = e.mod
    k = kind_of(mod, ref)
    if k == 'class': return View(e, st, p, ref)
    if k == 'array':
        m = mod.meta(ref); return ArrView(e, st, p, mod.strip(m[1]['baseType']))
    ty = ir_type(mod, ref)
    b = is_bool(mod, ref)
    v = e.load(st, p, ty, None, b)
    if b:
        bv = as_bool01(v)
        return bv if bv is not None else ((zi(v) % 2) != 0)
    return zr(v) if isinstance(v, Fraction) else v
def write_ref(e, st, p, ref, v):
    mod = e.mod
    k = kind_of(mod, ref)
    if k == 'class': raise ToolLimit('assign class')
    ty = ir_type(mod, ref)
    if is_bool(mod, ref): v = z3.If(v, z3.IntVal(1), z3.IntVal(0)) if isz(v) else int(v)
    e.store(st, p, v, ty)
class ArrView:
    def __init__(s, e, st, p, ref): s.e, s.st, s.p, s.ref = e, st, p, ref
    def __getitem__(s, i):
        m = s.e.mod.meta(s.ref); sz = int(m[1].get('size', '64')) // 8
        return read_ref(s.e, s.st, padd(s.p, i * sz), s.ref)

class Registry:
    def __init__(s): s.items = []; s.cache = {}
    def add(s, c): s.items.append(c); s.cache.clear(); return c
    def lookup(s, name, dem):
        if name in s.cache: return s.cache[name]
        r = None
        for c in s.items:
            if c.matches(name, dem): r = c; break
        s.cache[name] = r
        return r

class Ctx:
    """argument/result access for a contract: c.this, c.arg('p'), c.old..., both at verification and at call sites"""
    def __init__(s, eng, st0, st1, args, f):
        s.e, s.st0, s.st1, s.args, s.f = eng, st0, st1, args, f
    def cls(s, name):
        r = s.e.mod.classes().get(name)
        if r is None: raise ToolLimit('class %s not found' % name)
        return r
    def view(s, p, cls, new=True): return View(s.e, s.st1 if new else s.st0, p, s.cls(cls))
    def old(s, p, cls): return View(s.e, s.st0, p, s.cls(cls))
    def new(s, p, cls): return View(s.e, s.st1, p, s.cls(cls))

class FnContract:
    """pattern: regex on the demangled name.
       setup(v) -> args ; builds the symbolic pre-state (verification)
       pre(c) -> [(name, formula)]
       post(c, ret) -> [(name, formula)]
       havoc(c) : at call sites, give fresh values to the frame; returns fresh ret
       """
    def __init__(s, name, pattern, **k):
        s.name = name; s.re = re.compile(pattern); s.__dict__.update(k)
    def matches(s, name, dem): return s.re.search(dem) is not None
    def find(s, mod):
        out = [n for n, d in mod.demangled().items() if n in mod.funcs and s.re.search(d)]
        return out
    def apply(s, e, st, args, ins):
        f = None
        st0 = st.copy()
        c = Ctx(e, st0, st, args, f)
        c.ins = ins
        if getattr(s, 'pre', None):
            for nm, g in s.pre(c): e.oblige(st, 'precondition of %s: %s' % (s.name, nm), g, e.where(ins), 'pre')
        r = s.summary(c)
        if getattr(s, 'post', None):
            for nm, g in s.post(c, r): e.fact(st, Z(g) if not isz(g) else g)
        return st, r

# ------------------------------------------------------------------ discharge
def relevant(facts_terms, goal_terms, limit=None):
    return facts_terms
def discharge(eng, ob, timeout=20000, tactic=None):
    t = time.time()
    if ob.ring is not None:
        import ring
        ob.status, ob.reason = ring.ring_prove(eng, ob, timeout); ob.backend = 'polynomial normaliser'
        ob.time = time.time() - t
        if ob.status != 'unknown': return ob
    fs = [eng.fact_expr(i) for i in range(ob.nf)] + list(ob.pc); neg = z3.Not(ob.goal)
    def attempt(ms, drop=()):
        sol = z3.Solver(); sol.set('timeout', ms)
        for f in fs:
            if not drop or not (features(f) & drop): sol.add(f)
        sol.add(neg)
        return sol, sol.check()
    quick = min(timeout, 2500)
    if eng.opts.get('pure_split'):
        # instances by patterns only
        sol = z3.SimpleSolver(); sol.set('timeout', timeout); sol.set('mbqi', False)
        for f in fs: sol.add(f)
        sol.add(neg)
        if sol.check() == z3.unsat:
            ob.backend = 'z3-%s' % z3.get_version_string(); ob.time = time.time() - t; ob.status = 'proved'; return ob
    sol, r = attempt(quick)
    if r == z3.unknown:
        # fewer assumptions are sound: without quantifiers, nonlinear arithmetic and text; then with quantifiers
        fg = features(ob.goal); tried = set()
        for d in ({'q', 'nl', 'cat'}, {'nl', 'cat'}, {'nl'}, {'q'}):
            d = frozenset(d - fg)
            if not d or d in tried: continue
            tried.add(d)
            if attempt(quick * 2, d)[1] == z3.unsat: r = z3.unsat; break
        else:
            if timeout > quick: sol, r = attempt(timeout)
    ob.backend = 'z3-%s' % z3.get_version_string()
    if r == z3.unknown:
        r2 = cvc5_check(sol, timeout)
        if r2 is not None: r = r2; ob.backend = 'cvc5'
    ob.time = time.time() - t
    if r == z3.unsat: ob.status = 'proved'
    elif r == z3.sat:
        ob.status = 'failed'
        if ob.backend != 'cvc5': ob.model = sol.model()
    else:
        why = sol.reason_unknown()
        ob.reason = why
        ob.status = 'incomplete' if 'incomplete' in why and ob.time < timeout / 1000 * 0.8 else 'unknown'
    return ob
_feat = {}
def features(x):
    """kinds of reasoning a formula needs: quantifiers, nonlinear arithmetic, text concatenation"""
    k = x.get_id(); r = _feat.get(k)
    if r is not None: return r[1]
    todo = [x]; out = frozenset()
    if z3.is_quantifier(x): out = frozenset(['q']) | features(x.body())
    elif z3.is_app(x):
        dk = x.decl().kind(); ch = x.children(); r = set()
        if dk == z3.Z3_OP_MUL and sum(1 for c in ch if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1: r.add('nl')
        elif dk in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])): r.add('nl')
        elif dk in (z3.Z3_OP_SEQ_CONCAT,): r.add('cat')
        elif dk in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE): r.add('arr')
        elif dk == z3.Z3_OP_UNINTERPRETED and ch and x.decl().name().startswith('fold_'): r.add('arr')      # defined by quantified facts
        out = frozenset(r)
        for c in ch: out |= features(c)
    _feat[k] = (x, out)
    return out
def cvc5_check(sol, timeout):
    smt = '(set-logic ALL)\n' + sol.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt); fn = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--strings-exp', fn], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        o = r.stdout.strip().split('\n')[0]
        return z3.unsat if o == 'unsat' else z3.sat if o == 'sat' else None
    except Exception: return None
    finally: os.unlink(fn)
