"""Proof units: a unit sets up the symbolic pre-state of one real function, executes its IR, and adds
the obligations of its contract.  Units run in separate processes."""
import z3, time, os, re, sys, json, traceback, tempfile, multiprocessing as mp
from engine import *
from contracts import *
import models

class Unit:
    def __init__(s, mod, pattern=None, registry=None, opts=None, name=None):
        s.mod = mod
        s.reg = registry
        s.e = Engine(mod, registry or Registry(), models.M, opts or {})
        s.st = State()
        s.name = name
        s.pattern = pattern
        s.throwlist = []
        s.e.throws.append(s.throwlist)
        s.pre_names = []
    def find(s, pattern=None):
        pattern = pattern or s.pattern
        r = re.compile(pattern)
        c = [n for n, d in s.mod.demangled().items() if n in s.mod.funcs and r.search(d)]
        # C1/C2 constructor and destructor twins
        if len(c) > 1:
            c2 = [n for n in c if 'C1E' not in n and 'D0E' not in n and 'D1E' not in n] or c
            if len(c2) == 1: return c2[0]
            raise ToolLimit('ambiguous function %s: %s' % (pattern, c))
        if not c: raise ToolLimit('function %s not found' % pattern)
        return c[0]
    def cref(s, cls):
        r = s.mod.classes().get(cls)
        if r is None: raise ToolLimit('class %s not found' % cls)
        return r
    def obj(s, cls, name, dyn=None, init=False):
        o = Obj('param', name, cls=cls)
        for pre in ('%class.', '%struct.'):
            if pre + cls in s.mod.types: o.ty = Ty('named', name=pre + cls)
        o.dyn = dyn
        return o
    def view(s, o, cls, st=None):
        return View(s.e, st or s.st, o if isinstance(o, Ptr) else ptr(o), s.cref(cls))
    def arr(s, name, stride, length=None, ety=None):
        o = Obj('heap', name); o.stride = stride; o.len = length
        if ety is not None: o.ety = ety
        return o
    def assume(s, name, f):
        s.pre_names.append(name)
        s.e.fact(State(), Z(f) if not isz(f) else f)
    def run(s, args, pattern=None):
        fn = s.mod.funcs[s.find(pattern)]
        s.fn = fn
        s.e.topname = s.e.dem.get(fn.name)
        s.st0 = s.st.copy()
        s.st1, s.ret = s.e.run_function(fn, args, s.st.copy())
        return s.st1, s.ret
    def ensure(s, name, goal, st=None, kind='post'):
        st = st or s.st1
        if st is None:
            s.e.obls.append(Obligation(name + ' (function never returns)', (), z3.BoolVal(False), len(s.e.facts), '', kind)); return
        s.e.oblige(st, name, goal, (s.e.topname or '').split('(')[0], kind)
    def ensure_eq(s, name, guard, lhs, rhs, st=None, kind='post'):
        """guard -> lhs == rhs between rational expressions (polynomial back end)"""
        s.ensure(name, z3.Implies(Z(guard), zr(lhs) == zr(rhs)), st, kind)
        s.e.obls[-1].ring = (guard, lhs, rhs)
    def frame(s, o, allowed, cls, st=None):
        """every leaf of object o outside `allowed` field paths is unchanged"""
        st = st or s.st1
        if st is None: return
        v0, v1 = s.view(o, cls, s.st0), s.view(o, cls, st)
        for (nm, p, ref) in v1.leaves():
            if any(nm == a or nm.startswith(a + '.') for a in allowed): continue
            k = kind_of(s.mod, ref)
            if k == 'array': continue
            a = read_ref(s.e, s.st0, p, ref); b = read_ref(s.e, st, p, ref)
            s.ensure('frame: %s unchanged' % nm, eq(a, b) if not isinstance(a, FnRef) else a == b, st, 'frame')

def same_seq(va, vb, n):
    k = z3.Int('k!')
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), va(k) == vb(k)))

# ---------------------------------------------------------------- running
def parallel(one, todo, procs):
    """map in forked children (the terms stay in shared memory); children take work items from a shared counter"""
    if procs <= 1 or len(todo) < 2 * procs: return [one(x) for x in todo]
    import pickle
    nxt = mp.get_context('fork').Value('i', 0); files = []
    for w in range(procs):
        f = tempfile.TemporaryFile(); pid = os.fork()
        if pid == 0:
            try:
                out = []
                while True:
                    with nxt.get_lock(): i = nxt.value; nxt.value += 1
                    if i >= len(todo): break
                    try: out.append((i, one(todo[i])))
                    except BaseException as ex: out.append((i, {'name': todo[i].name, 'where': todo[i].where, 'kind': todo[i].kind, 'status': 'unknown', 'time': 0, 'backend': None, 'reason': 'internal: %s' % ex}))
                pickle.dump(out, f); f.flush()
            finally: os._exit(0)
        files.append((pid, f))
    res = {}
    for pid, f in files:
        os.waitpid(pid, 0); f.seek(0)
        try: res.update(dict(pickle.load(f)))
        except EOFError: pass
    return [res.get(i) or {'name': x.name, 'where': x.where, 'kind': x.kind, 'status': 'unknown', 'time': 0, 'backend': None, 'reason': 'worker ended'} for i, x in enumerate(todo)]
def run_unit(fn, mod, timeout):
    t = time.time()
    res = {'unit': fn.__name__, 'doc': (fn.__doc__ or '').strip(), 'obligations': [], 'error': None, 'assumed': [], 'inlined': [], 'contracts': []}
    try:
        try: us = fn(mod)
        except NeedFull: us = fn(mod, full=True)
        if isinstance(us, Unit): us = [us]
        for u in us:
            e = u.e
            res['assumed'] += sorted(e.assumed); res['inlined'] += sorted(e.inlined); res['contracts'] += sorted(e.called_contracts)
            res['function'] = e.topname
            # vacuity: the precondition (facts at entry of the function) must be satisfiable
            sol = z3.Solver(); sol.set('timeout', 10000)
            for pc, f in e.facts: sol.add(f if not pc else z3.Implies(z3.And(*pc), f))
            if u.st1 is not None:
                for c in u.st1.pc: sol.add(c)
            r = sol.check()
            res.setdefault('vacuity', []).append(str(r))
            if r == z3.unsat: res['error'] = 'vacuous: facts contradictory'
            seen = set(); todo = []
            for ob in e.obls:
                key = (ob.name, ob.where, str(ob.goal.hash()), tuple(c.hash() for c in ob.pc))
                if key in seen: continue
                seen.add(key); todo.append(ob)
            def one(ob):
                if not z3.is_true(z3.simplify(ob.goal)): discharge(e, ob, timeout)
                else: ob.status = 'proved'; ob.backend = 'simplifier'
                d = {'name': ob.name, 'where': ob.where, 'kind': ob.kind, 'status': ob.status, 'time': round(ob.time, 3), 'backend': ob.backend, 'reason': ob.reason}
                if ob.status != 'proved':
                    d['goal'] = str(z3.simplify(ob.goal))[:1500]
                    if ob.model is not None:
                        d['model'] = '\n'.join(sorted('%s = %s' % (k, ob.model[k]) for k in ob.model.decls() if k.arity() == 0))[:4000]
                return d
            out = parallel(one, todo, getattr(fn, 'procs', 1))
            again = [i for i, d in enumerate(out) if d['status'] == 'unknown']
            if len(again) <= 2:             # a solver that ran out of time under load: once more with another seed
                for i in again:
                    z3.set_param('smt.random_seed', 11); todo[i].status = None; out[i] = one(todo[i]); z3.set_param('smt.random_seed', 0)
            res['obligations'] += out
            if not res['obligations'] and not res['error']: res['error'] = 'vacuous: no obligations'
    except ToolLimit as ex:
        res['error'] = 'tool limit: %s' % ex
    except Exception as ex:
        res['error'] = 'internal: %s\n%s' % (ex, traceback.format_exc())
    res['time'] = round(time.time() - t, 2)
    return res

_MOD = None
_FNS = {}
def _work(a):
    i, timeout = a
    return run_unit(_FNS[i], _MOD, timeout)
def run_units(fns, mod, timeout=20000, procs=8):
    global _MOD, _FNS
    _MOD = mod; _FNS = dict(enumerate(fns))
    mod.demangled(); mod.classes()
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(fns)), maxtasksperchild=1) as pool:
        return pool.map(_work, [(i, timeout) for i in range(len(fns))], chunksize=1)
