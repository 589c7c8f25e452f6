"""Printing numbers: emit_digits_decimal, fpconv_dtos, utilities::dtos (C13)."""
import z3
from engine import *
from contracts import *
from proof import *
import models
from clients import *
from geom import *
from clients import _named
CH = ord
def u8(x): return z3.If(zi(x) < 0, zi(x) + 256, zi(x))
class Text:
    """the specification: digits d(0)..d(nd-1) times 10^K printed with p decimals.
       U(t): character t without rounding.  up: the first digit cut off is 5 or more.  c: the last place left of it that holds no 9 (-1: none)"""
    def __init__(s, d, nd, K, p):
        s.d, s.nd, s.K, s.p = d, nd, K, p
        s.off = nd + K; s.I = z3.If(s.off > 1, s.off, z3.IntVal(1)); s.L = s.I + z3.If(p > 0, 1 + p, z3.IntVal(0))
        s.c = fresh(IntS, 'last digit that is not 9'); s.u = fresh(z3.ArraySort(IntS, IntS), 'cut text')
    def dig(s, i): return z3.If(z3.And(i >= 0, i < s.nd), s.d(i), z3.IntVal(48))
    def isdot(s, t): return z3.And(s.p > 0, t == s.I)
    def idx(s, t): return t - s.I + s.off - z3.If(t > s.I, 1, 0)
    def U(s, t): return s.u[t]
    def Udef(s, t): return z3.If(s.isdot(t), z3.IntVal(46), s.dig(s.idx(t)))
    @property
    def up(s): return s.dig(s.off + s.p) >= 53   # = the character at L, or at L+1 if there is no point
    def defs(s):
        """definition of c: it exists and is unique for every text"""
        t = z3.Int('t!q')
        return [z3.ForAll([t], s.u[t] == s.Udef(t), patterns=[s.u[t]]), z3.And(s.c >= -1, s.c < s.L), z3.Implies(s.c >= 0, z3.And(z3.Not(s.isdot(s.c)), s.U(s.c) != 57)),
                z3.ForAll([t], z3.Implies(z3.And(t > s.c, t < s.L, z3.Not(s.isdot(t))), s.u[t] == 57), patterns=[s.u[t]])]
    @property
    def carry(s): return z3.And(s.up, s.c < 0)
    @property
    def length(s): return s.L + z3.If(s.carry, 1, 0)
    def cases(s):
        for a, f in (('whole number', s.K >= 0), ('smaller than 1', z3.And(s.K < 0, s.off <= 0)), ('with a fraction', z3.And(s.K < 0, s.off > 0))):
            for b, g in (('cut', z3.Not(s.up)), ('rounded up', z3.And(s.up, s.c >= 0)), ('carried', s.carry)): yield a + ', ' + b, z3.And(f, g)
    def post(s, r, new, old, b):
        t = z3.Int('t!')
        return [('C13: length of the text', zi(r) == s.length),
                ('C13: the text is the rounded decimal number', z3.ForAll([t], z3.Implies(z3.And(t >= b, t < b + s.length), new[t] == s.out(t - b)), patterns=[new[t]])),
                ('no NUL in the text', z3.ForAll([t], z3.Implies(z3.And(t >= b, t < b + s.length), new[t] != 0), patterns=[new[t]])),
                ('what is before the text is unchanged', z3.ForAll([t], z3.Implies(t < b, new[t] == old[t]), patterns=[new[t]]))]
    def out(s, t):
        dot2 = z3.And(s.p > 0, t == s.I + 1)
        return z3.If(z3.Not(s.up), s.U(t), z3.If(s.c < 0, z3.If(t == 0, z3.IntVal(49), z3.If(dot2, z3.IntVal(46), z3.IntVal(48))),
            z3.If(z3.Or(t < s.c, s.isdot(t)), s.U(t), z3.If(t == s.c, s.U(t) + 1, z3.IntVal(48)))))
def digits_ok(d, nd, K):
    k = z3.Int('k!q')
    return [('1 to 17 digits', z3.And(nd >= 1, nd <= 17)), ('decimal digits', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nd), z3.And(d(k) >= 48, d(k) <= 57)), patterns=[d(k)])),
            ('no leading zero', d(z3.IntVal(0)) != 48), ('exponent range of a double', z3.And(nd + K <= 309, K >= -342))]
def arr_named(e, st, o, off=0):
    """the current contents of a byte array as a constant (definitional), so that patterns are simple"""
    a = e.arr_get(st, o, off, IntS)
    if a.num_args() == 0 and z3.is_const(a): return a
    c = _named.get(a.get_id())
    if c is None: c = _named[a.get_id()] = (fresh(a.sort(), 'arr'), a)
    have = e.__dict__.setdefault('named', [])
    if all(x is not c[0] for _, x in have): have.append((None, c[0])); e.facts.append(((), c[0] == a))
    st.arrs[(o.id, off)] = c[0]
    return c[0]
class ArrAuto(Auto):
    """loop-invariant templates for byte arrays: a counter runs over a range in which the bytes are set, shifted or carried"""
    def invariants(s, e, fr, header, entry, mod):
        out = list(super().invariants(e, fr, header, entry, mod)); gs = []
        for kd, k in mod:
            if kd != 'c': continue
            sz, proto = e.havoc_proto[(kd, k)]; v0 = entry.cells.get(k)
            if v0 is None or isinstance(v0[1], Undef): continue
            if isinstance(proto, Ptr) and isinstance(v0[1], Ptr) and len(proto.alts) == 1 and proto.alts[0][1] is not None and proto.alts[0][1].stride == 1:
                gs.append(lambda st, k=k: zi(e.norm(*st.cells[k][1].alts[0][1:])[1]))
            elif sz in (1, 4, 8) and not isinstance(proto, (Ptr, str, Fraction, FnRef, bool)) and not (isz(proto) and proto.sort() != IntS) and as_bool01(v0[1]) is None or (sz >= 4 and isinstance(v0[1], int)):
                f = (lambda st, k=k: zi(st.cells[k][1]) if not isz(st.cells[k][1]) or st.cells[k][1].sort() == IntS else z3.If(st.cells[k][1], 1, 0))
                gs.append(f if sz > 1 else lambda st, f=f: u8(f(st)))
        g0s = [g(entry) for g in gs]
        for i, (g, g0) in enumerate(zip(gs, g0s)):
            out.append(('counter below its start', lambda st, g=g, g0=g0: g(st) <= g0, False)); out.append(('counter above its start', lambda st, g=g, g0=g0: g(st) >= g0, False))
            for h, h0 in list(zip(gs, g0s))[:i]:
                for sg in (1, -1): out.append(('counters move together', lambda st, g=g, h=h, sg=sg, t=g0 + sg * h0: g(st) + sg * h(st) == t, False))
        Bs = [z3.IntVal(0)]
        for ck, cv in entry.cells.items():
            if ('c', ck) in mod or ck[1] != 0 or OBJS[ck[0]].kind != 'alloca' or cv[0] not in (4, 8): continue
            v = cv[1]
            if isinstance(v, (Ptr, Undef, str, Fraction, FnRef, bool)) or (isz(v) and v.sort() != IntS): continue
            if all(not z3.eq(z3.simplify(zi(v)), z3.simplify(b)) for b in Bs): Bs.append(zi(v))
        for g, g0 in zip(gs, g0s):
            for B in Bs:
                for d in (-1, 0, 1):
                    out.append(('counter not below %s%+d' % (B if B.num_args() == 0 else 'a local', d), lambda st, g=g, g0=g0, B=B, d=d: z3.Or(g(st) >= B + d, g(st) >= g0), False))
                    out.append(('counter not above a local', lambda st, g=g, g0=g0, B=B, d=d: z3.Or(g(st) <= B + d, g(st) <= g0), False))
        k = z3.Int('k!q'); FA = lambda a, a0, lo, hi, P: z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), P), patterns=[a[k], a0[k]])
        for kd, key in mod:
            if kd != 'a' or OBJS[key[0]].stride != 1: continue
            o = OBJS[key[0]]; A0 = arr_named(e, entry, o, key[1]); A = lambda st, o=o, key=key: arr_named(e, st, o, key[1])
            for nm, P in s.texts: f0 = P(A0); out.append((nm, lambda st, f0=f0: f0, False))
            for b in s.bases:
                for g, g0 in zip(gs, g0s):
                    for a in (0, 1, 2):
                        rng = lambda st, g=g, g0=g0, a=a: (z3.If(g(st) < g0, g(st) + a, g0 + a), z3.If(g(st) < g0, g0 + a, g(st) + a))
                        for nm, P in s.kinds(A0):
                            out.append(('%s in the range passed +%d' % (nm, a), lambda st, rng=rng, P=P, A=A, A0=A0, b=b: FA(A(st), A0, b + rng(st)[0], b + rng(st)[1], P(A(st), k)), False))
                        out.append(('unchanged outside of the range passed +%d' % a, lambda st, rng=rng, A=A, A0=A0, b=b: z3.ForAll([k], z3.Implies(z3.Or(k < b + rng(st)[0], k >= b + rng(st)[1]), A(st)[k] == A0[k]), patterns=[A(st)[k]]), False))
        return out
    def __init__(s, bases, texts=(), **kw): super().__init__(**kw); s.bases = bases; s.texts = texts
    def kinds(s, A0):
        yield 'zeros', lambda A, k: A[k] == 48
        yield 'nines became zeros', lambda A, k: z3.If(A0[k] == 46, A[k] == 46, z3.And(A0[k] == 57, A[k] == 48))
        yield 'moved up', lambda A, k: A[k] == A0[k - 1]
EMIT = r'^emit_digits_decimal\(char\*, int, char\*, int, bool, unsigned char\)$'
CAP = lambda p: 312 + p       # characters the text may need, without the sign
def u_emit(mod):
    """the text of digits*10^K: integer digits, point, exactly p decimals, rounded half away by decimal increment; all writes in the buffer"""
    u = Unit(mod, EMIT); e = u.e
    nd, K, b, pr = z3.Ints('ndigits K start precision'); p = u8(pr)
    u.assume('precision', z3.And(pr >= -128, pr <= 127)); u.assume('start', z3.And(b >= 0, b <= 1))
    dg, de = u.arr('digits', 1, 18), u.arr('dest', 1, b + CAP(p))
    d0 = arr_named(e, u.st, dg); D = lambda i: d0[i]
    for nm, f in digits_ok(D, nd, K): u.assume(nm, f)
    T = Text(D, nd, K, p)
    for f in T.defs(): u.assume('definition', f)
    t = z3.Int('t!')
    e.opts['loops'] = ArrAuto([b, z3.IntVal(0)], [('the text before rounding', lambda A: z3.ForAll([t], z3.Implies(z3.And(t >= b, t < b + T.L), A[t] == T.u[t - b]), patterns=[A[t]])),
        ('the text before rounding (2)', lambda A: z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < T.L), A[b + t] == T.u[t]), patterns=[T.u[t]]))], lows=(), guards=())
    e.opts.update(try_unroll=1, prove_ms=700, pure_split=True)
    u.run([ptr(dg), nd, ptr(de, 0, b), K, fresh(BoolS, 'neg'), pr])
    o1 = arr_named(e, u.st1, de)
    for cn, cg in T.cases():
        for nm, f in T.post(u.ret, o1, e.arr_get(u.st0, de, 0, IntS), b): u.ensure('%s (%s)' % (nm, cn), z3.Implies(cg, f))
    u.ensure('the cases are exhaustive', z3.Or(*[c for _, c in T.cases()]))
    u.ensure('the text fits', z3.And(T.length >= 1, T.length <= CAP(p) - 1))
    return u
class Emit(FnContract):
    def __init__(s): super().__init__('emit_digits_decimal (proved by u_emit)', EMIT)
    def summary(s, c):
        e, st, w = c.e, c.st1, c.e.where(c.ins); dg, nd, de, K, neg, pr = c.args; p = u8(pr)
        (do, di), (eo, ei) = e.bytes_at(dg), e.bytes_at(de); a = arr_named(e, st, do); D = lambda i: a[i]
        if di != 0: raise ToolLimit('digits do not start the array')
        for nm, f in digits_ok(D, zi(nd), zi(K)) + [('start', z3.And(zi(ei) >= 0, zi(ei) <= 1)), ('room for the text', zi(ei) + CAP(p) <= zi(eo.len)), ('not the same array', z3.BoolVal(do is not eo))]: e.oblige(st, 'emit_digits_decimal: ' + nm, f, w, 'pre')
        T = Text(D, zi(nd), zi(K), p)
        for f in T.defs(): e.facts.append(((), f))
        old = e.arr_get(st, eo, 0, IntS); new = fresh(old.sort(), 'text'); st.arrs[(eo.id, 0)] = new; r = fresh(IntS, 'length')
        for nm, f in T.post(r, new, old, zi(ei)): e.fact(st, f)
        e.fact(st, z3.And(r >= 1, r <= CAP(p) - 1)); e.emitted = T
        return r
class DBits(FnContract):
    def __init__(s): super().__init__('get_dbits', r'^get_dbits\(double\)$')
    def summary(s, c):
        c.e.assumed.add('get_dbits(d): IEEE-754 bits of a finite number: sign bit set if d < 0, clear if d > 0; the exponent field is not all ones')
        b = fresh(IntS, 'bits'); d = zr(c.args[0]); ub = z3.If(b < 0, b + (1 << 64), b)
        c.e.fact(c.st1, z3.And(b >= -(1 << 63), b < (1 << 63), z3.Implies(d < 0, b < 0), z3.Implies(d > 0, b >= 0), (ub / (1 << 52)) % 2048 != 2047)); return b
ADIG = z3.Function('digit of', RealS, IntS, IntS); AND_, AK = z3.Function('digits of', RealS, IntS), z3.Function('exponent of', RealS, IntS)
class Grisu(FnContract):
    def __init__(s): super().__init__('grisu2', r'^grisu2\(double, char\*, int\*\)$')
    def summary(s, c):
        e, st = c.e, c.st1; d = zr(c.args[0]); a = fresh(RealS, 'magnitude'); e.facts.append(((), a == z3.If(d < 0, -d, d)))
        e.oblige(st, 'grisu2: the number is not zero', d != 0, e.where(c.ins), 'pre')
        e.assumed.add('grisu2(d): 1 to 17 decimal digits without leading zero that denote |d| to within half a unit in the last place of a double (checked on the real code by the bounded stand-in)')
        o, i = e.bytes_at(c.args[1]); old = e.arr_get(st, o, 0, IntS); new = fresh(old.sort(), 'digits'); nd, K = AND_(a), AK(a); k = z3.Int('k!q')
        e.oblige(st, 'grisu2: room for the digits', z3.And(zi(i) >= 0, zi(i) + 17 <= zi(o.len)), e.where(c.ins), 'pre')
        e.facts.append(((), z3.ForAll([k], new[k] == z3.If(z3.And(k >= zi(i), k < zi(i) + nd), ADIG(a, k - zi(i)), old[k]), patterns=[new[k]]))); st.arrs[(o.id, 0)] = new
        for nm, f in digits_ok(lambda k: ADIG(a, k), nd, K): e.fact(st, f)
        e.store(st, c.args[2], K, Ty('i', 32)); return nd
DT = r'^fpconv_dtos\(double, char\*, unsigned char\)$'
def u_fpconv_dtos(mod):
    """sign, then the digits of |d| printed with the given number of decimals; 0 is printed as 0; nothing outside of the buffer is written"""
    u = Unit(mod, DT, registry=reg(Emit(), DBits(), Grisu())); e = u.e; d = z3.Real('d'); pr = z3.Int('precision'); p = u8(pr); t = z3.Int('t!')
    u.assume('precision', z3.And(pr >= -128, pr <= 127)); de = u.arr('dest', 1, 1 + CAP(p)); e.opts['pure_split'] = True
    u.run([d, ptr(de), pr]); o1 = arr_named(e, u.st1, de); a = z3.If(d < 0, -d, d); n = z3.If(d < 0, 1, 0); r = zi(u.ret)
    T = e.emitted; k = z3.Int('k!')
    u.ensure('C13: the digits printed are those of |d|', z3.Implies(d != 0, z3.And(T.nd == AND_(a), T.K == AK(a), T.p == p, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < T.nd), T.d(k) == ADIG(a, k))))))
    u.ensure('C13: minus sign exactly for negative numbers', z3.Implies(d != 0, z3.And((o1[0] == 45) == (d < 0), r == n + T.length)))
    for nm, cg, m in (('d', d > 0, 0), ('-d', d < 0, 1)): u.ensure('C13: the text of %s follows' % nm, z3.Implies(cg, z3.ForAll([t], z3.Implies(z3.And(t >= m, t < m + T.length), o1[t] == T.out(t - m)))))
    u.ensure('C13: zero', z3.Implies(d == 0, z3.Or(z3.And(r == 1, o1[0] == 48), z3.And(r == 2, o1[0] == 45, o1[1] == 48))))
    u.ensure('the text fits', z3.And(r >= 1, r <= CAP(p)))
    u.ensure('no NUL in the text', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < r), o1[t] != 0)))
    return u
class FpDtos(FnContract):
    def __init__(s): super().__init__('fpconv_dtos (proved by u_fpconv_dtos)', DT)
    def summary(s, c):
        e, st, w = c.e, c.st1, c.e.where(c.ins); d, de, pr = c.args; p = u8(pr); o, i = e.bytes_at(de)
        e.oblige(st, 'fpconv_dtos: room for every text', z3.And(zi(i) == 0, 1 + CAP(p) <= zi(o.len)), w, 'pre')
        old = e.arr_get(st, o, 0, IntS); new = fresh(old.sort(), 'text'); st.arrs[(o.id, 0)] = new; r = fresh(IntS, 'length'); t = z3.Int('t!')
        e.fact(st, z3.And(r >= 1, r <= CAP(p))); e.fact(st, z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < r), new[t] != 0), patterns=[new[t]]))
        e.printed = (zr(d), p, new, r); return r
def u_dtos(mod):
    """the text of fpconv_dtos, ended by a NUL inside of the buffer"""
    u = Unit(mod, r'^utilities::dtos(\[abi:cxx11\])?\(double, unsigned char\)$', registry=reg(FpDtos())); e = u.e; x = z3.Real('x'); pr = z3.Int('precision')
    u.assume('precision', z3.And(pr >= -128, pr <= 127)); ro = Obj('param', 'result'); got = []
    def ctor(s_, st, a, ins, n, d): got.append((a[1], st.copy())); s_.store(st, a[0], fresh(StrS, 'text'), 'str'); return None
    e.opts['pure_split'] = True
    saved = models.M.rules[:]; models.M.rules.insert(0, (re.compile(r'basic_string(<[^(]*>)?\(char const\*, std::allocator<char> const&\)$'), ctor)); models.M.cache.clear()
    try: u.run([ptr(ro), x, pr])
    finally: models.M.rules[:] = saved; models.M.cache.clear()
    if len(got) != 1 or not hasattr(e, 'printed'): raise ToolLimit('dtos: text built in another way')
    (src, st), (d, p, text, r) = got[0], e.printed; o, i = e.bytes_at(src); A = e.arr_get(st, o, 0, IntS); t = z3.Int('t!')
    u.ensure('C13: the number and precision are passed on', z3.And(d == x, p == u8(pr)))
    u.ensure('C13: the C string is the text printed', z3.And(zi(i) == 0, A[r] == 0, z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < r), z3.And(A[t] == text[t], A[t] != 0)))))
    return u
def lemma_decimal(mod):
    """lemma: the cut text is the integer part of |d|*10^p, it is raised by one exactly when the rest is a half or more, and the rounded text denotes that integer"""
    u = Unit(mod, None); u.st1 = u.st0 = u.st; u.e.topname = 'lemma (value of the text)'
    # V(k): integer of the first k digit places of the cut text, R(k): value of the places from k on (0 <= R < 1); g(k): digit at place k, h(k): digit after rounding
    V, W = z3.Function('V', IntS, IntS), z3.Function('W', IntS, IntS); g, h = z3.Function('g', IntS, IntS), z3.Function('h', IntS, IntS); R = z3.Function('R', IntS, RealS); k, c, n = z3.Ints('k c n'); x = z3.Real('x')
    dg = lambda f, k: z3.And(f(k) >= 0, f(k) <= 9); rec = z3.And(V(k + 1) == 10 * V(k) + g(k), R(k) == (g(k) + R(k + 1)) / 10, dg(g, k), R(k + 1) >= 0, R(k + 1) < 1)
    P = z3.Function('10^', IntS, RealS)
    u.ensure('value, step: x*10^k = V(k)+R(k)', z3.Implies(z3.And(rec, x * P(k) == z3.ToReal(V(k)) + R(k), P(k + 1) == 10 * P(k)), x * P(k + 1) == z3.ToReal(V(k + 1)) + R(k + 1)))
    u.ensure('rest, step (places after the digits are 0): 0 <= R(k) < 1', z3.Implies(rec, z3.And(R(k) >= 0, R(k) < 1)))
    u.ensure('half: the first place cut off is 5 or more exactly when the rest is at least one half', z3.Implies(rec, (g(k) >= 5) == (R(k) >= z3.RealVal('1/2'))))
    u.ensure('rounding: |x*10^n - result| <= 1/2', z3.Implies(z3.And(x * P(n) == z3.ToReal(V(n)) + R(n), R(n) >= 0, R(n) < 1, W(n) == V(n) + z3.If(R(n) >= z3.RealVal('1/2'), 1, 0)), z3.And(x * P(n) - z3.ToReal(W(n)) <= z3.RealVal('1/2'), z3.ToReal(W(n)) - x * P(n) <= z3.RealVal('1/2'))))
    wr = W(k + 1) == 10 * W(k) + h(k)
    u.ensure('increment, step left of c', z3.Implies(z3.And(rec, wr, W(k) == V(k), h(k) == g(k)), W(k + 1) == V(k + 1)))
    u.ensure('increment, step at c', z3.Implies(z3.And(rec, wr, W(k) == V(k), h(k) == g(k) + 1, g(k) != 9), z3.And(W(k + 1) == V(k + 1) + 1, dg(h, k))))
    u.ensure('increment, step right of c', z3.Implies(z3.And(rec, wr, W(k) == V(k) + 1, g(k) == 9, h(k) == 0), W(k + 1) == V(k + 1) + 1))
    u.ensure('carry: the leading 1 is the increment of nothing', z3.Implies(z3.And(V(0) == 0, W(0) == 1), W(0) == V(0) + 1))
    return u
DECIMAL = [u_emit, u_fpconv_dtos, u_dtos, lemma_decimal]
