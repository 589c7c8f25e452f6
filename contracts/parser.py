"""Contracts of the G-code parser (GcodeProcessorLib/gcode_parser.cpp): numbers (C11), text, comment and command name (C12).
The text is an array of characters A[0..n] with A[n] = 0 and no other 0.  What a scan from place k yields is given by executable
specifications that read the text one place at a time, f(k) = step(A[k], f(k+1)); a loop keeps what is still to come
(collected so far + f(place) is constant), whatever its shape."""
import z3
from engine import *
from contracts import *
from proof import *
import clients, models
from clients import *
from geom import *
from welder import S, B
CHR = lambda c: UF('chr', IntS, StrS)(c)
cat = z3.Concat
# ---------------------------------------------------------------- what a text says
class Src:
    """the text in array A, terminator at n"""
    def __init__(s, e, A, n):
        s.e, s.A, s.n = e, A, n; s.id = A.get_id(); k = z3.Int('k!c')
        d = e.__dict__.setdefault('srcs', {})
        if s.id not in d:
            d[s.id] = s; s.have = {}; e.facts.append(((), z3.And(n >= 0, A[n] == 0)))
            e.facts.append(((), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(A[k] != 0, A[k] >= -128, A[k] <= 127)), patterns=[A[k]])))
            for ch in 'GMTCX?@': e.facts.append(((), CHR(z3.IntVal(ord(ch))) == S(ch)))
        else: s.have = d[s.id].have
    def rec(s, name, sort, step):
        """f(k) = step(A[k], k, f(k+1)) for 0 <= k <= n (the terminator stops)"""
        if name not in s.have:
            f = s.have[name] = UF('fold_%s_%d' % (name, s.id), IntS, sort); k = z3.Int('k!c')
            s.e.facts.append(((), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= s.n), f(k) == step(s.A[k], k, f(k + 1))), patterns=[s.A[k], f(k)] if name in PATF else [s.A[k]])))
        return s.have[name]
    def acc(s, name, sort, step, stop):
        """f(r, k): continue with step(r, A[k]) until stop(A[k])"""
        if name not in s.have:
            f = s.have[name] = UF('fold_%s_%d' % (name, s.id), sort, IntS, sort); k = z3.Int('k!c'); r = z3.Const('r!c', sort); a = s.A[k]
            s.e.facts.append(((), z3.ForAll([r, k], z3.Implies(z3.And(k >= 0, k <= s.n), f(r, k) == z3.If(stop(a), r, f(step(r, a), k + 1))), patterns=[f(r, k)])))
        return s.have[name]
    def at(s, k): return s.A[k]
    # places
    def skip(s, k): return s.rec('skip_blanks', IntS, lambda a, k, r: z3.If(a == 32, r, k))(k)
    def skip_bt(s, k): return s.rec('skip_blanks_tabs', IntS, lambda a, k, r: z3.If(z3.Or(a == 32, a == 9), r, k))(k)
    def run(s, k): return s.rec('end_of_digits_and_blanks', IntS, lambda a, k, r: z3.If(z3.Or(digit(a), a == 32), r, k))(k)
    def word(s, k): return s.rec('end_of_word', IntS, lambda a, k, r: z3.If(z3.Or(a == 0, a == 59, a == 32), k, r))(k)
    def stop(s, k): return s.rec('end_of_command', IntS, lambda a, k, r: z3.If(z3.Or(a == 0, a == 59), k, r))(k)
    def after(s, k): return s.rec('start_of_comment', IntS, lambda a, k, r: z3.If(a == 0, k, z3.If(a == 59, k + 1, r)))(k)
    # texts
    def line(s, k): return s.rec('text_of_command', StrS, lambda a, k, r: z3.If(z3.Or(a == 0, a == 59), S(''), cat(CHR(a), r)))(k)
    def comment(s, k): return s.rec('text_of_comment', StrS, lambda a, k, r: z3.If(a == 0, S(''), z3.If(z3.Or(a == 13, a == 10), r, cat(CHR(a), r))))(k)
    def upper_word(s, k): return s.rec('word_in_capitals', StrS, lambda a, k, r: z3.If(z3.Or(a == 0, a == 59, a == 32), S(''), cat(CHR(capital(a)), r)))(k)
    def digits(s, k): return s.rec('digits_of_address', StrS, lambda a, k, r: z3.If(digit(a), cat(CHR(a), r), S('')))(k)
    def digits_end(s, k): return s.rec('end_of_address', IntS, lambda a, k, r: z3.If(digit(a), r, k))(k)
    def digits_b(s, k): return s.rec('digits_without_blanks', StrS, lambda a, k, r: z3.If(digit(a), cat(CHR(a), r), z3.If(a == 32, r, S(''))))(k)
    def blank_line(s, k): return s.rec('nothing_to_do', BoolS, lambda a, k, r: z3.If(z3.Or(a == 0, a == 59), z3.BoolVal(True), z3.And(a <= 32, a >= 0, r)))(k)
    # numbers
    def has_digit(s, k): return s.rec('has_digit', BoolS, lambda a, k, r: z3.If(digit(a), z3.BoolVal(True), z3.If(a == 32, r, z3.BoolVal(False))))(k)
    def count(s, k): return s.rec('number_of_digits', IntS, lambda a, k, r: z3.If(digit(a), r + 1, z3.If(a == 32, r, z3.IntVal(0))))(k)
    def number(s, r, k): return s.acc('decimal_number', RealS, lambda r, a: z3.If(digit(a), r * 10 + z3.ToReal(a - 48), r), lambda a: z3.Not(z3.Or(digit(a), a == 32)))(r, k)
    def natural(s, r, k): return s.acc('natural_number', IntS, lambda r, a: z3.If(digit(a), r * 10 + (a - 48), r), lambda a: z3.Not(z3.Or(digit(a), a == 32)))(r, k)
PATF = ()
def digit(a): return z3.And(a >= 48, a <= 57)
def lower(a): return z3.And(a >= 97, a <= 122)
def letter(a): return z3.Or(lower(a), z3.And(a >= 65, a <= 90))
def capital(a): return z3.If(lower(a), a - 32, a)
TENPOW = UF('ten_to_the', IntS, RealS)
class Number:
    """a decimal number at place k: sign, digits, point, digits; blanks are skipped"""
    def __init__(s, t, k):
        k1 = t.skip(k); s.neg = t.at(k1) == 45; sg = z3.Or(s.neg, t.at(k1) == 43); s.k2 = z3.If(sg, t.skip(k1 + 1), k1); s.k3 = t.run(s.k2); s.dot = t.at(s.k3) == 46; k4 = s.k3 + 1
        s.places = z3.If(s.dot, t.count(k4), z3.IntVal(0)); s.found = z3.Or(t.has_digit(s.k2), z3.And(s.dot, t.has_digit(k4))); s.end = z3.If(s.dot, t.run(k4), s.k3)
        m = t.number(z3.RealVal(0), s.k2) + z3.If(s.dot, t.number(z3.RealVal(0), k4) / TENPOW(t.count(k4)), z3.RealVal(0)); s.value = z3.If(s.neg, -m, m)
class Name:
    """the command at place k: @word, or G/M with an address (digits, point, digits), or T when a tool follows"""
    def __init__(s, t, k):
        k1 = t.skip(k); a = t.at(k1); at = a == 64; s.word_end = t.word(k1); g = capital(a); gm = z3.And(z3.Not(at), z3.Or(g == 71, g == 77)); tt = z3.And(z3.Not(at), g == 84)
        k2 = t.skip(k1 + 1); f1 = digit(t.at(k2)); e1 = t.skip(t.digits_end(k2)); e1 = z3.If(f1, e1, k2); dot = t.at(e1) == 46
        s.found = z3.If(at, z3.BoolVal(True), z3.If(gm, z3.If(dot, t.has_digit(e1 + 1), f1), z3.And(tt, tool_follows(t, k1 + 1))))
        s.end = z3.If(at, s.word_end, z3.If(gm, z3.If(dot, t.run(e1 + 1), e1), z3.If(tt, k1 + 1, k1)))
        s.name = z3.If(at, t.upper_word(k1), z3.If(gm, cat(CHR(g), t.digits(k2), z3.If(dot, cat(S('.') if False else CHR(z3.IntVal(46)), t.digits_b(e1 + 1)), S(''))), z3.If(tt, S('T'), S(''))))
        s.cases = [(' (@word)', at), (' (G or M)', gm), (' (T)', tt), (' (no command)', z3.Not(z3.Or(at, gm, tt)))]
def tool_follows(t, k):
    p = t.skip_bt(k); c = capital(t.at(p)); q = t.skip_bt(p + 1); return z3.If(z3.Or(c == 67, c == 88, c == 63), z3.Or(t.at(q) == 59, t.at(q) == 0), digit(c))
# ---------------------------------------------------------------- loops
class Scan:
    """loop-invariant templates: the cursor stays in the text; for every specification f: what was collected together with what f
    says is still to come is as at entry (for each local that can hold what is collected)"""
    def __init__(s, t, places=(), texts=(), flags=(), counts=(), numbers=(), naturals=(), moded=(), pows=False, lists=()): s.t = t; s.lists = lists; s.places, s.texts, s.flags, s.counts, s.numbers, s.naturals, s.moded, s.pows = places, texts, flags, counts, numbers, naturals, moded, pows
    def __call__(s, e, f, header, body, entry): return s
    def invariants(s, e, fr, header, entry, mod):
        t = s.t; out = []; ps = []; B_, I_, D_, T_ = [], [], [], []
        for kd, k in mod:
            if kd != 'c': continue
            sz, proto = e.havoc_proto[(kd, k)]; v0 = entry.cells.get(k)
            if isinstance(proto, Ptr):
                if v0 is not None and isinstance(v0[1], Ptr) and all(a[1] is not None and a[1].stride == 1 for a in proto.alts): ps.append(lambda st, k=k: place(e, st.cells[k][1])[1])
            elif isinstance(proto, FnRef): continue
            elif isinstance(proto, str) or (isz(proto) and proto.sort() == StrS): 
                def tv(st, k=k):
                    v = st.cells[k][1] if k in st.cells else e.load(st, ptr(OBJS[k[0]], k[1]), 'str'); return fresh(StrS, 'undef') if isinstance(v, Undef) else zs(v)
                T_.append(tv)
            elif isinstance(proto, Fraction) or (isz(proto) and proto.sort() == RealS): D_.append(lambda st, k=k: zr(st.cells[k][1]) if k in st.cells and not isinstance(st.cells[k][1], Undef) else fresh(RealS, 'undef'))
            elif sz == 1:
                def bv(st, k=k):
                    v = st.cells[k][1] if k in st.cells else e.load1(st, OBJS[k[0]], k[1], None, Ty('i', 8))
                    if isinstance(v, Undef): return fresh(BoolS, 'undef')
                    b = as_bool01(v); return Z(b) if b is not None else (zi(v) % 2) != 0
                B_.append(bv)
            else:
                def iv(st, k=k, sz=sz):
                    v = st.cells[k][1] if k in st.cells else e.load1(st, OBJS[k[0]], k[1], None, Ty('i', 8 * sz))
                    if isinstance(v, Undef): return fresh(IntS, 'undef')
                    v = zi(v); return z3.If(v < 0, v + (1 << (8 * sz)), v)
                I_.append(iv)
        add = lambda nm, f: out.append((nm, f, False))
        if s.pows:
            for d in D_:
                for i in I_: d0, i0 = d(entry), i(entry); add('the power so far', lambda st, d=d, i=i, v=d0 * TENPOW(i0): d(st) * TENPOW(i(st)) == v); add('the exponent', lambda st, i=i, i0=i0: z3.And(i(st) >= 0, i(st) <= i0))
        for l in s.lists: out += l.invariants(e, ps)
        for p in ps:
            p0 = p(entry); add('cursor in the text', lambda st, p=p, p0=p0: z3.And(p(st) >= p0, p(st) <= t.n)); add('cursor after its start', lambda st, p=p, p0=p0: p(st) > p0)
            for b in B_: add('the flag says whether the cursor moved', lambda st, p=p, p0=p0, b=b, b0=b(entry): b(st) == z3.Or(b0, p(st) > p0))
            for q in ps:
                if q is not p: add('cursors move together', lambda st, p=p, q=q, d=p0 - q(entry): p(st) - q(st) == d)
            for nm, f in s.places: add('place: ' + nm, lambda st, p=p, f=f, v=f(p0): f(p(st)) == v)
            for nm, f in s.flags:
                add('still to come: ' + nm, lambda st, p=p, f=f, v=f(p0): f(p(st)) == v); add('not yet: ' + nm, lambda st, p=p, f=f, p0=p0: z3.Implies(f(p(st)), f(p0)))
                for b in B_:
                    add('found or to come: ' + nm, lambda st, p=p, f=f, b=b, v=z3.Or(b(entry), f(p0)): z3.Or(b(st), f(p(st))) == v); add('kept or to come: ' + nm, lambda st, p=p, f=f, b=b, v=z3.And(b(entry), f(p0)): z3.And(b(st), f(p(st))) == v)
            for nm, f in s.texts:
                for c in T_: add('text: ' + nm, lambda st, p=p, f=f, c=c, v=cat(c(entry), f(p0)): cat(c(st), f(p(st))) == v)
            for nm, f in s.counts:
                for c in I_: add('count: ' + nm, lambda st, p=p, f=f, c=c, v=c(entry) + f(p0): z3.And(c(st) + f(p(st)) == v, c(st) >= 0, c(st) <= p(st)))
            for nm, f in s.numbers:
                for c in D_: add('number: ' + nm, lambda st, p=p, f=f, c=c, v=f(c(entry), p0): f(c(st), p(st)) == v)
            for nm, f in s.naturals:
                for c in I_: add('number: ' + nm, lambda st, p=p, f=f, c=c, v=f(c(entry), p0): z3.And(f(c(st), p(st)) == v, c(st) >= 0))
            for nm, f in s.moded:
                for b in B_:
                    for c in T_ + [None]:
                        if c is None: add('by mode: ' + nm, lambda st, p=p, f=f, b=b, v=f(b(entry), p0, None): z3.BoolVal(True) if v is None else f(b(st), p(st), None) == v)
                        else: add('by mode: ' + nm, lambda st, p=p, f=f, b=b, c=c, v=f(b(entry), p0, c(entry)): z3.BoolVal(True) if v is None else f(b(st), p(st), c(st)) == v)
        return out
# ---------------------------------------------------------------- units
MAXTEXT = 60000
def source(u):
    """a NUL-terminated text and a cursor into it"""
    n, k = z3.Ints('length cursor'); o = u.arr('text', 1, n + 1); A = z3.Const('text', z3.ArraySort(IntS, IntS)); u.st.arrs[(o.id, 0)] = A; t = Src(u.e, A, n); u.e.opts['pure_split'] = True; u.e.opts['prove_ms'] = 1500
    u.assume('the cursor is in the text', z3.And(k >= 0, k <= n)); u.assume('texts of fewer than %d characters' % MAXTEXT, n < MAXTEXT)
    c = Obj('param', 'cursor'); u.e.store(u.st, ptr(c), ptr(o, 0, k), Ty('ptr')); return t, k, o, c
def place(e, p):
    """text and place a pointer points to"""
    r = None
    for (g, o, off, i) in reversed(p.alts):
        x = zi(e.norm(o, off, i)[1])
        if r is not None and p.alts[0][1] is not o: raise ToolLimit('cursor into several texts')
        r = x if r is None else z3.If(Z(g), x, r)
    return p.alts[0][1], r
def cursor(u, st, c): return place(u.e, u.e.load(st, ptr(c), Ty('ptr')))
def moved(u, o, c, want, t, name='the cursor is after it'):
    x, i = cursor(u, u.st1, c); u.ensure('still in the same text', z3.BoolVal(x is o)); u.ensure('C11/C12: ' + name, i == want); u.ensure('the cursor stays in the text', z3.And(i >= 0, i <= t.n))
def u_ten_pow(mod):
    """ten_pow(n) is 10^n"""
    u = Unit(mod, r'^gcode_parser::ten_pow\(unsigned short\)$'); e = u.e; n = z3.Int('n'); u.assume('a count', z3.And(n >= 0, n < MAXTEXT)); k = z3.Int('k!p'); e.facts.append(((), TENPOW(0) == 1)); e.facts.append(((), z3.ForAll([k], z3.Implies(k > 0, TENPOW(k) == 10 * TENPOW(k - 1)), patterns=[TENPOW(k)])))
    t = type('T', (), {'n': z3.IntVal(0)}); e.opts['loops'] = Scan(t, pows=True); u.run([n if False else wrap(n, 16)]); u.ensure('C11: 10 to the n', zr(u.ret) == TENPOW(n)); return u
def u_double(mod):
    """try_extract_double: the decimal number written at the cursor; a text without a digit is refused and nothing is consumed"""
    u = Unit(mod, r'^gcode_parser::try_extract_double\(', registry=reg(TenPow())); t, k, o, c = source(u); e = u.e
    d, pr = Obj('param', 'value'), Obj('param', 'precision'); e.store(u.st, ptr(d), z3.Real('v0'), Ty('double')); e.store(u.st, ptr(pr), z3.Int('p0'), Ty('i', 8)); u.assume('precision', z3.And(z3.Int('p0') >= -128, z3.Int('p0') <= 127))
    e.opts['loops'] = Scan(t, places=[('blanks', t.skip), ('digits', t.run)], flags=[('a digit', t.has_digit)], counts=[('digits', t.count)], numbers=[('decimal', t.number)])
    u.run([ptr(u.obj('gcode_parser', 'gp')), ptr(c), ptr(d), ptr(pr)]); N = Number(t, k); v = zr(e.load(u.st1, ptr(d), Ty('double'))); p = zi(e.load(u.st1, ptr(pr), Ty('i', 8)))
    ret = Z(zb(u.ret)); u.ensure('C11: read exactly when there is a digit', ret == N.found); u.ensure('C11: the value is the number written', z3.Implies(ret, v == N.value)); u.ensure('C11: refused: no value', z3.Implies(z3.Not(ret), v == z3.Real('v0')))
    moved(u, o, c, z3.If(N.found, N.end, k), t); u.ensure('C11: the precision is the number of decimals', z3.Implies(N.dot, p == wrap(N.places, 8))); u.ensure('C11: no decimals: precision unchanged', z3.Implies(z3.Not(N.dot), p == z3.Int('p0'))); return u
class TenPow(FnContract):
    def __init__(s): super().__init__('gcode_parser::ten_pow', r'^gcode_parser::ten_pow\(unsigned short\)$')
    def summary(s, c): n = zi(c.args[0]); return TENPOW(z3.If(n < 0, n + 65536, n))
class Cur(FnContract):
    """a callee that moves the cursor"""
    src = None
    def here(s, c, i=0):
        p = c.e.load(c.st0, c.args[i], Ty('ptr')); o, ix = place(c.e, p); A = c.e.arr_get(c.st0, o, 0, IntS); t = c.e.srcs[A.get_id()]; s.o = o
        c.e.oblige(c.st1, 'the cursor is in the text', z3.And(ix >= 0, ix <= t.n), c.e.where(c.ins), 'pre'); return t, ix
    def go(s, c, to, t, k, i=0): c.e.store(c.st1, c.args[i], ptr(s.o, 0, to), Ty('ptr')); c.e.fact(c.st1, z3.And(to >= k, to <= t.n))
class Double(Cur):
    def __init__(s): super().__init__('gcode_parser::try_extract_double', r'^gcode_parser::try_extract_double\(')
    def summary(s, c):
        e, st = c.e, c.st1; t, k = s.here(c, 1); N = Number(t, k); s.go(c, z3.If(N.found, N.end, k), t, k, 1)
        v0, p0 = e.load(c.st0, c.args[2], Ty('double')), e.load(c.st0, c.args[3], Ty('i', 8)); e.store(st, c.args[2], z3.If(N.found, N.value, fresh(RealS, 'v') if isinstance(v0, Undef) else zr(v0)), Ty('double'))
        e.store(st, c.args[3], z3.If(N.dot, wrap(N.places, 8), fresh(IntS, 'p') if isinstance(p0, Undef) else zi(p0)), Ty('i', 8)); return N.found
def u_natural(mod):
    """try_extract_unsigned_long: the whole number written at the cursor"""
    u = Unit(mod, r'^gcode_parser::try_extract_unsigned_long\('); t, k, o, c = source(u); e = u.e; d = Obj('param', 'value'); e.store(u.st, ptr(d), z3.Int('v0'), Ty('i', 64))
    e.opts['loops'] = Scan(t, places=[('blanks', t.skip), ('digits', t.run)], flags=[('a digit', t.has_digit)], naturals=[('whole', t.natural)])
    u.run([ptr(c), ptr(d)]); k1 = t.skip(k); ret = Z(zb(u.ret)); v = zi(e.load(u.st1, ptr(d), Ty('i', 64))); f = t.has_digit(k1)
    u.ensure('C11: read exactly when there is a digit', ret == f); u.ensure('C11: the value is the number written (below 2^32)', z3.Implies(ret, v == t.natural(z3.IntVal(0), k1))); u.ensure('C11: refused: no value', z3.Implies(z3.Not(ret), v == z3.Int('v0'))); moved(u, o, c, z3.If(f, t.run(k1), k), t); return u
class Natural(Cur):
    def __init__(s): super().__init__('gcode_parser::try_extract_unsigned_long', r'^gcode_parser::try_extract_unsigned_long\(')
    def summary(s, c):
        e, st = c.e, c.st1; t, k = s.here(c); k1 = t.skip(k); f = t.has_digit(k1); s.go(c, z3.If(f, t.run(k1), k), t, k); v0 = e.load(c.st0, c.args[1], Ty('i', 64)); e.store(st, c.args[1], z3.If(f, t.natural(z3.IntVal(0), k1), fresh(IntS, 'v') if isinstance(v0, Undef) else zi(v0)), Ty('i', 64)); return f
# text scanners: (function, what it collects, where it ends, result)
TEXTS = {'try_extract_text_parameter': ('the rest of the command', lambda t, k: t.line(t.skip(k)), lambda t, k: t.stop(t.skip(k)), lambda t, k: z3.BoolVal(True)),
         'try_extract_at_command': ('a word in capitals', lambda t, k: t.upper_word(k), lambda t, k: t.word(k), lambda t, k: t.word(k) != k, lambda t, k: z3.Or(*[t.at(t.word(k)) == x for x in (0, 59, 32)])),
         'try_extract_gcode_command': ('the name of the command', lambda t, k: Name(t, k).name, lambda t, k: Name(t, k).end, lambda t, k: Name(t, k).found)}
class TextScan(Cur):
    opaque = None
    def __init__(s, fn): super().__init__('gcode_parser::' + fn, r'^gcode_parser::%s\(' % fn); s.f = TEXTS[fn]
    def summary(s, c):
        e, st = c.e, c.st1; t, k = s.here(c); nm, txt, end, res = s.f[:4]; s.go(c, end(t, k), t, k); [e.fact(st, g(t, k)) for g in s.f[4:]]; e.store(st, c.args[1], cat(zs(e.load(c.st0, c.args[1], 'str')), txt(t, k) if s.opaque is None else s.opaque), 'str'); return res(t, k)
def all_scan(t): return Scan(t, places=[('blanks', t.skip), ('blanks and tabs', t.skip_bt), ('word', t.word), ('command', t.stop), ('comment', t.after), ('digits', t.run)], flags=[('a digit', t.has_digit)], texts=[('command', t.line), ('comment', t.comment), ('word', t.upper_word), ('digits', t.digits_b)],
    moded=[('address', lambda b, p, c: None if c is None else cat(c, z3.If(b, t.digits(p), t.digits(t.skip(p))))), ('address end', lambda b, p, c: z3.If(b, t.skip(t.digits_end(p)), z3.If(digit(t.at(t.skip(p))), t.skip(t.digits_end(t.skip(p))), t.skip(p)))), ('address found', lambda b, p, c: z3.Or(b, digit(t.at(t.skip(p)))))])
def u_text(fn):
    nm, txt, end, res = TEXTS[fn][:4]; also = TEXTS[fn][4:]
    def f(mod):
        u = Unit(mod, r'^gcode_parser::%s\(' % fn, registry=reg(*([TextScan('try_extract_at_command')] if 'gcode' in fn else []))); t, k, o, c = source(u); e = u.e; d = Obj('param', 'text'); s0 = z3.Const('s0', StrS); e.store(u.st, ptr(d), s0, 'str')
        e.opts['loops'] = all_scan(t)
        u.run([ptr(c), ptr(d)]); x, i = cursor(u, u.st1, c); txt1, ret = zs(e.load(u.st1, ptr(d), 'str')), Z(zb(u.ret))
        for cn, cs in (Name(t, k).cases if 'gcode' in fn else [('', z3.BoolVal(True))]):
            u.ensure('C12: the text is %s%s' % (nm, cn), z3.Implies(cs, txt1 == cat(s0, txt(t, k)))); u.ensure('C12: the result' + cn, z3.Implies(cs, ret == res(t, k))); u.ensure('C11/C12: the cursor is after it' + cn, z3.Implies(cs, i == end(t, k)))
        for g in also: u.ensure('what stops it', g(t, k))
        u.ensure('still in the same text', z3.BoolVal(x is o)); u.ensure('the cursor stays in the text', z3.And(i >= k, i <= t.n)); return u
    f.__name__ = 'u_' + fn; f.__doc__ = fn + ': ' + nm; return f
def u_extract_comment(mod):
    """try_extract_comment: everything behind the first semicolon, without line breaks"""
    u = Unit(mod, r'^gcode_parser::try_extract_comment\('); t, k, o, c = source(u); e = u.e; d = Obj('param', 'text'); s0 = z3.Const('s0', StrS); e.store(u.st, ptr(d), s0, 'str')
    e.opts['loops'] = Scan(t, places=[('comment', t.after)], texts=[('comment', t.comment)], moded=[('start of the comment', lambda b, p, c: z3.If(b, p, t.after(p)) if c is None else None)])
    u.run([ptr(u.obj('gcode_parser', 'gp')), ptr(c), ptr(d)]); s1 = zs(e.load(u.st1, ptr(d), 'str')); u.ensure('C12: the comment', s1 == cat(s0, t.comment(t.after(k)))); u.ensure('C12: the result says whether there is one', Z(zb(u.ret)) == (z3.Length(s1) != 0)); x, i = cursor(u, u.st1, c); u.ensure('the cursor is at the end', i == t.n); return u
class Comment(Cur):
    def __init__(s): super().__init__('gcode_parser::try_extract_comment', r'^gcode_parser::try_extract_comment\(')
    def summary(s, c):
        e, st = c.e, c.st1; t, k = s.here(c, 1); s.go(c, t.n, t, k, 1); v = cat(zs(e.load(c.st0, c.args[2], 'str')), t.comment(t.after(k))); e.store(st, c.args[2], v, 'str'); return z3.Length(v) != 0
# ---------------------------------------------------------------- parameters of a command
PP = 'parsed_command_parameter'
class Param:
    """the parameter at place k: a letter, then a number, or nothing when another letter follows, or else the rest of the command"""
    def __init__(s, t, k):
        k1 = t.skip(k); a = t.at(k1); s.found = letter(a); s.name = CHR(capital(a)); N = s.N = Number(t, k1 + 1); k2 = t.skip(k1 + 1); bare = letter(t.at(k2)); s.num = N.found; s.value = N.value
        s.text = z3.If(z3.Or(N.found, bare), S(''), t.line(k2)); s.type = z3.If(N.found, z3.IntVal(70), z3.IntVal(83)); s.end = z3.If(s.found, z3.If(N.found, N.end, z3.If(bare, k1 + 1, t.stop(k2))), k); s.letter = capital(a)
def fresh_param(u, name):
    o = u.obj(PP, name); v = u.view(o, PP); u.assume('a new parameter', z3.And(zs(v.name) == S(''), zs(v.string_value) == S(''), zr(v.double_value) == 0, zi(v.unsigned_long_value) == 0)); return o, v
def u_parameter(mod):
    """try_extract_parameter: the letter, and the number written behind it; a letter without a value does not swallow the next parameter"""
    u = Unit(mod, r'^gcode_parser::try_extract_parameter\(', registry=reg(Double(), TextScan('try_extract_text_parameter'))); t, k, o, c = source(u); e = u.e; po, v0 = fresh_param(u, 'param')
    e.opts['loops'] = all_scan(t); u.run([ptr(u.obj('gcode_parser', 'gp')), ptr(c), ptr(po)]); P = Param(t, k); v = View(e, u.st1, ptr(po), mod.classes()[PP]); ret = Z(zb(u.ret))
    u.ensure('C11: found exactly when there is a letter', ret == P.found); u.ensure('C11: the letter in capitals', z3.Implies(ret, zs(v.name) == P.name)); u.ensure('C11: the value is the number behind it', z3.Implies(z3.And(ret, P.num), z3.And(zr(v.double_value) == P.value, zi(v.value_type) == 70)))
    u.ensure('C11: without a number it has none', z3.Implies(z3.And(ret, z3.Not(P.num)), z3.And(zr(v.double_value) == 0, zi(v.value_type) == 83))); u.ensure('C11: its text', z3.Implies(ret, zs(v.string_value) == P.text)); moved(u, o, c, P.end, t, 'the cursor is after the parameter'); return u
class ParamC(Cur):
    lists = ()
    def __init__(s): super().__init__('gcode_parser::try_extract_parameter', r'^gcode_parser::try_extract_parameter\(')
    def summary(s, c):
        e, st = c.e, c.st1; t, k = s.here(c, 1); P = Param(t, k); v0 = View(e, c.st0, c.args[2], e.mod.classes()[PP]); e.oblige(st, 'a new parameter', z3.And(zs(v0.name) == S(''), zs(v0.string_value) == S(''), zr(v0.double_value) == 0, zi(v0.unsigned_long_value) == 0), e.where(c.ins), 'pre')
        v = c.new(c.args[2], PP); s.go(c, P.end, t, k, 1); [e.fact(st, l.step(zi(l.q.cnt(st)))) for l in s.lists]; v.name = z3.If(P.found, P.name, fresh(StrS, 'n')); v.value_type = z3.If(P.found, P.type, fresh(IntS, 't')); v.double_value = z3.If(z3.And(P.found, P.num), P.value, z3.RealVal(0)); v.double_precision = fresh(IntS, 'p'); v.string_value = z3.If(P.found, P.text, fresh(StrS, 's')); return P.found
class Tool:
    """what follows T: c, x or ?, or a whole number"""
    def __init__(s, t, k):
        k1 = t.skip(k); a = capital(t.at(k1)); s.word = z3.Or(a == 67, a == 88, a == 63); s.found = z3.Or(s.word, t.has_digit(k1)); s.value = t.natural(z3.IntVal(0), k1); s.text = CHR(a)
def u_t_parameter(mod):
    """try_extract_t_parameter: the tool named"""
    u = Unit(mod, r'^gcode_parser::try_extract_t_parameter\(', registry=reg(Natural())); t, k, o, c = source(u); e = u.e; po, v0 = fresh_param(u, 'param'); e.opts['loops'] = all_scan(t)
    u.run([ptr(c), ptr(po)]); T = Tool(t, k); v = View(e, u.st1, ptr(po), mod.classes()[PP]); ret = Z(zb(u.ret)); u.ensure('C11: found exactly when a tool follows', ret == T.found)
    u.ensure('C11: the number of the tool', z3.Implies(z3.And(ret, z3.Not(T.word)), z3.And(zi(v.unsigned_long_value) == T.value, zi(v.value_type) == 85))); u.ensure('C11: its name', z3.Implies(ret, zs(v.name) == S('T'))); u.ensure('C11: c, x or ?', z3.Implies(T.word, z3.And(zs(v.string_value) == T.text, zi(v.value_type) == 83))); x, i = cursor(u, u.st1, c); u.ensure('the cursor stays', i == k); return u
class ToolC(Cur):
    def __init__(s): super().__init__('gcode_parser::try_extract_t_parameter', r'^gcode_parser::try_extract_t_parameter\(')
    def summary(s, c):
        e, st = c.e, c.st1; t, k = s.here(c); T = Tool(t, k); v = c.new(c.args[1], PP); v.name = S('T'); v.value_type = z3.If(T.word, z3.IntVal(83), z3.If(T.found, z3.IntVal(85), fresh(IntS, 't'))); v.unsigned_long_value = z3.If(T.word, z3.IntVal(0), z3.If(T.found, T.value, fresh(IntS, 'u'))); v.string_value = z3.If(T.word, T.text, fresh(StrS, 's')); v.double_value = z3.RealVal(0); v.double_precision = fresh(IntS, 'p'); return T.found
def u_octolapse(mod):
    """try_extract_octolapse_parameter: the first word"""
    u = Unit(mod, r'^gcode_parser::try_extract_octolapse_parameter\('); t, k, o, c = source(u); e = u.e; po, v0 = fresh_param(u, 'param'); e.opts['loops'] = all_scan(t)
    u.run([ptr(u.obj('gcode_parser', 'gp')), ptr(c), ptr(po)]); k1 = t.skip(k); v = View(e, u.st1, ptr(po), mod.classes()[PP]); u.ensure('C12: the word in capitals', zs(v.name) == t.upper_word(k1)); u.ensure('found exactly when there is one', Z(zb(u.ret)) == (t.word(k1) != k1)); moved(u, o, c, t.word(k1), t, 'the cursor is after it'); return u
class OctoC(Cur):
    def __init__(s): super().__init__('gcode_parser::try_extract_octolapse_parameter', r'^gcode_parser::try_extract_octolapse_parameter\(')
    def summary(s, c):
        e, st = c.e, c.st1; t, k = s.here(c, 1); k1 = t.skip(k); v = c.new(c.args[2], PP); v.name = t.upper_word(k1); v.value_type = z3.IntVal(78); s.go(c, t.word(k1), t, k, 1); return t.word(k1) != k1
# ---------------------------------------------------------------- std::set of command names (assumed contract)
SETT = r'std::set<std::__cxx11::basic_string<[^()]* >'
SITT = r'std::_Rb_tree_const_iterator<std::__cxx11::basic_string<'
SEND, SNODE = Obj('heap', 'set end'), Obj('heap', 'set node')
@models.M.rule(r'^%s::find\(' % SETT)
def set_find(s, st, a, ins, n, d):
    s.assumed.add('std::set: membership is a function of the text'); (_, o, off, _), = a[0].alts; return ite(UF('in_set_%d' % off, StrS, BoolS)(zs(s.load(st, a[1], 'str', ins))), ptr(SNODE), ptr(SEND))
@models.M.rule(r'^%s::end\(\)' % SETT)
def set_end(s, st, a, ins, n, d): return ptr(SEND)
@models.M.rule(r'^std::operator(!=|==)\(' + SITT)
def set_ne(s, st, a, ins, n, d):
    r = ptr_eq(s.load(st, a[0], Ty('ptr'), ins), s.load(st, a[1], Ty('ptr'), ins)); return r if d.startswith('std::operator==') else b_not(r)
@models.M.rule(r'^%s::operator=\(char\)$' % models.BS)
def str_of_char(s, st, a, ins, n, d): models.STR(s); models.sstore(s, st, a[0], models.chstr(s, a[1])); return a[0]
@models.M.rule(r'^utilities::rtrim\(std::')
def rtrim_(s, st, a, ins, n, d): s.assumed.add('utilities::rtrim returns a text (not used for lines kept as they are)'); models.sstore(s, st, a[0], fresh(StrS, 'rtrim')); return None
def u_try_parse(keep):
    def f(mod):
        u = Unit(mod, r'^gcode_parser::try_parse_gcode\(char const\*, parsed_command&, bool\)$', registry=reg(TextScan('try_extract_gcode_command'), TextScan('try_extract_text_parameter'), ParamC(), ToolC(), OctoC(), Comment())); t, k, o, c = source(u); e = u.e
        co = u.obj('parsed_command', 'cmd'); v0 = u.view(co, 'parsed_command'); u.assume('a new command', zs(v0.command) == S('')); g0, c0 = zs(v0.gcode), zs(v0.comment)
        e.opts['loops'] = Scan(t, places=[('comment', t.after)], flags=[('nothing to do', t.blank_line)], texts=[('command', t.line)])
        u.run([ptr(u.obj('gcode_parser', 'gp')), ptr(o, 0, k), ptr(co), keep]); v = View(e, u.st1, ptr(co), mod.classes()['parsed_command']); N = Name(t, k); ret = Z(zb(u.ret))
        u.ensure('C12: the result says whether the command is known', ret == N.found); u.ensure('C12: so does the command', B(v.is_known_command) == N.found)
        u.ensure('C12: the name of the command', zs(v.command) == z3.If(N.found, N.name, S(''))); u.ensure('C12: empty exactly when there is nothing printable', B(v.is_empty) == z3.And(z3.Not(N.found), t.blank_line(k)))
        if keep: u.ensure('C12: the text of the command', zs(v.gcode) == cat(g0, t.line(k)))
        u.ensure('C12: the comment', zs(v.comment) == cat(c0, t.comment(t.after(k)))); return u
    f.__name__ = 'u_try_parse' + ('' if keep else '_capitals'); f.__doc__ = 'try_parse_gcode: text, comment, name and kind of the line' + ('' if keep else ' (text not kept as it is)'); return f
class Listed:
    """the parameters of a command: the j-th begins where the one before ends (first: at place `first`); kept as written, in order"""
    def __init__(s, u, t, name, j0, first, q):
        s.t, s.j0, s.q, s.name = t, j0, q, name; s.start = UF('start_of_' + name, IntS, IntS); u.e.facts.append(((), s.start(j0) == first)); s.e = u.e
    def step(s, j): return s.start(j + 1) == Param(s.t, s.start(j)).end          # instances of the definition
    def cols(s, st): return {q: ar for (q, t, ar) in s.q.arrs(st)}
    def upto(s, st, n=None):
        """elements j0 .. size-1 are the parameters written at start(j0), start(j0+1), .."""
        e, j = s.e, z3.Int('j!l'); P = Param(s.t, s.start(j)); v = s.q.at(st, j)
        return z3.ForAll([j], z3.Implies(z3.And(j >= s.j0, j < zi(s.q.cnt(st))), z3.And(P.found, zs(v.name) == P.name, zi(v.value_type) == P.type, zr(v.double_value) == z3.If(P.num, P.value, z3.RealVal(0)), zs(v.string_value) == P.text)), patterns=[s.start(j)])
    def invariants(s, e, ps):
        return [('parameters so far (%s)' % s.name, lambda st: z3.And(zi(s.q.cnt(st)) >= s.j0, s.upto(st)), False)] + [('cursor at the next parameter (%s)' % s.name, lambda st, p=p: s.start(zi(s.q.cnt(st))) == p(st), False) for p in ps]
def u_parameters(mod):
    """try_parse_gcode: the parameters of the command are the ones written behind it, in order, with their values"""
    P = ParamC(); NC = TextScan('try_extract_gcode_command'); nm = NC.opaque = z3.Const('name of the command', StrS); u = Unit(mod, r'^gcode_parser::try_parse_gcode\(char const\*, parsed_command&, bool\)$', registry=reg(NC, TextScan('try_extract_text_parameter'), P, ToolC(), OctoC(), Comment())); t, k, o, c = source(u); e = u.e; co = u.obj('parsed_command', 'cmd'); v0 = u.view(co, 'parsed_command'); q = vec_of(e, v0.ptr_of('parameters'), PP)
    u.assume('a new command', z3.And(zs(v0.command) == S(''), zi(q.cnt(u.st)) == 0)); N = Name(t, k); gp = u.obj('gcode_parser', 'gp'); a1 = capital(t.at(t.skip(k)))
    e.facts.append(((), z3.Implies(N.found, z3.And(UF('char_at', StrS, IntS, IntS)(nm, z3.IntVal(0)) == a1, z3.Length(nm) > 0))))       # the name begins with the letter written (C12: the text is the name)
    L1, L2 = Listed(u, t, 'parameters', 0, N.end, q), Listed(u, t, 'parameters_behind_a_word', 1, t.word(t.skip(N.end)), q)
    P.lists = (L1, L2); e.opts['loops'] = Scan(t, lists=(L1, L2))
    u.run([ptr(gp), ptr(o, 0, k), ptr(co), z3.Bool('keep')]); st = u.st1; n = zi(q.cnt(st)); cv = mod.classes()['gcode_parser']; inset = lambda f, x: UF('in_set_%d' % mod.class_fields(cv)[f][0], StrS, BoolS)(x)
    cv1 = View(e, st, ptr(co), mod.classes()['parsed_command']); known = z3.And(N.found, inset('parsable_commands_', nm)); textual = z3.Or(inset('text_only_functions_', nm), z3.And(nm != S('@OCTOLAPSE'), a1 == 64))
    u.ensure('C11: an unknown command has no parameters', z3.Implies(z3.Not(known), n == 0)); w = z3.And(known, nm != S('@OCTOLAPSE'), z3.Not(textual)); 
    tool = z3.And(w, a1 == 84); T = Tool(t, N.end); v = q.at(st, 0)
    u.ensure('C11: a tool change names its tool', z3.Implies(tool, z3.And(n == z3.If(T.found, 1, 0), z3.Implies(z3.And(T.found, z3.Not(T.word)), z3.And(zi(v.value_type) == 85, zi(v.unsigned_long_value) == T.value)), z3.Implies(T.word, z3.And(zi(v.value_type) == 83, zs(v.string_value) == T.text)))))
    g = z3.And(w, z3.Not(tool)); u.ensure('C11: the parameters are the ones written, in order', z3.Implies(g, L1.upto(st))); u.ensure('C11: all of them', z3.Implies(g, z3.Not(Param(t, L1.start(n)).found))); return u
def u_cmd_ctor(mod):
    """a new parsed_command is empty"""
    u = Unit(mod, r'^parsed_command::parsed_command\(\)$'); o = u.obj('parsed_command', 'cmd'); u.run([ptr(o)]); empty_cmd(u, o); return u
def u_cmd_clear(mod):
    """parsed_command::clear empties it"""
    u = Unit(mod, r'^parsed_command::clear\(\)$'); o = u.obj('parsed_command', 'cmd'); u.run([ptr(o)]); empty_cmd(u, o); return u
def empty_cmd(u, o):
    v = View(u.e, u.st1, ptr(o), u.mod.classes()['parsed_command']); u.ensure('C12: empty', z3.And([zs(x) == S('') for x in (v.command, v.gcode, v.comment)])); u.ensure('no parameters', zi(vec_of(u.e, v.ptr_of('parameters'), PP).cnt(u.st1)) == 0); u.ensure('not a known command, empty', z3.And(B(v.is_empty), z3.Not(B(v.is_known_command))))
def u_to_string(mod):
    """parsed_command::to_string: the text and, if there is one, the comment behind a semicolon"""
    u = Unit(mod, r'^parsed_command::to_string\b'); e = u.e; o = u.obj('parsed_command', 'cmd'); v = u.view(o, 'parsed_command'); r = Obj('param', 'result'); u.run([ptr(r), ptr(o)]); g, c = zs(v.gcode), zs(v.comment); u.ensure('C12: text and comment', zs(e.load(u.st1, ptr(r), 'str')) == cat(g, z3.If(z3.Length(c) > 0, cat(S(';'), c), S('')))); u.frame(o, [], 'parsed_command'); return u
NUMBERS = [u_ten_pow, u_double, u_natural, u_parameter, u_t_parameter, u_parameters]
LINES = [u_text(f) for f in TEXTS] + [u_extract_comment, u_octolapse, u_try_parse(True), u_try_parse(False), u_cmd_ctor, u_cmd_clear, u_to_string]
PARSER = NUMBERS + LINES
