"""back end for equalities between rational expressions: case-split decided ite conditions with z3, then normalise
the numerator of lhs-rhs (exact rational arithmetic) to the zero polynomial; every denominator gets its own non-zero proof."""
import z3, time
from engine import *

class Poly:
    """multivariate polynomial: dict monomial(tuple of (var,exp) sorted) -> Fraction"""
    __slots__ = ('d',)
    def __init__(s, d): s.d = d
    @staticmethod
    def const(c): return Poly({(): Fraction(c)} if c else {})
    @staticmethod
    def var(v): return Poly({((v, 1),): Fraction(1)})
    def add(s, o, sg=1):
        d = dict(s.d)
        for m, c in o.d.items():
            x = d.get(m, 0) + sg * c
            if x: d[m] = x
            else: d.pop(m, None)
        return Poly(d)
    def mul(s, o):
        d = {}
        for m1, c1 in s.d.items():
            for m2, c2 in o.d.items():
                e = dict(m1)
                for v, k in m2: e[v] = e.get(v, 0) + k
                m = tuple(sorted(e.items())); x = d.get(m, 0) + c1 * c2
                if x: d[m] = x
                else: d.pop(m, None)
        return Poly(d)
    def zero(s): return not s.d

class NotRing(Exception): pass
def to_rat(t, decide, vars, dens, memo):
    k = t.get_id()
    if k in memo: return memo[k]
    r = _to_rat(t, decide, vars, dens, memo); memo[k] = r; return r
def _to_rat(t, decide, vars, dens, memo):
    one = Poly.const(1)
    if z3.is_rational_value(t): return (Poly.const(Fraction(t.numerator_as_long(), t.denominator_as_long())), one)
    if z3.is_int_value(t): return (Poly.const(t.as_long()), one)
    k = t.decl().kind()
    R = lambda x: to_rat(x, decide, vars, dens, memo)
    if k == z3.Z3_OP_ADD:
        n, d = R(t.arg(0))
        for x in t.children()[1:]:
            n2, d2 = R(x); n, d = (n.add(n2), d) if d.d == d2.d else (n.mul(d2).add(n2.mul(d)), d.mul(d2))
        return n, d
    if k == z3.Z3_OP_SUB:
        n, d = R(t.arg(0))
        for x in t.children()[1:]:
            n2, d2 = R(x); n, d = (n.add(n2, -1), d) if d.d == d2.d else (n.mul(d2).add(n2.mul(d), -1), d.mul(d2))
        return n, d
    if k == z3.Z3_OP_UMINUS:
        n, d = R(t.arg(0)); return Poly.const(-1).mul(n), d
    if k == z3.Z3_OP_MUL:
        n, d = one, one
        for x in t.children():
            n2, d2 = R(x); n, d = n.mul(n2), d.mul(d2)
        return n, d
    if k == z3.Z3_OP_DIV:
        n, d = R(t.arg(0)); n2, d2 = R(t.arg(1))
        dens.append(t.arg(1)); return n.mul(d2), d.mul(n2)
    if k == z3.Z3_OP_TO_REAL and z3.is_int_value(t.arg(0)): return (Poly.const(t.arg(0).as_long()), one)
    if k == z3.Z3_OP_ITE:
        c = decide(t.arg(0))
        if c is None: raise NotRing('undecided condition %s' % str(t.arg(0))[:80])
        return R(t.arg(1) if c else t.arg(2))
    v = vars.setdefault(t.sexpr(), len(vars)); return (Poly.var(v), one)

def ring_prove(eng, ob, timeout):
    """ob.ring = (guard, lhs, rhs)"""
    guard, lhs, rhs = ob.ring
    sol = z3.Solver(); sol.set('timeout', 5000)
    for i in range(ob.nf): sol.add(eng.fact_expr(i))
    for c in ob.pc: sol.add(c)
    sol.add(Z(guard))
    known = list(split_conj([Z(guard)] + list(ob.pc)))
    memo = {}
    def decide(c):
        h = c.get_id()
        if h in memo: return memo[h]
        r = syn(c, known)
        if r is None:
            sol.push(); sol.add(c); a = sol.check(); sol.pop()
            if a == z3.unsat: r = False
            else:
                sol.push(); sol.add(z3.Not(c)); b = sol.check(); sol.pop()
                if b == z3.unsat: r = True
        memo[h] = r; return r
    dens = []
    try: n, d = to_rat(zr(lhs) - zr(rhs), decide, {}, dens, {})
    except NotRing as ex: return 'unknown', str(ex)
    for x in {x.get_id(): x for x in dens}.values():
        sol.push(); sol.add(x == 0); a = sol.check(); sol.pop()
        if a != z3.unsat: return ('unknown', 'denominator may be zero: %s' % str(x)[:100])
    if n.zero(): return 'proved', ''
    return 'failed', 'numerator is not the zero polynomial (%d terms)' % len(n.d)
def split_conj(l):
    for x in l:
        if z3.is_and(x): yield from split_conj(x.children())
        elif z3.is_not(x) and z3.is_or(x.arg(0)):
            yield from split_conj([b_not(y) for y in x.arg(0).children()])
        else: yield x
def syn(c, known):
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    for k in known:
        if k.eq(c): return True
        if compl(k, c): return False
    if z3.is_and(c):
        rs = [syn(x, known) for x in c.children()]
        return False if False in rs else True if all(r is True for r in rs) else None
    if z3.is_or(c):
        rs = [syn(x, known) for x in c.children()]
        return True if True in rs else False if all(r is False for r in rs) else None
    if z3.is_not(c):
        r = syn(c.arg(0), known); return None if r is None else not r
    return None
