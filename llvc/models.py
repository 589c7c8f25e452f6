"""Assumed contracts on dependencies (C++ standard library, libm, libc, logging).  Every one that is
used while verifying a function is reported in the evidence as an unchecked assumption."""
import re, z3
from engine import *

class Models:
    def __init__(s):
        s.rules = []
        s.cache = {}
        s.noinline = [re.compile(r'^(std::|__gnu_cxx::|operator (new|delete)|bool std::|void std::|unsigned long std::)')]
        s.inline_std = re.compile(r'^(?:\w[\w :<>,*&\[\]]*? )?(std::(max|min|move|forward|addressof|swap|exception|abs|isnan|signbit|isinf)\b|__gnu_cxx::__normal_iterator<)|^(bool|auto|long|decltype.*) __gnu_cxx::operator(!=|==|-|<)<')
    def rule(s, pat):
        def deco(fn):
            s.rules.append((re.compile(pat), fn)); return fn
        return deco
    def lookup(s, name, dem):
        if name in s.cache: return s.cache[name]
        r = None
        for pat, fn in s.rules:
            if pat.search(dem): r = fn; break
        s.cache[name] = r
        return r
    def may_inline(s, name, dem):
        if s.inline_std.search(dem): return True
        return not (dem.startswith('std::') or dem.startswith('__gnu_cxx::') or re.match(r'^[\w:<>,*& ]*\bstd::[\w:<>, *&]*\(', dem) or re.match(r'^std::|.* std::(?:__cxx11::)?basic_\w+<', dem.split('(')[0]))

M = Models()
R = M.rule
ST = Ty('i', 64)

# ---------- allocation
@R(r'^operator new(\[\])?\(')
def op_new(s, st, a, ins, n, d):
    if 'newarray' in s.opts:        # typed storage: the unit says what the elements are
        o = s.opts['newarray'](s, st, a[0], ins)
        if o is not None: s.assumed.add('operator new returns fresh storage (no bad_alloc)'); return ptr(o, 0, z3.IntVal(0))
    o = Obj('heap', 'new%s' % ('@' + s.where(ins)), None, lazy=True)
    o.nbytes = a[0]
    s.assumed.add('operator new returns fresh storage (no bad_alloc)')
    return ptr(o)
@R(r'^operator delete(\[\])?\(')
def op_del(s, st, a, ins, n, d):
    for (g, o, f, i) in a[0].alts:
        if o is None: continue
        fr = st.freed.get(o.id)
        if fr is not None: s.oblige(st, 'no double delete', b_not(b_and(g, fr)), s.where(ins), 'safety')
        st.freed[o.id] = b_or(fr if fr is not None else False, g)
    return None
@R(r'^__cxa_allocate_exception')
def cxa_alloc(s, st, a, ins, n, d): return ptr(Obj('heap', 'exc'))
@R(r'^__cxa_throw$')
def cxa_throw(s, st, a, ins, n, d):
    if s.throws: s.throws[-1].append((st.copy(), s.where(ins)))
    return None, None
@R(r'^(__clang_call_terminate|std::terminate|__cxa_begin_catch|__cxa_end_catch|__cxa_free_exception|__cxa_guard_\w+|__cxa_atexit)')
def nop(s, st, a, ins, n, d): return UNDEF
@R(r'^std::exception::(~)?exception\(')
def exc(s, st, a, ins, n, d): return None

# ---------- libm (real-valued; axioms instantiated at each application)
def uf1(name):
    def f(s, st, a, ins, n, d):
        s.assumed.add('libm %s: assumed real function' % name)
        x = a[0]
        if isinstance(x, Undef): return s.fresh_of(Ty('double'))
        if not isz(x):
            if name in ('fabs',): return abs(x)
        x = zr(x)
        if name == 'fabs': return z3.If(x >= 0, x, -x)
        if name == 'floor': return z3.ToReal(z3.ToInt(x))
        if name == 'ceil': return -z3.ToReal(z3.ToInt(-x))
        r = UF(name, RealS, RealS)(x)
        libm_axioms(s, st, name, x, r)
        return r
    return f
def libm_axioms(s, st, name, x, r):
    if name == 'sqrt': s.fact(st, z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    if name in ('cos', 'sin'):
        c, sn = UF('cos', RealS, RealS)(x), UF('sin', RealS, RealS)(x)
        s.fact(st, z3.And(r >= -1, r <= 1))
        if s.opts.get('trig'): s.fact(st, c * c + sn * sn == 1)
for nm in ('sqrt', 'fabs', 'floor', 'ceil', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'log10', 'log', 'round', 'exp'):
    M.rules.append((re.compile(r'^(std::)?%sf?(\(double\)|\(float\))?$' % nm), uf1(nm)))
M.rules.append((re.compile(r'^std::abs\(double\)$'), uf1('fabs')))
@R(r'^std::abs\(int\)$|^abs$|^labs$|^llabs$|^std::abs\(long\)$')
def iabs(s, st, a, ins, n, d): return abs(a[0]) if not isz(a[0]) else z3.If(a[0] >= 0, a[0], -a[0])
@R(r'^(std::)?(atan2|hypot|fmod|pow)(\(|$)|std::pow<|^__gnu_cxx::__promote.*std::pow')
def uf2(s, st, a, ins, n, d):
    nm = re.search(r'atan2|hypot|fmod|pow', d).group(0)
    s.assumed.add('libm %s: assumed real function' % nm)
    r = UF(nm, RealS, RealS, RealS)(zr(toreal(a[0])), zr(toreal(a[1])))
    if nm == 'hypot': s.fact(st, z3.And(r >= 0, r * r == zr(a[0]) * zr(a[0]) + zr(a[1]) * zr(a[1])))
    return r
def toreal(x):
    if isinstance(x, Undef): return Fraction(0)
    if isz(x): return x
    return Fraction(x)

# ---------- std::string (value semantics; theory of sequences)
def sload(s, st, p): return s.load(st, p, 'str')
def sstore(s, st, p, v): s.store(st, p, v, 'str')
def concat(a, b):
    if not isz(a) and not isz(b): return a + b
    if not isz(a) and a == '': return b
    if not isz(b) and b == '': return a
    xs = []
    for x in (a, b):
        x = zs(x)
        if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT): xs += x.children()
        else: xs.append(x)
    ys = []
    for x in xs:
        if ys and z3.is_string_value(x) and z3.is_string_value(ys[-1]):
            ys[-1] = z3.StringVal(ys[-1].as_string() + x.as_string())
        else: ys.append(x)
    if len(ys) == 1: return ys[0]
    return z3.Concat(*ys)
def cstrval(s, st, p):
    """value of a NUL-terminated char* argument"""
    if len(p.alts) > 1:
        r = None
        for (g, o, off, i) in reversed(p.alts):
            v = cstrval(s, st, Ptr([(True, o, off, i)])); r = v if r is None else ite(g, v, r)
        return r
    (_, o, off, i) = p.alts[0]
    if o is None: return ''
    if getattr(o, 'strsrc', None) is not None and off == 0 and i is None: return o.strsrc(st) if callable(o.strsrc) else o.strsrc
    if o.const_init is not None and not isz(i):
        k = off + (i or 0)
        t = bytes(x & 255 for x in o.const_init[k:])
        return t[:t.index(0)].decode('latin-1') if 0 in t else t.decode('latin-1')
    if st.arrs.get((o.id, 0)) is not None or ('arr', 0) in o.base or o.stride == 1:
        a = s.arr_get(st, o, 0, IntS)
        s.assumed.add('text of a char buffer as std::string: uninterpreted function cstr(buffer, start)')
        return UF('cstr', z3.ArraySort(IntS, IntS), IntS, StrS)(a, zi(i_add(off, i if i is not None else 0)))
    if 'c$' not in o.base: o.base['c$'] = z3.Const('%s$c!%d' % (o.name, o.id), StrS)
    return o.base['c$']
def STR(s): s.assumed.add('std::string operations have value semantics (theory of sequences)')
BS = r'std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>\s*>'
@R(r'^%s::basic_string\((std::allocator<char> const&)?\)$' % BS)
def s_ctor0(s, st, a, ins, n, d): STR(s); sstore(s, st, a[0], ''); return None
@R(r'^%s::basic_string(<[^(]*>)?\(char const\*, std::allocator<char> const&\)$' % BS)
def s_ctorc(s, st, a, ins, n, d): STR(s); sstore(s, st, a[0], cstrval(s, st, a[1])); return None
@R(r'^%s::basic_string\(%s( const)?&&?(, std::allocator<char> const&)?\)$' % (BS, BS))
def s_copy(s, st, a, ins, n, d): STR(s); sstore(s, st, a[0], sload(s, st, a[1])); return None
@R(r'^%s::~basic_string\(\)$|^std::allocator<char>::~?allocator\(|^std::__new_allocator<char>::' % BS)
def s_dtor(s, st, a, ins, n, d): return None
@R(r'^%s::operator=\(%s( const)?&&?\)$' % (BS, BS))
def s_asg(s, st, a, ins, n, d): STR(s); sstore(s, st, a[0], sload(s, st, a[1])); return a[0]
@R(r'^%s::(operator=|assign)\(char const\*\)$' % BS)
def s_asgc(s, st, a, ins, n, d): STR(s); sstore(s, st, a[0], cstrval(s, st, a[1])); return a[0]
@R(r'^%s::(operator\+=|append)\(%s const&\)$' % (BS, BS))
def s_app(s, st, a, ins, n, d): STR(s); sstore(s, st, a[0], concat(sload(s, st, a[0]), sload(s, st, a[1]))); return a[0]
@R(r'^%s::(operator\+=|append)\(char const\*\)$' % BS)
def s_appc(s, st, a, ins, n, d): STR(s); sstore(s, st, a[0], concat(sload(s, st, a[0]), cstrval(s, st, a[1]))); return a[0]
def chstr(s, c):
    if not isz(c): return chr(c & 255)
    return UF('chr', IntS, StrS)(c)
@R(r'^%s::(operator\+=|push_back)\(char\)$' % BS)
def s_appch(s, st, a, ins, n, d):
    STR(s); sstore(s, st, a[0], concat(sload(s, st, a[0]), chstr(s, a[1]))); return a[0]
@R(r'^%s::clear\(\)$' % BS)
def s_clear(s, st, a, ins, n, d): STR(s); sstore(s, st, a[0], ''); return None
@R(r'^%s::reserve\(' % BS)
def s_reserve(s, st, a, ins, n, d): return None
@R(r'^%s::(length|size)\(\) const$' % BS)
def s_len(s, st, a, ins, n, d):
    v = sload(s, st, a[0])
    if not isz(v): return len(v)
    ln = z3.Length(v); s.fact(st, ln < (1 << 31)); return ln
@R(r'^%s::empty\(\) const$' % BS)
def s_empty(s, st, a, ins, n, d):
    v = sload(s, st, a[0]); return eq(v, '')
@R(r'^%s::(c_str|data)\(\) const$' % BS)
def s_cstr(s, st, a, ins, n, d):
    o = Obj('param', 'c_str'); o.strsrc = sload(s, st, a[0]); return ptr(o)
@R(r'^bool std::operator==<char.*\(%s const&, char const\*\)$' % BS)
def s_eqc(s, st, a, ins, n, d): return eq(sload(s, st, a[0]), cstrval(s, st, a[1]))
@R(r'^bool std::operator==<char.*\(%s const&, %s const&\)$|^std::enable_if<.*> std::operator==<char>\(' % (BS, BS))
def s_eqs(s, st, a, ins, n, d): return eq(sload(s, st, a[0]), sload(s, st, a[1]))
@R(r'^bool std::operator!=<char.*\(%s const&, char const\*\)$' % BS)
def s_nec(s, st, a, ins, n, d): return b_not(eq(sload(s, st, a[0]), cstrval(s, st, a[1])))
@R(r'^bool std::operator!=<char.*\(%s const&, %s const&\)$' % (BS, BS))
def s_nes(s, st, a, ins, n, d): return b_not(eq(sload(s, st, a[0]), sload(s, st, a[1])))
@R(r'std::operator\+<char, .*\(')
def s_plus(s, st, a, ins, n, d):
    STR(s)
    sig = d[d.rindex('('):] if not d.endswith(')') else None
    args = split_args(d)
    vals = []
    for ty, p in zip(args, a[1:]):
        if 'basic_string' in ty: vals.append(sload(s, st, p))
        elif ty == 'char const*': vals.append(cstrval(s, st, p))
        elif ty == 'char': vals.append(chstr(s, p))
        else: raise ToolLimit('operator+ ' + d)
    sstore(s, st, a[0], concat(vals[0], vals[1])); return None
def split_args(d):
    i = d.rindex(')'); depth = 0; j = i
    while True:
        if d[j] == ')': depth += 1
        if d[j] == '(':
            depth -= 1
            if depth == 0: break
        j -= 1
    inner = d[j + 1:i]; out = []; cur = ''; dp = 0
    for ch in inner:
        if ch in '<(': dp += 1
        if ch in '>)': dp -= 1
        if ch == ',' and dp == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
@R(r'^std::(__cxx11::)?to_string(\[abi:cxx11\])?\((int|unsigned int|long|unsigned long|double)\)')
def to_string(s, st, a, ins, n, d):
    k = re.search(r'\((\w[\w ]*)\)', d).group(1)
    v = a[1]
    if isinstance(v, int) and not isinstance(v, bool): sstore(s, st, a[0], str(v)); return None
    if k == 'double': f = UF('to_string_d', RealS, StrS)(zr(v))
    else: f = UF('to_string_i', IntS, StrS)(zi(v))
    s.assumed.add('std::to_string: uninterpreted injective text'); sstore(s, st, a[0], f); return None

@R(r'^%s::operator\[\]\(unsigned long\)( const)?$|^%s::(at|front|back)\(' % (BS, BS))
def s_idx(s, st, a, ins, n, d):
    v = sload(s, st, a[0])
    i = a[1] if len(a) > 1 else (0 if 'front' in d else i_sub(len(v) if not isz(v) else z3.Length(v), 1))
    ln = z3.IntVal(len(v)) if not isz(v) else z3.Length(v)
    s.oblige(st, 'string index within the text', z3.And(zi(i) >= 0, zi(i) <= ln), s.where(ins), 'safety')
    o = Obj('param', 'char'); r = UF('char_at', StrS, IntS, IntS)(zs(v), zi(i)); o.base[0] = r; s.facts.append(((), z3.And(r >= -128, r <= 127)))
    s.assumed.add('characters of a std::string reached through operator[] are only read')
    return ptr(o)
@R(r'^std::(__cxx11::)?basic_stringstream<char.*::(basic_stringstream|~basic_stringstream)\(')
def ss_ctor(s, st, a, ins, n, d):
    if '~' not in d:
        if len(a) == 1: st.ghost[stream_key(a[0])] = ''
        has_vtable(st, a[0])
    return None
@R(r'^std::(__cxx11::)?basic_stringstream<char.*::str\(%s const&\)' % BS)
def ss_set(s, st, a, ins, n, d): st.ghost[stream_key(a[0])] = sload(s, st, a[1]); return None
@R(r'^std::operator\|\(std::_Ios_')
def ios_or(s, st, a, ins, n, d): return a[0] | a[1] if not isz(a[0]) and not isz(a[1]) else s.fresh_of(Ty('i', 32))
@R(r'^%s::(rfind|find)\(char const\*, unsigned long\) const$' % BS)
def s_find(s, st, a, ins, n, d):
    v, p = zs(sload(s, st, a[0])), zs(cstrval(s, st, a[1])); first = '::find(' in d
    if first: return z3.IndexOf(v, p, zi(a[2]))
    r = fresh(IntS, 'rfind'); s.fact(st, z3.If(z3.PrefixOf(p, v), r >= 0, r != 0)); s.fact(st, r >= -1)
    if not isz(a[2]): s.fact(st, z3.Implies(r >= 0, r <= a[2])) if a[2] >= 0 else None
    return r
@R(r'^std::(__cxx11::)?basic_stringstream<char.*::str\(\) const')
def ss_str(s, st, a, ins, n, d):
    v = st.ghost.get(stream_key(a[1])); sstore(s, st, a[0], v if v is not None else fresh(StrS, 'stream')); return None
@R(r'^std::setprecision\(int\)$|^std::setw\(int\)$')
def setprec(s, st, a, ins, n, d): return a[0]
@R(r'^sprintf$|^snprintf$')
def sprintf_(s, st, a, ins, n, d):
    s.assumed.add('sprintf into a local buffer of sufficient size: text unspecified')
    (_, o, off, i), = a[0].alts
    if o.stride == 1: st.arrs[(o.id, 0)] = fresh(z3.ArraySort(IntS, IntS), 'sprintf')
    else: st.over[o.id] = [(0, o.size or 64, 'havoc', 0)]
    return s.fresh_of(Ty('i', 32))
# a stream object of the library: the virtual base is at offset 0 of this model
VT = Obj('param', 'stream vtable'); VT.base[-24] = 0; VT.lazy = False
def has_vtable(st, p):
    (_, o, off, i), = p.alts; st.cells[(o.id, off)] = (8, ptr(VT))
# ---------- output streams: ghost text keyed by stream object
def stream_key(p):
    objs = [(o, f) for (g, o, f, i) in p.alts if o is not None]
    if len(objs) != 1: raise ToolLimit('ambiguous stream')
    return 'out', objs[0][0].id, 
def stream_append(s, st, p, v):
    k = stream_key(p)
    cur = st.ghost.get(k)
    if cur is None: cur = s.stream_init(k)
    st.ghost[k] = concat(cur, v)
def _si(self, k):
    # text already written before: symbolic constant per stream
    v = STREAMS.get(k)
    if v is None:
        v = STREAMS[k] = z3.Const('stream_%d' % k[1], StrS)
        Engine.ghost_default[k] = v
    return v
STREAMS = {}
Engine.stream_init = _si
@R(r'^std::basic_ostream<char.*>& std::operator<<\s*<.*\(std::basic_ostream<.*>&, (std::__cxx11::)?basic_string<|^std::basic_ostream<char.*>& std::operator<<\s*<.*\(std::basic_ostream<.*>&, %s const&\)' % BS)
def os_str(s, st, a, ins, n, d):
    s.assumed.add('ofstream << appends exactly the text (stream errors not modelled)')
    stream_append(s, st, a[0], sload(s, st, a[1])); return a[0]
@R(r'^std::basic_ostream<char.*>& std::operator<<\s*<.*\(std::basic_ostream<.*>&, char const\*\)')
def os_cs(s, st, a, ins, n, d): stream_append(s, st, a[0], cstrval(s, st, a[1])); return a[0]
@R(r'^std::basic_ostream<char.*>& std::operator<<\s*<.*\(std::basic_ostream<.*>&, char\)')
def os_ch(s, st, a, ins, n, d): stream_append(s, st, a[0], chstr(s, a[1])); return a[0]
@R(r'^std::(?:ostream|basic_ostream<char.*>)::operator<<\((int|long|unsigned int|unsigned long)\)$')
def os_int(s, st, a, ins, n, d): stream_append(s, st, a[0], UF('to_string_i', IntS, StrS)(zi(a[1])) if isz(a[1]) else str(a[1])); return a[0]
@R(r'^std::(ostream|basic_ostream<char.*>)::operator<<\(double\)$')
def os_dbl(s, st, a, ins, n, d): stream_append(s, st, a[0], UF('os_double', RealS, StrS)(zr(a[1]))); return a[0]
@R(r'^std::basic_ostream<char.*>& std::operator<<\s*<.*\(std::basic_ostream<.*>&, std::_Set\w+\)')
def os_set(s, st, a, ins, n, d): return a[0]
@R(r'^std::(ostream|basic_ostream<char.*>)::operator<<\(std::(ostream|ios_base|basic_ostream<char.*>|basic_ios<.*>)& \(\*\)\(')
def os_manip(s, st, a, ins, n, d):
    if isinstance(a[1], FnRef) and 'endl' in a[1].name: stream_append(s, st, a[0], '\n')
    return a[0]
