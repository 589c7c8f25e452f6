"""Reader for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits at -O0 from /repo's
real sources.  Functions are parsed lazily.  Nothing is dropped: every instruction of a function is
kept; llvm.dbg.* calls are kept only as names for locals."""
import re, struct, subprocess
from fractions import Fraction

class NeedFull(Exception):
    """a class invariant kept opaque has to be unfolded"""
class ToolLimit(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e', 'name', 'packed')
    def __init__(s, k, n=0, e=None, name=None, packed=False):
        s.k, s.n, s.e, s.name, s.packed = k, n, e, name, packed
    def __repr__(s):
        if s.k == 'i': return 'i%d' % s.n
        if s.k == 'named': return s.name
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.e)
        if s.k == 'struct': return '{%s}' % ','.join(map(repr, s.e))
        return s.k

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%"[^"]+"|%[-a-zA-Z$._0-9]+)
 |(?P<glob>@"[^"]+"|@[-a-zA-Z$._0-9]+)
 |(?P<meta>!"(?:[^"\\]|\\.)*"|![-a-zA-Z$._0-9]+|!)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLH]?[0-9A-Fa-f]+|-?\d+)
 |(?P<id>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 |(?P<dots>\.\.\.)
 |(?P<attr>\#\d+)
 |(?P<p>[\[\]{}()<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    pos = 0
    L = len(s)
    while pos < L:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise ToolLimit('tokenize: %r' % s[pos:pos + 60])
        pos = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out

class Val:
    """operand: kind in loc, glob, int, float, null, undef, zero, bool, gep, cast, cstr, agg"""
    __slots__ = ('k', 'v', 'ty', 'x')
    def __init__(s, k, v, ty, x=None):
        s.k, s.v, s.ty, s.x = k, v, ty, x
    def __repr__(s): return '%s:%s' % (s.k, s.v)

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'writable', 'readonly', 'readnone', 'returned', 'inreg',
               'dead_on_unwind', 'immarg', 'writeonly', 'nofree', 'noreturn', 'nounwind', 'swiftself', 'nest', 'allocptr', 'allocalign', 'inbounds', 'tail', 'musttail', 'notail'}

class P:
    def __init__(s, mod, toks):
        s.mod, s.t, s.i = mod, toks, 0
    def peek(s, o=0):
        return s.t[s.i + o] if s.i + o < len(s.t) else (None, None)
    def next(s):
        r = s.t[s.i]; s.i += 1; return r
    def accept(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v:
            s.i += 1; return True
        return False
    def expect(s, v):
        k, x = s.next()
        if x != v: raise ToolLimit('parse: expected %s got %s in %s' % (v, x, s.t[:12]))
    def type(s):
        k, v = s.next()
        t = None
        if k == 'id':
            if v[0] == 'i' and v[1:].isdigit(): t = Ty('i', int(v[1:]))
            elif v in ('double', 'float', 'void', 'ptr', 'metadata', 'label', 'token', 'half', 'x86_fp80', 'fp128'): t = Ty(v)
            else: raise ToolLimit('type %s' % v)
        elif k == 'loc':
            t = Ty('named', name=v)
        elif v == '[':
            n = int(s.next()[1]); s.expect('x'); e = s.type(); s.expect(']'); t = Ty('arr', n, e)
        elif v == '{':
            es = []
            if not s.accept('}'):
                while True:
                    es.append(s.type())
                    if s.accept('}'): break
                    s.expect(',')
            t = Ty('struct', e=es)
        elif v == '<':
            if s.peek()[1] == '{':
                t = s.type(); t.packed = True; s.expect('>')
            else:
                n = int(s.next()[1]); s.expect('x'); e = s.type(); s.expect('>'); t = Ty('vec', n, e)
        else:
            raise ToolLimit('type tok %s' % v)
        # function type  T (args)
        if s.peek()[1] == '(' and t.k != 'void!':
            # only when used as function type in call: caller handles
            pass
        return t
    def skip_attrs(s):
        at = {}
        while True:
            k, v = s.peek()
            if k == 'id' and v in PARAM_ATTRS:
                at[v] = True; s.i += 1
            elif k == 'id' and v in ('align',):
                s.i += 1
                if s.peek()[1] == '(': s.paren()
                else: s.i += 1
            elif k == 'id' and v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'allocsize', 'memory', 'range', 'preallocated', 'inalloca', 'byref', 'captures', 'addrspace'):
                s.i += 1
                if s.peek()[1] == '(':
                    if v in ('byval', 'sret'):
                        s.expect('('); at[v] = s.type(); s.expect(')')
                    else: s.paren()
            elif k == 'attr': s.i += 1
            else: return at
    def paren(s):
        s.expect('('); d = 1
        while d:
            v = s.next()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1
    def value(s, ty):
        k, v = s.next()
        if k == 'loc': return Val('loc', v, ty)
        if k == 'glob': return Val('glob', v, ty)
        if k == 'num':
            if ty.k in ('double', 'float'):
                if v.startswith('0x'):
                    x = v[2:]
                    if x[0] in 'KMLH': raise ToolLimit('fp const ' + v)
                    d = struct.unpack('>d', bytes.fromhex(x.rjust(16, '0')))[0]
                else: d = float(v)
                return Val('float', d, ty)
            return Val('int', int(v, 0), ty)
        if k == 'id':
            if v == 'true': return Val('bool', True, ty)
            if v == 'false': return Val('bool', False, ty)
            if v == 'null': return Val('null', None, ty)
            if v in ('undef', 'poison'): return Val('undef', None, ty)
            if v == 'zeroinitializer': return Val('zero', None, ty)
            if v == 'none': return Val('undef', None, ty)
            if v == 'getelementptr':
                s.skip_attrs()
                while s.peek()[1] in ('inrange', 'nuw', 'nusw'): 
                    s.i += 1
                    if s.peek()[1] == '(': s.paren()
                s.expect('(')
                bt = s.type(); s.expect(',')
                ops = []
                while True:
                    s.skip_attrs()
                    while s.peek()[1] in ('inrange',): s.i += 1
                    t = s.type(); ops.append(s.value(t))
                    if s.accept(')'): break
                    s.expect(',')
                return Val('gep', bt, ty, ops)
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc'):
                s.expect('('); t = s.type(); o = s.value(t); s.expect('to'); t2 = s.type(); s.expect(')')
                return Val('cast', v, t2, o)
            raise ToolLimit('const %s' % v)
        if k == 'str': return Val('cstr', v, ty)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and s.peek()[1] == '{':
                r = s.value(ty); s.expect('>'); return r
            es = []
            if not s.accept(close):
                while True:
                    t = s.type(); es.append(s.value(t))
                    if s.accept(close): break
                    s.expect(',')
            return Val('agg', es, ty)
        if k == 'meta': return Val('meta', v, ty)
        raise ToolLimit('value %s' % v)
    def tvalue(s):
        t = s.type(); at = s.skip_attrs()
        v = s.value(t)
        return v, at

class Ins:
    __slots__ = ('op', 'res', 'a', 'line', 'x', 'ty', 'flags', 'text')
    def __init__(s, op, res=None, ty=None, a=None, x=None, flags=(), line=0, text=''):
        s.op, s.res, s.ty, s.a, s.x, s.flags, s.line, s.text = op, res, ty, a, x, flags, line, text

class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred')
    def __init__(s, name):
        s.name, s.ins, s.succ, s.pred = name, [], [], []

CONV = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}

class Func:
    def __init__(s, mod, name, head, lines):
        s.mod, s.name, s.head, s.lines = mod, name, head, lines
        s._parsed = False
    def parse(s):
        if s._parsed: return s
        s._parsed = True
        mod = s.mod
        h = s.head
        # signature
        i = h.index('@' + s.name if ('@' + s.name) in h else '@"' + s.name + '"')
        pre = h[:i]
        rest = h[i:]
        toks = tokenize(rest[rest.index('('):])
        p = P(mod, toks); p.expect('(')
        s.params = []
        if not p.accept(')'):
            n = 0
            while True:
                if p.accept('...'):
                    p.expect(')'); break
                t = p.type(); at = p.skip_attrs()
                if p.peek()[0] == 'loc': nm = p.next()[1]
                else: nm = '%%%d' % n
                s.params.append((nm, t, at)); n += 1
                if p.accept(')'): break
                p.expect(',')
        m = re.search(r'!dbg (!\d+)', h)
        s.dbg = m.group(1) if m else None
        toksr = [t for t in tokenize(pre.replace('define', ' '))]
        # return type: last type in pre
        s.retty = None
        for st in range(len(toksr)):
            try:
                q = P(mod, toksr[st:])
                t = q.type()
                if q.i == len(q.t): s.retty = t; break
            except ToolLimit: continue
            except IndexError: continue
        s.blocks = {}
        s.order = []
        cur = None
        lines = s.lines
        s.locals_dbg = {}
        j = 0
        while j < len(lines):
            ln = lines[j]
            if not ln or ln.lstrip().startswith(';'):
                j += 1; continue
            if not ln.startswith(' '):
                m = re.match(r'("?)([-a-zA-Z$._0-9]+|[^"]+)\1:', ln)
                cur = Block('%' + m.group(2)) if not m.group(1) else Block('%"' + m.group(2) + '"')
                s.blocks[cur.name] = cur; s.order.append(cur.name)
                j += 1; continue
            if cur is None:
                cur = Block('%<entry>'); s.blocks[cur.name] = cur; s.order.append(cur.name)
            # multi-line switch / landingpad / invoke
            st = ln.strip()
            if st.startswith('switch ') and st.endswith('['):
                while not lines[j].strip().startswith(']'):
                    j += 1; st += ' ' + lines[j].strip()
                ln = st
            if 'invoke ' in st and not ' unwind label' in st:
                j += 1; st += ' ' + lines[j].strip(); ln = st
            if 'landingpad' in st:
                while j + 1 < len(lines) and re.match(r'\s+(cleanup|catch|filter)', lines[j + 1]):
                    j += 1
                cur.ins.append(Ins('landingpad', st.split(' = ')[0], text=st)); j += 1; continue
            if 'llvm.dbg.' in st:
                m = re.match(r'call void @llvm\.dbg\.declare\(metadata ptr (%[-\w.$"]+), metadata (!\d+)', st)
                if m: s.locals_dbg[m.group(1)] = mod.local_name(m.group(2))
                j += 1; continue
            ins = s.parse_ins(ln.strip())
            cur.ins.append(ins)
            j += 1
        for b in s.blocks.values():
            t = b.ins[-1]
            if t.op == 'br': b.succ = list(t.x)
            elif t.op == 'switch': b.succ = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == 'invoke': b.succ = [t.x['normal']]
            else: b.succ = []
        for b in s.blocks.values():
            for q in b.succ: 
                if b.name not in s.blocks[q].pred: s.blocks[q].pred.append(b.name)
        return s
    def parse_ins(s, st):
        mod = s.mod
        line = 0
        m = re.search(r', !dbg (!\d+)', st)
        if m:
            line = m.group(1)
        body = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$', '', st)
        toks = tokenize(body)
        p = P(mod, toks)
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = p.next()[1]; p.next()
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'): op = p.next()[1]
        I = lambda **k: Ins(op, res, line=line, text=st, **k)
        if op in BIN:
            flags = []
            while p.peek()[0] == 'id' and p.peek()[1] in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint'): flags.append(p.next()[1])
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return I(ty=t, a=[a, b], flags=flags)
        if op == 'fneg':
            t = p.type(); return I(ty=t, a=[p.value(t)])
        if op in CONV:
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return I(ty=t2, a=[a])
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in ('fast', 'samesign', 'nnan'): p.next()
            pred = p.next()[1]; t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return I(ty=t, a=[a, b], x=pred)
        if op == 'alloca':
            p.accept('inalloca'); t = p.type(); n = None
            if p.accept(',') and p.peek()[1] != 'align':
                tn = p.type(); n = p.value(tn)
            return I(ty=t, a=[n] if n else [])
        if op == 'load':
            p.accept('volatile'); p.accept('atomic')
            t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
            return I(ty=t, a=[a])
        if op == 'store':
            p.accept('volatile'); p.accept('atomic')
            t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
            return I(ty=t, a=[v, a])
        if op == 'getelementptr':
            p.skip_attrs()
            while p.peek()[1] in ('nuw', 'nusw'): p.next()
            bt = p.type(); p.expect(',')
            ops = []
            while True:
                t = p.type(); ops.append(p.value(t))
                if not p.accept(','): break
            return I(ty=bt, a=ops)
        if op == 'br':
            if p.peek()[1] == 'label':
                p.next(); return I(x=[p.next()[1]], a=[])
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); l1 = p.next()[1]; p.expect(','); p.expect('label'); l2 = p.next()[1]
            return I(a=[c], x=[l1, l2])
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('[')
            cs = []
            while not p.accept(']'):
                tt = p.type(); cv = p.value(tt); p.expect(','); p.expect('label'); cs.append((cv, p.next()[1]))
            return I(a=[v], x=(d, cs))
        if op == 'ret':
            t = p.type()
            if t.k == 'void': return I(a=[])
            return I(a=[p.value(t)], ty=t)
        if op == 'phi':
            t = p.type(); xs = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); l = p.next()[1]; p.expect(']'); xs.append((v, l))
                if not p.accept(','): break
            return I(ty=t, x=xs)
        if op == 'select':
            while p.peek()[1] in ('fast', 'nnan'): p.next()
            t = p.type(); c = p.value(t); p.expect(','); t1 = p.type(); a = p.value(t1); p.expect(','); t2 = p.type(); b = p.value(t2)
            return I(ty=t1, a=[c, a, b])
        if op in ('call', 'invoke'):
            while p.peek()[1] in ('fast', 'fastcc', 'ccc', 'coldcc', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
            p.skip_attrs()
            t = p.type()
            p.skip_attrs()
            if p.peek()[1] == '(' :
                p.paren()   # explicit function type
            callee = p.value(Ty('ptr'))
            p.expect('(')
            args, ats = [], []
            if not p.accept(')'):
                while True:
                    tt = p.type(); at = p.skip_attrs()
                    args.append(p.value(tt)); ats.append(at)
                    if p.accept(')'): break
                    p.expect(',')
            x = {'callee': callee, 'attrs': ats}
            if op == 'invoke':
                p.skip_attrs()
                p.expect('to'); p.expect('label'); x['normal'] = p.next()[1]; p.expect('unwind'); p.expect('label'); x['unwind'] = p.next()[1]
            return I(ty=t, a=args, x=x)
        if op == 'unreachable' : return I(a=[])
        if op == 'resume': return I(a=[])
        if op == 'extractvalue':
            t = p.type(); v = p.value(t); idx = []
            while p.accept(','): idx.append(int(p.next()[1]))
            return I(ty=t, a=[v], x=idx)
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); w = p.value(t2); idx = []
            while p.accept(','): idx.append(int(p.next()[1]))
            return I(ty=t, a=[v, w], x=idx)
        if op == 'freeze':
            t = p.type(); return I(ty=t, a=[p.value(t)])
        return Ins('unsupported:' + op, res, text=st, line=line)

META = re.compile(r'^(![0-9]+) = (?:distinct )?(.*)$')

class Module:
    def __init__(s, path):
        s.path = path
        s.funcs, s.decls, s.globals, s.types, s.meta_raw = {}, {}, {}, {}, {}
        s._meta = {}
        s.aliases = {}      # constructor and destructor twins
        txt = open(path).read().split('\n')
        i = 0
        N = len(txt)
        while i < N:
            ln = txt[i]
            if ln.startswith('define '):
                m = re.search(r'@("[^"]+"|[-a-zA-Z$._0-9]+)\(', ln)
                name = m.group(1).strip('"')
                j = i + 1
                while txt[j] != '}': j += 1
                s.funcs[name] = Func(s, name, ln, txt[i + 1:j])
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]+"|[-a-zA-Z$._0-9]+)\(', ln)
                if m: s.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('%') and ' = type ' in ln:
                nm, d = ln.split(' = type ', 1)
                s.types[nm] = d
            elif ln.startswith('@'):
                m = re.match(r'@("[^"]+"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                s.globals[m.group(1).strip('"')] = m.group(2)
                al = re.search(r' alias .*@("[^"]+"|[-a-zA-Z$._0-9]+)$', ln)
                if al: s.aliases[m.group(1).strip('"')] = al.group(1).strip('"')
            elif ln.startswith('!'):
                m = META.match(ln)
                if m: s.meta_raw[m.group(1)] = m.group(2)
            i += 1
        s._tcache = {}
        s._gcache = {}
        s._classes = None
        s._dem = None
    # ---- demangle all
    def demangled(s):
        if s._dem is None:
            names = list(s.funcs) + list(s.decls)
            out = subprocess.run(['/usr/bin/c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
            s._dem = dict(zip(names, out))
            for a, t in s.aliases.items():
                if t in s._dem: s._dem[a] = s._dem[t]
        return s._dem
    # ---- types
    def resolve(s, t):
        if t.k == 'named':
            r = s._tcache.get(t.name)
            if r is None:
                d = s.types[t.name]
                if d.startswith('opaque'): raise ToolLimit('opaque type')
                r = P(s, tokenize(d)).type()
                s._tcache[t.name] = r
            return r
        return t
    def align(s, t):
        t = s.resolve(t)
        if t.k == 'i': return min(8, max(1, 1 << max(0, (t.n // 8 - 1)).bit_length())) if t.n <= 64 else 16
        if t.k in ('double', 'ptr'): return 8
        if t.k == 'float': return 4
        if t.k == 'arr': return s.align(t.e)
        if t.k == 'struct':
            if t.packed: return 1
            return max([s.align(e) for e in t.e], default=1)
        if t.k == 'x86_fp80': return 16
        raise ToolLimit('align %r' % t)
    def size(s, t):
        t = s.resolve(t)
        if t.k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.n, (t.n + 7) // 8)
        if t.k in ('double', 'ptr'): return 8
        if t.k == 'float': return 4
        if t.k == 'x86_fp80': return 16
        if t.k == 'arr': return t.n * s.size(t.e)
        if t.k == 'vec': return t.n * s.size(t.e)
        if t.k == 'struct':
            o = 0
            for e in t.e:
                if not t.packed:
                    a = s.align(e); o = (o + a - 1) // a * a
                o += s.size(e)
            if not t.packed:
                a = s.align(t); o = (o + a - 1) // a * a
            return o
        raise ToolLimit('size %r' % t)
    def field_off(s, t, i):
        t = s.resolve(t)
        o = 0
        for k, e in enumerate(t.e):
            if not t.packed:
                a = s.align(e); o = (o + a - 1) // a * a
            if k == i: return o, e
            o += s.size(e)
        raise ToolLimit('field')
    def leaves(s, t, base=0):
        """scalar leaves (offset, Ty) of a type"""
        t = s.resolve(t)
        if t.k == 'struct':
            for i in range(len(t.e)):
                o, e = s.field_off(t, i)
                yield from s.leaves(e, base + o)
        elif t.k == 'arr':
            sz = s.size(t.e)
            for i in range(t.n): yield from s.leaves(t.e, base + i * sz)
        else:
            yield base, t
    # ---- metadata
    def meta(s, ref):
        if ref is None: return None
        m = s._meta.get(ref)
        if m is None:
            raw = s.meta_raw.get(ref)
            if raw is None: return None
            if raw.startswith('!{'):
                m = ('tuple', re.findall(r'![0-9]+|null', raw))
            else:
                mm = re.match(r'!(\w+)\((.*)\)$', raw)
                d = {}
                if mm:
                    for f in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,()]+(?:\([^)]*\))?)', mm.group(2)):
                        d[f.group(1)] = f.group(2).strip('"').strip()
                    m = (mm.group(1), d)
                else: m = ('?', {})
            s._meta[ref] = m
        return m
    def line_of(s, ref):
        m = s.meta(ref) if isinstance(ref, str) else None
        if not m: return 0
        try: return int(m[1].get('line', 0))
        except ValueError: return 0
    def local_name(s, ref):
        m = s.meta(ref)
        return m[1].get('name', '?') if m else '?'
    def strip(s, ref):
        """strip typedef/const/volatile"""
        while ref:
            m = s.meta(ref)
            if m and m[0] == 'DIDerivedType' and m[1].get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
                ref = m[1].get('baseType')
            else: return ref
        return None
    def classes(s):
        if s._classes is None:
            s._classes = {}
            for r, raw in s.meta_raw.items():
                if 'DICompositeType(' in raw and ('DW_TAG_class_type' in raw or 'DW_TAG_structure_type' in raw or 'DW_TAG_union_type' in raw) and 'elements:' in raw and 'DIFlagFwdDecl' not in raw:
                    d = s.meta(r)[1]
                    nm = d.get('name')
                    if nm: s._classes.setdefault(nm, r)
        return s._classes
    def class_fields(s, cref):
        """name -> (byte offset, type ref); includes inherited"""
        d = s.meta(cref)[1]
        out = {}
        el = s.meta(d.get('elements'))
        if not el: return out
        for r in el[1]:
            m = s.meta(r)
            if not m or m[0] != 'DIDerivedType': continue
            t = m[1].get('tag')
            if t == 'DW_TAG_inheritance':
                off = int(m[1].get('offset', '0')) // 8
                for k, (o, ty) in s.class_fields(s.strip(m[1]['baseType'])).items():
                    out.setdefault(k, (o + off, ty))
            elif t == 'DW_TAG_member' and 'DIFlagStaticMember' not in m[1].get('flags', '') :
                nm = m[1].get('name')
                if nm is None or nm.startswith('_vptr'): continue
                off = int(m[1].get('offset', '0')) // 8
                out[nm] = (off, m[1]['baseType'])
        return out
    # ---- globals
    def ginit(s, name):
        if name in s._gcache: return s._gcache[name]
        g = s.globals.get(name)
        r = None
        if g is not None:
            m = re.search(r'\b(global|constant)\b', g)
            if m:
                const = m.group(1) == 'constant'
                ext = 'external' in g[:m.start()]
                body = g[m.end():]
                body = re.sub(r', comdat.*|, align \d+.*|, !dbg.*', '', body)
                p = P(s, tokenize(body))
                t = p.type()
                v = None
                if p.i < len(p.t) and not ext:
                    try: v = p.value(t)
                    except ToolLimit: v = None
                r = (t, v, const)
        s._gcache[name] = r
        return r
