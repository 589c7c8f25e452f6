"""arc_welder::process(): every line of the source is handled once and the source file is only replaced by a complete output (C05, C16)."""
import z3, re
from engine import *
from contracts import *
from proof import *
import models
from clients import *
from geom import *
from shape import *

from welder import *
GD = Engine.ghost_default
def gk(n, v):
    k = ('f', n); GD[k] = v; return k
T, F = z3.BoolVal(True), z3.BoolVal(False)
READ, DONE, NREAD, EOF, BADIN, CANC = gk('read', S('')), gk('done', S('')), gk('lines read', z3.IntVal(0)), gk('end of file', F), gk('read error', F), gk('cancelled', F)
OUTX, TPATH, OPENED, CLOSED, WFAIL = gk('expected output', S('')), gk('target path', S('')), gk('target opened', F), gk('target closed', F), gk('write error', F)
REMOVED, REPLACED, CLEARED, TOKEN, IPATH, TREM, INOK = gk('source removed', F), gk('source replaced', F), gk('error flags reset', F), gk('welder invariant', F), gk('input path', S('')), gk('temporary removed', F), gk('input stream ok', T)
FS = (READ, DONE, NREAD, EOF, BADIN, CANC, OUTX, TPATH, OPENED, CLOSED, WFAIL, REMOVED, REPLACED, CLEARED, IPATH, TREM, INOK)
def gg(st, k): return st.ghost.get(k, GD[k])
def PT(line): return UF('text of the command of a line', StrS, StrS)(line)
SPECIAL = (';FLAVOR:UltiGCode', '; generated by PrusaSlicer')
def special(st, line): return z3.And(gg(st, NREAD) == 0, z3.Or(line == S(SPECIAL[0]), z3.PrefixOf(S(SPECIAL[1]), line)))
HEADER = z3.Const('the ArcWelder comment', StrS)
# ---------------------------------------------------------------- files (assumed contracts of iostreams and libc)
from models import VT, has_vtable
class Model(FnContract):
    def __init__(s, pattern, fn): super().__init__('std', pattern); s.fn = fn
    def apply(s, e, st, args, ins):
        e.assumed.add('files: iostreams, remove, rename behave as documented (open truncates, errors are sticky until cleared, close flushes)')
        s.st0 = st.copy(); r = s.fn(e, st, args, ins); return st, r
IST, OST, IOS = r'std::(basic_ifstream<char.*>|ifstream)', r'std::(basic_ofstream<char.*>|ofstream)', r'std::basic_ios<char.*>'
class Files:
    def __init__(s, u, w, src, same): s.u, s.w, s.src, s.same = u, w, src, same; s.e = u.e
    def complete(s, st):
        w = s.w
        return [('the target was opened and closed', z3.And(gg(st, OPENED), gg(st, CLOSED))), ('no write error', z3.Not(gg(st, WFAIL))), ('the whole source was read', z3.And(gg(st, EOF), z3.Not(gg(st, BADIN)))),
                ('every line read was handled once and in order', gg(st, READ) == gg(st, DONE)), ('nothing is pending', w.cnt(st) == 0), ('the output is what the commands and the header give', w.out(st) == gg(st, OUTX))]
    def rules(s):
        e, w = s.e, s.w
        def ictor(e, st, a, ins): has_vtable(st, a[0])
        def iopen(e, st, a, ins):
            p = zs(models.cstrval(e, st, a[1])); st.ghost[IPATH] = p; st.ghost[INOK] = fresh(BoolS, 'opened'); st.ghost[READ] = S(''); st.ghost[NREAD] = z3.IntVal(0)
        def is_in(e, p): (_, o, off, _), = p.alts; return o is not w.o
        def iis(e, st, a, ins): return gg(st, INOK)
        def ilog(e, st, a, ins):
            ok = fresh(BoolS, 'line'); bad = fresh(BoolS, 'bad'); line = fresh(StrS, 'line'); st0 = st.copy()
            e.oblige(st, 'C05: lines are read from the source', gg(st, IPATH) == s.src, e.where(ins), 'pre')
            sp = special(st, line); txt = z3.If(sp, z3.Concat(line, S('\n')), PT(line))
            e.store(st, a[1], z3.If(ok, line, fresh(StrS, 'rest')), 'str')
            st.ghost[READ] = z3.If(ok, z3.Concat(gg(st0, READ), txt), gg(st0, READ)); st.ghost[NREAD] = z3.If(ok, gg(st0, NREAD) + 1, gg(st0, NREAD))
            st.ghost[DONE] = z3.If(z3.And(ok, sp), z3.Concat(gg(st0, DONE), txt), gg(st0, DONE)); st.ghost[OUTX] = z3.If(z3.And(ok, sp), z3.Concat(gg(st0, OUTX), txt), gg(st0, OUTX))
            st.ghost[EOF] = z3.Or(gg(st0, EOF), z3.Not(ok)); st.ghost[BADIN] = z3.Or(gg(st0, BADIN), z3.And(z3.Not(ok), bad)); st.ghost[INOK] = ok
            e.fact(st, z3.Implies(gg(st0, EOF), z3.Not(ok))); e.fact(st, gg(st, NREAD) < (1 << 31) - 1); e.assumed.add('fewer than 2^31 lines')
            return a[0]
        def iosbool(e, st, a, ins): return gg(st, INOK) if is_in(e, a[0]) else b_not(failed(e, st))
        def failed(e, st):
            f = fresh(BoolS, 'fail'); st.add(True); e.fact(st, z3.Implies(z3.And(gg(st, CLOSED), z3.Not(gg(st, CLEARED))), f == gg(st, WFAIL))); return f
        def fail(e, st, a, ins): return b_not(gg(st, INOK)) if is_in(e, a[0]) else failed(e, st)
        def bad(e, st, a, ins):
            if not is_in(e, a[0]): return fresh(BoolS, 'bad')
            b = fresh(BoolS, 'bad'); e.fact(st, z3.Implies(z3.Not(gg(st, CLEARED)), b == gg(st, BADIN))); return b
        def clear(e, st, a, ins):
            (_, o, off, _), = a[0].alts
            if o is w.o or ('f', 'in', o.id) in st.ghost: st.ghost[CLEARED] = T
        def oopen(e, st, a, ins):
            p = zs(models.cstrval(e, st, a[1])); m = a[2]
            e.oblige(st, 'C16: the source file is not opened for writing', p != s.src, e.where(ins), 'pre')
            ok = fresh(BoolS, 'opened'); st.ghost[OPENED] = ok; st.ghost[CLOSED] = F; st.ghost[WFAIL] = F; st.ghost[CLEARED] = F; st.ghost[TPATH] = p
            set_written(w, st, S('') if isinstance(m, int) and m & 16 and not m & 1 else fresh(StrS, 'appended to')); st.ghost[OUTX] = S('')
        def ois(e, st, a, ins): return gg(st, OPENED)
        def oclose(e, st, a, ins):
            if is_in(e, a[0]): return None
            st.ghost[CLOSED] = T; st.ghost[WFAIL] = fresh(BoolS, 'write error')
        def rm(e, st, a, ins):
            p = zs(models.cstrval(e, st, a[0])); src = p == s.src
            e.oblige(st, 'C16: only the source and the file written are removed', z3.Or(src, z3.And(gg(st, OPENED), p == gg(st, TPATH))), e.where(ins), 'pre')
            for nm, f in [('source and target are the same file', s.same)] + s.complete(st): e.oblige(st, 'C16: the source is removed only after: ' + nm, z3.Implies(src, f), e.where(ins), 'pre')
            st.ghost[REMOVED] = z3.Or(gg(st, REMOVED), src); st.ghost[REPLACED] = z3.And(gg(st, REPLACED), z3.Not(src)); st.ghost[TREM] = z3.Or(gg(st, TREM), z3.Not(src)); return fresh(IntS, 'rc')
        def mv(e, st, a, ins):
            p, q = [zs(models.cstrval(e, st, x)) for x in a[:2]]
            for nm, f in [('source and target are the same file', s.same)] + s.complete(st): e.oblige(st, 'C16: the source is replaced only after: ' + nm, f, e.where(ins), 'pre')
            e.oblige(st, 'C16: the file written is moved to the place of the source', z3.And(p == gg(st, TPATH), q == s.src, z3.Not(gg(st, TREM))), e.where(ins), 'pre')
            st.ghost[REPLACED] = T; return fresh(IntS, 'rc')
        def tellg(e, st, a, ins): return Agg([fresh(IntS, 'pos'), fresh(IntS, 'pos')])
        def tell(e, st, a, ins):
            x = fresh(IntS, 'pos'); e.facts.append(((), z3.And(x >= -(1 << 63), x < (1 << 63)))); return x
        def clk(e, st, a, ins): x = fresh(IntS, 'clock'); e.facts.append(((), z3.And(x >= -(1 << 63), x < (1 << 63)))); return x
        none = lambda e, st, a, ins: None
        R = [(r'^%s::basic_ifstream\(' % IST, lambda e, st, a, ins: (has_vtable(st, a[0]), st.ghost.__setitem__(('f', 'in', a[0].alts[0][1].id), T))[:0] or None), (r'^%s::~basic_ifstream\(' % IST, none), (r'^%s::open\(' % IST, iopen), (r'^%s::is_open\(' % IST, iis), (r'^%s::close\(' % IST, none),
             (r'^std::basic_istream<char.*>& std::getline<', ilog), (r'^%s::operator bool\(\) const' % IOS, iosbool), (r'^%s::good\(\) const' % IOS, iosbool), (r'^%s::(fail|operator!)\(\) const' % IOS, fail), (r'^%s::bad\(\) const' % IOS, bad), (r'^%s::clear\(' % IOS, clear),
             (r'^%s::eof\(\) const' % IOS, lambda e, st, a, ins: (lambda x: (e.fact(st, z3.Implies(z3.And(gg(st, EOF), z3.Not(gg(st, BADIN)), z3.Not(gg(st, CLEARED))), x)), x)[1])(fresh(BoolS, 'eof'))),
             (r'^%s::open\(' % OST, oopen), (r'^%s::is_open\(' % OST, ois), (r'^%s::close\(' % OST, oclose), (r'^std::(basic_ostream<char.*>|ostream)::(flush|tellp)\(', lambda e, st, a, ins: a[0] if 'flush' in e.dem.get(ins.x['callee'].v.lstrip('@').strip('"'), '') else tellg(e, st, a, ins)),
             (r'^remove$', rm), (r'^rename$', mv), (r'^unlink$', rm), (r'^std::(basic_istream<char.*>|istream)::tellg\(', tellg), (r'^std::fpos<.*>::operator long\(\) const', tell), (r'^clock$', clk)]
        return [Model(p, f) for p, f in R]
# ---------------------------------------------------------------- callees
@spec
def resync(w, st):
    """ghost: with nothing pending, the text up to the pending commands is what is in the file"""
    b = w.base(st); c = w.P(st, 'CUM'); w.q.set(st, 'pre CUM', z3.If(w.cnt(st) == 0, z3.Store(c, b, w.out(st)), c))
@spec
def inv_or_token(w, st):
    st = st.copy(); resync(w, st)
    return z3.Or(gg(st, TOKEN), z3.And([Z(f) for _, f in w_inv(w, st)]))
def direct(w, st): return [('C05: nothing but the header and a special first line is written outside of the commands', z3.Or(gg(st, CANC), w.out(st) == gg(st, OUTX)))]
class Header(FnContract):
    """add_arcwelder_comment_to_target: appends the header comment (proved by u_header), changes nothing else"""
    def __init__(s): super().__init__('arc_welder::add_arcwelder_comment_to_target', r'^arc_welder::add_arcwelder_comment_to_target\(\)$')
    def summary(s, c):
        w = W(c.e, c.args[0]); st = c.st1; set_written(w, st, z3.Concat(w.out(st), HEADER)); st.ghost[OUTX] = z3.Concat(gg(st, OUTX), HEADER); return None
class ProcessGcode(FnContract):
    """one command (proved by u_process_gcode)"""
    def __init__(s): super().__init__('arc_welder::process_gcode', r'^arc_welder::process_gcode\(parsed_command, bool, bool\)$')
    def pre(s, c):
        w = W(c.e, c.args[0]); st = c.st0; resync(w, st); resync(w, c.st1); cmd = c.old(c.args[1], 'parsed_command'); end, re_ = zb(c.args[2]), zb(c.args[3]); c.e.opts['__w'] = w
        return [('the welder invariant', inv_or_token(w, st)), ('at the end an arc is open', z3.Implies(end, z3.And(w.waiting(st), B(w.sa.v(st).is_shape_)))), ('only new commands', z3.Not(re_)), ('nothing is processed after a cancellation', z3.Or(end, z3.Not(gg(st, CANC)))),
                ('an empty command has no text', z3.Implies(z3.And(B(cmd.is_empty), z3.Not(end)), z3.And(BLANK(zs(cmd.gcode)), zs(cmd.command) == S(''))))] + (w.text_inv(st) + direct(w, st))
    def summary(s, c):
        e, st0, st = c.e, c.st0, c.st1; w = W(e, c.args[0]); cmd = c.old(c.args[1], 'parsed_command'); end = zb(c.args[2]); txt = text_of(cmd)
        v = w.v(st)
        for f in ('points_compressed_', 'arcs_created_'): setattr(v, f, fresh(IntS, f))
        havoc_welder(w, st); st.ghost[TOKEN] = z3.Not(end)
        for nm, f in w.text_inv(st): e.fact(st, f)
        st.ghost[DONE] = z3.If(end, gg(st0, DONE), z3.Concat(gg(st0, DONE), txt)); st.ghost[OUTX] = w.out(st)
        st.ghost[('f', 'expected')] = w.full(st)
        return fresh(IntS, 'rc')
class WriteAll(WriteUnwritten):
    def pre(s, c):
        w = W(c.e, c.args[0]); resync(w, c.st0); resync(w, c.st1); return w.text_inv(c.st0) + direct(w, c.st0)
    def summary(s, c):
        r = super().summary(c); w = W(c.e, c.args[0]); c.st1.ghost[OUTX] = w.out(c.st1); return r
class Parse(FnContract):
    """gcode_parser::try_parse_gcode(line, cmd, true): text and comment of the line; an empty command has only white space as text (C12)"""
    def __init__(s): super().__init__('gcode_parser::try_parse_gcode', r'^gcode_parser::try_parse_gcode\(char const\*, parsed_command&, bool\)$')
    def pre(s, c):
        cmd = c.old(c.args[2], 'parsed_command'); return [('the command is cleared', z3.And(*[zs(getattr(cmd, f)) == S('') for f in ('gcode', 'comment', 'command')])), ('the text is kept as it is', zb(c.args[3]))]
    def summary(s, c):
        e, st = c.e, c.st1; cmd = c.new(c.args[2], 'parsed_command'); line = zs(models.cstrval(e, c.st0, c.args[1]))
        for f in ('gcode', 'comment', 'command'): setattr(cmd, f, UF('parsed ' + f, StrS, StrS)(line))
        for f in ('is_empty', 'is_known_command'): setattr(cmd, f, fresh(BoolS, f))
        e.fact(st, text_of(cmd) == PT(line)); e.fact(st, z3.Implies(B(cmd.is_empty), z3.And(BLANK(zs(cmd.gcode)), zs(cmd.command) == S(''))))
        return fresh(BoolS, 'parsed')
class CmdCopy(FnContract):
    def __init__(s): super().__init__('parsed_command', r'^parsed_command::(parsed_command|~parsed_command|clear)\(|^_ZN14parsed_commandC1Ev$')
    def summary(s, c):
        d = c.e.dem.get(c.ins.x['callee'].v.lstrip('@').strip('"'), ''); 
        if '~' in d: return None
        a = c.new(c.args[0], 'parsed_command')
        if 'const&' in d: b = c.new(c.args[1], 'parsed_command'); vals = [getattr(b, f) for f in ('gcode', 'comment', 'command', 'is_empty', 'is_known_command')]
        else: vals = [S(''), S(''), S(''), z3.BoolVal(True), z3.BoolVal(False)]
        for f, x in zip(('gcode', 'comment', 'command', 'is_empty', 'is_known_command'), vals): setattr(a, f, x)
        return None
class Opaque(FnContract):
    """constructors, copies and destructors of the progress report; nothing reads it"""
    def __init__(s): super().__init__('arc_welder_progress', r'^arc_welder_progress::(arc_welder_progress|~arc_welder_progress|operator=)\(|^arc_welder::get_progress_\(|^arc_welder_progress::str')
    def summary(s, c): c.e.assumed.add('progress reports do not influence the output'); return c.args[0]
class Progress(FnContract):
    """on_progress_: asks the callback; false means cancel"""
    def __init__(s): super().__init__('arc_welder::on_progress_', r'^arc_welder::on_progress_\(')
    def summary(s, c):
        r = fresh(BoolS, 'continue'); c.st1.ghost[CANC] = z3.Or(gg(c.st0, CANC), z3.Not(r)); return r
class Fresh(FnContract):
    def __init__(s, name, pat, so): super().__init__(name, pat); s.so = so
    def summary(s, c): c.e.assumed.add(s.name + ' changes nothing'); return fresh(s.so, 'value')
class DirOf(FnContract):
    def __init__(s): super().__init__('utilities::get_file_path', r'^utilities::get_file_path\(')
    def summary(s, c): c.e.store(c.st1, c.args[1], UF('directory of', StrS, StrS)(zs(c.e.load(c.st0, c.args[0], 'str'))), 'str'); return fresh(BoolS, 'ok')
class Uuid(FnContract):
    def __init__(s, f): super().__init__('utilities::create_uuid', r'^utilities::create_uuid(\[abi:cxx11\])?\(\)$'); s.f = f
    def summary(s, c):
        x = fresh(StrS, 'uuid'); c.e.assumed.add('a fresh uuid does not occur in the path of the source'); c.e.fact(c.st1, z3.Not(z3.Contains(s.f.src, x))); c.e.store(c.st1, c.args[0], x, 'str'); return None
def virtual(e, st, ins, fv): return logger_call(e, st, ins, fv)
def u_process(mod):
    """every line read is handled once and in order; all output is written; the source is only removed or replaced by a complete output"""
    u = Unit(mod, r'^arc_welder::process\(\)$'); e = u.e
    o, w = welder(u); st = u.st; v = w.v(st); src, tgt = zs(v.source_path_), zs(v.target_path_); f = Files(u, w, src, src == tgt)
    e.registry = u.reg = reg(SeqContract(), Header(), ProcessGcode(), WriteAll(), Parse(), CmdCopy(), Opaque(), Progress(), Fresh('get_file_size', r'^arc_welder::get_file_size\(', IntS), Fresh('get_next_update_time', r'^arc_welder::get_next_update_time\(', RealS), DirOf(), Uuid(f), *f.rules())
    e.opts['trig'] = False; cr = u.mod.classes()['arc_welder']; fs = u.mod.class_fields(cr)
    o.ptr_targets[fs['output_file_'][0]] = VT
    vt = [n for n, d in mod.demangled().items() if d == 'vtable for arc_welder']
    o.ptr_targets[0] = lambda: padd(e.glob(vt[0] if vt else '_ZTV10arc_welder'), 16)
    w.sa.make_opaque(st); st.ghost[UPD] = z3.Int('position updates'); st.ghost[MAXP] = z3.Int('max positions'); u.assume('room for two positions', st.ghost[MAXP] >= 2)
    st.ghost[CUR] = ptr(new_position(e, 'pos0')); st.ghost[PRE] = ptr(new_position(e, 'pos_1'))
    u.assume('a new welder: no arc, nothing pending', z3.And(w.n(st) == 0, w.cnt(st) == 0, *[Z(g) for _, g in w.sa.inv(st)]))
    for nm, g in pos_facts(e, st, st.ghost[CUR]): u.assume(nm, g)
    for f_ in ('waiting_for_arc_', 'unwritten_commands_', 'previous_extrusion_rate_', 'extrusion_rate_variance_percent_', 'p_source_position_', 'allow_travel_arcs_'):
        if f_ in fs:
            off = fs[f_][0]; fr = w.v(st).ptr_of(f_); sz = 8
            m = mod.meta(mod.strip(fs[f_][1])) if len(fs[f_]) > 1 else None
            sz = int(m[1].get('size', 64)) // 8 if m else 8
            o.watch = tuple(o.watch) + ((off, off + sz, TOKEN),)
    for k in FS: st.ghost[k] = GD[k]
    st.ghost[TOKEN] = F; st.ghost[w.okey()] = w.out(st)
    e.opts['loops'] = Auto(ints=[('lines', lambda s_: gg(s_, NREAD))], lows=(0,),
        flags=[('cancelled', lambda s_: gg(s_, CANC)), ('not cancelled', lambda s_: z3.Not(gg(s_, CANC))), ('first line', lambda s_: gg(s_, NREAD) == 0), ('not first line', lambda s_: gg(s_, NREAD) > 0)],
        extra=[('the welder invariant', lambda s_: inv_or_token(w, s_)), ('every line read was handled', lambda s_: gg(s_, READ) == gg(s_, DONE)), ('written text', lambda s_: w.out(s_) == gg(s_, OUTX)), ('text', lambda s_: spec(lambda: z3.Or(w.cnt(s_) == 0, w.P(s_, 'CUM')[w.base(s_)] == w.out(s_)))()),
               ('lines counted', lambda s_: w.v(s_).lines_processed_ == gg(s_, NREAD)), ('source untouched', lambda s_: z3.Not(z3.Or(gg(s_, REMOVED), gg(s_, REPLACED)))), ('nothing read yet: nothing pending', lambda s_: z3.Implies(gg(s_, NREAD) == 0, w.cnt(s_) == 0)), ('not at the end', lambda s_: z3.Not(gg(s_, EOF))), ('no read error', lambda s_: z3.Not(gg(s_, BADIN)))])
    r = Obj('param', 'result'); r.ptr_targets = {}
    u.run([ptr(r), ptr(o)])
    s1 = u.st1; rv = View(e, s1, ptr(r), mod.classes()['arc_welder_results']); ok = B(rv.success)
    u.ensure('C16: a removed source was replaced by the complete output', z3.Implies(gg(s1, REMOVED), gg(s1, REPLACED)))
    u.ensure('C16: without success the source is neither removed nor replaced', z3.Implies(z3.Not(ok), z3.Not(z3.Or(gg(s1, REMOVED), gg(s1, REPLACED)))))
    u.ensure('C16: in place, success means that the source was replaced', z3.Implies(z3.And(ok, f.same), gg(s1, REPLACED)))
    u.ensure('C16: a cancelled run is no success', z3.Implies(B(rv.cancelled), z3.Not(ok)))
    for nm, g in f.complete(s1): u.ensure('C05: success means: ' + nm, z3.Implies(ok, g))
    return u
PROCESS = [u_process]
def comment_lines(e, t, states, memo):
    """states of 'start' / 'in a comment line' / 'bad' after the text t (structurally over constants, concatenations and alternatives)"""
    k = (t.get_id(), tuple(sorted(states)))
    if k in memo: return memo[k]
    if z3.is_string_value(t):
        out = set()
        for s_ in states:
            for c in t.as_string().replace('\\u{a}', '\n').replace('\\u{d}', '\r'):
                if s_ == 'bad': break
                if c == '\n': s_ = 'start'
                elif s_ == 'start': s_ = 'comment' if c == ';' else 'bad'
            out.add(s_)
    elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = set(states)
        for c in t.children(): out = comment_lines(e, c, out, memo)
    elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: out = comment_lines(e, t.children()[1], states, memo) | comment_lines(e, t.children()[2], states, memo)
    elif z3.is_app(t) and t.decl().name() in ('to_string_i', 'os_double', 'to_string_d', 'dtos'): e.assumed.add('numbers are printed without a line break'); out = {'comment' if x == 'comment' else 'bad' for x in states}
    else: raise ToolLimit('header text %s' % t.decl().name())
    memo[k] = out; return out
def u_header(mod):
    """the header consists of comment lines and blank lines: no command is added to the output"""
    u = Unit(mod, r'^arc_welder::add_arcwelder_comment_to_target\(\)$', registry=reg(SeqContract()))
    o, w = welder(u); w.sa.make_opaque(u.st); out0 = w.out(u.st)
    u.run([ptr(o)]); out1 = w.out(u.st1)
    def strip(t):
        if t.eq(out0): return None
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            l = t.children(); a = strip(l[0]); return z3.Concat(*([] if a is None else [a]), *l[1:]) if len(l) > 2 or a is not None else l[1]
        raise ToolLimit('header text')
    x = strip(out1); fin = comment_lines(u.e, x, {'start'}, {}) if x is not None else {'start'}
    u.ensure('C05: only comment lines and blank lines are appended', z3.BoolVal(fin == {'start'}))
    u.ensure('the pending commands are unchanged', z3.And(w.cnt(u.st1) == w.cnt(u.st0), w.base(u.st1) == w.base(u.st0)))
    u.frame(o, ['output_file_'], 'arc_welder'); return u
PROCESS = [u_process, u_header]
