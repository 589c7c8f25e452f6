#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property on /repo's current working tree.

 1. compile /repo's sources to LLVM IR (the verified text is what the compiler makes of the real code)
 2. run the property's proof units: every obligation must be accepted by the verifier
 3. obligation refused  -> violation (the failing input is searched on the real code by the replay program)
    obligation undecided (time-out / construct outside the verifier) -> the bounded stand-in of the property
    (its replay program, stated budget) decides; evidence labels it bounded, never proved
Exit 0 / exit 1 + VIOLATION line."""
import sys, os, re, json, time, shutil, subprocess, tempfile, glob, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'llvc'), os.path.join(HERE, 'contracts')]
import build_ir
REPO = build_ir.REPO

def log(*a): print(*a, flush=True)

def build_native(tmp, harness):
    """the real code, compiled natively with the replay program"""
    from concurrent.futures import ThreadPoolExecutor
    srcs = [s for s in build_ir.sources() if 'ArcWelderInverseProcessor' not in s or os.path.basename(s) not in ('ArcWelderInverseProcessor.cpp',)]
    inc = build_ir.INC() + ['-I' + os.path.join(HERE, 'replay')]
    flags = ['-std=gnu++17', '-include', 'cstdint', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=address', '-fno-omit-frame-pointer', '-DVERIF_REPLAY']
    def one(s):
        o = os.path.join(tmp, hashlib.md5(s.encode()).hexdigest() + '.o')
        if not os.path.exists(o):
            r = subprocess.run(['g++'] + flags + inc + ['-Dmain=main_x_' + os.path.basename(s).split('.')[0]] * (0 if s == harness else 1) + ['-c', s, '-o', o], capture_output=True, text=True)
            if r.returncode: raise build_ir.BuildError('%s: %s' % (s, r.stderr[-3000:]))
        return o
    flags = [f for f in flags]
    def comp(s):
        return one(s)
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, srcs + [harness]))
    exe = os.path.join(tmp, 'replay_' + os.path.basename(harness).split('.')[0])
    r = subprocess.run(['g++', '-fsanitize=address,undefined', '-o', exe] + objs, capture_output=True, text=True)
    if r.returncode: raise build_ir.BuildError(r.stderr[-3000:])
    return exe

def run_replay(tmp, prop, seed, budget, args=()):
    """returns (found, text, stats). The program prints 'FAIL ...' lines with the input that breaks the property"""
    h = os.path.join(HERE, 'replay', prop.lower() + '.cpp')
    if not os.path.exists(h): return None, 'no replay program', {}
    exe = build_native(tmp, h)
    sc = os.path.join(tmp, 'scratch'); os.makedirs(sc, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:detect_odr_violation=0', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=0')
    try:
        r = subprocess.run([exe, str(seed), str(budget)] + list(args), capture_output=True, text=True, errors='replace', timeout=budget * 3 + 120, cwd=sc, env=env)
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as ex:
        dec = lambda b: (b or b'').decode('utf-8', 'replace') if isinstance(b, bytes) else (b or '')
        out, err, rc = dec(ex.stdout), dec(ex.stderr), 'timeout'
    stats = {}
    for l in out.split('\n'):
        if l.startswith('STAT '):
            k, v = l[5:].split('=', 1); stats[k.strip()] = int(v) if v.strip().isdigit() else v.strip()
    fails = [l for l in out.split('\n') if l.startswith('FAIL ')]
    if rc in (77, -6, -11, -8) or 'AddressSanitizer' in err:
        cur = [l for l in out.split('\n') if l.startswith('CASE ')][-1:]
        fails.append('FAIL the real code crashed (exit %s) on: %s\n%s' % (rc, cur, err[-1500:]))
    elif rc == 'timeout':
        cur = [l for l in out.split('\n') if l.startswith('CASE ')][-1:]
        if cur: fails.append('FAIL the real code did not return on: %s' % cur)
    return bool(fails), '\n'.join(fails[:20]), stats

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import props
    P = props.PROPS[prop]
    evdir = os.path.join(HERE, 'evidence'); os.makedirs(evdir, exist_ok=True)
    evf = os.path.join(evdir, prop + '.json')
    if os.path.exists(evf): os.unlink(evf)
    rpdir = os.path.join(HERE, 'replays'); os.makedirs(rpdir, exist_ok=True)
    rpf = os.path.join(rpdir, prop + '.txt')
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    rc = 2
    try:
        rc = decide(prop, P, tier, seed, tmp, evf, rpf, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)

def decide(prop, P, tier, seed, tmp, evf, rpf, t0):
    import ir, proof, importlib
    timeout = (20000 if tier == 'quick' else 120000)
    try:
        ll = build_ir.build(os.path.join(tmp, 'ir'), [os.path.join(HERE, 'contracts', 'inst.cpp')])
    except build_ir.BuildError as ex:
        log('ERROR: /repo does not compile:', ex); return 2
    log('%s: IR built %.1fs' % (prop, time.time() - t0))
    mod = ir.Module(ll)
    units = P['units']()
    res = proof.run_units(units, mod, timeout=P.get('timeout', timeout)) if units else []
    skip = re.compile(P['skip']) if P.get('skip') else None      # obligations of shared units that belong to other properties only
    if skip:
        for r in res: r['obligations'] = [o for o in r['obligations'] if not skip.search(o['name'])]
    os.unlink(ll)
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    known = [k for k in known if k['property'] == prop]
    refused, undecided, kf = [], [], []
    nob = nok = 0; tsolve = 0; back = {}
    for r in res:
        if r['error']: undecided.append((r['unit'], 'unit', r['error'], None))
        for o in r['obligations']:
            tsolve += o['time']
            kfe = [k for k in known if k['unit'] == r['unit'] and k['obligation'] == o['name']]
            if o['kind'] == 'known':
                # expected to be refused: the recorded defect; never counted as an obligation of the property
                if o['status'] != 'proved' and kfe: kf.append(kfe[0])
                elif o['status'] != 'proved': refused.append((r['unit'], o['name'], o.get('goal', ''), o))
                continue
            nob += 1
            if o['status'] == 'proved': nok += 1; back[o['backend']] = back.get(o['backend'], 0) + 1
            elif o['status'] in ('failed', 'incomplete'): refused.append((r['unit'], o['name'], o.get('goal', ''), o))
            else: undecided.append((r['unit'], o['name'], 'solver: ' + str(o.get('reason', 'unknown')), o))
    for k in kf: log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    log('%s: %d functions under contract, %d obligations, %d proved, %d refused, %d undecided, %.1fs' % (prop, len(set(r.get('function') for r in res)), nob, nok, len(refused), len(undecided), time.time() - t0))
    for (u, n, why, o) in (refused + undecided)[:12]: log('  not proved: %s: %s %s' % (u, n, (o or {}).get('where', '')), '' if o else why.split('\n')[0][:300])
    found, text, stats = None, '', {}
    bounded = P.get('bounded')
    if refused or undecided or bounded:
        budget = P.get('search_s', 60) if (refused or undecided) else bounded.get('seconds', 20)
        if tier == 'thorough': budget *= 4
        try: found, text, stats = run_replay(tmp, prop, seed, budget)
        except build_ir.BuildError as ex: found, text = None, 'replay program does not build against this tree: %s' % ex
        log('%s: real code executed: %s %s' % (prop, 'FAILING INPUT' if found else 'no failing input', stats))
    violation = bool(found) or bool(refused)
    cov = {'obligations': nob, 'discharged': nok, 'checker_cmd': 'python3-vt check.py %s' % prop,
           'trusted_base': ['llvc VC generator (/verif/llvc)', 'clang 18 IR generation', 'z3 ' + z3v(), 'cvc5'],
           'backends': back, 'solver_s': round(tsolve, 1),
           'functions_under_contract': sorted(set(str(r.get('function')) for r in res)),
           'functions_inlined': sorted(set(x for r in res for x in r['inlined'])),
           'callee_contracts_used': sorted(set(x for r in res for x in r['contracts'])),
           'units': [{'unit': r['unit'], 'doc': r['doc'], 'obligations': len(r['obligations']), 's': r['time'], 'entry_satisfiable': r.get('vacuity')} for r in res],
           'undecided': [{'unit': u, 'obligation': n, 'why': w[:400]} for (u, n, w, o) in undecided],
           'refused': [{'unit': u, 'obligation': n} for (u, n, w, o) in refused]}
    if stats:
        cov['bounded'] = {'label': 'bounded (not proved): ' + (bounded['what'] if bounded else 'stand-in for the undecided obligations above'), 'stats': stats}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'), 'coverage': cov,
          'assumptions': sorted(set(x for r in res for x in r['assumed'])) + list(P.get('assumptions', [])) + ['double arithmetic is interpreted over the reals (A-REAL)'] * bool(P.get('real', True)),
          'wall_s': round(time.time() - t0, 2), 'violations': int(violation)}
    json.dump(ev, open(evf, 'w'), indent=1)
    if violation:
        with open(rpf, 'w') as f:
            f.write('property %s\n' % prop)
            for (u, n, w, o) in refused + undecided:
                f.write('\nobligation not accepted: unit %s: %s\n' % (u, n))
                if o: f.write('  at %s  status %s (%s)\n  goal: %s\n  counterexample to the obligation:\n%s\n' % (o['where'], o['status'], o['backend'], o.get('goal', ''), o.get('model', 'none given')))
                else: f.write('  %s\n' % w)
            f.write('\nreplay on the real code (replay/%s.cpp, seed %d): %s\n%s\n' % (prop.lower(), seed, 'FAILING INPUT' if found else 'no failing input found', text))
        if text and found: log(text[:3000])
        log('VIOLATION property=%s replay=%s%s' % (prop, rpf, '' if found else ' no-failing-input-found'))
        return 1
    if undecided: log('%s: undecided obligations covered only by the bounded stand-in (labelled bounded in the evidence)' % prop)
    return 0
def z3v():
    import z3; return z3.get_version_string()
if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
