"""Compile /repo's current working tree to LLVM IR (clang 18, -O0, debug info for names only)."""
import os, subprocess, sys, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else '/usr/bin/clang++'
LINK = '/usr/bin/llvm-link-18' if os.path.exists('/usr/bin/llvm-link-18') else '/usr/bin/llvm-link'
OPT = '/usr/bin/opt-18' if os.path.exists('/usr/bin/opt-18') else '/usr/bin/opt'
DIRS = ['ArcWelder', 'GcodeProcessorLib', 'ArcWelderInverseProcessor']
def sources():
    out = []
    for d in DIRS:
        out += sorted(glob.glob(os.path.join(REPO, d, '*.cpp')))
    return out
FLAGS = ['-std=gnu++17', '-include', 'cstdint', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-fno-discard-value-names', '-w', '-ffp-contract=off']
INC = lambda: ['-I' + os.path.join(REPO, d) for d in DIRS] + ['-I' + os.path.join(REPO, 'TCLAP')]
class BuildError(Exception): pass
def build(outdir, extra=()):
    os.makedirs(outdir, exist_ok=True)
    srcs = sources() + list(extra)
    def one(s):
        o = os.path.join(outdir, os.path.basename(os.path.dirname(s)) + '_' + os.path.basename(s) + '.bc')
        r = subprocess.run([CLANG] + FLAGS + INC() + (['-Dmain=main_' + os.path.basename(s).replace('.', '_')]) + ['-c', '-emit-llvm', s, '-o', o], capture_output=True, text=True)
        if r.returncode: raise BuildError('%s: %s' % (s, r.stderr[-2000:]))
        return o
    with ThreadPoolExecutor(8) as ex: bcs = list(ex.map(one, srcs))
    ll = os.path.join(outdir, 'all.ll')
    r = subprocess.run([LINK, '-S', '-o', ll] + bcs, capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    for b in bcs: os.unlink(b)
    return ll
if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2:]))
