"""Compile /repo's sources to LLVM IR on every run."""
import os, subprocess, hashlib, glob, shutil
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('PBC_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang' if os.path.exists('/usr/lib/llvm-18/bin/clang') else 'clang'

API = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'c', 'api.c')


def sources():
    fs = ['api.c']
    for d in ('arith', 'ecc', 'misc'):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith('.c') and not f.endswith('win32.c') and f != 'tinyfp.c':
                fs.append(d + '/' + f)
    return fs


def compile_ll(files, out):
    os.makedirs(out, exist_ok=True)

    def one(f):
        o = os.path.join(out, f.replace('/', '_')[:-2] + '.ll')
        path = API if f == 'api.c' else os.path.join(REPO, f)
        r = subprocess.run([CLANG, '-S', '-emit-llvm', '-O0', '-g', '-w', '-Wno-error=incompatible-function-pointer-types',
                            '-Wno-incompatible-function-pointer-types', '-Wno-int-conversion',
                            '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-I' + REPO + '/include',
                            '-I' + REPO, path, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("clang failed on %s: %s" % (f, r.stderr[:2000]))
        return f, o
    with ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, files))


def load(files, out):
    files = files or sources()
    lls = compile_ll(files, out)
    return {f: ir.Module(o, f) for f, o in lls.items()}
