#!/usr/bin/env python3-vt
"""mutate.py FILE-GLOB COUNT SEED OUT : sample mutants of original source lines, keep those that build and pass the
repository's tests, run the conformance scripts of the properties that concern the file, report survivors."""
import sys, os, re, random, subprocess, json, glob, importlib, time, shutil
sys.path.insert(0, '/verif')
SLOT = os.environ.get('SLOT', '0')
W = '/tmp/mut/repo' + SLOT
from vcg import conf, registry
MAP = [('arith/(mont|fast|faster|naive)fp|arith/fp', 'C01 C06 C07 C14 C20 C13'), ('arith/fieldq', 'C02 C06 C07 C13 C14 C05 C20'), ('arith/poly', 'C03 C06 C07 C13 C14 C20'),
       ('arith/field.c', 'C05 C13 C07 C01 C11 C20'), ('arith/(multi)?z.c', 'C15 C13 C20'), ('arith/tern', 'C16 C20'), ('random', 'C14'), ('arith/dlog', 'C19 C20'),
       ('ecc/curve', 'C04 C08 C13 C14 C17 C05 C20'), ('ecc/singular', 'C04'), ('ecc/pairing', 'C11 C09 C14 C13 C20'), ('ecc/param', 'C12 C20'), ('ecc/a_param', 'C09 C11 C12 C17 C20'),
       ('ecc/[dgfe]_param', 'C10 C11 C12 C17 C20'), ('ecc/eta', 'C16 C11 C12 C20'), ('ecc/(hilbert|mnt|mpc)', 'C17 C20'), ('misc/(dar|sym)', 'C18 C12 C20'),
       ('include/pbc_(field|fops)', 'C05 C13 C07 C11 C08'), ('include/pbc_pairing', 'C11 C09'), ('include/pbc_poly|include/pbc_multiz|include/pbc_z', 'C03 C15')]


def ns(cmd, timeout=180):
    try:
        return subprocess.run(['timeout', '-k', '2', str(timeout), 'unshare', '-Urm', 'sh', '-c', 'mount --bind %s /repo && %s' % (W, cmd)], capture_output=True, text=True)
    except Exception:
        return None


OPS = [(r'(?<![<>=\-])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![>\-=])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'\+ 1\b', '+ 2'), (r'\+ 1\b', ''), (r'- 1\b', ''), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r'!(?=[a-z])', ''), (r'if \((.*)\)', r'if (0 && (\1))'),
       (r'if \((.*)\)', r'if (1 || (\1))'), (r'\+=', '-='), (r'\+\+', '+= 2'), (r'\badd\b', 'sub'), (r'element_add\(', 'element_sub('), (r'element_sub\(', 'element_add('),
       (r'_square\((\w+), (\w+)\)', r'_set(\1, \2)'), (r'element_set0', 'element_set1'), (r'element_set1', 'element_set0'), (r'mpz_sgn', '-mpz_sgn'), (r'->x\b', '->y'), (r'->y\b', '->x'),
       (r'(element_\w+)\((\w+), (\w+), (\w+)\)', r'\1(\2, \4, \3)'), (r'(element_\w+)\((\w+), (\w+), (\w+)\)', r'\1(\2, \3, \3)'), (r'(element_\w+)\((\w+), (\w+), (\w+)\)', r'\1(\3, \3, \4)'), (r'continue;', ';'), (r'break;', ';'),
       (r'exp1', 'exp2'), (r'sign1', 'sign0'), (r' \+ (\w)', r' - \1'), (r' - (\w)', r' + \1'), (r' \* ', ' + '), (r' / ', ' * '), (r'%', '/'), (r'>> ', '<< '), (r'~', ''), (r' & ', ' | '), (r' \| ', ' & ')]


def candidates(f):
    bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], capture_output=True, text=True).stdout.split('\n')
    src = open('/repo/' + f).read().split('\n')
    out = []
    for i, l in enumerate(src):
        if i >= len(bl) or not bl[i].startswith('^'):
            continue
        s = l.strip()
        if not s or s.startswith(('//', '*', '/*', '#')) or 'print' in s or 'pbc_die' in s or 'pbc_warn' in s or 'PBC_ASSERT' in s:
            continue
        if re.match(r'^\s+[a-z_]\w*(->\w+)?\(.*\);$', l) and not re.search(r'_(init|clear)\w*\(|free|va_|return', l):
            out.append((i, l, ''))
        if re.match(r'^\s+[\w>.\[\]*-]+ [+\-*/]?= .*;$', l) and not re.match(r'^\s+(\w+_(ptr|t)|int|void|mpz_ptr|unsigned|char|size_t) ', l):
            out.append((i, l, ''))
        if l.startswith(' '):
            for a, b in OPS:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if n != l:
                        out.append((i, l, n))
    return out


def main():
    files = [os.path.relpath(p, '/repo') for g in sys.argv[1].split(',') for p in sorted(glob.glob('/repo/' + g))]
    N, seed, res = int(sys.argv[2]), int(sys.argv[3]), open(sys.argv[4], 'a')
    rnd = random.Random(seed)
    subprocess.run(['rm', '-rf', W])
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    ns('bash /opt/vp/build.sh')
    pool = [(f, c) for f in files for c in candidates(f)]
    rnd.shuffle(pool)
    print(len(pool), 'candidates')
    per, tot = {}, 0
    for f, (i, l, n) in pool:
        if tot >= N:
            break
        if per.get((f, i)):
            continue
        per[(f, i)] = 1
        src = open('/repo/' + f).read().split('\n')
        src[i] = n
        open(W + '/' + f, 'w').write('\n'.join(src))
        out = '/tmp/mut/t%s.json' % SLOT
        if os.path.exists(out):
            os.unlink(out)
        ns('bash /opt/vp/test.sh ' + out, 60)
        try:
            ok = len(json.load(open(out))['passed']) == 150
        except Exception:
            ok = False
        rec = dict(file=f, line=i + 1, old=l.strip(), new=n.strip(), tests=ok)
        if ok:
            tot += 1
            d = '/tmp/mut/drv' + SLOT
            shutil.rmtree(d, ignore_errors=True)
            subprocess.run(['bash', '/verif/tools/mkdrv.sh', d], env=dict(os.environ, PBC_REPO=W), capture_output=True)
            rec['killed'] = None
            props = next((p for r, p in MAP if re.search(r, f)), 'C20').split()
            for pid in props:
                cases = []
                for name in registry.REG[pid].get('conf', []):
                    m, fn = name.split('.')
                    cases += getattr(importlib.import_module('vcg.' + m), fn)(random.Random(1), False)
                kn = registry.known('/verif', pid)
                bad, done, undone = conf.run_cases(d + '/drv', cases, per=60)
                bad = [(c, m) for c, m in bad if not any(x['match'] in c.label or x['match'] in m for x in kn)]
                if bad:
                    rec['killed'] = pid
                    rec['why'] = (bad[0][0].label + ': ' + bad[0][1])[:200]
                    break
            res.write(json.dumps(rec) + '\n')
            res.flush()
        open(W + '/' + f, 'w').write(open('/repo/' + f).read())
    subprocess.run(['rm', '-rf', W])


main()
