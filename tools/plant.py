#!/usr/bin/env python3
"""plant.py SPEC.py : confirm planted bugs in a scratch copy bind-mounted over /repo and store them under seeded/.
SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C source), ...]"""
import sys, os, subprocess, json, shutil, runpy
W = '/tmp/plant'
SD = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds on the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -O1 -g -w -I/repo/include -I/repo "$d/demo.c" /repo/.libs/libpbc.a -lgmp -lm -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''


def ns(cmd, **k):
    return subprocess.run(['unshare', '-Urm', 'sh', '-c', 'mount --bind %s /repo && %s' % (W, cmd)], capture_output=True, text=True, **k)


def sync():
    subprocess.run(['rm', '-rf', W])
    subprocess.run(['cp', '-a', '/repo', W], check=True)


def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    sync()
    ns('bash /opt/vp/build.sh')
    for b in spec['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(SD, b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.c', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
        ns('bash /opt/vp/build.sh')
        r0 = ns('cd /repo && bash %s/demo.sh' % d)
        ok = True
        for f, old, new in b['edits']:
            s = open(os.path.join(W, f)).read()
            if s.count(old) != 1:
                print(b['id'], 'edit does not match once:', s.count(old), old[:60])
                ok = False
                break
            open(os.path.join(W, f), 'w').write(s.replace(old, new))
        if not ok:
            shutil.rmtree(d)
            continue
        diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        t = ns('bash /opt/vp/test.sh /tmp/plant_t.json; cp /tmp/plant_t.json /tmp/plant_out.json')
        try:
            j = json.load(open('/tmp/plant_out.json'))
        except Exception:
            j = dict(passed=[], failed=['?'])
        r1 = ns('cd /repo && bash %s/demo.sh' % d)
        good = r0.returncode == 0 and r1.returncode != 0 and len(j['passed']) == 150
        print(b['id'], 'demo clean', r0.returncode, 'demo bug', r1.returncode, 'tests', len(j['passed']), len(j['failed']), 'KEEP' if good else 'DROPPED', (r1.stdout + r1.stderr)[-100:].replace('\n', ' '), '' if r0.returncode == 0 else (r0.stdout + r0.stderr)[-300:])
        if not good:
            shutil.rmtree(d)
    subprocess.run(['rm', '-rf', W])


main()
