#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]
Decides one property on /repo's current working tree."""
import sys, os, time, json, random, subprocess, tempfile, shutil, importlib, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vcg import unit, worker, conf, registry, build


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    big = tier == 'thorough'
    prop = registry.REG[pid]
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    replay = os.path.join(evd, pid + '.replay.txt')
    if os.path.exists(replay):
        os.unlink(replay)
    scratch = tempfile.mkdtemp(prefix='pbcchk-')
    try:
        return decide(pid, prop, tier, seed, big, scratch, replay, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, prop, tier, seed, big, scratch, replay, t0):
    drvdir = os.path.join(scratch, 'drv')
    mk = subprocess.Popen(['bash', os.path.join(HERE, 'tools', 'mkdrv.sh'), drvdir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    unit.modules(os.path.join(scratch, 'll'))
    mkout = mk.communicate()[0]
    drv = os.path.join(drvdir, 'drv')
    if mk.returncode or not os.path.exists(drv):
        print("cannot build the driver from %s:\n%s" % (build.REPO, mkout[-3000:]))
        return 2
    # deductive units
    deadline = prop.get('deadline', 240) * (4 if big else 1)
    res = worker.run_units(prop.get('units', []) + (prop.get('deep', []) if big else []), deadline, seed, tier, budget=prop.get('budget', 480) * (8 if big else 1))
    # bounded conformance on the real binary: replays, and stand-in for what is undecided
    ct = time.time()
    cases = []
    for name in prop.get('conf', []):
        m, f = name.split('.')
        cases += getattr(importlib.import_module('vcg.' + m), f)(random.Random(seed), big)
    bad, done, undone = conf.run_cases(drv, cases, per=60 if not big else 300)
    conf_s = time.time() - ct
    st = {'proved': 0, 'refuted': 0, 'unknown': 0, 'failed': 0}
    bounded = 0
    refuted, unknown, vac, units = [], [], [], {}
    fns, contracts, assumptions = set(), set(), set(prop.get('assumptions', ()))
    solver = queries = 0
    real, vacant = {}, set()
    for r in res:
        if not r['canary']:
            for n, s, d in r['results']:
                real.setdefault((r['name'], n), set()).add(s)
    for r in sorted(res, key=lambda r: not r['canary']):
        if r['canary']:
            for n, s, d in r['results']:
                # an obligation that is itself not proved on the real statement lends no support to anything
                if s == 'proved' and real.get((r['name'], n), {'proved'}) == {'proved'}:
                    vac.append("%s: %s proved with a sabotaged postcondition" % (r['name'], n))
                    vacant.add(r['name'])
            continue
        solver += r['solver']
        queries += r['queries']
        fns.update(r['functions'])
        contracts.update(r['contracts'])
        assumptions.update(r['assumptions'])
        u = units.setdefault(r['name'], dict(obligations=0, proved=0, unknown=0, refuted=0, failed=0, bounded=r['bounded'], wall_s=0.0))
        u['wall_s'] = round(u['wall_s'] + r['wall'], 2)
        for n, s, d in r['results']:
            if s == 'proved' and r['name'] in vacant:
                s, d = 'unknown', 'the unit also proves a sabotaged statement: its proofs are not counted'
            u['obligations'] += 1
            u[s] += 1
            st[s] += 1
            if s == 'proved' and r['bounded']:
                bounded += 1
            if s == 'refuted':
                refuted.append((r['name'], n, d))
            if s == 'failed':
                refuted.append((r['name'], n, 'not discharged: ' + d))
            if s == 'unknown':
                unknown.append((r['name'], n, d))
        if r.get('bounded_loops'):
            u['unrolled_loops'] = sorted(set(u.get('unrolled_loops', [])) | set(map(str, r['bounded_loops'])))[:20]
    total = sum(st.values())
    print("%s %s: %d obligations, %d proved (%d of them in units with a stated bound), %d undecided, %d refuted; %d solver queries, %.1f s solver time" % (
        pid, tier, total, st['proved'], bounded, st['unknown'], st['refuted'] + st['failed'], queries, solver))
    for n, u in sorted(units.items()):
        print("  unit %-52s %5d/%d proved, %d undecided, %d refuted%s" % (n, u['proved'], u['obligations'], u['unknown'], u['refuted'] + u['failed'], " [bounded: %s]" % u['bounded'] if u['bounded'] else ""))
    print("  conformance (bounded): %d scripts, %d lines, %d failing, %d not run, %.1f s" % (done, sum(len(c.lines) for c in cases), len(bad), undone, conf_s))
    for n, o, d in unknown[:15]:
        print("  undecided: %s / %s: %s" % (n, o, d.strip().replace('\n', ' | ')[-300:]))
    known = registry.known(HERE, pid)
    viol = 0
    out = []
    for v in vac[:5]:
        print("  VACUOUS (the proofs of this unit are not counted) " + v)
    kf = []
    newbad = []
    for c, m in bad:
        k = [x for x in known if x['match'] in c.label or x['match'] in m]
        if k:
            kf.append(k[0])
        else:
            newbad.append((c, m))
    newref = []
    for n, o, d in refuted:
        k = [x for x in known if x['match'] in ("%s / %s" % (n, o))]
        if k:
            kf.append(k[0])
        else:
            newref.append((n, o, d))
    for x in {k['match']: k for k in kf}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, x['what']))
    rc = 0
    if newref or newbad:
        rc = 1
        viol = len(newref) + len(newbad)
        with open(replay, 'w') as f:
            f.write("property %s violated on %s\n" % (pid, build.REPO))
            for n, o, d in newref[:60]:
                f.write("failed obligation: %s / %s\n    %s\n" % (n, o, d))
            for c, m in newbad[:5]:
                f.write("\nfailing input: %s\n    %s\nreplay: bash tools/mkdrv.sh /tmp/d && /tmp/d/drv <<'X'\n%sX\nexpected outputs, in order:\n" % (c.label, m, c.script()))
                for cmd, w in c.lines:
                    if w is not None:
                        f.write("    %s -> %s\n" % (cmd, w if isinstance(w, str) else '(predicate)'))
        for n, o, d in newref[:8]:
            print("  FAILED OBLIGATION %s / %s: %s" % (n, o, d[:300]))
        for c, m in newbad[:8]:
            print("  FAILING INPUT %s: %s" % (c.label[:160], m[:300]))
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if newbad else " no-failing-input-found"))
    ev = dict(property=pid, tier=tier, seed=seed, level=prop['level'] if prop['units'] else 'exploration', wall_s=round(time.time() - t0, 2), violations=viol,
              assumptions=sorted(assumptions) + registry.COMMON_ASSUMPTIONS,
              coverage=dict(obligations=total, discharged=st['proved'], discharged_in_bounded_units=bounded, undecided=st['unknown'], refuted=st['refuted'], rejected=st['failed'],
                            checker_cmd="cd /verif && python3-vt check.py %s --tier %s" % (pid, tier),
                            trusted_base=registry.TRUSTED + ["contract of " + c for c in sorted(contracts)],
                            backend="polynomial normal forms / Groebner bases (vcg/ring.py, sympy) and z3 %s" % __import__('z3').get_version_string(),
                            solver_seconds=round(solver, 2), solver_queries=queries,
                            functions_under_contract=sorted(fns), units=units,
                            undecided_obligations=["%s / %s" % (n, o) for n, o, d in unknown][:60],
                            evaluations=done, distinct_nontrivial=len({c.script() for c in cases}),
                            rule="bounded conformance scripts run on the real library (ASan+UBSan) and compared with independent Python arithmetic; distinct scripts with at least one checked output",
                            samples=[c.label for c in cases[:3]] or ["none"],
                            explanation=prop.get('note', '')))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %s in %.1f s" % (pid, tier, "ok" if rc == 0 else "violated", time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main())
