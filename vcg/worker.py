"""Run verification units in parallel processes with deadlines."""
import importlib, multiprocessing as mp, os, time, traceback, signal, resource
from . import unit


def make(spec, deadline, seed, tier):
    mod, cls, kw = spec[:3]
    U = getattr(importlib.import_module('vcg.' + mod), cls)
    return U(deadline=deadline, seed=seed, tier=tier, **kw)


def _go(conn, spec, shard, deadline, seed, tier, canary):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        os.setpgrp()
        u = make(spec, deadline, seed, tier)
        u.shard = shard
        if canary:
            u.canary = True
            u.maxcases = 4
            u.shard = (0, 1)
        r = u.run()
        r['spec'] = spec
        conn.send(r)
    except BaseException:
        try:
            conn.send(dict(name=str(spec), results=[('unit', 'unknown', traceback.format_exc()[-1500:])], bounded=None, wall=0, solver=0, queries=0,
                           functions=[], contracts=[], assumptions=[], bounded_loops=[], spec=spec))
        except BaseException:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_units(specs, deadline, seed, tier, jobs=8, hard=None, budget=480):
    """specs: (module, class, kwargs[, shards]) -> list of result dicts (canary results under 'canary')"""
    unit.modules()
    tasks = []
    for sp in specs:
        n = sp[3] if len(sp) > 3 else 1
        for i in range(n):
            tasks.append((sp, (i, n), False))
    for sp in specs:
        tasks.append((sp, (0, 1), True))
    tasks.reverse()
    running, out = [], []
    hard = hard or deadline + 60
    end = time.time() + budget
    ctx = mp.get_context('fork')
    while tasks or running:
        while tasks and len(running) < jobs:
            sp, sh, can = tasks.pop()
            left = end - time.time()
            if left < 5:
                out.append(dict(dead(sp, 'time budget of the check used up'), canary=can, shard=sh))
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_go, args=(b, sp, sh, min(left, deadline if not can else min(deadline, 90)), seed, tier, can))
            p.start()
            b.close()
            running.append((p, a, sp, sh, can, time.time()))
        still = []
        for x in running:
            p, a, sp, sh, can, t0 = x
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                p.join(5)
                if r is None:
                    r = dead(sp, 'worker ended without a result')
                r['canary'] = can
                r['shard'] = sh
                out.append(r)
            elif time.time() - t0 > hard or not p.is_alive():
                if p.is_alive():
                    p.kill()
                p.join(5)
                r = dead(sp, 'worker killed at its time or memory limit')
                r['canary'] = can
                r['shard'] = sh
                out.append(r)
            else:
                still.append(x)
        running = still
        time.sleep(0.02)
    return out


def dead(sp, why):
    return dict(name="%s.%s%s" % (sp[0], sp[1], sp[2] or ''), results=[('unit', 'unknown', why)], bounded=None, wall=0, solver=0, queries=0,
                functions=[], contracts=[], assumptions=[], bounded_loops=[], spec=sp)
