"""Concrete conformance runs: scripts for the replay driver with expected outputs
computed by independent Python arithmetic."""
import os, subprocess, tempfile, random
from concurrent.futures import ThreadPoolExecutor


class Case:
    def __init__(self, label):
        self.label = label
        self.lines = []       # (command, expected output or None)

    def __call__(self, *cmds):
        for c in cmds:
            self.lines.append((c, None))
        return self

    def q(self, cmd, want):
        """command whose printed line must equal want (str, callable predicate, or None=any)"""
        self.lines.append((cmd, want))
        return self

    def script(self):
        return "".join(c + "\n" for c, _ in self.lines) + "end\n"


class Any_:
    pass


ANY = Any_()


def parse(out):
    """driver output -> list of (lines, status)"""
    res, cur = [], []
    for l in out.split("\n"):
        if l.startswith("== "):
            res.append((cur, " ".join(l.split()[2:])))
            cur = []
        else:
            cur.append(l)
    return res


def run_batch(drv, cases, timeout=120, per=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=98',
               DRV_TIMEOUT=str(per))
    d = tempfile.mkdtemp(prefix='pbcdrv')
    try:
        try:
            p = subprocess.run([drv], input="".join(c.script() for c in cases), capture_output=True, text=True, errors='replace', timeout=timeout, env=env, cwd=d)
            return parse(p.stdout), p.stderr
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b''
            return parse(o.decode('utf8', 'replace')), 'timeout'
    finally:
        subprocess.run(['rm', '-rf', d])


def judge(case, lines, status):
    """None if as expected, else a description"""
    if status in ('signal 14',):
        return None if getattr(case, 'slow', False) else 'timeout'
    if getattr(case, 'after', None) is not None:
        if status != 'ok':
            return "run ended with: " + status
        m = case.after([l for l in lines if l.strip()])
        return None if m is True else m
    want = [(c, w) for c, w in case.lines if w is not None]
    i = 0
    for c, w in want:
        if i >= len(lines):
            return "%s: no output (expected %s), run ended with: %s" % (c, w if isinstance(w, str) else 'a line', status)
        got = lines[i]
        i += 1
        if w is ANY:
            continue
        if callable(w):
            try:
                m = w(got)
            except Exception as e:
                m = "unreadable: %r" % e
            if m is not True:
                return "%s: printed %r (%s)" % (c, got[:300], m)
        elif got.strip() != w.strip():
            return "%s: printed %r, expected %r" % (c, got[:400], w[:400])
    if status != 'ok':
        return "run ended with: " + status
    return None


def run_cases(drv, cases, timeout=300, per=60, jobs=8):
    """-> list of (case, description) for those that failed, number judged, number not run"""
    if not cases:
        return [], 0, 0
    n = max(1, min(len(cases), jobs * 2))
    chunks = [cases[i::n] for i in range(n)]
    bad, done, undone, hung = [], 0, 0, 0

    def go(ch):
        return ch, run_batch(drv, ch, timeout, per)
    with ThreadPoolExecutor(jobs) as ex:
        for ch, (res, err) in ex.map(go, chunks):
            for k, c in enumerate(ch):
                if k >= len(res):
                    undone += 1
                    continue
                done += 1
                m = judge(c, *res[k])
                if m == 'timeout' and hung >= 2:
                    done -= 1
                    undone += 1
                    continue
                if m == 'timeout':
                    # judge again alone with more time
                    r2, e2 = run_batch(drv, [c], timeout * 2, per * 3)
                    m = judge(c, *r2[0]) if r2 else 'timeout'
                    hung += m == 'timeout' and not any(l.startswith('alarm') for l, _ in c.lines)
                if m:
                    bad.append((c, m))
    bad.sort(key=lambda x: cases.index(x[0]))
    return bad, done, undone
