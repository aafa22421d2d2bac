"""Try textual changes against checks, in memory: used while developing."""
import sys, os, io, contextlib, threading
sys.path.insert(0, '/verif')
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
from multiprocessing import Pool
from sa.core import run
from sa.model import Model
REPO = '/repo/'
JOBS = []


def apply(edits):
    ov = {}
    for f, old, new in edits:
        p = 'dyna/' + f
        s = ov.get(p) or open(REPO + p).read()
        assert old in s, ('NOT FOUND', f, old)
        ov[p] = s.replace(old, new, 1)
    return ov


def one(job):
    pid, edits, expect = job
    res = []

    def go():
        buf = io.StringIO()
        rc = None
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            try:
                rc = run(pid, model=Model(overlay=apply(edits)), write=False, quiet=True)
            except Exception as e:
                import traceback
                rc = repr(e)
                traceback.print_exc()
        ok = rc == expect
        out = buf.getvalue().strip()
        res.append((ok, f"{'ok ' if ok else 'BAD'} {pid} rc {rc} want {expect} | {(edits[0][1].strip().splitlines() or [''])[0][:60]} -> {(edits[0][2].strip().splitlines() or [''])[0][:60]}", (out[-160:] if 'Traceback' in out else out[:500])))
    t = threading.Thread(target=go); t.start(); t.join()
    return res[0]


def trial(pid, edits, expect):
    JOBS.append((pid, edits, expect))


def go(n=8):
    if os.environ.get('ONLY'):
        import re
        JOBS[:] = [j for j in JOBS if re.search(os.environ['ONLY'], str(j))]
    with Pool(n, maxtasksperchild=4) as pool:
        rs = pool.map(one, JOBS, chunksize=1)
    for ok, line, out in rs:
        if not ok or '-v' in sys.argv:
            print(line)
            if not ok or '-vv' in sys.argv:
                print('      ', out)
    print(sum(r[0] for r in rs), 'of', len(rs), 'as expected')
