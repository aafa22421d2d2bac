"""Plant bugs: `python3 tools/seed.py SPEC.py [id ...]`, SPEC defines seed(...) calls; keeps those that qualify."""
import sys, os, subprocess, json, shutil, tempfile, threading
sys.path.insert(0, '/verif'); sys.setrecursionlimit(100000); threading.stack_size(512 * 1024 * 1024)
from multiprocessing.pool import ThreadPool
SPECS = []
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def seed(id, pid, edits, demo, needs, breaks):
    SPECS.append((id, pid, edits, demo.lstrip('\n'), needs, breaks))


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env={**os.environ, **env})


def one(s):
    id, pid, edits, demo, needs, breaks = s
    W = tempfile.mkdtemp(prefix='seedwt_')
    try:
        shutil.rmtree(W); shutil.copytree('/repo', W, symlinks=True)
        for f, old, new in edits:
            p = f'{W}/dyna/{f}'; t = open(p).read()
            if t.count(old) < 1: return id, f'NOT FOUND {f}: {old[:60]!r}'
            open(p, 'w').write(t.replace(old, new, 1))
        diff = sh('git diff', W).stdout
        D = f'{W}.demo'; os.makedirs(D)
        open(D + '/demo.sh', 'w').write(DEMO); open(D + '/demo.py', 'w').write(demo)
        a = sh(f'bash {D}/demo.sh', '/repo'); b = sh(f'bash {D}/demo.sh', W)
        shutil.rmtree(D)
        if a.returncode: return id, 'DEMO FAILS CLEAN: ' + (a.stderr + a.stdout)[-400:]
        if not b.returncode: return id, 'DEMO PASSES PATCHED'
        sh(f'find dyna test -name __pycache__ -prune -exec rm -rf {{}} +', W)
        J = W + '.xml'
        sh(f'timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 --continue-on-collection-errors --tb=short -o junit_family=xunit2 --junitxml={J}', W,
           CI='true', PYTHONPATH=W, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', HOME='/root')
        sh(f'python3 /opt/vp/results.py {W}.json junit:{J}', W)
        try: got = set(json.load(open(W + '.json'))['passed'])
        except Exception as e: return id, f'no test results {e}'
        miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - got
        if miss: return id, f'TESTS CATCH ({len(miss)}): {sorted(miss)[:2]}'
        o = f'/verif/seeded/{id}'; os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff); open(o + '/demo.sh', 'w').write(DEMO); open(o + '/demo.py', 'w').write(demo)
        os.chmod(o + '/demo.sh', 0o755)
        json.dump({'property': pid, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
        return id, 'KEPT; demo says: ' + ((b.stderr + b.stdout).strip().splitlines() or ['?'])[-1][:110]
    finally:
        for x in (W, W + '.xml', W + '.json', W + '.demo'):
            if os.path.isdir(x): shutil.rmtree(x)
            elif os.path.exists(x): os.remove(x)


def caught(s):
    id, pid, edits, *_ = s
    import importlib
    mut = importlib.import_module('tools.mut') if os.path.exists('/verif/tools/__init__.py') else __import__('mut')
    ok, line, out = mut.one((pid, [(f, o, n) for f, o, n in edits], 1))
    return id, 'caught' if ok else f'MISSED: {line[:60]} {out[:200]}'


def go():
    want = set(sys.argv[2:])
    ss = [s for s in SPECS if not want or s[0] in want]
    with ThreadPool(6) as p:
        for id, r in p.imap(one, ss): print(id, r, flush=True)
    from multiprocessing import Pool
    with Pool(8) as p:
        for id, r in p.imap(caught, ss): print('   check:', id, r, flush=True)


if __name__ == '__main__':
    sys.path.insert(0, '/verif/tools')
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), {'seed': seed})
    go()
