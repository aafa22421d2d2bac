"""Regenerate DESIGN.md from tools/design_head.md, the registry, the properties and the planted bugs:  python3 tools/design.py"""
import sys, os, json, subprocess, tempfile, shutil, threading, io, contextlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.setrecursionlimit(100000); threading.stack_size(512 << 20)
sys.path.insert(0, os.path.join(ROOT, 'tools'))


def overlay_of(patch):
    W = tempfile.mkdtemp(prefix='design_')
    try:
        shutil.copytree('/repo/dyna', W + '/dyna')
        r = subprocess.run(['git', 'apply', '--include=dyna/*', patch], cwd=W, capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr
        files = [l[6:].strip() for l in open(patch) if l.startswith('+++ b/')]
        return {f: open(os.path.join(W, f)).read() for f in files}, None
    finally:
        shutil.rmtree(W)


def one(sid):
    from sa.model import Model
    from sa.core import run
    meta = json.load(open(f'{ROOT}/seeded/{sid}/meta.json'))
    ov, err = overlay_of(f'{ROOT}/seeded/{sid}/patch.diff')
    if ov is None:
        return sid, meta, 'patch does not apply', ''
    res = []

    def go():
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            try:
                rc = run(meta['property'], model=Model(overlay=ov), write=False, quiet=True)
            except Exception as e:
                rc = repr(e)
        out = [l for l in buf.getvalue().splitlines() if '[' in l and ']' in l]
        res.append((rc, out[0].strip() if out else ''))
    t = threading.Thread(target=go); t.start(); t.join()
    return sid, meta, res[0][0], res[0][1]


def main():
    from sa import rules  # noqa: F401
    from sa.core import REGISTRY
    from na import NA
    from multiprocessing import Pool
    props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
    with Pool(8, maxtasksperchild=1) as pool:
        seeds = pool.map(one, sorted(os.listdir(ROOT + '/seeded')), chunksize=1)
    out = [open(ROOT + '/tools/design_head.md').read().rstrip(), '\n\n## The properties and how each is decided\n']
    for p in props:
        r = REGISTRY.get(p['id'])
        out.append(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n")
        if r is None:
            out.append(f"\n*Not applicable*: {NA[p['id']]}\n")
            continue
        out.append(f"\n- **Method**: {r['technique']}.\n- **Rule**: {r['explanation']}\n")
        if r['assumptions']:
            out.append(f"- **Assumed**: {'; '.join(r['assumptions'])}.\n")
        out.append(f"- **Beyond the tests**: {p['why_tests_cant']}\n- **Quantified over**: {p['quantifier']['text']}.\n")
        mine = [s for s in seeds if s[1]['property'] == p['id']]
        if mine:
            out.append('- **Planted bugs**: ' + '; '.join(f"`{s[0]}` {'caught' if s[2] == 1 else 'MISSED'}" for s in mine) + '.\n')
    out.append('\n## Planted bugs and the reports they produce\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n')
    for sid, meta, rc, msg in seeds:
        import re
        msg = re.sub(r'^\S*:\d+: |^[\d> -]+: ', '', msg)
        out.append(f"| {sid} | {meta['property']} | {meta['needs']} | {msg if rc == 1 else 'MISSED (' + str(rc) + ')'} |\n".replace('||', '\\|\\|'))
    open(ROOT + '/DESIGN.md', 'w').write(''.join(out))
    print(sum(s[2] == 1 for s in seeds), 'of', len(seeds), 'planted bugs caught;', [s[0] for s in seeds if s[2] != 1])


main()
