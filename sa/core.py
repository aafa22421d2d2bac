"""Check driver: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
import traceback

from .model import Model, AnalysisError
from .flow import Flow, Limit
from .values import V, fname

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')

REGISTRY = {}


def check(pid, technique, explanation, assumptions=()):
    def deco(f):
        REGISTRY[pid] = dict(fn=f, technique=technique, explanation=explanation, assumptions=list(assumptions))
        return f
    return deco


class Ctx:
    def __init__(self, model, pid, tier='quick'):
        self.m = model
        self.pid = pid
        self.tier = tier
        self.obligations = []      # (rule, construct, where)
        self.violations = []       # dict
        self.counts = {}
        self.npaths = 0
        self.nfuncs = set()
        self.inlined = set()
        self.notes = []
        self.vacuous = []          # rules that matched too little: fatal unless a violation explains it

    # -- analysis helpers
    def paths(self, f, **kw):
        """Paths of a function; the precision is reduced rather than the answer
        dropped when the path budget runs out."""
        args = kw.pop('args', None)
        facts = kw.pop('facts', None)
        env = kw.pop('frame_env', None)
        key = (id(f.node), repr(sorted((k, repr(v)) for k, v in kw.items() if k != 'presume')), args is None and facts is None and env is None and kw.get('presume') is None)
        cache = self.m.__dict__.setdefault('_pathcache', {})
        if key[2] and key in cache:
            ps, inl = cache[key]
        else:
            try:
                fl = Flow(self.m, **kw)
                ps = fl.paths(f, args=args, facts=facts, frame_env=env)
            except Limit:
                fl = Flow(self.m, **dict(kw, implicit_exc=False, max_paths=250000))
                ps = fl.paths(f, args=args, facts=facts, frame_env=env)
            inl = (fl.inlined, fl)
            if key[2]:
                cache[key] = (ps, inl)
        self.npaths += len(ps)
        self.nfuncs.add(f.ref)
        self.inlined |= inl[0]
        for p in ps:
            p.flow = inl[1]
        return ps

    # -- results
    def ob(self, rule, construct, where=''):
        self.obligations.append((rule, construct, where))

    def fail(self, rule, construct, where, msg):
        key = f'{rule}: {construct}'
        for v in self.violations:
            if v['key'] == key:
                return
        self.violations.append(dict(key=key, rule=rule, construct=construct, where=where, msg=msg))

    def need(self, cond, rule, construct, where, msg):
        self.ob(rule, construct, where)
        if not cond:
            self.fail(rule, construct, where, msg)
        return cond

    def floor(self, n, least, what):
        "A rule that matches fewer instances than were confirmed by hand is vacuous."
        self.counts[what] = n
        if n < least:
            self.vacuous.append(f'only {n} {what} found, {least} were confirmed by hand: the rule is vacuous')


def load_known():
    known, fixed = [], []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            if line.startswith('fixed:'):
                fixed.append(line)
            elif line.startswith('known:'):
                # known: property=<id> key=<rule: construct> :: text
                rest = line[len('known:'):].strip()
                pid, rest = rest.split(None, 1)
                key, text = rest.split('::', 1)
                known.append((pid.split('=', 1)[1], key.strip()[len('key='):], text.strip()))
    return known, fixed


def run(pid, tier='quick', overlay=None, quiet=False, model=None, write=True):
    t0 = time.time()
    from . import rules  # noqa: F401  (registers the checks)
    ent = REGISTRY.get(pid)
    if ent is None:
        print(f'no check for {pid}', file=sys.stderr)
        return 2
    broken = None
    ctx = None
    try:
        m = model or Model()
        ctx = Ctx(m, pid, tier)
        ent['fn'](ctx)
    except (AnalysisError, Limit) as e:
        broken = str(e)
    except Exception:
        traceback.print_exc()
        broken = 'internal error'
    if broken is None and ctx.vacuous:
        broken = '; '.join(ctx.vacuous)
    if broken is not None and (ctx is None or not ctx.violations):
        print(f'ANALYSIS-BROKEN property={pid}: {broken}')
        return 2
    known, _ = load_known()
    mine = {k: t for p, k, t in known if p == pid}
    new = []
    for v in ctx.violations:
        if v['key'] in mine:
            print(f"KNOWN-FINDING: property={pid} {v['key']} at {v['where']}: {mine[v['key']]}")
        else:
            new.append(v)
    obs = ctx.obligations
    rules_ = {}
    for r, c, w in obs:
        rules_.setdefault(r, []).append((c, w))
    bad = {v['key'] for v in ctx.violations}
    discharged = sum(1 for r, c, w in obs if f'{r}: {c}' not in bad)
    wall = time.time() - t0
    if write:
        ev = dict(
            property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
            coverage=dict(
                explanation=ent['explanation'],
                obligations=len(obs), discharged=discharged,
                functions_analysed=len(ctx.nfuncs), paths_enumerated=ctx.npaths,
                helpers_inlined=sorted(ctx.inlined),
                functions=sorted(ctx.nfuncs),
                instances=ctx.counts,
                rules={r: dict(instances=len(cs), sites=[f'{w} {c}' for c, w in cs[:40]]) for r, cs in rules_.items()},
                source_digest=m.digest.hexdigest(),
            ),
            assumptions=ent['assumptions'],
            wall_s=round(wall, 3), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    if not quiet:
        print(f'{pid}: {len(obs)} obligations over {len(ctx.nfuncs)} functions, {ctx.npaths} paths; {len(new)} violations ({wall:.1f}s)')
    if not obs and not ctx.violations:
        print(f'ANALYSIS-BROKEN property={pid}: no obligation was generated')
        return 2
    if new:
        rp = os.path.join(VERIF, 'evidence', f'{pid}.violations.txt')
        if write:
            with open(rp, 'w') as fh:
                for v in new:
                    fh.write(f"{v['where']}: [{v['rule']}] {v['construct']}: {v['msg']}\n")
        for v in new:
            print(f"  {v['where']}: [{v['rule']}] {v['construct']}: {v['msg']}")
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if broken is not None:
        print(f'ANALYSIS-BROKEN property={pid}: {broken}')
        return 2
    return 0
