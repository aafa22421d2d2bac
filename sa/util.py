"""Small predicates shared by the rules."""
from .values import (V, Const, NONE, TRUE, FALSE, fname, is_call, carg, recv, walk, contains, is_const, strip_phi, show)

FRESHERS = {'fresh', 'Fresh'}
NEWVARS = {'Var', 'term', 'parser', 'Program'}


def root(v):
    "Strip attribute/index/star projections down to the object they come from."
    while True:
        if v.k in ('attr', 'sub', 'star', 'elem', 'key', 'enter'):
            v = v.a[0]
        elif v.k == 'phi' and isinstance(v.a[2], V):
            v = v.a[2]
        else:
            return v


def is_fresh(v):
    """`v` is (part of) a renamed-apart copy: fresh(...), x.fresh(), a pooled copy
    handed out by a fresh-cache, or built only from new variables/constants."""
    x = v
    while True:
        if x.k == 'enter' and is_call(x.a[0]) and fname(x.a[0].a[0]) in ('_fresh', 'FreshCache', '_freshcache'):
            return True
        if x.k == 'enter' and is_call(x.a[0]):
            f = x.a[0].a[0]
            if f.k == 'attr' and 'fresh' in f.a[1].lower():
                return True
        if x.k == 'call':
            f = x.a[0]
            n = fname(f)
            if n == 'fresh' or (n == 'Var' and f.k == 'cls'):
                return True
            if f.k == 'call' and fname(f.a[0]) == 'Fresh':
                return True
            if f.k == 'call' and fname(f.a[0]) == 'FreshCache':
                return True
            if f.k == 'cls' and n in ('Term', 'Rule', 'Product'):
                return bool(x.a[1]) and all(is_fresh(y) or y.k == 'const' for y in x.a[1]) and any(is_fresh(y) for y in x.a[1])
            return False
        if x.k in ('attr', 'sub', 'star', 'elem', 'key', 'enter'):
            x = x.a[0]
            continue
        if x.k == 'phi' and isinstance(x.a[2], V):
            x = x.a[2]
            continue
        if x.k == 'tup':
            return bool(x.a[1]) and all(is_fresh(y) or y.k == 'const' for y in x.a[1])
        return False


def truths(facts, pred):
    return [(a, b) for a, b in facts.items() if pred(a)]


def known(facts, pred, val=True):
    return any(b is val and pred(a) for a, b in facts.items())


def isinst(facts, v, *types, val=True):
    "Does the path know that `v` is an instance of (only) the given types?"
    for a, b in facts.items():
        if b is val and is_call(a, 'isinstance') and a.a[1][0] is v:
            T = a.a[1][1]
            ts = {fname(x) for x in T.a[1]} if T.k == 'tup' else {fname(T)}
            if ts <= set(types):
                return True
    return False


def in_ctx(e, kind, node=None):
    return any(c[0] == kind and (node is None or c[1] is node) for c in e.ctx)


def loop_ids(e):
    return [c[1] for c in e.ctx if c[0] == 'loop']


def elem_of(v, base):
    "`v` is an element of `base` (any index)."
    return v.k in ('sub', 'elem') and v.a[0] is base


def mentions(v, pred):
    return any(pred(x) for x in walk(v))


def calls_in(v, *names):
    return [x for x in walk(v) if is_call(x, *names)]


# ---------------------------------------------------------------- function selection
import ast as _ast


def _mentions(model):
    "ref -> set of identifiers mentioned in the function's source."
    d = model.__dict__.get('_mention_cache')
    if d is None:
        d = {}
        for f in model.all_funcs(nested=False):
            s = set()
            for n in _ast.walk(f.node):
                if isinstance(n, _ast.Name):
                    s.add(n.id)
                elif isinstance(n, _ast.Attribute):
                    s.add(n.attr)
            d[f.ref] = (f, s)
        model.__dict__['_mention_cache'] = d
    return d


def analysis_roots(model, pred):
    """Functions satisfying `pred` directly or through freshly added helpers.

    A helper that the base inventory does not know is judged where it is inlined,
    so it is only returned itself when nothing calls it."""
    from .flow import base_names
    base = base_names()
    ment = _mentions(model)
    new = {r: f for r, (f, _) in ment.items() if r not in base}
    hit = {r for r, (f, _) in ment.items() if pred(f)}
    changed = True
    while changed:
        changed = False
        for r, (f, names) in ment.items():
            if r in hit:
                continue
            for h in list(hit):
                if h in new and h != r and new[h].name in names:
                    hit.add(r)
                    changed = True
                    break
    out = []
    for r in sorted(hit):
        f, _ = ment[r]
        if r in new and any(f.name in names for r2, (_, names) in ment.items() if r2 != r):
            continue
        out.append(f)
    return out


def has_node(f, test):
    return any(test(n) for n in _ast.walk(f.node))


def calls_name(f, *names):
    def t(n):
        if isinstance(n, _ast.Call):
            g = n.func
            return (isinstance(g, _ast.Name) and g.id in names) or (isinstance(g, _ast.Attribute) and g.attr in names)
        return False
    return has_node(f, t)


def short(v, n=100):
    s = show(v)
    return s if len(s) <= n else s[:n] + '…'
