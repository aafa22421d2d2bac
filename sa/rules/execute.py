"""Bottom-up evaluation: change propagation (C13), agenda bookkeeping (C14), multiplicities (C15), constants (C16)."""
import ast
from ..core import check
from ..values import (V, Const, NONE, TRUE, FALSE, fname, is_call, recv, walk, contains, is_const, strip_phi, Attr, Sub, carg)
from ..util import short, calls_in, calls_name, analysis_roots, is_fresh
from ..model import AnalysisError
from .match import param, fact
from .terms import isinst_names


def noop(v):
    "Strip calls that return their argument's value (copies, snapping, sorting of evaluation results)."
    while True:
        if v.k == 'phi' and isinstance(v.a[2], V):
            v = v.a[2]
        elif is_call(v, 'constant_folding', 'copy', 'sort') and recv(v) is not None and not v.a[1]:
            v = recv(v)
        elif is_call(v, 'list', 'tuple', 'Product') and len(v.a[1]) == 1:
            v = v.a[1][0]
        else:
            return v


def flat(v):
    if v.k == 'bin' and v.a[0] == '*':
        return flat(v.a[1]) + flat(v.a[2])
    return [v]


def idx(v):
    "An index expression as (base value, offset)."
    if v.k == 'bin' and v.a[0] in ('+', '-') and v.a[2].k == 'const' and isinstance(v.a[2].a[0], int):
        b, o = idx(v.a[1])
        return b, o + (v.a[2].a[0] if v.a[0] == '+' else -v.a[2].a[0])
    if v.k == 'bin' and v.a[0] == '+' and v.a[1].k == 'const' and isinstance(v.a[1].a[0], int):
        b, o = idx(v.a[2])
        return b, o + v.a[1].a[0]
    if v.k == 'const' and isinstance(v.a[0], int) and not isinstance(v.a[0], bool):
        return None, v.a[0]
    return v, 0


def body_part(v, bodies):
    "(lo, hi) of a slice body[lo:hi], or (k,) for body[k]; `bodies` are the acceptable body values."
    v = noop(v)
    if v.k != 'sub' or v.a[0] not in bodies:
        return None
    s = v.a[1]
    if s.k == 'slice':
        lo, hi, st = s.a[:3]
        if not is_const(st, None):
            return None
        return (None, 0) if is_const(lo, None) else idx(lo), None if is_const(hi, None) else idx(hi)
    return (idx(s),)


def loops(e):
    return [c for c in e.ctx if c[0] in ('loop', 'unroll')]


def loop_over(e, test):
    return [c for c in loops(e) if isinstance(c[2], V) and test(c[2])]


def all_rules(v, prog):
    "`v` iterates over every rule of `prog`."
    v = noop(v)
    if is_call(v, 'enumerate', 'iter', 'reversed') and v.a[1]:
        v = noop(v.a[1][0])
    if is_call(v, 'range') and len(v.a[1]) == 1 and is_call(v.a[1][0], 'len'):
        v = noop(v.a[1][0].a[1][0])
    if v.k == 'attr' and v.a[1] == 'rules':
        v = v.a[0]
    return v is prog


def all_positions(v, bodies):
    "`v` iterates over every position of the body."
    v = noop(v)
    if is_call(v, 'enumerate') and len(v.a[1]) == 1:
        return noop(v.a[1][0]) in bodies
    if is_call(v, 'range', 'reversed') and len(v.a[1]) == 1:
        x = v.a[1][0]
        if is_call(x, 'range'):
            return all_positions(x, bodies)
        return is_call(x, 'len') and noop(x.a[1][0]) in bodies
    return False


def filtered(ctx, paths, chain, emitted, rule, construct, what, allowed=lambda p: False):
    "Entering a loop of the chain must lead to the next one, and the innermost one to the emission."
    bad = 0
    for p in paths:
        if p.kind == 'raise':
            continue
        cut = early_exit(p, chain)
        if cut:
            ctx.fail(rule, construct, p.where(), f'{what} (the loop at line {cut} ends early)')
            return
        if allowed(p):
            continue
        entered, skipped = {}, set()
        for e in p.events:
            if e.kind == 'loop':
                for c in e.ctx:
                    if c[0] == 'loop' and len(c) > 3:
                        entered[c[3]] = e
            elif e.kind == 'loop0':
                skipped.add(e.node)
        for i, n in enumerate(chain):
            if n in entered:
                nxt = chain[i + 1] if i + 1 < len(chain) else None
                if nxt is not None:
                    if nxt not in entered and nxt not in skipped:
                        bad += 1
                        ctx.fail(rule, construct, p.where(), what)
                        break
                elif not emitted(p):
                    bad += 1
                    ctx.fail(rule, construct, p.where(), what)
                    break
        if bad:
            break
    if not bad:
        ctx.ob(rule, construct, '')


def early_exit(p, chain):
    "A loop of the chain that is left before its end."
    open_ = {}
    for e in p.events:
        if e.kind == 'loop':
            for c in e.ctx:
                if c[0] == 'loop' and c[1] == e.a[0] and len(c) > 3 and c[3] in chain:
                    open_[e.a[0]] = e.line
        elif e.kind == 'loopend' and e.a[0] in open_:
            if e.a[1]:
                return open_[e.a[0]]
            del open_[e.a[0]]
    if p.kind == 'return' and open_:
        return next(iter(open_.values()))
    return None


def chain_of(e, since=None):
    out = [c[3] for c in e.ctx if c[0] == 'loop' and len(c) > 3 and c[3] is not None]
    return out


class Layout:
    "Recognises the factors of a propagated product."

    def __init__(self, p, e, rule, k, state):
        self.p, self.e, self.rule, self.k, self.state = p, e, rule, k, state
        self.bodies = {Attr(rule, 'body')} | {noop(Attr(rule, 'body'))}


def rules_of(e, prog):
    "The rule being driven: the element of the loop over the program's rules, possibly a renamed copy of it."
    out = []
    for c in e.ctx:
        if c[0] == 'loop' and isinstance(c[2], V) and all_rules(c[2], prog):
            out.append(c)
    return out


def head_rule(v):
    "r for a value r.head."
    return v.a[0] if v.k == 'attr' and v.a[1] == 'head' else None


def elem_of_prog(r, prog, cid):
    "`r` is the rule of iteration `cid` of a loop over `prog` (or a renamed copy of it)."
    r = strip_phi(r)
    while is_call(r, 'fresh') and len(r.a[1]) == 1:
        r = r.a[1][0]
    if r.k == 'enter':
        r = r.a[0]
        if is_call(r) and r.a[1]:
            r = r.a[1][0]
    if r.k in ('sub', 'elem'):
        b = r.a[0]
        if b.k == 'attr' and b.a[1] == 'rules':
            b = b.a[0]
        return b is prog
    return False


def driver_positions(e, bodies, kv):
    "The driver position ranges over the whole body."
    for c in e.ctx:
        if c[0] == 'loop' and isinstance(c[2], V) and all_positions(c[2], bodies):
            if any(w.k == 'idx' and w.a[0] == c[1] for w in walk(kv)):
                return c
    return None


def split_at(ctx, rule_name, construct, where, parts, kbase, states, text):
    """parts: list of (source-state, part, label).  Exactly: everything before k, the change at k, everything after k,
    with the two sides taken from different states."""
    before = [x for x in parts if x[1] is not None and len(x[1]) == 2 and x[1][0] == (None, 0) and x[1][1] == (kbase, 0)]
    after = [x for x in parts if x[1] is not None and len(x[1]) == 2 and x[1][0] == (kbase, 1) and x[1][1] is None]
    ok = len(before) == 1 and len(after) == 1
    ctx.need(ok, rule_name, construct + ' factors', where, f'{text}: the subgoals before and after the changed one are not all multiplied in exactly once')
    if ok:
        a, b = before[0][0], after[0][0]
        ctx.need({a, b} == {'old', 'new'}, rule_name, construct + ' sides', where,
                 f'{text}: the subgoals before the change are looked up in the {a or "?"} chart and those after it in the {b or "?"} one; one side must see the change and the other must not')
        order = [x[2] for x in parts]
        ctx.need(order.index(before[0][2]) < order.index(after[0][2]), rule_name, construct + ' order', where, f'{text}: the factors are not multiplied in body order')
    return ok


# ------------------------------------------------------------------ C13
@check('C13', 'symbolic layout of every propagated product (which chart each factor is looked up in) and loop-chain completeness, over the paths of each propagation procedure',
       'For each procedure that propagates a change, every product it contributes is decomposed into its factors: all subgoals before the changed one, the change, '
       'all subgoals after it, in body order, one side from the chart that includes the change and the other from the chart that does not (established from the order of '
       'the updates on the same path). The loops around it must range over every rule and every body position without filtering. The forward-chaining solvers must have '
       'updated the chart before driving, compute the new value as old plus change, and skip an item only when its value did not move; the consequence operator must apply '
       'every rule, and iteration may stop only at a fixpoint or at the requested bound.',
       ['the semiring operations satisfy the semiring laws (distributivity)', 'linearisation makes the subgoals of a rule non-unifiable with one item (checked where solver 2 asks for it)'])
def c13(ctx):
    m = ctx.m
    program_sites(ctx, m)
    derivation_sites(ctx, m)
    newton_site(ctx, m)
    solver1_site(ctx, m)
    solver2_site(ctx, m)
    solver2_lookup(ctx, m)
    operators(ctx, m)


def program_sites(ctx, m):
    # semi-naive update
    f = m.func('dyna.program', 'Program.seminaive_update')
    me, old, d = param(f, 0), param(f, 1), param(f, 2)

    def state(X):
        X = noop(X)
        if X is old:
            return 'old'
        if X.k == 'bin' and X.a[0] == '+' and {noop(X.a[1]), noop(X.a[2])} == {old, d}:
            return 'new'
        return 'change' if X is d else None
    paths = ctx.paths(f)
    ems = []
    for p in paths:
        for e in p.events:
            if e.kind == 'setitem':
                fs = flat(p.res(e.a[2]))
                if any(w.k == 'sub' and state(w.a[0]) for x in fs for w in [x]):
                    ems.append((p, e, fs))
        if p.kind == 'return':
            v = p.res(p.value)
            ok = v.k == 'tup' and len(v.a[1]) == 2 and state(v.a[1][0]) == 'new'
            q = {p.res(e.a[0]) for q_, e, _ in ems if q_ is p}
            if q:
                ok = ok and noop(v.a[1][1]) in q
            ctx.need(ok, 'propagate', f.ref + ' result', p.where(), f'{short(v)} is returned: not the updated chart and the new change')
    ctx.floor(len(ems), 1, f'products in {f.ref}')
    for p, e, fs in ems:
        r = head_rule(p.res(e.a[1]))
        c = f.ref
        if r is None or not elem_of_prog(r, me, None):
            ctx.fail('propagate', c + ' head', e.where, f'the contribution goes to {short(e.a[1])}, not to the head of the rule')
            continue
        bodies = {Attr(r, 'body')}
        parts, drv = [], []
        for n, x in enumerate(fs):
            bp = body_part(x.a[1], bodies) if x.k == 'sub' else None
            if x.k == 'sub' and state(x.a[0]) in ('old', 'new'):
                parts.append((state(x.a[0]), bp, n))
            elif is_call(x, 'Constant') or x.k == 'sub':
                drv.append((n, x))
            else:
                parts.append((None, None, n))
        if len(drv) != 1 or len(parts) != 2:
            ctx.fail('propagate', c + ' factors', e.where, f'{len(fs)} factors: not (before, change, after)')
            continue
        n, x = drv[0]
        val = carg(x, 0) if is_call(x, 'Constant') else x
        # the change is a result of looking up body[k] in the change
        src = val.a[0] if val.k in ('sub', 'elem') and val.a[0].k == 'sub' else val
        kk = body_part(src.a[1], bodies) if src.k == 'sub' and state(src.a[0]) == 'change' else None
        if kk is None or len(kk) != 1 or kk[0][1] != 0:
            ctx.fail('propagate', c + ' driver', e.where, f'the changed factor is {short(val)}')
            continue
        kb = kk[0][0]
        ctx.need(driver_positions(e, bodies, kb) is not None, 'propagate', c + ' positions', e.where, 'the changed subgoal does not range over every position of the body')
        ctx.need(bool([1 for lc in loops(e) if isinstance(lc[2], V) and all_rules(lc[2], me)]), 'propagate', c + ' rules', e.where, 'not every rule is driven')
        split_at(ctx, 'propagate', c, e.where, parts, kb, None, 'semi-naive update')
        ctx.need(parts[0][2] < n < parts[1][2], 'propagate', c + ' order', e.where, 'the factors are not multiplied in body order')
        carried(ctx, x, bodies, kb, c, e)
    if ems:
        chain = chain_of(ems[0][1])
        filtered(ctx, paths, chain, lambda p: any(e.kind == 'setitem' for e in p.events), 'propagate', f.ref + ' filter', 'some rule, position or change is skipped',
                 lambda p: skipped_const(p))
    # agenda
    f = m.func('dyna.program', 'Program.agenda')
    me = param(f, 0)
    paths = ctx.paths(f)
    agenda_site(ctx, f, me, paths, lambda p, e: e.kind == 'setitem', prog_product)


def skipped_const(p):
    "The skipped subgoal was a constant or a builtin: these never change."
    return any(b is True and is_call(a, 'is_const', 'is_builtin') for a, b in p.facts.items())


def carried(ctx, x, bodies, kb, c, e):
    "A constant that replaces subgoal k still declares the variables of subgoal k."
    if not is_call(x, 'Constant'):
        return
    vs = carg(x, 1, 'vs')
    ok = vs is not None and any(body_part(w, bodies) == ((kb, 0),) for w in walk(vs))
    ctx.need(ok, 'propagate', c + ' variables', e.where, 'the variables of the changed subgoal are forgotten, so an infinite multiplicity is lost')


def prog_product(p, e):
    return p.res(e.a[1]), [('f', x) for x in flat(p.res(e.a[2]))]


def agenda_site(ctx, f, me, paths, is_em, parts_of):
    n = 0
    chain = None
    for p in paths:
        for pos, e in enumerate(p.events):
            if not is_em(p, e):
                continue
            got = parts_of(p, e)
            if got is None:
                continue
            head, fs = got
            n += 1
            c = f.ref
            r = head_rule(head)
            if r is None or not elem_of_prog(r, me, None):
                ctx.fail('propagate', c + ' head', e.where, f'the contribution goes to {short(head)}, not to the head of the rule')
                continue
            chain = chain_of(e)
            bodies = {Attr(r, 'body')}
            # the changed item: unify(item, body[k])
            us = [lc for lc in loops(e) if isinstance(lc[2], V) and is_call(lc[2], 'unify', 'unifies')]
            kb = None
            for lc in us:
                for i in (0, 1):
                    bp = body_part(lc[2].a[1][i], bodies)
                    if bp is not None and len(bp) == 1 and bp[0][1] == 0:
                        kb, item = bp[0][0], lc[2].a[1][1 - i]
            if kb is None:
                ctx.fail('propagate', c + ' driver', e.where, 'the changed item is not unified with a subgoal of the rule')
                continue
            ctx.need(driver_positions(e, bodies, kb) is not None, 'propagate', c + ' positions', e.where, 'the changed item is not tried against every position of the body')
            ctx.need(bool([1 for lc in loops(e) if isinstance(lc[2], V) and all_rules(lc[2], me)]), 'propagate', c + ' rules', e.where, 'not every rule is driven')
            # which chart has the change
            upd = {}
            for q, w in enumerate(p.events):
                if w.kind == 'mutate' and w.a[1] == 'update' and len(w.a) > 2 and same_item(p.res(w.a[2]), item):
                    upd.setdefault(p.res(w.a[0]), []).append('before' if q < pos else 'after')
            st = {}
            for X, when in upd.items():
                st[X] = 'new' if when == ['before'] else 'old' if when == ['after'] else None
            ok = sorted(str(x) for x in st.values()) == ['new', 'old']
            ctx.need(ok, 'propagate', c + ' charts', e.where, f'around the propagation the charts are updated {[sorted(x) for x in upd.values()]}: one must include the change before it and the other only after it')
            parts, drv = [], []
            for k, (lab, x) in enumerate(fs):
                X = None
                if x.k == 'sub':
                    X, part = x.a[0], body_part(x.a[1], bodies)
                elif is_call(x, 'join') and recv(x) is not None and x.a[1] and x.a[1][0].k == 'star':
                    X, part = recv(x), body_part(x.a[1][0].a[0], bodies)
                if X is not None and X in st:
                    parts.append((st[X], part, k))
                else:
                    drv.append((k, x))
            if len(drv) != 1 or len(parts) != 2:
                ctx.fail('propagate', c + ' factors', e.where, f'{len(fs)} factors: not (before, change, after)')
                continue
            k, x = drv[0]
            val = carg(x, 0) if is_call(x, 'Constant') else x
            ctx.need(change_value(val, item), 'propagate', c + ' change', e.where, f'the changed factor is {short(val)}, not the change that was popped')
            split_at(ctx, 'propagate', c, e.where, parts, kb, None, 'agenda')
            ctx.need(parts[0][2] < k < parts[1][2], 'propagate', c + ' order', e.where, 'the factors are not multiplied in body order')
            carried(ctx, x, bodies, kb, c, e)
    ctx.floor(n, 1, f'products in {f.ref}')
    if chain:
        outer = chain[0]
        filtered(ctx, paths, chain[1:], lambda p: any(is_em(p, e) and parts_of(p, e) is not None for e in p.events), 'propagate', f.ref + ' filter', 'some rule, position or match is skipped', skipped_const)
        # a popped change may be dropped only when the value did not move
        for p in paths:
            ent = {c[3] for e in p.events if e.kind == 'loop' for c in e.ctx if c[0] == 'loop' and len(c) > 3} | {e.node for e in p.events if e.kind == 'loop0'}
            if outer in ent and chain[1] not in ent and p.kind != 'raise' and any(e.kind == 'mutate' and e.a[1] == 'pop' for e in p.events):
                ok = any(negligible(a, b) for a, b in p.facts.items())
                ctx.need(ok, 'propagate', f.ref + ' dropped', p.where(), 'a change is popped and not propagated although the value may have moved')


def negligible(a, b):
    "The fact says that the distance between the old and the new value is small, or that they are equal."
    if is_call(a, 'approx_equal'):
        return b is True
    if a.k != 'cmp':
        return False
    if a.a[0] == '==':
        return b is True
    lo, hi = a.a[1], a.a[2]
    if calls_in(lo, 'metric') and not calls_in(hi, 'metric'):
        return a.a[0] in ('<', '<=') and b is True
    if calls_in(hi, 'metric') and not calls_in(lo, 'metric'):
        return a.a[0] in ('<', '<=') and b is False
    return False


def same_item(v, item):
    if v is item:
        return True
    return v.k == 'attr' and item.k == 'attr' and v.a[0] is item.a[0]


def change_value(val, item):
    "u.body (or the second component of the popped pair) for the popped change `u` whose item is u.head (the first)."
    val = noop(val)
    if item.k == 'attr' and item.a[1] == 'head':
        return val.k == 'attr' and val.a[1] == 'body' and val.a[0] is item.a[0]
    if item.k == 'sub' and item.a[1].k == 'const' and item.a[1].a[0] == 0:
        return val.k == 'sub' and val.a[0] is item.a[0] and is_const(val.a[1], 1)
    return False


def rule_index(ctx, f, e, h, w):
    "The derivation records the index of the rule that its head comes from."
    i = dict(w.a[2]).get('I') or (w.a[1][2] if len(w.a[1]) > 2 else None)
    r = head_rule(h)
    r = strip_phi(r) if r is not None else None
    while r is not None and is_call(r, 'fresh') and r.a[1]:
        r = strip_phi(r.a[1][0])
    ok = i is not None and r is not None and r.k in ('sub', 'elem') and (r.a[1] is i or (r.k == 'elem' and i.k == 'idx'))
    ctx.need(ok, 'derivation', f.ref + ' rule index', e.where, 'the derivation does not record the index of the rule it applies')


# -- derivations
def deriv_factors(p, v):
    "The factors of fresh(Rule(h, Derivation(Rule(h, ...)))) or of the Derivation itself."
    for w in walk(v):
        if is_call(w, 'Derivation') and w.a[1] and is_call(w.a[1][0], 'Rule'):
            xs = w.a[1][0].a[1]
            fs = []
            for x in xs[1:]:
                y = x.a[0] if x.k == 'star' else x
                y = noop(y)
                # an element of a stream: the stream is what matters
                fs.append(('s', y.a[0] if y.k in ('sub', 'elem') and y.a[0].k in ('call', 'sub') and (y.k == 'elem' or y.a[1].k in ('idx', 'elem', 'key')) else y))
            return xs[0], fs, w
    return None


def derivation_sites(ctx, m):
    f = m.func('dyna.derivations', 'agenda')
    me = param(f, 0)

    def is_em(p, e):
        return e.kind == 'mutate' and e.a[1] in ('append', 'add', 'insert', 'appendleft') and len(e.a) > 2 and deriv_factors(p, p.res(e.a[-1])) is not None

    def parts(p, e):
        h, fs, w = deriv_factors(p, p.res(e.a[-1]))
        out = []
        for lab, x in fs:
            out.append(('f', x))
        rule_index(ctx, f, e, h, w)
        return h, out
    agenda_site(ctx, f, me, ctx.paths(f), is_em, parts)
    # semi-naive
    f = m.func('dyna.derivations', 'seminaive_update')
    me, old, d = param(f, 0), param(f, 1), param(f, 2)
    paths = ctx.paths(f)

    def state(X):
        X = noop(X)
        if X is old:
            return 'old'
        if X.k == 'bin' and X.a[0] == '+' and {noop(X.a[1]), noop(X.a[2])} == {old, d}:
            return 'new'
        return 'change' if X is d else None
    n = 0
    chain = None
    em = lambda p, e: e.kind == 'mutate' and e.a[1] in ('append', 'add') and len(e.a) > 2 and deriv_factors(p, p.res(e.a[-1])) is not None
    for p in paths:
        for e in p.events:
            if not em(p, e):
                continue
            n += 1
            c = f.ref
            h, fs, w = deriv_factors(p, p.res(e.a[-1]))
            r = head_rule(h)
            if r is None or not elem_of_prog(r, me, None):
                ctx.fail('propagate', c + ' head', e.where, f'the derivation is of {short(h)}')
                continue
            rule_index(ctx, f, e, h, w)
            chain = chain_of(e)
            bodies = {Attr(r, 'body')}
            parts, kb, drv = [], None, None
            for k, (lab, x) in enumerate(fs):
                if is_call(x, 'join') and recv(x) is not None and x.a[1] and x.a[1][0].k == 'star':
                    parts.append((state(recv(x)), body_part(x.a[1][0].a[0], bodies), k))
                elif x.k == 'sub' and state(x.a[0]) == 'change':
                    bp = body_part(x.a[1], bodies)
                    if bp is not None and len(bp) == 1 and bp[0][1] == 0:
                        kb, drv = bp[0][0], k
            if kb is None or len(parts) != 2 or len(fs) != 3:
                ctx.fail('propagate', c + ' factors', e.where, 'not (before, change, after)')
                continue
            ctx.need(driver_positions(e, bodies, kb) is not None, 'propagate', c + ' positions', e.where, 'the changed subgoal does not range over every position of the body')
            ctx.need(bool([1 for lc in loops(e) if isinstance(lc[2], V) and all_rules(lc[2], me)]), 'propagate', c + ' rules', e.where, 'not every rule is driven')
            split_at(ctx, 'propagate', c, e.where, parts, kb, None, 'semi-naive derivations')
            ctx.need(parts[0][2] < drv < parts[1][2], 'propagate', c + ' order', e.where, 'the parts of the derivation are not in body order')
    ctx.floor(n, 1, f'derivations in {f.ref}')
    if chain:
        filtered(ctx, paths, chain, lambda p: any(em(p, e) for e in p.events), 'propagate', f.ref + ' filter', 'some rule, position or change is skipped', skipped_const)
    # naive
    f = m.func('dyna.derivations', 'step_derivations')
    me, ch = param(f, 0), param(f, 1)
    paths = ctx.paths(f)
    n = 0
    chain = None
    for p in paths:
        for e in p.events:
            if not em(p, e):
                continue
            h, fs, w = deriv_factors(p, p.res(e.a[-1]))
            r = head_rule(h)
            n += 1
            rule_index(ctx, f, e, h, w)
            ok = r is not None and elem_of_prog(r, me, None)
            js = [lc for lc in loops(e) if isinstance(lc[2], V) and is_call(lc[2], 'join') and recv(lc[2]) is ch]
            ok = ok and any(lc[2].a[1] and lc[2].a[1][0].k == 'star' and noop(lc[2].a[1][0].a[0]) is Attr(r, 'body') for lc in js)
            ctx.need(ok, 'propagate', f.ref, e.where, 'a derivation is not built from all subgoals of its rule')
            chain = chain_of(e)
    ctx.floor(n, 1, f'derivations in {f.ref}')
    if chain:
        filtered(ctx, paths, chain[:2], lambda p: any(em(p, e) for e in p.events), 'propagate', f.ref + ' filter', 'some rule or combination is skipped')


# -- newton
def newton_site(ctx, m):
    f = m.func('dyna.program', 'Program._newton')
    me = param(f, 0)
    n = {2: 0, 1: 0}
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind != 'setitem':
                continue
            fs = flat(p.res(e.a[2]))
            if len(fs) < 3:
                continue
            r = head_rule(p.res(e.a[1]))
            c = f.ref
            if r is None or not elem_of_prog(r, me, None):
                ctx.fail('newton', c + ' head', e.where, f'the contribution goes to {short(e.a[1])}')
                continue
            bodies = {Attr(r, 'body')}
            srcs, parts = [], []
            for x in fs:
                if x.k == 'sub':
                    srcs.append(strip_folding(x.a[0]))
                    parts.append(body_part(x.a[1], bodies))
                elif is_call(x, 'Constant'):
                    srcs.append('symbolic')
                    bp = body_part(carg(x, 0), bodies)
                    parts.append(bp)
                    vs = carg(x, 1, 'vs')
                    ctx.need(vs is None or any(body_part(w, bodies) == bp for w in walk(vs)), 'newton', c + ' variables', e.where, 'the variables of the symbolic subgoal are forgotten')
                else:
                    srcs.append(None)
                    parts.append(None)
            sums = {s for s in srcs if isinstance(s, V) and s.k == 'bin' and s.a[0] == '+'}
            if len(fs) == 3:
                n[1] += 1
                kb = parts[1][0][0] if parts[1] and len(parts[1]) == 1 else None
                ok = srcs[1] == 'symbolic' and kb is not None and parts == [((None, 0), (kb, 0)), ((kb, 0),), ((kb, 1), None)] and len(sums) == 1 and srcs[0] is srcs[2] is next(iter(sums))
                ctx.need(ok, 'newton', c + ' linear part', e.where, 'the linear part is not (new chart) * subgoal k * (new chart)')
                if kb is not None:
                    ctx.need(driver_positions(e, bodies, kb) is not None, 'newton', c + ' linear positions', e.where, 'the linear part does not range over every position')
            elif len(fs) == 5:
                n[2] += 1
                ks = [q[0][0] if q and len(q) == 1 and q[0][1] == 0 else None for q in (parts[1], parts[3])]
                i, j = ks
                lay = None not in ks and parts == [((None, 0), (i, 0)), ((i, 0),), ((i, 1), (j, 0)), ((j, 0),), ((j, 1), None)]
                ctx.need(lay, 'newton', c + ' quadratic layout', e.where, 'the quadratic part is not before * i * between * j * after')
                ch = {s for s in srcs if isinstance(s, V)} - sums
                ok = lay and len(sums) == 1 and srcs[1] is srcs[3]
                if ok:
                    s = next(iter(sums))
                    sides = {strip_folding(s.a[1]), strip_folding(s.a[2])}
                    delta = srcs[1]
                    ok = delta in sides and len(sides) == 2
                    old = next(iter(sides - {delta})) if ok else None
                    seq = ['new' if x is s else 'old' if x is old else '?' for x in (srcs[0], srcs[2], srcs[4])]
                    ok = ok and seq in (['new', 'old', 'old'], ['old', 'old', 'new'], ['old', 'new', 'old'])
                ctx.need(ok, 'newton', c + ' quadratic charts', e.where, 'with two changed subgoals, the charts around them count some combination twice or never')
                if lay:
                    ctx.need(all_pairs(p, e, i, j, bodies), 'newton', c + ' quadratic pairs', e.where, 'the pairs of positions are not each taken once, in order')
            else:
                ctx.fail('newton', c, e.where, f'{len(fs)} factors')
    ctx.floor(n[1], 1, 'linear parts')
    ctx.floor(n[2], 1, 'quadratic parts')


def strip_folding(v):
    while is_call(v, 'constant_folding', 'copy') and recv(v) is not None and not v.a[1]:
        v = recv(v)
    return v


def full_range(v, i, bodies):
    "`i` runs over every position of the body."
    return i.k in ('idx', 'elem') and all_positions(v, bodies)


def later_range(v, j, i, bodies):
    "`v` is range(i+1, len(body))."
    return is_call(v, 'range') and len(v.a[1]) == 2 and idx(v.a[1][0]) == (i, 1) and is_call(v.a[1][1], 'len') and noop(v.a[1][1].a[1][0]) in bodies


def all_pairs(p, e, i, j, bodies):
    "Every pair of positions i < j is visited once."
    over = {}
    for lc in loops(e):
        if isinstance(lc[2], V):
            for n, w in (('i', i), ('j', j)):
                if any(x.k in ('idx', 'elem') and x.a[0] == lc[1] for x in walk(w)) or contains(w, lc[2]):
                    over[n] = lc[2]
    if 'i' not in over or 'j' not in over:
        return False
    if over['i'] is over['j'] and ordered_pairs(over['i'], bodies):
        return i.k in ('sub', 'elem') and is_const(i.a[1], 0) and is_const(j.a[1], 1)
    if all_positions(over['i'], bodies) and later_range(over['j'], j, i, bodies):
        return True
    lt = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '<' and a.a[1] is i and a.a[2] is j) is True
    return all_positions(over['i'], bodies) and all_positions(over['j'], bodies) and lt


def ordered_pairs(v, bodies):
    return is_call(v, 'combinations') and len(v.a[1]) == 2 and is_const(v.a[1][1], 2) and is_call(v.a[1][0], 'range') and len(v.a[1][0].a[1]) == 1 and \
        is_call(v.a[1][0].a[1][0], 'len') and noop(v.a[1][0].a[1][0].a[1][0]) in bodies


# -- solvers
def popped(p):
    "(change value, item, position) of the popped change."
    for n, e in enumerate(p.events):
        if e.kind == 'call' and is_call(e.a[0], 'pop') and recv(e.a[0]) is not None and recv(e.a[0]).k == 'attr' and recv(e.a[0]).a[1] == 'change':
            return p.res(e.a[0]), n
    return None, None


def chart_update(p):
    for n, e in enumerate(p.events):
        if e.kind == 'setitem' and e.a[0].k in ('attr', 'param') and (e.a[0].k == 'param' or e.a[0].a[1] == 'chart'):
            return n, e
    return None, None


def solver_common(ctx, f, paths):
    "Value arithmetic of a pop: new = old + change; the chart is updated before the rules are driven; skipped only when unchanged."
    me = param(f, 0)
    k = 0
    for p in paths:
        d, n = popped(p)
        if d is None:
            continue
        k += 1
        cn, ce = chart_update(p)
        ups = [q for q, e in enumerate(p.events) if e.kind == 'call' and is_call(e.a[0], 'update') and recv(e.a[0]) is me]
        if ce is None:
            ok = any(b is True and is_call(a, 'approx_equal') for a, b in p.facts.items()) or p.kind == 'raise'
            ctx.need(ok, 'drive', f.ref + ' dropped', p.where(), 'a change is popped and neither stored nor found negligible')
            ctx.need(not ups, 'drive', f.ref + ' dropped', p.where(), 'a change is propagated but not stored in the chart')
            continue
        new = p.res(ce.a[2])
        item = p.res(ce.a[1])
        old = None
        if new.k == 'bin' and new.a[0] == '+' and d in (new.a[1], new.a[2]):
            old = new.a[1] if new.a[2] is d else new.a[2]
        ok = old is not None and is_call(old, 'get') and len(old.a[1]) == 2 and old.a[1][0] is item and old.a[1][1].k == 'attr' and old.a[1][1].a[1] == 'zero'
        ctx.need(ok, 'drive', f.ref + ' value', ce.where, f'the chart entry becomes {short(new)}, not its previous value plus the change')
        ae = [a for a, b in p.facts.items() if is_call(a, 'approx_equal')]
        for a in ae:
            ctx.need(old is not None and {x for x in a.a[1]} == {new, old}, 'drive', f.ref + ' negligible', ce.where, f'{short(a)} does not compare the old value with the new one')
        dr = [q for q, e in enumerate(p.events) if e.kind in ('loop', 'loop0') and q > n and isinstance(e.a[1], V)]
        ctx.need(not dr or cn < min(dr), 'drive', f.ref + ' order', ce.where, 'rules are driven before the chart holds the new value')
        # the item is the interned item of the popped key
        keys = [w for w in walk(d) if is_call(w, 'popitem')]
        ctx.need(bool(keys) and any(contains(item, w) for w in keys), 'drive', f.ref + ' item', ce.where, f'the value of {short(item)} is changed, not that of the popped item')
    ctx.floor(k, 2, f'pops in {f.ref}')


def solver1_site(ctx, m):
    f = m.func('dyna.execute.solver', 'Solver._forward_chaining')
    me = param(f, 0)
    paths = ctx.paths(f, inline=('drive_rules',))
    solver_common(ctx, f, paths)
    n = 0
    seen = set()
    chain = None
    for p in paths:
        d, _ = popped(p)
        if d is None:
            continue
        cn, ce = chart_update(p)
        item = p.res(ce.a[1]) if ce is not None else None
        for pos, e in enumerate(p.events):
            if e.kind == 'call' and is_call(e.a[0], 'update') and recv(e.a[0]) is me and ce is not None:
                n += 1
                u = p.res(e.a[0])
                r = head_rule(u.a[1][0])
                if r is None:
                    ctx.fail('drive', f.ref + ' head', e.where, f'the contribution goes to {short(u.a[1][0])}')
                    continue
                bodies = {Attr(r, 'body')}
                us = [lc for lc in loops(e) if isinstance(lc[2], V) and is_call(lc[2], 'unify')]
                kb = None
                for lc in us:
                    for i in (0, 1):
                        bp = body_part(p.res(lc[2].a[1][i]), bodies)
                        if bp is not None and len(bp) == 1 and p.res(lc[2].a[1][1 - i]) is item:
                            kb = bp[0][0]
                if kb is None:
                    ctx.fail('drive', f.ref + ' driver', e.where, 'the changed item is not unified with a subgoal of the rule')
                    continue
                chain = chain_of(e)
                # (rule, position) come from the same index entry
                ent = [w for w in walk(kb) if w.k == 'sub' and w.a[0].k == 'attr' and w.a[0].a[1] == 'ix_drivers']
                for w in ent:
                    ok = w.a[1].k == 'tup' and [fname(x) for x in w.a[1].a[1]] == ['fn', 'arity'] and all(x.k == 'attr' and x.a[0] is item for x in w.a[1].a[1]) or fname(w.a[1]) == 'signature'
                    ctx.need(ok, 'drive', f.ref + ' index', e.where, f'the driver index is asked for {short(w.a[1])}')
                    ctx.need(contains(r, kb.a[0]) if kb.k == 'sub' else True, 'drive', f.ref + ' index', e.where, 'rule and position do not belong together')
                joins = [p.res(lc[2]) for lc in loops(e) if isinstance(lc[2], V) and is_call(lc[2], 'join')]
                ok = len(joins) == 1 and joins[0].a[1] and noop(joins[0].a[1][0]) in bodies
                ctx.need(ok, 'drive', f.ref + ' join', e.where, 'the other subgoals of the rule are not looked up')
        # the product
        for e in p.events:
            if e.kind == 'aug' and e.a[0] == '*' and ce is not None and loops(e):
                lp = loops(e)[-1]
                v = p.res(e.a[2])
                F = e.facts
                old = p.res(ce.a[2])
                old = old.a[1] if old.k == 'bin' and old.a[2] is d else old.a[2] if old.k == 'bin' else None
                rel = posfacts(p, F, lp[1], item)
                kind = 'change' if v is d else 'old' if v is old else 'joined' if v.k == 'sub' and any(is_call(w, 'join') for w in walk(v)) else '?'
                seen.add((kind, rel))
                if kind == 'joined':
                    ok = v.a[1].k == 'idx' and v.a[1].a[0] == lp[1]
                    ctx.need(ok, 'drive', f.ref + ' factor', e.where, f'the factor of another subgoal is {short(v.a[1])}, not its own')
                ctx.need(kind != '?', 'drive', f.ref + ' factor', e.where, f'{short(v)} is multiplied in')
    ctx.floor(n, 1, f'contributions of {f.ref}')
    if any(k == 'old' for k, _ in seen) or seen:
        # position relation: ('<' | '=' | '>' | None, same item True/False/None)
        ch = {rel for k, rel in seen if k == 'change'}
        ctx.need(ch == {('=', None)} or all(r[0] == '=' for r in ch) and bool(ch), 'drive', f.ref + ' change factor', f.where, f'the change is used at positions {sorted(map(str, ch))}, not exactly at the driver position')
        od = {rel for k, rel in seen if k == 'old'}
        side = {r[0] for r in od}
        ok = side in ({'<'}, {'>'}) and all(r[1] is True for r in od)
        ctx.need(ok, 'drive', f.ref + ' old factor', f.where, 'other occurrences of the changed item do not use the old value on exactly one side of the driver: combinations are counted twice or never')
        jn = {rel for k, rel in seen if k == 'joined'}
        if ok:
            s = next(iter(side))
            bad = [r for r in jn if r[0] == '=' or r[0] == 'any' or (r[0] in (s, 'ne') and r[1] is not False)]
            ctx.need(not bad, 'drive', f.ref + ' joined factor', f.where, 'the new value is used at the driver or on both sides of it')
    if chain:
        filtered(ctx, paths, chain[1:], lambda p: any(e.kind == 'call' and is_call(e.a[0], 'update') and recv(e.a[0]) is me for e in p.events), 'drive', f.ref + ' filter', 'some match of the changed item is skipped')
    # the driver index holds every subgoal that can change
    f = m.func('dyna.execute.solver', 'Solver.__init__')
    n = 0
    chain = None
    paths = ctx.paths(f)
    for p in paths:
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] == 'append' and any(w.k == 'attr' and w.a[1] == 'ix_drivers' or is_call(w, 'defaultdict') for w in walk(e.a[0])):
                n += 1
                chain = chain_of(e)
                v = p.res(e.a[2])
                ls = loops(e)
                ok = v.k == 'tup' and len(v.a[1]) == 2 and [x.k for x in v.a[1]] == ['idx', 'idx'] and len(ls) >= 2 and v.a[1][0].a[0] == ls[-2][1] and v.a[1][1].a[0] == ls[-1][1]
                ctx.need(ok, 'driver-index', f.ref, e.where, f'{short(v)} is recorded, not (rule, position)')
                key = p.res(e.a[0])
                key = key.a[1] if key.k == 'sub' else None
                okk = key is not None and (key.k == 'tup' and [fname(x) for x in key.a[1]] == ['fn', 'arity'] or fname(key) == 'signature')
                ctx.need(okk, 'driver-index', f.ref + ' key', e.where, f'recorded under {short(key) if key is not None else "?"}')
    ctx.floor(n, 1, 'driver index entries')
    if chain:
        filtered(ctx, paths, chain, lambda p: any(e.kind == 'mutate' and e.a[1] == 'append' for e in p.events), 'driver-index', f.ref + ' filter', 'a subgoal that can change is not in the driver index', skipped_const)


def posfacts(p, F, lid, item):
    "(relation of the current position to the driver position, current subgoal equals the changed item?)"
    lt = eq = same = gt = None
    for a, b in F.items():
        if a.k != 'cmp':
            continue
        x, y = a.a[1], a.a[2]
        xi, yi = (w.k == 'idx' and w.a[0] == lid for w in (x, y))
        if a.a[0] == '==' and (xi or yi):
            eq = b
        elif a.a[0] == '<' and xi:
            lt = b
        elif a.a[0] == '<' and yi:
            gt = b
        elif a.a[0] == '<=' and xi:     # j <= i
            gt = not b
        elif a.a[0] == '<=' and yi:
            lt = not b
        elif a.a[0] == '==' and item is not None and item in (p.res(x), p.res(y)):
            same = b
    if eq:
        return '=', None
    if lt:
        return '<', same
    if gt:
        return '>', same
    if lt is False and eq is False:
        return '>', same
    if gt is False and eq is False:
        return '<', same
    if eq is False:
        return 'ne', same
    return 'any', same


def solver2_site(ctx, m):
    f = m.func('dyna.execute.solver2', 'Solver.__init__')
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        sup = [p.res(e.a[0]) for e in p.events if e.kind == 'call' and is_call(e.a[0], '__init__')]
        n += 1
        ok = any(any(is_call(w, 'linearize') for x in c.a[1] for w in walk(x)) for c in sup)
        ctx.need(ok, 'drive', f.ref, p.where(), 'the program is not linearised, so an item that matches two subgoals of a rule is counted twice')
    ctx.floor(n, 1, 'constructions of solver 2')
    f = m.func('dyna.execute.solver2', 'Solver._forward_chaining')
    me = param(f, 0)
    paths = ctx.paths(f, inline=('drive_rules', 'drive_rule'))
    solver_common(ctx, f, paths)
    n = 0
    chain = None
    for p in paths:
        d, _ = popped(p)
        cn, ce = chart_update(p)
        if d is None or ce is None:
            continue
        item = p.res(ce.a[1])
        for pos, e in enumerate(p.events):
            if not (e.kind == 'call' and is_call(e.a[0], 'update') and recv(e.a[0]) is me):
                continue
            n += 1
            c = f.ref
            u = p.res(e.a[0])
            r = head_rule(u.a[1][0])
            if r is None or not elem_of_prog(r, Attr(me, 'program'), None):
                ctx.fail('drive', c + ' head', e.where, f'the contribution goes to {short(u.a[1][0])}')
                continue
            bodies = {Attr(r, 'body')}
            chain = chain_of(e)
            kb = None
            for lc in loops(e):
                if isinstance(lc[2], V) and is_call(lc[2], 'unify'):
                    for i in (0, 1):
                        x = p.res(lc[2].a[1][i])
                        if x.k == 'sub' and x.a[0] in bodies:
                            kb = x.a[1]
                            it = p.res(lc[2].a[1][1 - i])
                            ctx.need(is_call(it, 'fresh') and it.a[1][0] is item or it is item, 'drive', c + ' driver', e.where, f'{short(it)} is driven, not the changed item')
            ctx.need(kb is not None and driver_positions(e, bodies, kb) is not None, 'drive', c + ' positions', e.where, 'the changed item is not tried against every subgoal')
            if kb is not None:
                before_after(ctx, c, p, e, me, bodies, kb, d, ce, item)
    ctx.floor(n, 1, f'contributions of {f.ref}')
    if chain:
        filtered(ctx, paths, chain[1:], lambda p: any(e.kind == 'call' and is_call(e.a[0], 'update') and recv(e.a[0]) is me for e in p.events), 'drive', f.ref + ' filter', 'some rule or subgoal is skipped', skipped_const)


def before_after(ctx, c, p, e, me, bodies, kb, d, ce, item):
    """The other subgoals are looked up in two joins, before and after the driver; the change is multiplied in between;
    one of the joins (and only one) is told the value of the changed item before the update."""
    old = old_of(p, ce, d)
    joins = [p.res(lc[2]) for lc in loops(e) if isinstance(lc[2], V) and is_call(lc[2], 'join') and recv(lc[2]) is me]
    parts = {}
    for j in joins:
        bp = body_part(j.a[1][0], bodies) if j.a[1] else None
        parts.setdefault('L' if bp == ((None, 0), (kb, 0)) else 'R' if bp == ((kb, 1), None) else '?', []).append(j)
    ok = sorted(parts) == ['L', 'R'] and len(joins) == 2
    if not ok:
        one = len(joins) == 1
        ctx.fail('drive', c + ' join', e.where, 'all other subgoals see the updated chart: an item with variables that matches several subgoals of the rule is counted more than once' if one
                 else 'the subgoals before and after the driver are not each looked up exactly once')
        return
    L, R = parts['L'][0], parts['R'][0]
    was = {k: [v for _, v in j.a[2]] + list(j.a[1][2:]) for k, j in (('L', L), ('R', R))}
    told = [k for k, vs in was.items() if vs]
    ok = len(told) == 1
    if ok:
        ws = was[told[0]]
        ws = [x for w in ws for x in (w.a[1] if w.k == 'tup' else (w,))]
        ok = old in ws and any(is_call(x, 'canonicalize') and contains(x, item) or x is item for x in ws)
    ctx.need(ok, 'drive', c + ' sides', e.where, 'not exactly one side of the driver is looked up with the value before the update')
    # the product: L's value, then the change, then R's
    first, second = (L, R) if joins.index(L) < joins.index(R) else (R, L)
    v = strip_phi(p.res(p.res(e.a[0]).a[1][1]))
    fs = [x for x in flat(v)]
    start = [x for x in flat(second.a[1][1])] if len(second.a[1]) > 1 else []
    from_ = lambda x, j: x.k in ('sub', 'elem') and x.a[0] is j
    seq = []
    for x in fs:
        if from_(x, second):
            seq += [('1' if y is d else 'F' if from_(y, first) else '?' if not unit(y) else '') for y in start] + ['S']
        else:
            seq.append('1' if x is d else 'F' if from_(x, first) else 'm' if calls_in(x, 'multiple') else '?' if not unit(x) else '')
    seq = ''.join(seq).replace('m', '')
    want = 'F1S' if first is L else 'S1F'
    ctx.need(seq == want, 'drive', c + ' product', e.where, 'the contribution is not (before) * change * (after)')
    if len(first.a[1]) > 1:
        ctx.need(unit(first.a[1][1]), 'drive', c + ' product', e.where, 'the product does not start from one')


def unit(v):
    return v.k == 'attr' and v.a[1] == 'one'


def old_of(p, ce, d):
    v = p.res(ce.a[2])
    return (v.a[1] if v.a[2] is d else v.a[2]) if v.k == 'bin' else None


def solver2_lookup(ctx, m):
    "A lookup that is told an item's previous value answers with it; everything else comes from the chart."
    f = m.func('dyna.execute.solver2', 'Solver.lookup_vals')
    me, q = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind != 'yield':
                continue
            ls = [c for c in loops(e) if isinstance(c[2], V) and is_call(c[2], 'items') and recv(c[2]).k == 'attr' and recv(c[2]).a[1] == 'chart']
            if not ls:
                continue
            n += 1
            v = strip_phi(p.res(e.a[0]))
            same = None
            for a, b in p.facts.items():
                if a.k == 'cmp' and a.a[0] == '==' and any(is_entry(x, ls[-1], 0) for x in a.a[1:]) and any(param_part(x, f) for x in a.a[1:]):
                    same = b
            if same:
                ctx.need(param_part(v, f) and not is_entry(v, ls[-1], 1), 'drive', f.ref + ' override', e.where, f'the changed item answers with {short(v)}, not with its value before the update')
            else:
                ctx.need(is_entry(v, ls[-1], 1), 'drive', f.ref + ' chart', e.where, f'an item answers with {short(v)}')
    ctx.floor(n, 1, 'chart answers of solver 2')
    # join hands the override to every subgoal
    f = m.func('dyna.execute.base', 'BaseSolver.join')
    me, xs, val = param(f, 0), param(f, 1), param(f, 2)
    n = 0
    star = f.node.args.kwarg
    extra = [a.arg for a in f.node.args.args[3:] + f.node.args.kwonlyargs] + ([star.arg] if star else [])
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind not in ('yield', 'yieldfrom'):
                continue
            n += 1
            v = p.res(e.a[0])
            if e.kind == 'yield' and v.k in ('sub', 'elem') and is_call(v.a[0], 'join'):
                v = v.a[0]
            elif e.kind == 'yield':
                ctx.need(v is val and empty_seq(p, xs), 'join', f.ref + ' end', e.where, 'the value of a partly evaluated product is answered')
                continue
            lk = [p.res(c[2]) for c in loops(e) if isinstance(c[2], V) and is_call(c[2], 'lookup_vals')]
            ok = len(lk) == 1 and is_call(v, 'join') and recv(v) is me and lk[0].a[1][0] == Sub(xs, Const(0)) and v.a[1][0].k == 'sub' and v.a[1][0].a[0] is xs and \
                body_part(v.a[1][0], {xs}) == ((None, 1), None)
            ctx.need(ok, 'join', f.ref + ' recursion', e.where, 'the product does not look up its first subgoal and then the rest')
            if ok:
                fs = flat(v.a[1][1])
                ctx.need(len(fs) == 2 and fs[0] is val and fs[1].k in ('sub', 'elem') and fs[1].a[0] is lk[0], 'join', f.ref + ' value', e.where, f'{short(v.a[1][1])} is not (value so far) * (value of this subgoal)')
                for x in extra:
                    for call, k in ((lk[0], 1), (v, 2)):
                        ctx.need(any(x in str(y) for y in list(call.a[1][k:]) + [kv for _, kv in call.a[2]]), 'join', f.ref + ' ' + x, e.where,
                                 f'{x} is not handed on')
    ctx.floor(n, 2, 'answers of the join')


def empty_seq(p, xs):
    for a, b in p.facts.items():
        if a.k == 'cmp' and a.a[0] == '==' and any(is_call(x, 'len') and x.a[1][0] is xs for x in a.a[1:]) and any(is_const(x, 0) for x in a.a[1:]) and b is True:
            return True
        if a is xs and b is False:
            return True
        if is_call(a, 'len') and a.a[1][0] is xs and b is False:
            return True
        if a.k == 'cmp' and a.a[0] == '<' and is_const(a.a[1], 0) and is_call(a.a[2], 'len') and a.a[2].a[1][0] is xs and b is False:
            return True
    return False


def is_entry(v, lc, k):
    "The k-th component of the current pair of the loop."
    v = strip_phi(v)
    while is_call(v, 'fresh') and v.a[1]:
        v = v.a[1][0]
    if v.k == 'key':
        return k == 0
    if k == 1 and v.k == 'sub' and v.a[1].k == 'key':
        return True
    return v.k == 'sub' and is_const(v.a[1], k) and v.a[0].k in ('sub', 'elem') and v.a[0].a[0] is lc[2]


def param_part(v, f):
    v = strip_phi(v)
    while v.k == 'sub':
        v = v.a[0]
    return v.k == 'param'


def operators(ctx, m):
    # consequence operator
    f = m.func('dyna.program', 'Program.step')
    me, ch = param(f, 0), param(f, 1)
    paths = ctx.paths(f)
    n = 0
    chain = None
    for p in paths:
        for e in p.events:
            if e.kind == 'setitem':
                r = head_rule(p.res(e.a[1]))
                v = p.res(e.a[2])
                n += 1
                ok = r is not None and elem_of_prog(r, me, None) and v.k == 'sub' and v.a[0] is ch and v.a[1] is Attr(r, 'body')
                ctx.need(ok, 'step', f.ref, e.where, f'{short(e.a[1])} receives {short(v)}, not the value of the rule body in the chart')
                chain = chain_of(e)
        if p.kind == 'return':
            sets = {p.res(e.a[0]) for e in p.events if e.kind == 'setitem'}
            ctx.need(not sets or p.res(p.value) in sets, 'step', f.ref + ' result', p.where(), 'the computed program is not returned')
    ctx.floor(n, 1, 'rule applications of the consequence operator')
    if chain:
        filtered(ctx, paths, chain, lambda p: any(e.kind == 'setitem' for e in p.events), 'step', f.ref + ' filter', 'some rule is not applied')
        ctx.need(any(isinstance(c[2], V) and all_rules(c[2], me) for p in paths for e in p.events if e.kind == 'setitem' for c in loops(e)), 'step', f.ref + ' rules', f.where, 'not every rule is applied')
    # naive iteration stops at a fixpoint only
    for q in ('Program.fc', 'Program._fc'):
        f = m.func('dyna.program', q)
        k = 0
        for p in ctx.paths(f):
            if p.kind != 'return' or not any(e.kind == 'loop' for e in p.events):
                continue
            bounded = any(e.kind == 'loopend' and e.a[1] is False for e in p.events)
            k += 1
            ok = any(b is True and step_pair(a) for a, b in p.facts.items()) or bounded
            ctx.need(ok, 'fixpoint', f.ref, p.where(), 'iteration stops although the last two charts are not known to be equal')
        ctx.floor(k, 1, f'exits of {f.ref}')
    # solvers initialise every rule
    for mod in ('dyna.execute.solver', 'dyna.execute.solver2'):
        f = m.func(mod, 'Solver._forward_chaining')
        me = param(f, 0)
        ok = False
        for p in ctx.paths(f, inline=('drive_rules', 'drive_rule')):
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], 'init_rule'):
                    v = p.res(e.a[0]).a[1][0]
                    ok = ok or (elem_of_prog(v, Attr(me, 'program'), None) and any(isinstance(c[2], V) and all_rules(c[2], Attr(me, 'program')) for c in loops(e)))
        ctx.need(ok, 'initialise', f.ref, f.where, 'not every rule is initialised before propagation starts')
    f = m.func('dyna.execute.base', 'BaseSolver.init_rule')
    me, r = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        once = [(a, b) for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and a.a[2].k == 'attr' and a.a[2].a[1] == 'initialized']
        ups = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'update') and recv(e.a[0]) is me]
        n += len(ups)
        for e in ups:
            u = p.res(e.a[0])
            h, c = u.a[1][:2]
            ok = head_rule(h) is not None and any(isinstance(lc[2], V) and is_call(lc[2], 'ground_out_rule') and p.res(lc[2]).a[1][0] is head_rule(h) for lc in loops(e))
            ctx.need(ok, 'initialise', f.ref, e.where, 'a rule is not initialised with its own ground instances')
        if not ups and p.kind == 'return' and not any(e.kind == 'loop0' for e in p.events):
            ctx.need(any(b is True and calls_in(a, 'id') for a, b in once), 'initialise', f.ref + ' skipped', p.where(), 'a rule is skipped although this very rule object was not initialised before')
    ctx.floor(n, 1, 'initialisations')


def step_pair(a):
    "new == old where new is (a projection of) step(old)."
    if a.k != 'cmp' or a.a[0] != '==':
        return False
    for n, o in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
        for w in walk(n):
            if is_call(w, 'step') and w.a[1] and (w.a[1][0] is o or strip_phi(w.a[1][0]) is strip_phi(o)):
                return True
    return False


# ------------------------------------------------------------------ C15
def is_inf(v):
    return v.k == 'const' and v.a[0] == float('inf') or (v.k in ('global', 'name', 'ext', 'attr') and str(v).split('.')[-1] == 'inf') or str(v) in ('inf', 'math.inf', 'numpy.inf') or \
        (is_call(v, 'float') and v.a[1] and is_const(v.a[1][0], 'inf'))


def is_infmul(v):
    return is_call(v, 'multiple') and bool(v.a[1]) and is_inf(v.a[1][0])


def unset(v):
    while is_call(v, 'set', 'frozenset', 'OrderedSet', 'list', 'bool') and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


VARFNS = ('term_vars', 'snap_vars', 'freebies')


def has_vars(v):
    return any(calls_in(v, n) for n in VARFNS)


def lost_fact(a, b):
    "(was, now, lost): the fact tells whether some variable of `was` is missing from `now`."
    out = None
    if a.k == 'cmp':
        op, x, y = a.a[:3]
        if op == '<' and is_const(x, 0) and is_call(y, 'len'):
            return lost_fact(unset(y.a[1][0]), b)
        if op == '==' and is_const(y, 0) and is_call(x, 'len') or op == '==' and is_call(y, 'set') and not y.a[1] and x.k == 'bin':
            return lost_fact(unset(x.a[1][0]) if is_call(x, 'len') else x, not b)
        if op == '<':
            out = y, x, b
        elif op == '<=':
            out = x, y, not b
    elif is_call(a, 'len') and a.a[1]:
        return lost_fact(unset(a.a[1][0]), b)
    elif is_call(a, 'is_var') and a.a[1] and a.a[1][0].k in ('sub', 'elem'):
        return lost_fact(unset(a.a[1][0].a[0]), b)
    elif a.k == 'bin' and a.a[0] == '-':
        out = a.a[1], a.a[2], b
    elif is_call(a, 'issubset') and recv(a) is not None:
        out = recv(a), a.a[1][0], not b
    elif is_call(a, 'issuperset') and recv(a) is not None:
        out = a.a[1][0], recv(a), not b
    if out and has_vars(out[0]) and has_vars(out[1]):
        return unset(out[0]), unset(out[1]), out[2]
    return None


def lost_of(p):
    fs = [lost_fact(a, b) for a, b in p.facts.items()]
    fs = [x for x in fs if x]
    for e in p.events:      # an empty set of lost variables
        if e.kind == 'loop0' and len(e.a) > 1 and isinstance(e.a[1], V):
            x = lost_fact(unset(e.a[1]), False)
            if x:
                fs.append(x)
    return fs


def arg_of(v, *names):
    return v.a[1][0] if is_call(v, *names) and v.a[1] else None


@check('C15', 'guard analysis of every site that introduces an infinite multiplicity: the comparison of variable sets, its operands, and the factor on each branch; layout of products in the numeric solvers',
       'Wherever a rule is evaluated, built or rewritten so that a variable can disappear, the set of variables before is compared with the set after, with the '
       'before-set recorded before results are enumerated and re-read afterwards, and the infinite multiple is a factor of the outcome exactly on the paths where a variable was lost. '
       'The numeric solvers multiply every contribution by the multiple of its own rule, after the rule was matched. Streams report all variables of their parts.',
       ['Semiring.multiple(inf) is the sum of infinitely many ones of that semiring', 'zero times that multiple is zero (numerically, Float yields nan in the linear solver)'])
def c15(ctx):
    m = ctx.m
    # the multiple of a rule
    f = m.func('dyna.program', 'Program.multiple')
    r = param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.res(p.value)
        fs = lost_of(p)
        ok = len(fs) >= 1
        ctx.need(ok, 'multiple', f.ref, p.where(), 'a multiple is answered without comparing the variables of the body with those of the head')
        for was, now, lost in fs:
            ok = arg_of(was, *VARFNS) is Attr(r, 'body') and arg_of(now, *VARFNS) is Attr(r, 'head')
            ctx.need(ok, 'multiple', f.ref + ' operands', p.where(), f'{short(was)} is compared with {short(now)}, not the variables of the body with those of the head')
            ctx.need(is_infmul(v) if lost else (v.k == 'attr' and v.a[1] == 'one'), 'multiple', f.ref + (' lost' if lost else ' kept'), p.where(),
                     f'the multiple is {short(v)} although {"a" if lost else "no"} variable is lost')
    ctx.floor(n, 2, 'answers of the multiple')
    # symbolic evaluation
    f = m.func('dyna.program', 'Program.__setitem__')
    me, x, ys = param(f, 0), param(f, 1), param(f, 2)
    n = 0
    for p in ctx.paths(f):
        for pos, e in enumerate(p.events):
            if not (e.kind == 'mutate' and e.a[1] in ('append', 'extend', '_add_rule') and e.a[0] is me):
                continue
            n += 1
            v = p.res(e.a[2])
            c = f.ref
            if not is_call(v, 'Rule'):
                ctx.fail('assign', c, e.where, f'{short(v)} is added')
                continue
            ctx.need(v.a[1][0] is x and loops(e) and any(contains(a, loops(e)[-1][2]) for a in v.a[1][1:]), 'assign', c + ' rule', e.where, f'{short(v)} is not (head, result of the stream)')
            fs = lost_of(p)
            ctx.need(bool(fs), 'assign', c + ' guard', e.where, 'a result is added without checking for lost variables')
            lp = loops(e)[-1][1] if loops(e) else None
            for was, now, lost in fs:
                inner = arg_of(was, *VARFNS)
                covers_ = inner is not None and any(is_call(w, *VARFNS) and w.a[1][0] is x for w in walk(inner)) and \
                    any(is_call(w, *VARFNS) and (w.a[1][0] is ys or is_call(w.a[1][0], 'Constant') and w.a[1][0].a[1][0] is ys) for w in walk(inner))
                ctx.need(covers_, 'assign', c + ' before', e.where, 'the variables of the head and of the whole stream, re-read after the match, are not what is compared')
                ctx.need(is_call(now, *VARFNS) and extends(v, now.a[1][0]), 'assign', c + ' after', e.where, f'compared with {short(now)}, not with the variables of the new rule')
                has = [w for w in v.a[1] if is_infmul(w)]
                ctx.need(len(has) == (1 if lost else 0), 'assign', c + (' lost' if lost else ' kept'), e.where,
                         'a lost variable does not multiply the result' if lost else 'the result is multiplied by infinity although no variable was lost')
                if covers_:
                    for w in walk(inner):
                        if is_call(w, *VARFNS):
                            at = [q for q, ev in enumerate(p.events) if ev.kind == 'call' and ev.a[0] is w]
                            lq = [q for q, ev in enumerate(p.events) if ev.kind == 'loop' and ev.a[0] == lp]
                            ctx.need(bool(at) and bool(lq) and max(at) < lq[0], 'assign', c + ' early', e.where, 'the variables are recorded only after the stream has bound them')
    ctx.floor(n, 2, 'symbolic assignments')
    # numeric solvers
    f = m.func('dyna.execute.base', 'BaseSolver.ground_out_rule')
    me, r = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'yield':
                n += 1
                fs = flat(p.res(e.a[0]))
                js = [p.res(lc[2]) for lc in loops(e) if isinstance(lc[2], V) and is_call(lc[2], 'join')]
                ok = len(js) == 1 and js[0].a[1][0] is Attr(r, 'body')
                ctx.need(ok, 'contribution', f.ref + ' join', e.where, 'not the whole body is evaluated')
                contribution(ctx, f, p, e, fs, r, js)
    ctx.floor(n, 1, 'ground contributions')
    for mod, inl in (('dyna.execute.solver', ('drive_rules',)), ('dyna.execute.solver2', ('drive_rules', 'drive_rule'))):
        f = m.func(mod, 'Solver._forward_chaining')
        me = param(f, 0)
        n = 0
        for p in ctx.paths(f, inline=inl):
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], 'update') and recv(e.a[0]) is me and popped(p)[0] is not None:
                    u = p.res(e.a[0])
                    n += 1
                    r = head_rule(u.a[1][0])
                    js = [p.res(lc[2]) for lc in loops(e) if isinstance(lc[2], V) and is_call(lc[2], 'join')]
                    contribution(ctx, f, p, e, flat(strip_phi(u.a[1][1])), r, js)
        ctx.floor(n, 1, f'contributions of {f.ref}')
    # unfolding
    f = m.func('dyna.transform.unfold', 'Unfold.__init__')
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] == 'append' and loops(e):
                v = p.res(e.a[2])
                while is_call(v, 'fresh'):
                    v = v.a[1][0]
                if not is_call(v, 'Rule'):
                    continue
                n += 1
                lk = [p.res(lc[2]) for lc in loops(e) if isinstance(lc[2], V) and is_call(lc[2], 'lookup')]
                ctx.need(bool(lk), 'unfold', f.ref, e.where, 'the definitions are not looked up')
                fs = lost_of(p)
                ctx.need(bool(fs), 'unfold', f.ref + ' guard', e.where, 'a definition is inlined without checking for lost variables')
                trivial = any(a.k == 'cmp' and a.a[0] == '==' and any(is_infmul(w) for w in a.a[1:]) and b is True for a, b in p.facts.items())
                for was, now, lost in fs:
                    s = arg_of(was, *VARFNS)
                    ctx.need(s is not None and lk and contains(s, lk[0]) and s.k in ('sub', 'elem'), 'unfold', f.ref + ' before', e.where, f'{short(was)} is not the set of variables of the whole definition (head and body)')
                    t = arg_of(now, *VARFNS)
                    ctx.need(t is not None and extends(v, t), 'unfold', f.ref + ' after', e.where, f'{short(now)} is not the set of variables of the new rule')
                    has = [w for w in v.a[1] if is_infmul(w)]
                    ctx.need(len(has) == (1 if lost and not trivial else 0) or (trivial and lost), 'unfold', f.ref + (' lost' if lost else ' kept'), e.where,
                             'a lost variable does not multiply the new rule' if lost else 'the rule is multiplied by infinity although no variable was lost')
    ctx.floor(n, 2, 'inlined definitions')
    # linear system
    f = m.func('dyna.execute.linear', 'kleene_linsolve.__init__')
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'aug' and e.a[0] == '+' and e.a[1].k == 'sub' and e.a[1].a[1].k == 'tup':
                n += 1
                fs = lost_of(p)
                ctx.need(bool(fs), 'linear', f.ref + ' guard', e.where, 'a coefficient is stored without checking for lost variables')
                h = e.a[1].a[1].a[1][0]
                r = h.a[1][0].a[0] if is_call(h, 'canonicalize') and h.a[1][0].k == 'attr' else None
                for was, now, lost in fs:
                    ok = r is not None and arg_of(now, *VARFNS) is Attr(r, 'head')
                    ctx.need(ok, 'linear', f.ref + ' operands', e.where, f'{short(now)} is not the set of variables of the head')
                    has = [w for w in flat(p.res(e.a[2])) if is_infmul(w)]
                    ctx.need(len(has) == (1 if lost else 0), 'linear', f.ref + (' lost' if lost else ' kept'), e.where, 'the coefficient and the lost variables disagree')
    ctx.floor(n, 2, 'coefficients of the linear system')
    # type specialisation
    abbreviate_multiple(ctx, m)
    streams(ctx, m)


def extends(v, t):
    "Rule `v` is rule `t`, possibly with further factors."
    if not (is_call(v, 'Rule') and is_call(t, 'Rule')):
        return False
    if v is t or v.a[1][:len(t.a[1])] == t.a[1]:
        return True
    rest = [x.a[0] if x.k == 'star' else x for x in v.a[1][1:]]
    return v.a[1][0] in (Attr(t, 'head'), t.a[1][0]) and Attr(t, 'body') in rest


def contribution(ctx, f, p, e, fs, r, js):
    "A contribution has exactly one factor that is the multiple of its own rule, read while the rule is matched."
    ms = [x for x in fs if is_call(x, 'multiple')]
    ok = len(ms) == 1 and r is not None and ms[0].a[1] and unfresh(ms[0].a[1][0]) is unfresh(r)
    ctx.need(ok, 'contribution', f.ref + ' multiple', e.where, 'the contribution is not multiplied once by the multiple of its rule')
    if ok and js:
        ids = [lc[1] for lc in loops(e) if isinstance(lc[2], V) and is_call(p.res(lc[2]), 'join')]
        at = [ev for ev in p.events if ev.kind == 'call' and is_call(ev.a[0], 'multiple')]
        ctx.need(any(set(ids) <= {c[1] for c in loops(ev)} for ev in at), 'contribution', f.ref + ' matched', e.where, 'the multiple is computed before the body is matched, when its variables are still unbound')


def unfresh(v):
    v = strip_phi(v)
    while is_call(v, 'fresh') and (v.a[1] or recv(v) is not None):
        v = strip_phi(v.a[1][0] if v.a[1] else recv(v))
    return v


def abbreviate_multiple(ctx, m):
    cls = m.cls('dyna.analyze.abbreviate', 'Abbreviate')
    n = 0
    for f in cls.methods.values():
        if not any(isinstance(x, ast.Attribute) and x.attr == 'multiple' for x in ast.walk(f.node)):
            continue
        for p in ctx.paths(f):
            if p.kind == 'raise':
                continue
            outs = []
            if p.kind == 'return' and p.value is not None:
                outs.append((p.res(p.value), p.where()))
            sets = []
            for a, b in p.facts.items():
                if a.k == 'cmp' and a.a[0] in ('==',) and all(has_vars(x) and x.k == 'bin' and x.a[0] == '-' for x in a.a[1:3]):
                    sets.append((a, b))
            for v, w in outs:
                if not (is_call(v, 'Rule') or v.k == 'param'):
                    continue
                n += 1
                ctx.need(bool(sets), 'specialise', f.ref + ' guard', w, 'a specialised rule is built without comparing its free local variables with those of the original')
                for a, b in sets:
                    l, r_ = a.a[1], a.a[2]
                    ok = True
                    for s in (l, r_):
                        fr, hd = s.a[1], s.a[2]
                        ok = ok and is_call(fr, 'freebies') and is_call(hd, *VARFNS) and Attr(fr.a[1][0], 'head') is hd.a[1][0]
                    ctx.need(ok and l is not r_, 'specialise', f.ref + ' operands', w, 'the free variables outside the head are not what is compared')
                    has = any(is_infmul(x) for x in walk(v))
                    ctx.need(has == (b is False), 'specialise', f.ref + (' kept' if b else ' lost'), w, 'the multiple and the lost variables disagree')
    ctx.need(n >= 2, 'specialise', 'dyna.analyze.abbreviate:Abbreviate', f'{cls.module.path}:{cls.node.lineno}' if hasattr(cls, 'module') and hasattr(cls.module, 'path') else 'dyna/analyze/abbreviate.py',
             'specialised rules are not corrected for lost free variables')


STREAM_PARTS = {'Join': 2, 'I': 3, 'ResultStream': 1, 'Constant': 1}


def streams(ctx, m):
    for name, k in STREAM_PARTS.items():
        f = m.func('dyna.term', f'{name}.__init__')
        me = param(f, 0)
        n = 0
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'setattr' and e.a[1] == 'vars':
                    n += 1
                    v = p.res(e.a[2])
                    ins = [V_.a[1][0] for V_ in walk(v) if is_call(V_, 'term_vars') and V_.a[1]]
                    if name == 'Constant':
                        vs = param(f, 2)
                        given = p.facts.get(V('cmp', 'is', vs, NONE))
                        ok = v is vs if given is False else given is True and ins == [param(f, 1)]
                        ctx.need(ok, 'stream', f.ref, e.where, f'a constant reports the variables {short(v)}')
                        continue
                    want = [param(f, i + 1) for i in range(k)]
                    got = [x for x in ins]
                    text = set()
                    for x in got:
                        for w in walk(x):
                            text.add(w)
                    if name == 'ResultStream':
                        ok = bool(got) and any('args' in str(x) for x in got)
                    else:
                        ok = all(w in text or any(Attr(me, a) in text for a in attr_of(p, me, w)) for w in want)
                    ctx.need(ok, 'stream', f.ref, e.where, f'a stream reports the variables {short(v)}, which are not those of all its parts')
        ctx.floor(n, 1, f'variables of {name}')


def attr_of(p, me, w):
    return [e.a[1] for e in p.events if e.kind == 'setattr' and e.a[0] is me and e.a[2] is w]


# ------------------------------------------------------------------ C14
def interned(v):
    "The item term behind an interned key."
    v = strip_phi(v)
    while True:
        if is_call(v, 'intern', 'fresh', 'canonicalize') and v.a[1]:
            v = strip_phi(v.a[1][0])
        elif v.k == 'sub' and v.a[0].k == 'attr' and v.a[0].a[1] == 'intern':
            v = strip_phi(v.a[1])
        else:
            return v


def key_calls(v):
    "Names of the calls between an item and its key, innermost first."
    v = strip_phi(v)
    out = []
    while True:
        if is_call(v, 'intern', 'fresh', 'canonicalize') and v.a[1]:
            out.append(fname(v.a[0]))
            v = strip_phi(v.a[1][0])
        elif v.k == 'sub' and v.a[0].k == 'attr' and v.a[0].a[1] == 'intern':
            out.append('extern')
            v = strip_phi(v.a[1])
        else:
            return out[::-1]


@check('C14', 'typestate of the pending-change buffer and agenda, and agreement of the three definitions of an index key, over all paths of the solvers',
       'Every accepted update records the change (accumulating onto a pending one) and puts that same key on the agenda; an update is discarded only when the caller-supplied priority is None, before '
       'anything is recorded; a ground-only solver rejects items with variables. An index is built from every item of the chart, extended before a new item enters the chart under every mode in use, and '
       'queried with the same key expression; a lookup yields every indexed item that unifies with the query. Loading data updates every item, and the reported solution lists every chart entry. '
       'Each evaluation pass uses a solver chosen for the program that the pass runs.',
       ['interning returns equal numbers for equal terms only'])
def c14(ctx):
    m = ctx.m
    for mod, ground in (('dyna.execute.solver', True), ('dyna.execute.solver2', False)):
        update_site(ctx, m.func(mod, 'Solver.update'), ground)
        f = m.func(mod, 'Solver._forward_chaining')
        me = param(f, 0)
        n = 0
        for p in ctx.paths(f, inline=('drive_rules', 'drive_rule')):
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], 'pop', '__getitem__', 'get') and recv(e.a[0]) is not None and recv(e.a[0]) is Attr(me, 'change'):
                    n += 1
                    v = p.res(e.a[0])
                    ok = is_call(v, 'pop') and any(is_call(w, 'popitem', 'pop') and recv(w) is Attr(me, 'agenda') for w in walk(p.res(v.a[1][0])))
                    ctx.need(ok, 'pop', f.ref, e.where, 'the change that is taken is not that of the item taken from the agenda, or is left pending')
        if not n:
            ctx.fail('pop', f.ref + ' removed', f.where, 'no pending change is ever removed from the buffer')
        drained(ctx, f, me)
    index_sites(ctx, m)
    base_sites(ctx, m)
    choice_sites(ctx, m)


def drained(ctx, f, me):
    "The evaluation loop ends only when the agenda is empty."
    ag = Attr(me, 'agenda')
    for p in ctx.paths(f, inline=('drive_rules', 'drive_rule')):
        if p.kind != 'return':
            continue
        took = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'popitem', 'pop') and recv(e.a[0]) is ag]
        whiles = {c[1] for e in took for c in e.ctx if c[0] == 'loop'}
        left = any(e.kind == 'loopend' and e.a[0] in whiles and e.a[1] for e in p.events)
        ended = {e.a[0] for e in p.events if e.kind == 'loopend'}
        if took and whiles and not left and whiles <= ended:
            continue      # left through the loop's own condition: judged on the path that does not enter it
        ok = any(emptiness(a, ag) is b for a, b in p.facts.items())
        ctx.need(ok, 'drain', f.ref, p.where(), 'evaluation stops although the agenda may not be empty')
    ctx.ob('drain', f.ref, f.where)


def emptiness(a, ag):
    "The truth value of the fact that shows `ag` to be empty, or None."
    size = lambda x: is_call(x, 'len') and x.a[1] and x.a[1][0] is ag
    if a is ag or size(a):
        return False
    if a.k == 'cmp':
        op, x, y = a.a
        if op == '==' and (size(x) and is_const(y, 0) or size(y) and is_const(x, 0)):
            return True
        if op == '<' and is_const(x, 0) and size(y):
            return False
        if op == '<' and size(x) and is_const(y, 1):
            return True
        if op == '<=' and size(x) and is_const(y, 0):
            return True
        if op == '<=' and is_const(x, 1) and size(y):
            return False
    return None


def update_site(ctx, f, ground):
    me, item, d = param(f, 0), param(f, 1), param(f, 2)
    change, agenda, prio = Attr(me, 'change'), Attr(me, 'agenda'), Attr(me, 'priority')
    n = 0
    for p in ctx.paths(f):
        isg = [b for a, b in p.facts.items() if is_call(a, 'is_ground') and interned(a.a[1][0]) is item]
        sets = [e for e in p.events if e.kind == 'setitem' and e.a[0] is change]
        pend = [e for e in p.events if e.kind == 'setitem' and e.a[0] is agenda]
        asked = [(q, e) for q, e in enumerate(p.events) if e.kind == 'call' and e.a[0].k == 'call' and e.a[0].a[0] is prio]
        pruned = any(a.k == 'cmp' and a.a[0] == 'is' and a.a[1].k == 'call' and a.a[1].a[0] is prio and b is True for a, b in p.facts.items())
        if p.kind == 'raise':
            ctx.need(ground and False in isg, 'update', f.ref + ' rejected', p.where(), 'an update is rejected although its item is ground')
            ctx.need(not sets and not pend, 'update', f.ref + ' rejected', p.where(), 'a rejected update leaves a trace')
            continue
        if ground:
            ctx.need(True in isg, 'update', f.ref + ' ground', p.where(), 'an item with variables is accepted by the solver for ground items')
        if pruned:
            ctx.need(not sets and not pend and not any(is_call(e.a[0], 'intern') for e in p.events if e.kind == 'call'), 'update', f.ref + ' pruned', p.where(), 'a discarded update is recorded or interned')
            continue
        n += 1
        ctx.need(bool(sets) and bool(pend), 'update', f.ref + ' recorded', p.where(), 'an update is neither recorded nor discarded by the caller\'s priority')
        if not (sets and pend):
            continue
        for q, e in asked:
            ctx.need(interned(e.a[0].a[1][0]) is item and 'intern' not in key_calls(e.a[0].a[1][0]), 'update', f.ref + ' priority', e.where, 'the priority is not asked for the item')
            ctx.need(not any(ev.kind == 'setitem' and ev.a[0] in (change, agenda) for ev in p.events[:q]), 'update', f.ref + ' priority', e.where, 'the priority is consulted only after the update was recorded')
        given = p.facts.get(V('cmp', 'is', prio, NONE))
        if given is False:
            ctx.need(bool(asked), 'update', f.ref + ' priority', p.where(), 'the caller\'s priority is not consulted')
        k = p.res(pend[-1].a[1])
        for e in sets:
            kk = p.res(e.a[1])
            ctx.need(unfresh(kk) is unfresh(k) and interned(kk) is item, 'update', f.ref + ' key', e.where, f'the change is recorded under {short(kk)} but {short(k)} is put on the agenda')
            calls = key_calls(kk)
            ctx.need('intern' not in calls or ground or 'canonicalize' in calls[:calls.index('intern')], 'update', f.ref + ' canonical', e.where, 'items that differ only in variable names are kept apart')
            v = p.res(e.a[2])
            there = [b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and a.a[2] is change]
            old = [w for w in walk(v) if w.k == 'sub' and w.a[0] is change or is_call(w, 'get', 'pop', 'setdefault') and recv(w) is change]
            if True in there:
                ok = v.k == 'bin' and v.a[0] == '+' and d in v.a[1:] and any(w in v.a[1:] for w in old)
            elif False in there:
                ok = v is d
            else:
                ok = v.k == 'bin' and v.a[0] == '+' and d in v.a[1:] and any(is_call(w, 'get') and len(w.a[1]) == 2 and w.a[1][1].k == 'attr' and w.a[1][1].a[1] == 'zero' for w in v.a[1:])
            ctx.need(ok, 'update', f.ref + ' value', e.where, f'the pending change becomes {short(v)}, not its previous value plus the update')
        pv = p.res(pend[-1].a[2])
        if given is False:
            ctx.need(pv.k == 'call' and pv.a[0] is prio, 'update', f.ref + ' position', pend[-1].where, f'the item is queued at {short(pv)}, not at its priority')
    ctx.floor(n, 2, f'accepted updates of {f.ref}')


def projection(p, v, item):
    """For a key tuple(item.args[i] for i in m): the value of m; 'none' on the
    path where m is empty; None for any other key."""
    base = noop(p.res(v))
    seen = False
    for e in p.events:
        if e.kind == 'mutate' and e.a[1] == 'append' and p.res(e.a[0]) is p.res(base):
            seen = True
            x = p.res(e.a[2])
            if not (x.k == 'sub' and x.a[0].k == 'attr' and x.a[0].a[1] == 'args' and unfresh(x.a[0].a[0]) is item):
                return None
            i = x.a[1]
            if i.k not in ('sub', 'elem') or not (i.k == 'elem' or i.a[1].k == 'idx'):
                return None
            src = i.a[0]
            n = (i.a[1] if i.k == 'elem' else i.a[1].a[0])
            over = [c[2] for c in loops(e) if c[1] == n and isinstance(c[2], V)]
            plain = lambda w: p.res(noop(w)) is p.res(src) or is_call(w, 'range') and len(w.a[1]) == 1 and is_call(w.a[1][0], 'len')
            return src if over and plain(over[-1]) else None
    if not seen and (base.k == 'obj' or v.k == 'tup' and not v.a[1] or is_call(v, 'tuple')) and not any(c.k == 'sub' for c in walk(base)):
        return 'none'
    return None


def functor_key(v, x):
    "`v` is (x.fn, x.arity)."
    return v.k == 'tup' and len(v.a[1]) == 2 and v.a[1][0] == Attr(x, 'fn') and v.a[1][1] == Attr(x, 'arity') or \
        is_call(v, 'signature') and (x in v.a[1] or recv(v) is x)


def same_functor(v, x):
    v = strip_phi(v)
    return v.k == 'tup' and len(v.a[1]) == 2 and all(w.k == 'attr' and w.a[0] is x for w in v.a[1]) and [w.a[1] for w in v.a[1]] == ['fn', 'arity']


def modal(v):
    "The loop a dictionary key (or the value under it) comes from."
    v = strip_phi(v)
    return v.a[1] if v.k == 'key' else (v.a[1].a[0] if v.k == 'sub' and v.a[1].k == 'idx' else None)


def whole_dict(w):
    "`w` iterates over a whole dictionary."
    w = noop(w)
    while is_call(w, 'items', 'keys', 'sorted', 'iter') and (recv(w) is not None or w.a[1]):
        w = noop(recv(w) if recv(w) is not None else w.a[1][0])
    return w.k in ('attr', 'param') or w.k == 'sub' and w.a[1].k != 'slice' or is_call(w, 'get', 'setdefault')


def index_sites(ctx, m):
    cls = m.cls('dyna.execute.solver', 'Chart')
    F = lambda n: m.func('dyna.execute.solver', 'Chart.' + n)
    # store: index first
    f = F('__setitem__')
    me, item, val = param(f, 0), param(f, 1), param(f, 2)
    n = 0
    for p in ctx.paths(f, inline=('_update_index',)):
        ch = Attr(me, 'chart')
        for q, e in enumerate(p.events):
            if e.kind == 'setitem' and e.a[0] is ch:
                n += 1
                ctx.need(e.a[1] is item and e.a[2] is val, 'index', f.ref, e.where, 'the value is not stored under its item')
                isnew = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is item and a.a[2] is ch)
                late = [ev for ev in p.events[q:] if ev.kind == 'compare' or ev.kind == 'cond']
                known = isnew is not None
                if isnew is True:
                    continue
                fa = [b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and contains(a.a[2], Attr(me, 'index')) and a.a[1].k == 'tup']
                modes = [ev for ev in p.events if ev.kind in ('loop', 'loop0') and isinstance(ev.a[1] if len(ev.a) > 1 else None, V) and contains(ev.a[1], Attr(me, 'index'))]
                if known and not modes and False in fa:
                    continue
                ctx.need(bool(modes), 'index', f.ref + ' maintained', e.where, 'a new item is stored without being added to the indexes in use')
                test = [k for k, ev in enumerate(p.events) if ev.kind in ('cond', 'compare') and any(isinstance(x, V) and x.k == 'cmp' and x.a[0] == 'in' and x.a[2] is ch for x in ev.a)]
                ctx.need(not test or min(test) < q, 'index', f.ref + ' before', e.where, 'the item is stored before the test for a new item, so it is never added to the indexes')
        if p.kind == 'return':
            ctx.need(any(e.kind == 'setitem' and e.a[0] is ch for e in p.events), 'index', f.ref + ' stored', p.where(), 'the value is not stored')
            for e in p.events:
                if e.kind == 'loop' and isinstance(e.a[1], V) and contains(e.a[1], Attr(me, 'index')) and not any(c[0] == 'loop' and c[1] != e.a[0] for c in e.ctx):
                    adds = [ev for ev in p.events if ev.kind == 'mutate' and ev.a[1] == 'add' and unfresh(p.res(ev.a[2])) is item and any(c[0] == 'loop' and c[1] == e.a[0] for c in ev.ctx)]
                    sets = [ev for ev in p.events if ev.kind == 'setitem' and any(c[0] == 'loop' and c[1] == e.a[0] for c in ev.ctx)]
                    ctx.need(bool(adds) or any(contains(p.res(ev.a[2]), item) and p.res(ev.a[2]).k != 'bin' for ev in sets), 'index', f.ref + ' added', e.where, 'a new item is not added to an index in use')
                    cut = [ev for ev in p.events if ev.kind == 'loopend' and ev.a[0] == e.a[0] and ev.a[1]]
                    ctx.need(not cut, 'index', f.ref + ' all modes', e.where, 'not every index in use is updated')
    ctx.floor(n, 2, 'chart stores')
    # keys
    f = F('_update_index')
    me, item = param(f, 0), param(f, 1)
    k = 0
    table = Attr(me, 'index')
    for p in ctx.paths(f):
        adds = []
        for e in p.events:
            if e.kind == 'setitem' and p.res(e.a[2]).k != 'bin':
                tgt, kv, val = p.res(e.a[0]), p.res(e.a[1]), p.res(e.a[2])
                if any(contains(w, item) for w in [val] + [p.res(ev.a[2]) for ev in p.events if ev.kind == 'mutate' and ev.a[1] == 'add' and p.res(ev.a[0]) is val]):
                    adds.append((e, tgt, kv))
            if e.kind == 'mutate' and e.a[1] == 'add' and unfresh(p.res(e.a[2])) is item:
                b = p.res(e.a[0])
                if b.k == 'sub':
                    adds.append((e, p.res(b.a[0]), p.res(b.a[1])))
                elif is_call(b, 'setdefault', 'get') and recv(b) is not None:
                    adds.append((e, p.res(recv(b)), p.res(b.a[1][0])))
        for e, tgt, kv in adds:
            k += 1
            # tgt = index[functor][mode]
            tgt = strip_phi(tgt)
            mode = None
            if tgt.k == 'sub' and contains(tgt.a[0], table):
                mode, outer = tgt.a[1], strip_phi(tgt.a[0])
                fk = outer.a[1] if outer.k == 'sub' else outer.a[1][0] if is_call(outer, 'get', 'setdefault') and outer.a[1] else None
                ctx.need(fk is not None and functor_key(strip_phi(fk), item), 'index', f.ref + ' functor', e.where, 'a new item is added to the indexes of another functor or arity')
            src = projection(p, kv, item)
            same = src == 'none' or src is not None and mode is not None and (src is mode or noop(src) is noop(mode) or modal(src) is not None and modal(src) == modal(mode))
            ctx.need(src is not None and (same or mode is None), 'index', f.ref + ' key', e.where, 'a new item is indexed under a key that is not its arguments at the positions of the mode')
            lp = [c[2] for c in loops(e) if isinstance(c[2], V) and contains(c[2], table)]
            ctx.need(bool(lp) and all(whole_dict(w) for w in lp), 'index', f.ref + ' all modes', e.where, 'not every index in use is updated')
    if not k:
        ctx.fail('index', f.ref, f.where, 'no new item is ever added to an index')
    # the mode of a query
    f = m.func('dyna.execute.solver', 'query_mode')
    q = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'return':
            v = p.res(p.value)
            ok = v.k == 'tup' and len(v.a[1]) == 2 and v.a[1][0] == V('tup', 'tuple', (Attr(q, 'fn'), Attr(q, 'arity')))
            ctx.need(ok, 'index', f.ref, p.where(), f'the mode of a query is {short(v)}')
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] == 'append':
                n += 1
                g = [(a, b) for a, b in p.facts.items() if is_call(a, 'is_ground')]
                i = p.res(e.a[2])
                ok = any(b is True and (a.a[1][0].k in ('sub', 'elem') and a.a[1][0].a[0] is Attr(q, 'args') and (a.a[1][0].a[1] is i or a.a[1][0].k == 'elem')) for a, b in g)
                ctx.need(ok, 'index', f.ref + ' bound', e.where, 'a position that is not ground is used as an index key')
    ctx.floor(n, 1, 'bound positions')
    # build
    f = F('_build_index')
    me, fa, mode = param(f, 0), param(f, 1), param(f, 2)
    n = 0
    ch = Attr(me, 'chart')
    chain = None
    paths = ctx.paths(f)
    for p in paths:
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] == 'add':
                x = p.res(e.a[2])
                n += 1
                lp = [c for c in loops(e) if isinstance(c[2], V) and noop(c[2]) in (ch, V('call', Attr(ch, 'keys'), (), (), 0)) or (isinstance(c[2], V) and contains(c[2], ch))]
                ctx.need(bool(lp) and (x.k in ('sub', 'elem', 'key')), 'index', f.ref, e.where, 'the index is not built from the items of the chart')
                chain = [c[3] for c in lp if len(c) > 3]
                b = p.res(e.a[0])
                kv = b.a[1] if b.k == 'sub' else None
                if kv is not None:
                    srcs = projection(p, kv, x)
                    ctx.need(srcs is mode or srcs == 'none', 'index', f.ref + ' key', e.where, f'an item is indexed under {short(kv)}, not under its arguments at the positions of the mode')
                conds = [(a, b) for a, b in p.facts.items() if a.k == 'cmp' and contains(a, x)]
                for a, b in conds:
                    good = a.a[0] == '==' and b is True and any(w.k == 'attr' and w.a[1] in ('fn', 'arity') or is_call(w, 'len') for w in a.a[1:]) or a.a[0] == '==' and any(w.k == 'tup' for w in a.a[1:])
                    ctx.need(good, 'index', f.ref + ' filter', e.where, f'items are left out of the index when {short(a)} is {not b}')
        # an item may be skipped only for another functor or arity
        for e in p.events:
            if e.kind == 'loop' and isinstance(e.a[1], V) and contains(e.a[1], ch) and p.kind != 'raise':
                if not any(ev.kind == 'mutate' and ev.a[1] == 'add' for ev in p.events):
                    ok = any(b is False and a.k == 'cmp' and a.a[0] == '==' and ('fn' in str(a) or 'arity' in str(a)) for a, b in p.facts.items())
                    ctx.need(ok, 'index', f.ref + ' skipped', p.where(), 'an item with the functor and arity of the index is left out')
    ctx.floor(n, 1, 'indexed items')
    if chain:
        for p in paths:
            cut = early_exit(p, chain)
            ctx.need(not cut, 'index', f.ref + ' complete', p.where(), 'not every item of the chart is indexed')
    # lookup
    f = F('_indexed_lookup')
    me, q = param(f, 0), param(f, 1)
    n = 0
    paths = ctx.paths(f)
    for p in paths:
        for e in p.events:
            if e.kind != 'yield':
                continue
            n += 1
            us = [c for c in loops(e) if isinstance(c[2], V) and is_call(c[2], 'unify') and q in c[2].a[1]]
            ctx.need(bool(us), 'index', f.ref + ' unify', e.where, 'an indexed item is answered without being unified with the query')
            if not us:
                continue
            x = strip_phi(p.res([w for w in us[-1][2].a[1] if w is not q][0]))
            v = p.res(e.a[0])
            ctx.need(v.k == 'sub' and v.a[0] is Attr(me, 'chart') and v.a[1] in (q, x), 'index', f.ref + ' value', e.where, f'{short(v)} is answered, not the value of the item')
            hits = strip_phi(noop(p.res(x.a[0]))) if x.k in ('sub', 'elem') else x
            if is_call(hits, 'get', 'setdefault') and recv(hits) is not None:
                ix, kv = strip_phi(p.res(recv(hits))), p.res(hits.a[1][0])
            elif hits.k == 'sub':
                ix, kv = strip_phi(p.res(hits.a[0])), p.res(hits.a[1])
            else:
                ctx.fail('index', f.ref + ' key', e.where, f'the items of {short(hits)} are answered, not those of an index')
                continue
            isq = lambda w, i: w is not None and strip_phi(w).k == 'sub' and is_call(strip_phi(w).a[0], 'query_mode') and strip_phi(w).a[0].a[1][0] is q and is_const(strip_phi(w).a[1], i)
            src = projection(p, kv, q)
            ctx.need(src == 'none' or isq(src, 1), 'index', f.ref + ' key', e.where, 'the index is not queried with the ground arguments of the query')
            pair = None
            if is_call(ix, 'get') and recv(ix) is not None and p.res(recv(ix)).k in ('obj', 'dict'):
                continue      # nothing is found in an index table that was just created
            if is_call(ix, '_build_index'):
                pair = ix.a[1][:2]
            else:
                inner = ix.a[1] if ix.k == 'sub' else ix.a[1][0] if is_call(ix, 'get', 'setdefault') else None
                o = ix.a[0] if ix.k == 'sub' else recv(ix) if inner is not None else None
                o = strip_phi(p.res(o)) if o is not None else None
                outer = o is not None and (o.a[1] if o.k == 'sub' else o.a[1][0] if is_call(o, 'get', 'setdefault') else None)
                pair = (outer, inner) if isinstance(outer, V) and inner is not None and contains(o, Attr(me, 'index')) else None
            fk = pair and (isq(pair[0], 0) or same_functor(pair[0], q))
            ctx.need(bool(pair) and fk and isq(pair[1], 1), 'index', f.ref + ' which', e.where, f'the query is answered from {short(ix)}, not from the index for its functor and its ground positions')
        for e in p.events:
            if e.kind == 'setitem' and is_call(p.res(e.a[2]), '_build_index'):
                b = p.res(e.a[2])
                ok = strip_phi(p.res(e.a[1])) is strip_phi(b.a[1][1]) and (not contains(e.a[0], Attr(me, 'index')) or contains(e.a[0], b.a[1][0]))
                ctx.need(ok, 'index', f.ref + ' kept', e.where, 'an index is kept under another mode or functor than it was built for')
        for c in [c for e in p.events if e.kind == 'yield' for c in loops(e)]:
            if len(c) > 3:
                cut = early_exit(p, [c[3]])
                ctx.need(not cut, 'index', f.ref + ' complete', p.where(), 'not every matching item is answered')
    ctx.floor(n, 1, 'indexed answers')


def base_sites(ctx, m):
    f = m.func('dyna.execute.base', 'BaseSolver.load_data')
    me, data = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'call' and is_call(e.a[0], 'update') and recv(e.a[0]) is me:
                n += 1
                u = p.res(e.a[0])
                lp = [c for c in loops(e) if isinstance(c[2], V) and is_call(noop(c[2]), 'items') and any(is_call(w, '_forward_chaining') and contains(w, data) for w in walk(c[2]))]
                ok = bool(lp) and is_entry(u.a[1][0], lp[-1], 0) and is_entry(u.a[1][1], lp[-1], 1)
                ctx.need(ok, 'data', f.ref, e.where, 'the evaluated data are not all handed to the solver')
        for e in p.events:
            if e.kind == 'loop' and isinstance(e.a[1], V) and is_call(noop(e.a[1]), 'items'):
                ctx.need(any(ev.kind == 'call' and is_call(ev.a[0], 'update') for ev in p.events), 'data', f.ref + ' filter', p.where(), 'some data item is skipped')
    ctx.floor(n, 1, 'data updates')
    f = m.func('dyna.execute.base', 'BaseSolver.sol')
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        ch = Attr(me, 'chart')
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] == 'append':
                v = p.res(e.a[2])
                lp = [c for c in loops(e) if isinstance(c[2], V) and contains(c[2], ch)]
                if not lp:
                    continue
                n += 1
                ok = is_call(v, 'Rule') and len(v.a[1]) == 2 and is_entry(v.a[1][0], lp[-1], 0) and is_entry(v.a[1][1], lp[-1], 1)
                ctx.need(ok, 'solution', f.ref, e.where, f'{short(v)} is reported, not the item with its value')
        if any(e.kind == 'loop' for e in p.events):
            ctx.need(any(e.kind == 'mutate' for e in p.events), 'solution', f.ref + ' filter', p.where(), 'some item of the chart is not reported')
    ctx.floor(n, 1, 'reported items')
    # interrupted evaluations
    f = m.func('dyna.execute.base', 'BaseSolver.__call__')
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        ex = [e for e in p.events if e.kind == 'except' and e.a and 'Timeout' in str(e.a) or e.kind == 'except' and 'KeyboardInterrupt' in str(e.a)]
        caught = any(e.kind == 'except' for e in p.events)
        if not caught:
            continue
        n += 1
        ctx.need(any(e.kind == 'setattr' and e.a[0] is me and e.a[1] == 'interrupted' and e.a[2] is TRUE for e in p.events), 'interrupt', f.ref, p.where(), 'an evaluation that was cut short is not marked as interrupted')
    ctx.counts['interrupted evaluations'] = n
    f = m.func('dyna.execute.base', 'BaseSolver.user_query')
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        runs = [e for e in p.events if e.kind == 'call' and e.a[0].k == 'call' and e.a[0].a[0] is me]
        intr = p.facts.get(Attr(me, 'interrupted'))
        n += 1
        ctx.need((intr is True and not runs) or (intr is False and bool(runs)), 'interrupt', f.ref, p.where(),
                 'an interrupted evaluation is restarted by a query' if runs else 'a query is answered before the evaluation')
    ctx.floor(n, 2, 'queries')


def choice_sites(ctx, m):
    f = m.func('dyna.program', 'Program.is_range_restricted')
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        fs = lost_of(p)
        for was, now, lost in fs:
            n += 1
            a, b = arg_of(was, 'term_vars'), arg_of(now, 'term_vars')
            ok = a is not None and b is not None and a.k == b.k == 'attr' and a.a[1] == 'head' and b.a[1] == 'body' and a.a[0] is b.a[0]
            ctx.need(ok, 'choice', f.ref, p.where(), 'the variables of a head are not compared with those of its body')
            if v in (TRUE, FALSE):
                ctx.need(v is (FALSE if lost else TRUE), 'choice', f.ref + ' answer', p.where(), f'the answer is {v} although {"some" if lost else "no"} head variable is unbound')
        if not fs and any(e.kind == 'loop' for e in p.events):
            ctx.fail('choice', f.ref + ' skipped', p.where(), 'a rule is accepted without comparing its variables')
    ctx.floor(n, 2, 'range restriction tests')
    f = m.func('dyna.program', 'Program._solver_for')
    me, s = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        none = p.facts.get(V('cmp', 'is', s, NONE))
        rr = [b for a, b in p.facts.items() if is_call(a, 'is_range_restricted') and recv(a) is me]
        w = v.a[1] if v.k == 'attr' else None
        if none is True:
            n += 1
            ok = rr and w == ('solver' if rr[0] else 'solver2') or (not rr and w == 'solver2')
            ctx.need(ok, 'choice', f.ref + (' restricted' if rr and rr[0] else ' unrestricted'), p.where(), f'{short(v)} is chosen for a program that is {"" if rr and rr[0] else "not "}range restricted')
    ctx.floor(n, 2, 'automatic choices')
    # each pass is run by a solver chosen for its own program
    k = 0
    for q in ('Program.scc_solver', 'Program.__call__'):
        f = m.func('dyna.program', q)
        me = param(f, 0)
        for p in ctx.paths(f):
            if p.kind == 'raise':
                continue
            for e in p.events:
                if e.kind != 'call' or e.a[0].k != 'call' or not is_call(e.a[0].a[0], '_solver_for') or not e.a[0].a[1]:
                    continue
                k += 1
                base = recv(e.a[0].a[0])
                prog = p.res(e.a[0].a[1][0])
                x = prog
                while True:
                    if is_call(x, 'booleanize') and recv(x) is not None:
                        x = recv(x)
                    elif x.k == 'bin' and x.a[0] == '+' and x is not base:
                        x = x.a[1]
                    else:
                        break
                ctx.need(x is base or prog is base, 'choice', f.ref + ' pass', e.where, f'the solver for {short(prog)} is chosen by looking at {short(base)}')
    ctx.floor(k, 2, 'solver choices')


# ------------------------------------------------------------------ C16
@check('C16', 'symbolic accounting of every constant and subgoal through the folding and merging loops; symbolic comparison of the closure recurrence with the Kleene formula',
       'Folding a rule multiplies every constant of its body into one coefficient and keeps every other subgoal; a rule is dropped only if that coefficient is (within tolerance) zero and a coefficient only if it '
       'is exactly one. Rules are merged only when head and all other subgoals agree up to variable names and subgoal order, by adding their coefficients, and every rule reaches the result. '
       'The linear solver stores each coefficient at the row of its head and the column of the item that matched, adds repeated ones, and closes the matrix with new[i,k] = old[i,k] + old[i,j]*star(old[j,j])*old[j,k].',
       ['semiring multiplication is commutative (the code says so)', 'coefficients below 1e-7 count as zero'])
def c16(ctx):
    m = ctx.m
    folding_rhs(ctx, m)
    split_site(ctx, m)
    merging(ctx, m)
    closure(ctx, m)
    linear_system(ctx, m)


def folding_rhs(ctx, m):
    f = m.func('dyna.program', 'Program.constant_folding_rhs')
    me, r = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        c = f.ref
        lp = [e for e in p.events if e.kind == 'loop' and isinstance(e.a[1], V) and noop(e.a[1]) is Attr(r, 'body')]
        v = p.res(p.value)
        cut = early_exit(p, [x[3] for e in lp for x in e.ctx if x[0] == 'loop' and len(x) > 3])
        ctx.need(not cut, 'fold', c + ' all', p.where(), 'not every factor of the body is considered')
        isc = {a.a[1][0]: b for a, b in p.facts.items() if is_call(a, 'is_const') and recv(a) is me}
        elem = [x for x in isc if x.k in ('sub', 'elem') and x.a[0] is Attr(r, 'body')]
        coef = None
        if lp and elem:
            x = elem[0]
            car = [e for e in p.events if e.kind == 'carry' and e.a[0] == lp[0].a[0] and strip_cv(e.a[3]) is not None]
            grown = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('append', 'extend') and contains(p.res(e.a[2]), x)]
            mul = [e for e in car if e.a[3].k == 'bin' and e.a[3].a[0] == '*' and any(underef(w) is x for w in flat(e.a[3]))]
            if isc[x]:
                ok = len(mul) == 1 and len(flat(mul[0].a[3])) == 2 and strip_phi(mul[0].a[2]) in [strip_phi(w) for w in flat(mul[0].a[3])] and not grown
                ctx.need(ok, 'fold', c + ' constant', p.where(), 'a constant is not multiplied into the coefficient exactly once')
                coef = mul[0].a[3] if mul else None
            else:
                ctx.need(len(grown) == 1 and not mul, 'fold', c + ' subgoal', p.where(), 'a subgoal is not kept exactly once')
        n += 1
        zero = [(a, b) for a, b in p.facts.items() if a.k == 'cmp' and (calls_in(a, 'metric') and 'zero' in str(a) or a.a[0] == '==' and 'zero' in str(a))]
        if v is NONE:
            ok = any(near_zero(a, b) for a, b in zero)
            ctx.need(ok, 'fold', c + ' dropped', p.where(), 'a rule is dropped although its coefficient is not zero')
            for a, b in zero:
                small = [w.a[0] for w in walk(a) if w.k == 'const' and isinstance(w.a[0], float)]
                ctx.need(all(abs(s) <= 1e-5 for s in small), 'fold', c + ' tolerance', p.where(), f'coefficients up to {small} count as zero')
            continue
        if not is_call(v, 'Rule') and v is not r:
            ctx.fail('fold', c + ' result', p.where(), f'{short(v)} is answered')
            continue
        if v is r:
            continue
        ctx.need(v.a[1][0] is Attr(r, 'head'), 'fold', c + ' head', p.where(), f'the head becomes {short(v.a[1][0])}')
        consts = [w for w in v.a[1][1:] if w.k != 'star' and w not in isc]
        ones = [b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == '==' and any(w.k == 'attr' and w.a[1] == 'one' for w in a.a[1:]) and not calls_in(a, 'metric')]
        if not consts:
            start = not lp or not elem
            ctx.need(True in ones or start or coef is None and not ones and False, 'fold', c + ' coefficient', p.where(), 'a coefficient is dropped although it is not one')
        if elem and isc[elem[0]] is False:
            kept = [e.a[0] for e in p.events if e.kind == 'mutate' and e.a[1] == 'append' and p.res(e.a[2]) is elem[0]]
            ctx.need(elem[0] in v.a[1] or any(w.k == 'star' and any(p.res(noop(w.a[0])) is p.res(k) or w.a[0].k == 'bin' and contains(w.a[0], k) for k in kept) for w in v.a[1]), 'fold', c + ' kept', p.where(), 'the remaining subgoals do not reach the result')
    ctx.floor(n, 4, 'folded rules')


def strip_cv(v):
    return v if isinstance(v, V) else None


def underef(v):
    while is_call(v, 'deref', 'snap') and v.a[1]:
        v = v.a[1][0]
    return v


def near_zero(a, b):
    if a.a[0] == '==':
        return b is True
    x, y = a.a[1], a.a[2]
    if calls_in(y, 'metric') and not calls_in(x, 'metric'):
        return b is False           # not (tol < metric)
    return b is True                # metric <= tol


def split_site(ctx, m):
    f = m.func('dyna.program', 'ConstantFolded._split_const_and_symbolic')
    pr, r = (param(f, 0), param(f, 1)) if len(f.node.args.args) == 2 else (param(f, 1), param(f, 2))
    n = 0
    body = Attr(r, 'body')
    first = Sub(body, Const(0))
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.res(p.value)
        isc = fact(p, lambda a: is_call(a, 'is_const') and a.a[1] and a.a[1][0] is first)
        ok = v.k == 'tup' and len(v.a[1]) == 2
        if ok:
            C, xs = v.a[1]
            if isc is True:
                ok = underef(C) is first and body_part(xs, {body}) == ((None, 1), None)
            else:
                ok = C.k == 'attr' and C.a[1] == 'one' and noop(xs) is body
        ctx.need(ok, 'split', f.ref, p.where(), f'a body is split into {short(v)}')
    ctx.floor(n, 2, 'splits')


def hollow(p):
    "The path iterates over a list that is known to be empty on it."
    for e in p.events:
        if e.kind == 'loop' and isinstance(e.a[1], V):
            x = p.res(noop(e.a[1]))
            if x.k == 'obj' and str(x) in ('[]', '{}', 'set()'):
                return True
    return False


def merging(ctx, m):
    f = m.func('dyna.program', 'ConstantFolded.__init__')
    par = param(f, 1)
    n = outs = 0
    c = f.ref
    chain = None
    paths = [p for p in ctx.paths(f, inline=('_subgoal_sort_key',)) if p.kind != 'raise' and not hollow(p)]
    for p in paths:
        # every folded rule is considered
        collect = [e for e in p.events if e.kind == 'loop' and isinstance(e.a[1], V) and all_rules(e.a[1], par)]
        nodes = [x[3] for e in collect for x in e.ctx if x[0] == 'loop' and x[1] == e.a[0] and len(x) > 3]
        cut = early_exit(p, nodes)
        ctx.need(not cut, 'merge', c + ' all', p.where(), 'not every rule of the program is considered')
        folds = {p.res(e.a[0]) for e in p.events if e.kind == 'call' and is_call(e.a[0], 'constant_folding_rhs')}
        for R in folds:
            none = p.facts.get(V('cmp', 'is', R, NONE))
            truthy = p.facts.get(R)
            kept = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('append', 'add') and p.res(e.a[2]) is R]
            used = [e for e in p.events if e.kind == 'setitem' and p.res(e.a[1]).k == 'call' and contains(p.res(e.a[1]), R)]
            if none is not True and truthy is not False:
                ctx.need(bool(kept or used), 'merge', c + ' folded', p.where(), 'a folded rule is not kept')
        # merging
        stores = []
        for e in p.events:
            if e.kind != 'setitem':
                continue
            key, val = p.res(e.a[1]), p.res(e.a[2])
            if val.k != 'tup' or not any(is_call(w, 'constant_folding_rhs') for w in walk(key)):
                continue
            stores.append((e, key, val))
            n += 1
            if not is_call(key, 'canonicalize'):
                ctx.fail('merge', c + ' key', e.where, 'the variables of head and subgoals are not renamed together before rules are compared')
                continue
            sk = key.a[1][0]
            parts = list(sk.a[1]) if is_call(sk, 'Term', 'Rule') or sk.k == 'tup' else []
            has_head = any(x.k == 'attr' and x.a[1] == 'head' for x in parts)
            rest = [x.a[0] if x.k == 'star' else x for x in parts if x.k == 'star' or is_call(x, 'sorted', 'tuple', 'list')]
            allx = [x for x in rest if is_xs(x)]
            ctx.need(has_head and len(allx) == 1, 'merge', c + ' key', e.where, 'rules are merged although their heads or remaining subgoals differ')
            there = [b for x, b in p.facts.items() if x.k == 'cmp' and x.a[0] == 'in' and x.a[1] is key]
            got = fact(p, lambda x: x.k == 'cmp' and x.a[0] == 'is' and is_call(x.a[1], 'get') and x.a[1].a[1][0] is key)
            tot = val.a[1][-1]
            Cn = [w for w in ([tot] if tot.k != 'bin' else [tot.a[1], tot.a[2]]) if is_C(w)]
            old = lambda w: w.k == 'sub' and (w.a[0].k == 'sub' and w.a[0].a[1] is key or is_call(w.a[0], 'get') and w.a[0].a[1][0] is key)
            if True in there or got is False:
                ok = tot.k == 'bin' and tot.a[0] == '+' and len(Cn) == 1 and any(old(w) and w not in Cn for w in tot.a[1:])
                ctx.need(ok, 'merge', c + ' sum', e.where, f'the merged coefficient is {short(tot)}, not the sum of the coefficients')
                shape = val.a[1][:-1]
                ok = all(old(w) and is_const(w.a[1], i) for i, w in enumerate(shape)) or not any(old(w) for w in shape)
                ctx.need(ok, 'merge', c + ' representative', e.where, 'the merged rule mixes the head of one rule with the subgoals of another')
            else:
                ctx.need(len(Cn) == 1 and tot.k != 'bin', 'merge', c + ' first', e.where, f'the coefficient of a new rule is {short(tot)}')
                shape = val.a[1][:-1]
                ok = any(w.k == 'attr' and w.a[1] == 'head' for w in shape) and any(is_xs(w) for w in shape)
                ctx.need(ok, 'merge', c + ' shape', e.where, 'the head or the remaining subgoals of a rule are not recorded')
        # emission of each merged rule
        res = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], '__init__') and len(e.a[0].a[1]) >= 3]
        outs += len(res)
        result = res[-1].a[0].a[1][2] if res else None
        sums = []
        for lp in [e for e in p.events if e.kind == 'loop' and isinstance(e.a[1], V)]:
            it = p.res(noop(lp.a[1]))
            if not is_call(it, 'values', 'items') or recv(it) is None or not stores:
                continue
            d = recv(it)
            if not any(p.res(st[0].a[0]) is p.res(d) for st in stores):
                continue
            comp = lambda w, k: w.k == 'sub' and is_const(w.a[1], k) and w.a[0].k in ('sub', 'elem') and p.res(w.a[0].a[0]) is p.res(d)
            ins = [e for e in p.events if any(x[0] == 'loop' and x[1] == lp.a[0] for x in e.ctx)]
            to_chart = [e for e in ins if e.kind == 'setitem']
            to_sym = [e for e in ins if e.kind == 'mutate' and e.a[1] == 'append']
            ctx.need(len(to_chart) + len(to_sym) == 1, 'merge', c + ' emitted', lp.where, 'a merged rule does not reach the result exactly once')
            none = [emptiness(a, a2) is b for a, b in p.facts.items() for a2 in [x for x in walk(a) if comp(x, 1)] if emptiness(a, a2) is not None]
            isone = [b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == '==' and any(comp(w, 2) for w in a.a[1:]) and any(w.k == 'attr' and w.a[1] == 'one' for w in a.a[1:])]
            for e in to_sym:
                v = e.a[2]
                if not is_call(v, 'Rule'):
                    ctx.fail('merge', c + ' emitted', e.where, f'{short(v)} is emitted')
                    continue
                args = list(v.a[1])
                star = [w.a[0] for w in args if w.k == 'star']
                coeff = [w for w in args[1:] if w.k != 'star']
                ctx.need(comp(args[0], 0), 'merge', c + ' emitted head', e.where, f'a merged rule is given the head {short(args[0])}')
                ctx.need(any(comp(noop(w), 1) for w in star) or True in none, 'merge', c + ' emitted subgoals', e.where, 'a merged rule loses its subgoals')
                ctx.need(any(comp(w, 2) for w in coeff) or True in isone and not coeff, 'merge', c + ' coefficient', e.where, 'a coefficient that is not one is dropped')
                ctx.need(result is not None and contains(result, e.a[0]), 'merge', c + ' result', e.where, 'merged rules do not reach the result')
            for e in to_chart:
                v = e.a[2]
                sums.append(e)
                ctx.need(v.k == 'bin' and v.a[0] == '+' and any(w.k == 'sub' and w.a[1] is e.a[1] for w in v.a[1:]) and any(comp(w, 2) for w in v.a[1:]), 'merge', c + ' chart', e.where, 'values of the same item overwrite each other')
                ctx.need(True in none, 'merge', c + ' chart', e.where, 'a rule that has subgoals is reduced to its coefficient')
                ctx.need(is_call(e.a[1], 'canonicalize') and comp(e.a[1].a[1][0], 0), 'merge', c + ' chart', e.where, f'a value is stored under {short(e.a[1])}')
        # the values of items reach the result
        for e in sums:
            ch = e.a[0]
            lp = [x for x in p.events if x.kind in ('loop', 'loop0') and isinstance(x.a[1], V) and is_call(noop(x.a[1]), 'items') and recv(noop(x.a[1])) is ch]
            ctx.need(bool(lp), 'merge', c + ' values', e.where, 'the values of items do not reach the result')
            for x in lp:
                if x.kind != 'loop':
                    continue
                em = [ev for ev in p.events if ev.kind == 'mutate' and ev.a[1] == 'append' and any(y[0] == 'loop' and y[1] == x.a[0] for y in ev.ctx)]
                ok = len(em) == 1 and is_call(em[0].a[2], 'Rule') and len(em[0].a[2].a[1]) == 2 and em[0].a[2].a[1][0].k == 'key' and em[0].a[2].a[1][1].k == 'sub' and em[0].a[2].a[1][1].a[1] is em[0].a[2].a[1][0]
                ctx.need(ok and result is not None and contains(result, em[0].a[0]), 'merge', c + ' values', x.where, 'some item and its value do not reach the result')
    ctx.floor(n, 2, 'merged rules')
    ctx.floor(outs, 1, 'results of folding')


def is_split(v):
    return is_call(v, '_split_const_and_symbolic')


def is_C(v):
    return v.k == 'sub' and is_split(v.a[0]) and is_const(v.a[1], 0) or underef(v).k == 'sub' and is_const(underef(v).a[1], 0) and underef(v).a[0].k == 'attr' and underef(v).a[0].a[1] == 'body' or v.k == 'attr' and v.a[1] == 'one'


def is_xs(v):
    v = unsort(v)
    return v.k == 'sub' and is_split(v.a[0]) and is_const(v.a[1], 1) or v.k == 'sub' and v.a[0].k == 'attr' and v.a[0].a[1] == 'body' or v.k == 'attr' and v.a[1] == 'body'


def unsort(v):
    while is_call(v, 'sorted', 'tuple', 'list') and v.a[1]:
        v = v.a[1][0]
    return v


def closure(ctx, m):
    f = m.func('dyna.execute.linear', 'kleene')
    A, sr = param(f, 0), param(f, 1)
    refl = param(f, 2)
    n = 0
    diag = 0

    def full(c):
        if not isinstance(c[2], V) or not is_call(c[2], 'range') or len(c[2].a[1]) != 1:
            return False
        x = c[2].a[1][0]
        return x.k == 'sub' and x.a[0].k == 'attr' and x.a[0].a[1] == 'shape' and x.a[1].k == 'const' or is_call(x, 'len')
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'setitem' and len(loops(e)) == 3:
                n += 1
                ls = loops(e)
                J = V('idx', ls[0][1])
                ik = e.a[1]
                ok = ik.k == 'tup' and len(ik.a[1]) == 2 and all(x.k == 'idx' for x in ik.a[1]) and all(full(c) for c in ls)
                ctx.need(ok, 'closure', f.ref + ' range', e.where, 'not every pair of items is updated for every pivot')
                if not ok:
                    continue
                i, k = ik.a[1]
                j = [c[1] for c in ls if c[1] not in (i.a[0], k.a[0])]
                v = p.res(e.a[2])
                good = ls[0][1] in j and v.k == 'bin' and v.a[0] == '+'
                if good:
                    t = [x for x in v.a[1:]]
                    direct = [x for x in t if x.k == 'sub' and x.a[1] is ik]
                    prod = [x for x in t if x not in direct]
                    good = len(direct) == 1 and len(prod) == 1
                    if good:
                        O = direct[0].a[0]
                        fs = flat(prod[0])
                        jj = [x for x in walk(prod[0]) if x.k == 'idx' and x.a[0] == j[0]]
                        jv = jj[0] if jj else None
                        T = lambda a, b: Sub(O, V('tup', 'tuple', (a, b)))
                        good = jv is not None and len(fs) == 3 and fs[0] is T(i, jv) and is_call(fs[1], 'star') and fs[1].a[1][0] is T(jv, jv) and fs[2] is T(jv, k) and O is not e.a[0]
                ctx.need(good, 'closure', f.ref + ' recurrence', e.where, f'new[i,k] = {short(v)}, not old[i,k] + old[i,j]*star(old[j,j])*old[j,k]')
            if (e.kind == 'setitem') and len(loops(e)) == 1 and full(loops(e)[0]) and e.a[1].k == 'tup' and all(x.k == 'idx' for x in e.a[1].a[1]):
                diag += 1
                i, k = e.a[1].a[1]
                v = p.res(e.a[2])
                ok = i is k and v.k == 'bin' and v.a[0] == '+' and any(w.k == 'attr' and w.a[1] == 'one' for w in v.a[1:]) and any(w.k == 'sub' and w.a[1] is e.a[1] for w in v.a[1:])
                ctx.need(ok and p.facts.get(refl) is not False, 'closure', f.ref + ' reflexive', e.where, 'the identity is not added on the diagonal')
        if p.kind == 'return' and p.facts.get(refl) is True and any(e.kind == 'loop' for e in p.events):
            pass
        # every row is processed completely
        inner = [e for e in p.events if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V)]
        rows = [e for e in inner if e.kind == 'loop' and len(loops(e)) == 2]
        for e in rows:
            sub = [x for x in inner if x is not e and [c[1] for c in loops(x)][:2] == [c[1] for c in loops(e)]]
            ok = any(full((0, 0, x.a[1])) for x in sub) or any(ev.kind == 'setitem' and len(loops(ev)) == 2 for ev in p.events)
            ctx.need(ok or p.kind == 'raise', 'closure', f.ref + ' row', e.where, 'a row is left out for some pivot')
        # the next pivot reads what this one wrote, and writes elsewhere
        cs = {(e.a[0], e.a[1]): e.a[3] for e in p.events if e.kind == 'carry'}
        for e in p.events:
            if e.kind != 'setitem' or len(loops(e)) != 3 or p.kind != 'return':
                continue
            N = e.a[0]
            rd = [w.a[0] for w in walk(e.a[2]) if w.k == 'sub' and w.a[1].k == 'tup']
            O = rd[0] if rd else None
            if O is None:
                continue
            ok = O.k == 'phi' and cs.get(O.a[:2]) is N and N is not O
            ctx.need(ok, 'closure', f.ref + ' exchange', p.where(), 'the next pivot does not start from the matrix of this one')
            if N.k == 'phi':
                ctx.need(cs.get(N.a[:2], N) is not N, 'closure', f.ref + ' exchange', p.where(), 'the next pivot overwrites the matrix that it reads')
                made = [ev for ev in p.events if ev.kind == 'call' and ev.a[0] is N.a[2]]
                ctx.need(O.k == 'phi' and (N.a[2] is not O.a[2] or len(made) > 1), 'closure', f.ref + ' buffers', p.where(), 'the same matrix is read and written')
            else:
                made = [ev for ev in p.events if ev.kind == 'call' and ev.a[0] is N and loops(ev)]
                ctx.need(bool(made), 'closure', f.ref + ' exchange', p.where(), 'the next pivot overwrites the matrix that it reads')
            ctx.need(O.k != 'phi' or contains(O.a[2], A), 'closure', f.ref + ' start', p.where(), 'the closure does not start from the given matrix')
            ctx.need(p.value is N, 'closure', f.ref + ' answer', p.where(), 'the answer is not the matrix of the last pivot')
    ctx.floor(n, 1, 'closure updates')
    ctx.need(diag >= 1, 'closure', f.ref + ' reflexive', f.where, 'the identity is not added to the closure')


def linear_system(ctx, m):
    f = m.func('dyna.execute.linear', 'kleene_linsolve.__init__')
    pr = param(f, 1)
    nM = nV = 0
    sol = 0
    chain = None
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        stored = 0
        for e in p.events:
            if e.kind == 'aug' and e.a[0] == '+' and e.a[1].k == 'sub' and loops(e):
                stored += 1
                kx = e.a[1].a[1]
                rl = [c for c in loops(e) if isinstance(c[2], V) and all_rules(c[2], pr)]
                ctx.need(bool(rl), 'system', f.ref + ' rules', e.where, 'not every rule reaches the system')
                rowk = kx.a[1][0] if kx.k == 'tup' else kx
                h = rowk.a[1][0] if is_call(rowk, 'canonicalize') else None
                ctx.need(h is not None and h.k == 'attr' and h.a[1] == 'head' and elem_of_prog(h.a[0], pr, None), 'system', f.ref + ' row', e.where, f'a coefficient is stored in the row of {short(rowk)}')
                pc = [x for x in flat(e.a[2]) if not is_infmul(x) and not (is_call(x, 'multiple'))]
                isc = {x.a[1][0]: b for x, b in p.facts.items() if is_call(x, 'is_const') and recv(x) is pr}
                const = [x for x, b in isc.items() if b is True and x.k in ('sub', 'elem')]
                accs = [x for x in pc if x not in const]
                plain = lambda x: x.k == 'attr' and x.a[1] == 'one' or x.k == 'phi' and isinstance(x.a[2], V) and x.a[2].k == 'attr' and x.a[2].a[1] == 'one' and any(ev.kind == 'loop' and ev.a[0] == x.a[0] and isinstance(ev.a[1], V) and noop(ev.a[1]).k == 'attr' and noop(ev.a[1]).a[1] == 'body' for ev in p.events)
                zero = any(ev.kind == 'loop' and isinstance(ev.a[1], V) and noop(ev.a[1]).k == 'attr' and noop(ev.a[1]).a[1] == 'body' for ev in p.events)
                ok = all(plain(x) for x in accs) and len(accs) <= 1 and all(x in pc for x in const) and (not zero or len(accs) == 1)
                ctx.need(ok, 'system', f.ref + ' coefficient', e.where, f'the coefficient is {short(e.a[2])}, not the product of the constants of the rule')
                if kx.k == 'tup':
                    nM += 1
                    col = kx.a[1][1]
                    x = col.a[1][0] if is_call(col, 'canonicalize') else None
                    matched = x is not None and x.k == 'attr' and x.a[1] == 'head' and any(is_call(w, 'lookup') for w in walk(x)) and any(w.k == 'attr' and w.a[1] == 'rules' for w in walk(x))
                    noitem = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'is' and a.a[1].k == 'attr' and a.a[1].a[1] == 'i') is True
                    ctx.need(matched or noitem and x is not None, 'system', f.ref + ' column', e.where, f'the unknown of a coefficient is {short(x if x is not None else col)}, not the item that matched')
                else:
                    nV += 1
            if e.kind == 'setitem' and loops(e) and any(is_call(w, 'chart') for w in walk(e.a[0])):
                v = p.res(e.a[2])
                ctx.need(v.k == 'bin' and v.a[0] == '+', 'system', f.ref + ' sum', e.where, 'two rules for the same entry overwrite each other')
            if e.kind == 'mutate' and e.a[1] == 'append':
                v = p.res(e.a[2])
                if is_call(v, 'Rule') and any(w.k == 'bin' and w.a[0] == '@' for w in walk(v)):
                    sol += 1
                    w = [w for w in walk(v) if w.k == 'bin' and w.a[0] == '@'][0]
                    ok = is_call(w.a[1], 'kleene') and w.a[1].a[1][0].k == 'attr' and w.a[1].a[1][0].a[1] == 'MM' and w.a[2].k == 'attr' and w.a[2].a[1] == 'VV'
                    ctx.need(ok, 'system', f.ref + ' solution', e.where, f'the solution is {short(w)}, not closure(matrix) @ constants')
                    if ok and len(w.a[1].a[1]) > 2 or ok and any(k_ == 'reflexive' for k_, _ in w.a[1].a[2]):
                        ctx.need(not any(x is FALSE for x in list(w.a[1].a[1][2:]) + [x for _, x in w.a[1].a[2]]), 'system', f.ref + ' solution', e.where, 'the closure is not reflexive')
                    x, s = v.a[1][:2]
                    same = x.k == 'sub' and s.k == 'sub' and x.a[1] is s.a[1] and x.a[1].k == 'idx'
                    ctx.need(same, 'system', f.ref + ' reported', e.where, f'item {short(x)} is reported with {short(s)}')
        for e in p.events:
            if e.kind == 'loop' and isinstance(e.a[1], V) and any(w.k == 'attr' and w.a[1] == 'ix' for w in walk(e.a[1])) and not any(ev.kind == 'mutate' and ev.a[1] == 'append' and any(c[0] == 'loop' and c[1] == e.a[0] for c in ev.ctx) for ev in p.events):
                ctx.fail('system', f.ref + ' reported', e.where, 'some unknown is not reported')
    ctx.floor(nM, 1, 'matrix entries')
    ctx.floor(nV, 1, 'constant entries')
    ctx.floor(sol, 1, 'solutions')
    f = m.func('dyna.execute.linear', 'pack_arrays.__init__')
    M, VV = param(f, 1), param(f, 2)
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'setitem' and loops(e):
                n += 1
                src = M if any(c[2] is M or isinstance(c[2], V) and contains(c[2], M) for c in loops(e)) else VV
                v, kx = p.res(e.a[2]), p.res(e.a[1])
                at = v.a[1] if v.k == 'sub' else None
                ks = list(at.a[1]) if at is not None and at.k == 'tup' else [at]
                ps = list(kx.a[1]) if kx.k == 'tup' else [kx]
                pair = is_call(loops(e)[-1][2], 'items')
                ok = len(ps) == (2 if src is M else 1)
                if ok and not pair:
                    ok = v.k == 'sub' and v.a[0] is src and len(ks) == len(ps) and all(x.k == 'call' and x.a[1] and x.a[1][0] is y for x, y in zip(ps, ks))
                elif ok:
                    ok = all(x.k == 'call' and x.a[1] for x in ps)
                    if src is M and ok:
                        ok = [x.a[1][0].a[1] for x in ps if x.a[1][0].k == 'sub'] == [Const(0), Const(1)]
                ctx.need(ok, 'system', f.ref, e.where, f'{short(v)} is stored at {short(kx)}')
    ctx.floor(n, 2, 'array entries')
