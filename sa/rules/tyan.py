"""Type analysis and constraint propagation (C30)."""
import re
from ..core import check
from ..values import V, NONE, TRUE, FALSE, fname, is_call, recv, walk, is_const, Attr, Sub
from ..util import short
from .match import param
from .execute import noop as noop0
from .transform import pieces
from .coarse import loops_of
from .query import fact, around, plain, nth


@check('C30', 'case analysis of the propagation loop, the rewriting of types and the analysis loop over all paths: which facts lead to which constraint, type or answer',
       'Each driver must meet every rule at every position joined with everything known; contradictions may only come from a failing rule, a clash or a failing builtin; types may only be dropped if contradictory or covered, constraints only if implied or about variables outside the head.',
       ['that the joins and the matching are complete is decided by C05 and C27', 'the propagation rules a user writes are taken as true', 'termination of the analysis is not decided'])
def c30(ctx):
    m = ctx.m
    propagation(ctx, m)
    chart(ctx, m)
    evaluation(ctx, m)
    rewriting(ctx, m)
    boundness(ctx, m)
    relations(ctx, m)
    preparation(ctx, m)
    analysis(ctx, m)
    relaxation(ctx, m)
    answers(ctx, m)


def noop(v):
    "v without copies"
    while v.k == 'call' and (is_call(v, 'frozenset', 'set', 'list', 'tuple', 'sorted') and len(v.a[1]) == 1 and not v.a[2] or noop0(v) is not v):
        v = noop0(v) if noop0(v) is not v else v.a[1][0]
    return noop0(v)


class last:
    path, index, ends, iters = None, {}, {}, {}


def index(p):
    if last.path is not p:
        last.path, last.index, last.ends, last.iters = p, {}, {}, {}
        for e in p.events:
            for c in e.ctx:
                if c[0] == 'loop':
                    last.index.setdefault(c[1], []).append(e)
            if e.kind == 'loopend':
                last.ends.setdefault(e.a[0], not e.a[1])
    return last


def itv(p, e):
    "what a loop iterates over"
    if not isinstance(e.a[1], V):
        return NONE
    index(p)
    if id(e) not in last.iters:
        last.iters[id(e)] = p.res(e.a[1])
    return last.iters[id(e)]


def inside(p, k):
    "what happens in the loop k"
    return index(p).index.get(k, [])


def ids(e):
    return [c[1] for c in e.ctx if c[0] == 'loop']


def ended(p, e):
    return index(p).ends.get(e.a[0], False)


def elem(v, k):
    "the element of the loop k, or its position if the loop is over positions"
    return v.k == 'idx' and v.a[0] == k or v.k == 'sub' and v.a[1].k == 'idx' and v.a[1].a[0] == k or v.k in ('key', 'elem') and any(isinstance(w, V) and elem(w, k) for w in v.a)


def at(v, k):
    return v.k == 'idx' and v.a[0] == k


def quiet(p, me):
    "the path is one without debugging output"
    D = Attr(me, 'debug')
    for a, b in p.facts.items():
        if a.k == 'cmp' and a.a[0] in ('<', '<=', '==') and D in a.a[1:3]:
            x, y = (0 if z is D else z.a[0] if z.k == 'const' else None for z in a.a[1:3])
            if isinstance(x, int) and isinstance(y, int) and b is not {'<': x < y, '<=': x <= y, '==': x == y}[a.a[0]]:
                return False
        elif a is D and b:
            return False
    return True


def cmpfact(p, op, a, b):
    return fact(p, lambda x: x.k == 'cmp' and x.a[0] == op and (a(x.a[1]) and b(x.a[2]) or op in ('==', 'is') and a(x.a[2]) and b(x.a[1])))


def is_fail(v):
    return v.k in ('global', 'name', 'ext') and str(v).split('.')[-1] == 'FAIL' or is_call(v, 'Term') and v.a[1] and is_const(v.a[1][0], '$fail') or v.k == 'const' and v.a[0] == '$fail' or str(v).split('.')[-1] == 'FAIL'


# ------------------------------------------------------------------ propagation
def propagation(ctx, m):
    R = 'propagation'
    f = m.func('dyna.propagate', 'ConstraintPropagation.__call__')
    me, D = param(f, 0), param(f, 1)
    c = f.ref
    n = {'start': 0, 'change': 0, 'paths': 0}
    RULES = Attr(me, 'rules')
    for p in ctx.paths(f):
        if p.kind == 'raise' or not quiet(p, me):
            continue
        n['paths'] += 1
        own = {}
        for e in p.events:
            if e.kind == 'setattr' and e.a[0] is me:
                own.setdefault(e.a[1], set()).add(e.a[2])
        def mine(v, name):
            v = noop(v) if v.k == 'call' else v
            return v is Attr(me, name) or v in own.get(name, ()) or p.res(v) in own.get(name, ()) and v.k != 'obj' or v.k == 'attr' and v.a[1] == 'chart' and name == 'chart' and v.a[0] in own.get('chart', ())
        upd = lambda e: e.a[0].a[1][0] if e.kind == 'call' and is_call(e.a[0], 'update') and recv(e.a[0]) is me and len(e.a[0].a[1]) == 1 else None
        loops = [e for e in p.events if e.kind in ('loop', 'loop0')]
        none = p.kind == 'return' and p.value is NONE
        why = None
        W = next((e.a[0] for e in loops if e.a[1] is None), None)
        driver = next((e for e in p.events if e.kind == 'mutate' and mine(e.a[0], 'agenda') and e.a[1] in ('pop', 'popleft', 'popitem')), None)
        dv = None
        if driver is not None:
            dv = next((w for e in p.events for x in e.a if isinstance(x, V) for w in walk(x) if is_call(w, 'pop', 'popleft') and recv(w) is driver.a[0]), None)
            dv = dv if dv is not None else V('none')
        # every input
        first = [e for e in loops if isinstance(e.a[1], V) and noop(itv(p, e)) is D]
        if ctx.need(first, R, f'{c} inputs', p.where(), 'the constraints to propagate are not read'):
            e = first[0]
            if e.kind == 'loop':
                ok = any(upd(x) is not None and elem(upd(x), e.a[0]) for x in inside(p, e.a[0])) and ended(p, e)
                ctx.need(ok, R, f'{c} inputs', e.where, 'a constraint gets lost before the propagation')
        # every rule
        for e in loops:
            if not isinstance(e.a[1], V) or noop(itv(p, e)) is not RULES:
                continue
            late = W is not None and W in ids(e)
            if e.kind == 'loop0':
                n['change' if late else 'start'] += 0
                continue
            r = next((w for x in inside(p, e.a[0]) for y in x.a if isinstance(y, V) for w in walk(y) if elem(w, e.a[0]) and w.k != 'idx'), None)
            if not ctx.need(r is not None and (none or ended(p, e)), R, f'{c} rules', e.where, 'not every rule is applied'):
                continue
            B = Attr(r, 'body')
            ins = [x for x in inside(p, e.a[0]) if x.kind in ('loop', 'loop0') and isinstance(x.a[1], V)]
            joins = [x for x in ins if is_call(x.a[1], 'join')]
            if not late:
                n['start'] += 1
                ok = len(joins) == 1 and mine(recv(joins[0].a[1]), 'chart') and len(joins[0].a[1].a[1]) == 2 and joins[0].a[1].a[1][0] is B and is_call(joins[0].a[1].a[1][1], 'Subst') and not joins[0].a[1].a[1][1].a[1]
                ctx.need(ok, R, f'{c} start', e.where, 'a rule is not matched with the constraints that are given at the start')
            else:
                ks = [x for x in ins if x not in joins and (is_call(itv(p, x), 'range', 'enumerate')) and any(w is B for w in walk(itv(p, x)))]
                if not ctx.need(len(ks) == 1, R, f'{c} positions', e.where, 'a new constraint does not meet every premise of a rule'):
                    continue
                it = itv(p, ks[0])
                full = is_call(it, 'enumerate') and tuple(it.a[1]) == (B,) or is_call(it, 'range') and len(it.a[1]) == 1 and is_call(it.a[1][0], 'len') and it.a[1][0].a[1][0] is B
                ctx.need(full and (ks[0].kind == 'loop0' or none or ended(p, ks[0])), R, f'{c} positions', ks[0].where, f'a new constraint meets only the premises {short(it)}')
                if ks[0].kind == 'loop0':
                    continue
                n['change'] += 1
                kk = ks[0].a[0]
                pos = lambda v: at(v, kk) or v.k == 'sub' and is_const(v.a[1], 0) and elem(v.a[0], kk)
                cov = {w for x in inside(p, kk) for y in x.a if isinstance(y, V) for w in walk(y) if is_call(w, 'cover') and len(w.a[1]) == 2}
                cov = [w for w in cov if w.a[1][0].k == 'sub' and w.a[1][0].a[0] is B and pos(w.a[1][0].a[1]) or w.a[1][0].k == 'sub' and is_const(w.a[1][0].a[1], 1) and elem(w.a[1][0].a[0], kk)]
                if not ctx.need(len(cov) == 1 and cov[0].a[1][1] is dv and is_call(recv(cov[0]), 'Subst'), R, f'{c} match', ks[0].where, 'a premise is not matched with the new constraint'):
                    continue
                hit = cmpfact(p, 'is', lambda x: x is cov[0], lambda x: x is NONE or is_fail(x))
                if hit is True:
                    ctx.need(not joins, R, f'{c} match', ks[0].where, 'a rule is applied to a constraint that does not match')
                    continue
                if not ctx.need(len(joins) == 1, R, f'{c} rest', ks[0].where, 'the other premises of the rule are not looked up'):
                    continue
                j = joins[0].a[1]
                rest = p.res(j.a[1][0]) if j.a[1] else NONE
                ok = mine(recv(j), 'chart') and len(j.a[1]) == 2 and j.a[1][1] is cov[0] and others(p, rest, B, pos)
                ctx.need(ok, R, f'{c} rest', joins[0].where, f'the other premises are looked up as {short(rest)}')
            for x in joins:
                if x.kind == 'loop0':
                    continue
                k = x.a[0]
                def conclusion(v):
                    return v.k == 'attr' and v.a[1] == 'head' and v.a[0].k == 'call' and elem(v.a[0].a[0], k) and len(v.a[0].a[1]) == 1 and v.a[0].a[1][0] is r or \
                        v.k == 'call' and elem(v.a[0], k) and len(v.a[1]) == 1 and v.a[1][0] is Attr(r, 'head')
                bad = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and any(conclusion(z) or z.k == 'attr' and z.a[1] == 'fn' and conclusion(z.a[0]) for z in a.a[1:3]) and any(is_fail(z) for z in a.a[1:3]))
                if bad is True:
                    why = 'rule'
                    ctx.need(none, R, f'{c} contradiction', x.where, 'a contradiction is derived, but the propagation goes on')
                    continue
                got = [y for y in inside(p, k) if upd(y) is not None and conclusion(upd(y))]
                ctx.need(got, R, f'{c} conclusion', x.where, 'the conclusion of a rule is lost')
                ctx.need(bad is False, R, f'{c} contradiction', x.where, 'a contradiction that a rule derives is not noticed')
                ctx.need(none or ended(p, x), R, f'{c} conclusion', x.where, 'only some of the matches of a rule are used')
        # builtins
        chk = [e for e in loops if isinstance(e.a[1], V) and is_call(e.a[1], 'check') and recv(e.a[1]) is me]
        checked = [e for e in p.events if e.kind == 'mutate' and mine(e.a[0], 'checked') and e.a[1] == 'add']
        isfn = lambda v, s: cmpfact(p, '==', lambda x: x is Attr(v, 'fn'), lambda x: is_const(x, s))
        if dv is not None and not none:
            ctx.need(chk, R, f'{c} builtins', p.where(), 'builtin constraints are not evaluated')
            ctx.need(any(isinstance(e.a[1], V) and noop(itv(p, e)) is RULES and W in ids(e) for e in loops), R, f'{c} rules', p.where(), 'a new constraint does not meet the rules')
            hk = [e for e in loops if isinstance(e.a[1], V) and noop(itv(p, e)) is Attr(me, 'propagation_hooks')]
            if ctx.need(hk, R, f'{c} hooks', p.where(), 'the propagation hooks are not called') and hk[0].kind == 'loop':
                ok = ended(p, hk[0]) and any(x.kind == 'call' and elem(x.a[0].a[0], hk[0].a[0]) and tuple(x.a[0].a[1]) == (me, dv) for x in inside(p, hk[0].a[0]))
                ctx.need(ok, R, f'{c} hooks', hk[0].where, 'a propagation hook does not see the new constraint')
        allowed = set()
        for e in chk:
            if e.kind != 'loop':
                continue
            k = e.a[0]
            ctx.need(tuple(e.a[1].a[1]) == (dv,), R, f'{c} builtins', e.where, f'{short(e.a[1])} is evaluated, not the new constraint')
            y = lambda v: elem(v, k)
            wait = cmpfact(p, 'is', y, lambda x: str(x).endswith('Ellipsis'))
            no = cmpfact(p, 'is', y, lambda x: x is NONE)
            marks = [x for x in checked if x in inside(p, k)]
            if wait is True:
                ctx.need(not marks, R, f'{c} checked', e.where, 'a constraint that is not ready counts as checked')
                continue
            allowed |= set(map(id, marks))
            if no is True:
                why = 'builtin'
                ctx.need(none, R, f'{c} contradiction', e.where, 'a builtin constraint fails, but the propagation goes on')
                continue
            if none and no is None:
                continue
            it = [x for x in inside(p, k) if x.kind in ('loop', 'loop0') and isinstance(x.a[1], V) and any(y(w) for w in walk(itv(p, x)))]
            ok = bool(it)
            for x in it:
                if x.kind == 'loop' and is_call(itv(p, x), 'scons'):
                    ok = y(itv(p, x).a[1][0]) and any(upd(z) is not None and elem(upd(z), x.a[0]) for z in inside(p, x.a[0])) and ended(p, x)
                elif x.kind == 'loop':
                    ok = any(upd(z) is not None and is_call(upd(z), 'Term') and len(upd(z).a[1]) == 3 and is_const(upd(z).a[1][0], '=') and upd(z).a[1][1] is not upd(z).a[1][2] for z in inside(p, x.a[0])) and ended(p, x)
            ctx.need(ok, R, f'{c} results', e.where, 'the result of a builtin constraint is lost')
            ctx.need(wait is False and no is False, R, f'{c} builtins', e.where, 'the answer of a builtin constraint is not examined')
        # equalities
        if dv is not None:
            X, Y = Sub(Attr(dv, 'args'), V('const', 0)), Sub(Attr(dv, 'args'), V('const', 1))
            eq = isfn(dv, '=')
            if eq is True:
                isvar = lambda z: fact(p, lambda a: a.k == 'call' and a.a[1] and a.a[1][0] is z and (is_call(a, 'is_var') or is_call(a, 'isinstance') and str(a.a[1][1]).split('.')[-1] == 'Var'))
                same = cmpfact(p, '==', lambda x: x is X, lambda x: x is Y)
                clash = isvar(X) is False and isvar(Y) is False and same is False
                if clash:
                    why = why or 'clash'
                    ctx.need(none, R, f'{c} clash', p.where(), 'two different values are equal, but the propagation goes on')
                elif not none:
                    ctx.need(same is True or isvar(X) is True or isvar(Y) is True, R, f'{c} clash', p.where(), 'an equality of two values is not compared')
                    bnd = [e for e in p.events if e.kind == 'mutate' and mine(e.a[0], 'bindings') and e.a[1] in ('append', 'add')]
                    ctx.need(any(e.a[2] is dv for e in bnd), R, f'{c} bindings', p.where(), 'an equality is not recorded')
                    if same is not True:
                        lp = [e for e in loops if isinstance(e.a[1], V) and W in ids(e) and mine(itv(p, e), 'chart') and (e.kind == 'loop0' or any(is_call(w, 'replace_in_expr') for x in inside(p, e.a[0]) for y in x.a if isinstance(y, V) for w in walk(y)) or
                                                                                           any(isfn_elem(p, e.a[0], '=', b) for b in (True,)) or notterm(p, e.a[0]))]
                        if ctx.need(lp, R, f'{c} replaced', p.where(), 'an equality is not applied to the other constraints'):
                            for e in lp:
                                if e.kind == 'loop0' or isfn_elem(p, e.a[0], '=', True) or notterm(p, e.a[0]):
                                    continue
                                rs = [upd(x) for x in inside(p, e.a[0]) if upd(x) is not None and is_call(upd(x), 'replace_in_expr')]
                                ab = {tuple(z.a[1][1:]) for z in rs if len(z.a[1]) == 3 and elem(z.a[1][0], e.a[0])}
                                if not rs and retry_loop(p, e.a[0]):
                                    continue
                                ctx.need((X, Y) in ab and (Y, X) in ab and ended(p, e), R, f'{c} replaced', e.where, 'an equality is not applied in both directions to every constraint')
                    lp = [e for e in loops if isinstance(e.a[1], V) and W in ids(e) and mine(itv(p, e), 'chart')]
                    again = [e for e in lp if e.kind == 'loop0' or retry_loop(p, e.a[0])]
                    ctx.need(again or len(lp) >= 2 - (same is True), R, f'{c} retried', p.where(), 'builtin constraints that an equality makes ready are not evaluated again')
                    for e in again:
                        if e.kind == 'loop' and fact(p, lambda a: is_call(a, 'is_ready') and elem(a.a[1][0], e.a[0])) is True:
                            ok = any(x.kind == 'mutate' and mine(x.a[0], 'agenda') and (x.a[1] == 'add' and elem(x.a[2], e.a[0]) and x in inside(p, e.a[0]) or x.a[1] in ('update', 'ior') and any(elem(q.v, e.a[0]) for q in pieces(p, x.a[2]))) for x in p.events)
                            ctx.need(ok, R, f'{c} retried', e.where, 'a builtin constraint that an equality makes ready is not evaluated again')
                allowed |= {id(x) for x in checked if not (chk and chk[0].kind == 'loop' and x in inside(p, chk[0].a[0]))}
        for x in checked:
            ctx.need(id(x) in allowed and (x.a[2] is dv), R, f'{c} checked', x.where, f'{short(x.a[2])} counts as checked')
        # answers
        if p.kind == 'return':
            if none:
                ctx.need(why is not None, R, f'{c} answer', p.where(), 'the constraints count as contradictory although no contradiction was found')
            else:
                empty = fact(p, lambda a: mine(a, 'agenda'))
                ctx.need(mine(p.value, 'chart'), R, f'{c} answer', p.where(), f'the answer is {short(p.value)}')
                ctx.need(empty is False or any(e.kind in ('loop', 'loop0') and e.a[1] is None and ended(p, e) for e in loops), R, f'{c} answer', p.where(), 'the propagation ends before every new constraint was processed')
    ctx.floor(n['start'], 1, 'rules matched at the start')
    ctx.floor(n['change'], 1, 'rules matched with a new constraint')


def isfn_elem(p, k, name, b):
    return fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and any(z.k == 'attr' and z.a[1] == 'fn' and elem(z.a[0], k) for z in a.a[1:3]) and any(is_const(z, name) for z in a.a[1:3])) is b


def notterm(p, k):
    return fact(p, lambda a: is_call(a, 'isinstance') and elem(a.a[1][0], k)) is False


def retry_loop(p, k):
    return any(a.k == 'cmp' and a.a[0] == '==' and any(is_const(z, 'is') for z in a.a[1:3]) and any(elem(w, k) for z in a.a[1:3] for w in walk(z)) or is_call(a, 'is_ready') and elem(a.a[1][0], k) for a in p.facts) or notterm(p, k)


def others(p, rest, B, pos):
    "the premises without the one at the position"
    if rest.k == 'bin' and rest.a[0] == '+':
        xs = [rest.a[1], rest.a[2]]
    elif rest.k == 'tup' and len(rest.a[1]) == 1 and rest.a[1][0].k == 'star' and rest.a[1][0].a[0].k != 'sub':
        return others(p, p.res(rest.a[1][0].a[0]), B, pos)
    elif rest.k == 'tup':
        xs = [x.a[0] if x.k == 'star' else x for x in rest.a[1]]
    else:
        ps = pieces(p, rest)
        return len(ps) == 1 and any(b is False and a.k == 'cmp' and a.a[0] == '==' and any(pos(z) for z in a.a[1:3]) for a, b in p.facts.items())
    xs = [noop(x) if x.k == 'call' else x for x in xs]
    if len(xs) != 2 or any(x.k != 'sub' or x.a[0] is not B or x.a[1].k != 'slice' for x in xs):
        return False
    lo, hi = xs[0].a[1], xs[1].a[1]
    nxt = lambda v: v.k == 'bin' and v.a[0] == '+' and (pos(v.a[1]) and is_const(v.a[2], 1) or pos(v.a[2]) and is_const(v.a[1], 1))
    return is_const(lo.a[0], None, 0) and pos(lo.a[1]) and nxt(hi.a[0]) and is_const(hi.a[1], None)


def chart(ctx, m):
    R = 'known'
    f = m.func('dyna.propagate', 'ConstraintPropagation.update')
    me, x = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        new = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is x and a.a[2].k == 'attr' and a.a[2].a[1] == 'chart')
        ag = any(e.kind == 'mutate' and e.a[0] is Attr(me, 'agenda') and e.a[1] in ('add', 'append') and e.a[2] is x for e in p.events)
        ch = any(e.kind == 'mutate' and e.a[0].k == 'attr' and any(w is Attr(me, 'chart') for w in walk(e.a[0])) and e.a[1] in ('add', 'update') and e.a[2] is x for e in p.events)
        if new is not True:
            ctx.need(ag and ch, R, f.ref, p.where(), f'a new constraint is not {"processed" if not ag else "kept"}')
    f = m.func('dyna.propagate', 'Chart.update', required=False)
    if f is not None:
        me, x = param(f, 0), param(f, 1)
        for p in ctx.paths(f):
            ctx.need(any(e.kind == 'mutate' and e.a[0] is Attr(me, 'chart') and e.a[1] == 'add' and e.a[2] is x for e in p.events), R, f.ref, p.where(), 'a new constraint is not kept')
    f = m.func('dyna.propagate', 'Chart.lookup')
    me, q, s = param(f, 0), param(f, 1), param(f, 2)
    n = 0
    for p in ctx.paths(f):
        lp = [e for e in p.events if e.kind == 'loop']
        ys = [e for e in p.events if e.kind == 'yield']
        if not lp:
            ctx.need(not ys, R, f.ref, p.where(), 'an answer without a constraint')
            continue
        e = lp[0]
        n += 1
        it = noop(itv(p, e))
        ctx.need(it in (Attr(me, 'chart'), me) and ended(p, e), R, f.ref, e.where, f'only {short(it)} is looked up')
        cov = [w for w in {x.a[0] for x in inside(p, e.a[0]) if x.kind == 'call'} if is_call(w, 'cover')]
        if not ctx.need(len(cov) == 1 and len(cov[0].a[1]) == 2 and cov[0].a[1][0] is q and elem(cov[0].a[1][1], e.a[0]) and is_call(recv(cov[0]), 'copy') and recv(recv(cov[0])) is s,
                        R, f'{f.ref} match', e.where, 'a constraint is matched in another way than the premise with a copy of the bindings'):
            continue
        no = cmpfact(p, 'is', lambda x: x is cov[0], lambda x: x is NONE or is_fail(x))
        ctx.need((len(ys) == 1 and ys[0].a[0] is cov[0]) == (no is False) and no is not None, R, f'{f.ref} answer', e.where, 'a match is lost or invented')
    ctx.floor(n, 1, 'lookups of constraints')
    f = m.func('dyna.propagate', 'Chart.join')
    me, xs, s = param(f, 0), param(f, 1), param(f, 2)
    for p in ctx.paths(f):
        empty = fact(p, lambda a: a is xs)
        ys = [e for e in p.events if e.kind in ('yield', 'yieldfrom')]
        if empty is False:
            ctx.need(len(ys) == 1 and ys[0].kind == 'yield' and ys[0].a[0] is s, R, f'{f.ref} end', p.where(), 'an empty conjunction does not hold once')
        elif empty is True:
            lp = [e for e in p.events if e.kind in ('loop', 'loop0') and is_call(e.a[1], 'lookup')]
            if ctx.need(len(lp) == 1 and nth(lp[0].a[1].a[1][0], xs, 0) and any(w is s for w in walk(lp[0].a[1].a[1][1])), R, f'{f.ref} first', p.where(), 'the first premise is not looked up') and lp[0].kind == 'loop':
                k = lp[0].a[0]
                rec = [w for e in inside(p, k) for x in e.a if isinstance(x, V) for w in walk(x) if is_call(w, 'join')]
                ok = bool(rec) and all(w is rec[0] for w in rec)
                if ok:
                    a = rec[0].a[1]
                    ok = len(a) == 2 and a[0].k == 'sub' and a[0].a[0] is xs and a[0].a[1].k == 'slice' and is_const(a[0].a[1].a[0], 1) and is_const(a[0].a[1].a[1], None) and (elem(a[1], k) or fact(p, lambda z: z.k == 'cmp' and z.a[0] == 'is' and any('Ellipsis' in str(u) for u in z.a[1:3])) is True)
                ctx.need(ok and ended(p, lp[0]), R, f'{f.ref} rest', lp[0].where, 'the other premises are not joined with every match of the first one')


def evaluation(ctx, m):
    R = 'evidence'
    f = m.func('dyna.propagate', 'ConstraintPropagation.check')
    me, q = param(f, 0), param(f, 1)
    c = f.ref
    n = 0
    for p in ctx.paths(f):
        ready = fact(p, lambda a: is_call(a, 'is_ready'))
        counted = {e.a[3] for e in p.events if e.kind == 'carry' and isinstance(e.a[3], V) and e.a[3].k == 'bin' and e.a[3].a[0] == '+' and any(is_const(z, 1) for z in e.a[3].a[1:3])}
        if any(a.k == 'cmp' and a.a[0] == '==' and b and any(z in counted for z in a.a[1:3]) and any(is_const(z, 0) for z in a.a[1:3]) for a, b in p.facts.items()):
            continue     # a counter of the answers is not zero after one
        run = [e for e in p.events if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V) and e.a[1].k == 'call' and e.a[1].a[1] and is_call(e.a[1].a[1][0], 'fresh') and e.a[1].a[1][0].a[1][0] is q]
        itself = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is q and a.a[2].k == 'attr' and a.a[2].a[1] == 'chart')
        known = any(fname(w) == 'query' or w.k == 'closure' for e in p.events for x in e.a if isinstance(x, V) for w in walk(x))
        for e in p.events:
            if e.kind == 'yieldfrom':
                v = e.a[0]
                if is_call(v, 'check') and v.a[1]:
                    t = v.a[1][0]
                    ok = is_call(t, 'Term') and len(t.a[1]) == 3 and is_const(t.a[1][0], 'is') and is_const(t.a[1][1], True) and t.a[1][2] is q
                    ctx.need(ok, R, f'{c} comparison', e.where, f'a comparison is evaluated as {short(t)}')
                continue
            if e.kind != 'yield':
                continue
            v = e.a[0]
            if str(v).endswith('Ellipsis'):
                ctx.need(ready is not True, R, f'{c} ready', e.where, 'a builtin constraint that is ready is not evaluated')
                continue
            n += 1
            if run:
                ctx.need(ready is True, R, f'{c} ready', e.where, 'a builtin constraint is evaluated before it is ready')
                if v is NONE:
                    ctx.need(all(x.kind == 'loop0' for x in run), R, f'{c} failed', e.where, 'a builtin constraint counts as failed although it has an answer')
                else:
                    ok = any(x.kind == 'loop' and x.a[0] in ids(e) for x in run) and is_call(v, 'mgu') and len(v.a[1]) == 2
                    if ok:
                        a, b = v.a[1]
                        g = lambda z: any(is_call(w, 'fresh') and w.a[1][0] is q for w in walk(z))
                        ok = g(a) and b is q or g(b) and a is q
                    ctx.need(ok, R, f'{c} result', e.where, f'the result of a builtin constraint is {short(v)}')
            elif v is not NONE:
                ctx.need(itself is not True, R, f'{c}', e.where, 'a constraint counts as implied by the others because it is itself among them')
    ctx.floor(n, 2, 'evaluated constraints')


# ------------------------------------------------------------------ rewriting
def rewriting(ctx, m):
    R = 'rewriting'
    f = m.func('dyna.analyze.rewrites', 'Rewrites.__call__')
    me, r0 = param(f, 0), param(f, 1)
    c = f.ref
    n = 0
    argn = lambda name: lambda a: a.k == 'param' and a.a[1] == name
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        CP = {w for e in p.events if e.kind == 'call' for w in [e.a[0]] if w.a[0].k == 'attr' and w.a[0].a[0] is me and w.a[0].a[1].startswith('cp') and len(w.a[1]) == 1}
        merge = fact(p, argn('ALLOW_FREE_MERGE'))
        insts = fact(p, argn('USE_INSTS'))
        dc = fact(p, argn('drop_checked'))
        if not ctx.need(len(CP) == 1, R, f'{c} propagated', p.where(), 'the constraints of the type are not propagated'):
            continue
        K = next(iter(CP))
        cp = K.a[0]
        rr = K.a[1][0].a[0] if K.a[1][0].k == 'attr' and K.a[1][0].a[1] == 'body' else None
        ctx.need(rr is not None and (rr is r0 or is_call(rr, 'deref', 'fresh') and rr.a[1][0] is r0), R, f'{c} propagated', p.where(), f'{short(K.a[1][0])} is propagated')
        if merge is not None:
            ctx.need((cp.a[1] == 'cp') == merge, R, f'{c} merging', p.where(), 'free variables are merged although they must not' if merge is False else 'free variables are kept apart although they may be merged')
        dead = cmpfact(p, 'is', lambda x: x is K, lambda x: x is NONE)
        v = p.value
        if dead is True:
            ctx.need(v is NONE, R, f'{c} empty', p.where(), 'a contradictory type is not empty')
            continue
        ctx.need(dead is False, R, f'{c} empty', p.where(), 'a contradiction is not noticed')
        if v is NONE:
            ctx.need(merge is False and insts is True, R, f'{c} empty', p.where(), 'a type is dropped although its constraints do not contradict each other')
            continue
        if not ctx.need(is_call(v, 'Rule') and v.a[1], R, f'{c} type', p.where(), f'a type is rewritten to {short(v)}'):
            continue
        h = v.a[1][0]
        S = h.a[0] if h.k == 'call' and len(h.a[1]) == 1 and h.a[1][0] is Attr(rr, 'head') else None
        ctx.need(S is not None and is_call(S, 'Subst'), R, f'{c} head', p.where(), f'the head of the rewritten type is {short(h)}')
        rest = [x.a[0] for x in v.a[1][1:] if x.k == 'star']
        if not ctx.need(len(rest) == 1 and len(v.a[1]) == 2, R, f'{c} body', p.where(), f'the rewritten type is {short(v)}'):
            continue
        b = rest[0]
        if b.k == 'bin' and b.a[0] == '-':
            keep, drop = b.a[1], b.a[2]
        elif is_call(b, 'difference'):
            keep, drop = recv(b), b.a[1][0]
        else:
            keep, drop = b, None
        ks = pieces(p, keep)
        lp = [e for e in p.events if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V) and noop(itv(p, e)) is K]
        for e in lp[:1]:
            if e.kind == 'loop':
                term = not notterm(p, e.a[0])
                skip = isfn_elem(p, e.a[0], '=', True) or not term
                mine = [q for q in ks if q.kind == 'one' and any(elem(w, e.a[0]) for w in walk(q.v))]
                ctx.need((len(mine) == 1) != skip and ended(p, e), R, f'{c} constraints', e.where, 'a constraint gets lost' if not skip else 'an equality that was applied is kept')
                for q in mine:
                    ok = q.v.k == 'call' and len(q.v.a[1]) == 1 and elem(q.v.a[1][0], e.a[0]) and is_call(q.v.a[0], 'Subst')
                    ctx.need(ok, R, f'{c} constraints', e.where, f'a constraint is kept as {short(q.v)}')
        ctx.need(lp, R, f'{c} constraints', p.where(), 'the propagated constraints are not what is kept')
        # what is dropped
        if drop is not None:
            d0 = p.res(drop)
            chk = any(w.k == 'attr' and w.a[1] == 'checked' for w in walk(drop)) or any(w.k == 'attr' and w.a[1] == 'checked' for w in walk(d0))
            ctx.need(dc is True if chk else dc is not True, R, f'{c} checked', p.where(), 'checked constraints are dropped although they were asked for' if chk else 'checked constraints are not dropped')
            if chk:
                ctx.need(any(w is Attr(cp, 'checked') for w in walk(drop)) or any(w is Attr(cp, 'checked') for w in walk(d0)), R, f'{c} checked', p.where(), 'the checked constraints are those of another propagation')
            for e in p.events:
                if e.kind != 'mutate' or e.a[0] is not drop or e.a[1] not in ('add', 'update', 'discard', 'remove'):
                    continue
                if not ctx.need(e.a[1] == 'add' and is_call(e.a[2], 'Term') and len(e.a[2].a[1]) == 2 and is_const(e.a[2].a[1][0], '$bound', '$free'), R, f'{c} dropped', e.where, f'{short(e.a[2])} is dropped'):
                    continue
                X = e.a[2].a[1][1]
                kind = e.a[2].a[1][0].a[0]
                ks_ = ids(e)
                it = next((x for x in p.events if x.kind == 'loop' and ks_ and x.a[0] == ks_[-1]), None)
                if it is None or not ctx.need(elem(X, it.a[0]) or any(elem(w, k) for k in ks_ for w in walk(X)) or any(y.kind == 'mutate' and y.a[0] is it.a[1] and y.a[1] == 'add' and y.a[2] is X for y in p.events), R, f'{c} dropped', e.where, f'{short(e.a[2])} is dropped'):
                    continue
                V0 = it.a[1]
                ground = V0.k == 'bin' and V0.a[0] == '&' or fact(p, lambda a: is_call(a, 'is_var') and a.a[1][0] is X) is False or fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is X) is True
                if kind == '$bound':
                    ctx.need(ground and insts is True, R, f'{c} bound', e.where, 'it is dropped that a variable is bound')
                else:
                    other = any(a.k == 'cmp' and a.a[0] == 'in' and b is True and any(is_call(w, 'term_vars') for w in walk(a)) for a, b in p.facts.items())
                    ctx.need(insts is True and merge is True and (ground or other), R, f'{c} free', e.where, 'it is dropped that a variable is free')
        else:
            ctx.need(dc is not True, R, f'{c} checked', p.where(), 'checked constraints are not dropped')
    ctx.floor(n, 3, 'rewritten types')


def boundness(ctx, m):
    R = 'bound'
    f = m.func('dyna.analyze.rewrites', 'Rewrites._propagation_hook_bound', required=False)
    if f is None:
        return ctx.ob(R, 'no hook', '')
    i = m.func('dyna.analyze.rewrites', 'Rewrites.__init__')
    me, rules = param(i, 0), param(i, 1)
    for p in ctx.paths(i):
        if p.kind == 'raise':
            continue
        made = {e.a[1]: e.a[2] for e in p.events if e.kind == 'setattr' and e.a[0] is me and is_call(e.a[2], 'ConstraintPropagation')}
        for name in ('cp', 'cp_no_free_merge'):
            v = made.get(name)
            if not ctx.need(v is not None, R, f'{i.ref} {name}', p.where(), 'a propagation is not set up'):
                continue
            arg = v.a[1][0] if v.a[1] else dict(v.a[2]).get('rules')
            ctx.need(arg is not None and any(w is rules for w in walk(arg)), R, f'{i.ref} {name}', p.where(), 'the rules of the user are not propagated')
            text = ' '.join(str(w.a[0]) for w in walk(arg) if w.k == 'const' and isinstance(w.a[0], str)) if arg is not None else ''
            text = re.sub(r'\s+', '', text)
            clash = '$fail:-$free(X),$bound(X).' in text or '$fail:-$bound(X),$free(X).' in text
            ctx.need(clash == (name != 'cp'), R, f'{i.ref} {name} clash', p.where(), 'free and bound are taken for a contradiction' if clash else 'free and bound are not taken for a contradiction')
            hk = dict(v.a[2]).get('propagation_hooks') or (v.a[1][2] if len(v.a[1]) > 2 else None)
            hs = p.res(hk) if hk is not None else NONE
            ctx.need(any(w.k == 'attr' and w.a[1] == '_propagation_hook_bound' or '_propagation_hook_bound' in str(w) for w in walk(hs)), R, f'{i.ref} {name} hook', p.where(), 'what is bound is not propagated to its parts')


# ------------------------------------------------------------------ relations between types
def relations(ctx, m):
    R = 'relations'
    f = m.func('dyna.analyze.rewrites', 'Rewrites.intersect')
    me, r, s = (param(f, i) for i in range(3))
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        mg = next((e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'mgu')), None)
        if mg is None:
            continue
        n += 1
        t = mg.a[1][1].a[0] if len(mg.a[1]) == 2 and mg.a[1][1].k == 'attr' and mg.a[1][0] is Attr(r, 'head') else mg.a[1][0].a[0] if len(mg.a[1]) == 2 and mg.a[1][0].k == 'attr' else NONE
        no = cmpfact(p, 'is', lambda x: x is mg, lambda x: x is NONE or is_fail(x))
        v = p.value
        if no is True:
            ctx.need(v is NONE, R, f'{f.ref} heads', p.where(), 'types with different heads have an intersection')
            continue
        rule = next((w for w in walk(v) if is_call(w, 'Rule')), None)
        if not ctx.need(rule is not None and v.k == 'call', R, f'{f.ref} type', p.where(), f'the intersection is {short(v)}'):
            continue
        st = [x.a[0] for x in rule.a[1][1:] if x.k == 'star']
        bodies = {x.a[0] for x in st if x.k == 'attr' and x.a[1] == 'body'}
        ok = bodies == {r, t} or bodies == {t, r} if t is not NONE else False
        ctx.need(ok and any(is_call(x, 'scons') and x.a[1][0] is mg for x in st), R, f'{f.ref} constraints', p.where(), f'the intersection has the constraints {", ".join(short(x) for x in st)}')
    f = m.func('dyna.analyze.rewrites', 'Rewrites.covers')
    me, r, s = (param(f, i) for i in range(3))
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        calls = {e.a[0] for e in p.events if e.kind == 'call' and e.a[0].a[0] is me}
        mg = next((e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'mgu')), None)
        no = cmpfact(p, 'is', lambda x: x is mg, lambda x: x is NONE or is_fail(x)) if mg is not None else None
        if no is True:
            ctx.need(v is NONE or v is FALSE, R, f'{f.ref} heads', p.where(), 'a type covers one with another head')
            continue
        S = next((w for w in calls if w.a[1] and w.a[1][0] is s), None)
        T = next((w for w in calls if w.a[1] and is_call(w.a[1][0], 'Rule') and {z.a[0].a[0] for z in w.a[1][0].a[1] if z.k == 'star' and z.a[0].k == 'attr' and z.a[0].a[1] == 'body'} == {r, s}), None)
        if not ctx.need(S is not None and T is not None, R, f'{f.ref} types', p.where(), 'the types that are compared are not the covered type and the intersection'):
            continue
        st = [z.a[0] for z in T.a[1][0].a[1] if z.k == 'star']
        ctx.need(any(is_call(z, 'scons') and z.a[1][0] is mg for z in st), R, f'{f.ref} constraints', p.where(), 'the bindings of the heads are not part of the intersection')
        nm = dict(T.a[2]).get('ALLOW_FREE_MERGE')
        ctx.need(nm is FALSE, R, f'{f.ref} merging', p.where(), 'free variables of the two types are merged')
        isnone = lambda X: cmpfact(p, 'is', lambda x: x is X, lambda x: x is NONE)
        if isnone(S) is True:
            ctx.need(v is TRUE, R, f'{f.ref} empty', p.where(), 'an empty type is not covered')
            continue
        if v is TRUE:
            ctx.fail(R, f'{f.ref} answer', p.where(), 'a type covers another without comparison')
        elif v is FALSE or v is NONE:
            Rr = [w for w in calls if w is not S and w is not T]
            ok = any(b is not o for a, b in p.facts.items() for o in [has_all(a, S, T)] if o is not None) or isnone(T) is True or any(isnone(w) is True for w in Rr) or cmpfact(p, '==', lambda x: x is Attr(S, 'head'), lambda x: x is Attr(T, 'head')) is False
            ctx.need(ok, R, f'{f.ref} answer', p.where(), 'a type does not cover another although nothing was compared')
        else:
            heads = cmpfact(p, '==', lambda x: x is Attr(S, 'head'), lambda x: x is Attr(T, 'head'))
            ctx.need(heads is True or any(w.k == 'cmp' and w.a[0] == '==' and {w.a[1], w.a[2]} == {Attr(S, 'head'), Attr(T, 'head')} for w in walk(v)), R, f'{f.ref} answer', p.where(), 'the heads are not compared')
            order = next((o for w in walk(v) for o in [has_all(w, S, T)] if o is not None), None)
            neg = v.k == 'un'
            if order is None and any(b is o for a, b in p.facts.items() for o in [has_all(a, S, T)] if o is not None):
                continue     # compared before
            if order is None:
                ctx.fail(R, f'{f.ref} answer', p.where(), f'a type covers another if {short(v)}')
                continue
            ctx.need(order != neg, R, f'{f.ref} answer', p.where(), f'a type covers another if {short(v)}')
    for q, ok in (('same', lambda p, me, a, b: any(is_call(w, 'covers') and tuple(w.a[1]) == (a, b) for e in p.events if e.kind == 'call' for w in [e.a[0]])),
                  ('disjoint', lambda p, me, a, b: any(is_call(w, 'intersect') and set(w.a[1]) == {a, b} for e in p.events if e.kind == 'call' for w in [e.a[0]]))):
        f = m.func('dyna.analyze.rewrites', 'Rewrites.' + q, required=False)
        if f is None:
            continue
        me, a, b = (param(f, i) for i in range(3))
        for p in ctx.paths(f):
            if p.kind == 'return':
                ctx.need(ok(p, me, a, b), R, f.ref, p.where(), 'the types are not compared')
                if q == 'same':
                    cs = {e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'covers')}
                    vals = {w: fact(p, lambda z: z is w) for w in cs}
                    yes = p.value is TRUE or p.value in cs and vals[p.value] is not False
                    if yes:
                        both = {tuple(w.a[1]) for w in cs if vals[w] is True or p.value is w}
                        ctx.need(both == {(a, b), (b, a)}, R, f.ref, p.where(), 'types are the same although only one covers the other')
                else:
                    w = next((e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'intersect')), None)
                    v = p.value
                    b_ = cmpfact(p, 'is', lambda x: x is w, lambda x: x is NONE)
                    if v is TRUE or v is FALSE:
                        ctx.need(b_ is (v is TRUE), R, f.ref, p.where(), 'types are disjoint although they have an intersection')
                    else:
                        ctx.need(v.k == 'cmp' and v.a[0] == 'is' and w in v.a[1:3] and NONE in v.a[1:3], R, f.ref, p.where(), f'types are disjoint if {short(v)}')
    f = m.func('dyna.analyze.rewrites', 'Rewrites.dedup')
    me, a = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind == 'return':
            mgs = next((w for w in walk(p.value) if is_call(w, 'MostGeneralSet')), None)
            ctx.need(mgs is not None and len(mgs.a[1]) == 2 and mgs.a[1][0] is a and mgs.a[1][1] is Attr(me, 'covers') and is_call(p.value, 'spawn'), R, f.ref, p.where(), f'redundant types are dropped as {short(p.value)}')
    f = m.func('dyna.analyze.rewrites', 'Rewrites.disjoin')
    me, a = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        lp = [e for e in p.events if e.kind == 'loop' and isinstance(e.a[1], V)]
        hit = fact(p, lambda z: is_call(z, 'intersect') or z.k == 'cmp' and z.a[0] == 'is' and NONE in z.a[1:3] and any(is_call(w, 'intersect') for w in z.a[1:3]))
        hit = not hit if hit is not None and any(z.k == 'cmp' and any(is_call(w, 'intersect') for w in walk(z)) for z in p.facts) else hit
        muts = [e for e in p.events if e.kind == 'mutate']
        if hit is True:
            n += 1
            x = next(e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'intersect'))
            gone = {e.a[2] for e in muts if e.a[1] in ('remove', 'discard')}
            for e in muts:
                for w in walk(e.a[0]):
                    if w.k == 'bin' and w.a[0] == '-':
                        gone |= {q.v for q in pieces(p, w.a[2])}
                if e.a[1] in ('isub', 'difference_update'):
                    gone |= {q.v for z in e.a[2:] if isinstance(z, V) for q in pieces(p, z)}
            new = [e for e in muts if e.a[1] in ('add', 'append') and not (e.a[2].k == 'tup' and tuple(e.a[2].a[1]) == tuple(x.a[1]))]
            muts = [e for e in muts if e.a[1] not in ('add', 'append') or e in new]
            ok = gone == set(x.a[1]) and len(new) == 1 and any(is_call(w, 'anti_unifier') and set(w.a[1]) == set(x.a[1]) for w in walk(new[0].a[2]))
            if muts:
                ctx.need(ok, R, f'{f.ref} merged', p.where(), 'two overlapping types are not replaced by one that covers both')
            ctx.need(p.kind != 'return', R, f'{f.ref} all', p.where(), 'types that overlap are returned')
        elif hit is False and p.kind == 'return':
            n += 1
            ctx.need(not muts, R, f'{f.ref} merged', p.where(), 'types that do not overlap are replaced')
        for e in lp[:1]:
            it = itv(p, e)
            if is_call(it, 'combinations'):
                ctx.need(is_const(it.a[1][1], 2) and not any(w.k == 'slice' for w in walk(it)), R, f'{f.ref} pairs', e.where, 'not all pairs of types are compared')
    f = m.func('dyna.analyze.rewrites', 'Rewrites.anti_unifier')
    me, r0, s0 = (param(f, i) for i in range(3))
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        gens = {w for e in p.events if e.kind == 'call' for w in walk(e.a[0]) if is_call(w, 'generalizer')}
        G = next(iter(gens), None)
        if not ctx.need(len(gens) == 1 and len(G.a[1]) == 2 and all(z.k == 'attr' and z.a[1] == 'head' for z in G.a[1]), R, f'{f.ref} head', p.where(), 'the heads are not generalised'):
            continue
        r, s = (z.a[0] for z in G.a[1])
        of = lambda z: r0 if any(w is r0 for w in walk(z)) else s0 if any(w is s0 for w in walk(z)) else None
        ctx.need({of(r), of(s)} == {r0, s0}, R, f'{f.ref} head', p.where(), f'the heads {short(G)} are generalised')
        if v in (r, s):
            o = s if v is r else r
            dead = [a for a, b in p.facts.items() if b is True and a.k == 'cmp' and a.a[0] == 'is' and NONE in a.a[1:3]]
            ok = any(any(w is Attr(o, 'body') for w in walk(d)) or star_body(p, d, o) for d in dead)
            ctx.need(ok, R, f'{f.ref} one side', p.where(), 'one of the two types is forgotten although it is not empty')
            continue
        if not ctx.need(is_call(v, 'Rule') and v.a[1] and v.a[1][0] is G, R, f'{f.ref} head', p.where(), f'the common type is {short(v)}'):
            continue
        for x in v.a[1][1:]:
            for q in pieces(p, x.a[0] if x.k == 'star' else x):
                A = q.v
                cov = [a for a, b in p.facts.items() if b is True and is_call(a, 'covers') and len(a.a[1]) == 2 and is_call(a.a[1][0], 'Rule') and len(a.a[1][0].a[1]) == 2 and a.a[1][0].a[1][0] is G and same_elem(p, a.a[1][0].a[1][1], A)]
                ctx.need({a.a[1][1] for a in cov} >= {r, s}, R, f'{f.ref} entailed', p.where(), 'a constraint of the common type does not follow from both types')


def has_all(w, S, T):
    "True if w says that S has all the constraints of T, False if it says the opposite, None if it is something else"
    big, small = Attr(S, 'body'), Attr(T, 'body')
    if w.k == 'cmp' and w.a[0] in ('<', '<=', '>', '>='):
        if not any(is_call(z, 'set', 'frozenset') for z in w.a[1:3]):
            return None
        x, y, op = noop(w.a[1]), noop(w.a[2]), w.a[0]
    elif is_call(w, 'issuperset', 'issubset') and recv(w) is not None:
        x, y, op = noop(recv(w)), noop(w.a[1][0]), '>=' if is_call(w, 'issuperset') else '<='
    else:
        return None
    return {('>=', big, small): True, ('<=', small, big): True, ('<', big, small): False, ('>', small, big): False}.get((op, x, y))


def same_elem(p, a, b):
    if a is b or p.res(a) is p.res(b):
        return True
    return a.k == b.k == 'sub' and a.a[1].k == b.a[1].k == 'idx' and a.a[1].a[0] == b.a[1].a[0]


def star_body(p, d, o):
    for w in walk(d):
        if w.k == 'obj' and any(z is Attr(o, 'body') for z in walk(p.res(w))):
            return True
    return False


# ------------------------------------------------------------------ the analysis
def preparation(ctx, m):
    R = 'preparation'
    f = m.func('dyna.analyze.types', 'to_type_program')
    P = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        if not ctx.need(is_call(v, 'TransformedProgram', 'Program', 'spawn') and v.a[1], R, f'{f.ref} program', p.where(), f'the program becomes {short(v)}'):
            continue
        ps = pieces(p, v.a[1][-1])
        lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) in (P, Attr(P, 'rules'))]
        if lp:
            n += 1
            e, d = lp[0]
            ctx.need(d and len(ps) == 1 and any(elem(w, e.a[0]) for w in walk(ps[0].v)), R, f'{f.ref} rules', e.where, 'a rule gets lost')
            if len(ps) == 1:
                for h in ('add_free_constraints', 'remove_constants'):
                    if m.func('dyna.analyze.types', h, required=False) is not None:
                        ctx.need(any(is_call(w, h) for w in walk(ps[0].v)), R, f'{f.ref} {"free" if h[0] == "a" else "constants"}', e.where, 'variables that only the head has are not marked as free' if h[0] == 'a' else 'constants stay in the rules')
        ctx.need(any(e.kind == 'setattr' and e.a[0] is v and e.a[1] == 'semiring' and 'Boolean' in str(e.a[2]) for e in p.events) or any('Boolean' in str(x) for _, x in v.a[2]), R, f'{f.ref} values', p.where(), 'the values are not truth values')
    ctx.floor(n, 1, 'programs prepared for the analysis')
    f = m.func('dyna.analyze.types', 'add_free_constraints', required=False)
    if f is not None:
        r = param(f, 0)
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            v = p.value
            ps = pieces(p, V('tup', 'tuple', tuple(v.a[1][1:]))) if is_call(v, 'Rule') else []
            ok = is_call(v, 'Rule') and v.a[1][0] is Attr(r, 'head') and any(x.k == 'star' and x.a[0] is Attr(r, 'body') for x in v.a[1][1:])
            ctx.need(ok, R, f'{f.ref} rule', p.where(), f'a rule becomes {short(v)}')
            lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V)]
            for e, d in lp:
                it = itv(p, e)
                a, b = (it.a[1], it.a[2]) if it.k == 'bin' and it.a[0] == '-' else (recv(it), it.a[1][0]) if is_call(it, 'difference') else (it, it)
                H, B = (any(is_call(w, 'term_vars') and w.a[1][0] is Attr(r, z) for w in walk(y)) for y, z in ((a, 'head'), (b, 'body')))
                fil = cmpfact(p, 'in', lambda x: elem(x, e.a[0]), lambda x: any(w is Attr(r, 'body') for w in walk(x)))
                ctx.need(H and (B and (it.k == 'bin' and it.a[0] == '-' or is_call(it, 'difference')) or fil is not None) and d, R, f'{f.ref} free', e.where, f'the variables {short(it)} are marked as free')
                t = [w for q in ps for w in walk(q.v) if is_call(w, 'Term') and is_const(w.a[1][0], '$free') and elem(w.a[1][1], e.a[0])]
                t = t or [w for x in v.a[1] for w in walk(p.res(x.a[0]) if x.k == 'star' else x) if is_call(w, 'Term') and is_const(w.a[1][0], '$free')]
                ctx.need(bool(t) == (fil is not True), R, f'{f.ref} free', e.where, 'a variable that only the head has is not marked as free')
    f = m.func('dyna.analyze.types', 'remove_constants', required=False)
    if f is not None:
        P, r = param(f, 0), param(f, 1)
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            v = p.value
            if not ctx.need(is_call(v, 'Rule') and v.a[1] and v.a[1][0] is Attr(r, 'head'), R, f'{f.ref} rule', p.where(), f'a rule becomes {short(v)}'):
                continue
            lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) is Attr(r, 'body')]
            if lp:
                e, d = lp[0]
                k = fact(p, lambda a: is_call(a, 'is_const') and any(elem(z, e.a[0]) for z in a.a[1]))
                kept = [w for x in v.a[1][1:] for q in pieces(p, x.a[0] if x.k == 'star' else x) for w in [q.v] if elem(w, e.a[0])]
                ctx.need(d and (bool(kept) == (k is False)) and k is not None, R, f'{f.ref} body', e.where, 'a subgoal that is no constant is dropped' if not kept else 'a constant stays in the body')


def analysis(ctx, m):
    R = 'analysis'
    f = m.func('dyna.analyze.types', 'TypeAnalyzer.__init__')
    me = param(f, 0)
    P, I = param(f, 1), param(f, 2)
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        runs = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], '_run_basic', '_run_generalizing') and recv(e.a[0]) is me]
        ctx.need(len(runs) == 1, R, f'{f.ref} run', p.where(), f'the analysis runs {len(runs)} times')
        pr = [e.a[2] for e in p.events if e.kind == 'setattr' and e.a[0] is me and e.a[1] == 'program']
        t = pr[-1].a[1][0] if pr and is_call(pr[-1], 'to_type_program') and pr[-1].a[1] else NONE
        ok = t.k == 'bin' and t.a[0] == '+' and any(z is P for z in t.a[1:3]) and any(z is I or is_call(z, 'Program') and z.a[1] and z.a[1][0] is I for z in t.a[1:3])
        ctx.need(ok, R, f'{f.ref} program', p.where(), 'what is analysed is not the program together with the types of its inputs')
    # semi-naive
    f = m.func('dyna.analyze.types', 'TypeAnalyzer._run_basic')
    me = param(f, 0)
    c = f.ref
    CH = Attr(me, 'chart')
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        W = next((e for e in p.events if e.kind in ('loop', 'loop0') and e.a[1] is None), None)
        seeds = [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'step') and recv(e.a[0]) is me and not ids(e)]
        if not ctx.need(len(seeds) >= 1, R, f'{c} seeds', p.where(), 'the analysis does not start from the rules that hold without items'):
            continue
        sets = [w for e in p.events if e.kind == 'call' for w in [e.a[0]] if is_call(w, 'MostGeneralSet')]
        if not sets:
            continue
        G = sets[0]
        seeded = G.a[1] and (noop(G.a[1][0]) in seeds or any(q.kind == 'seq' and noop(q.v) in seeds for q in pieces(p, G.a[1][0])))
        ctx.need(len(G.a[1]) == 2 and seeded and any(w.k == 'attr' and w.a[1] == 'covers' for w in walk(G.a[1][1])), R, f'{c} covered', p.where(), f'the types are collected as {short(G)}')
        cset = [e for e in p.events if e.kind == 'setattr' and e.a[0] is me and e.a[1] == 'chart']
        full = lambda e: any(w.k == 'attr' and w.a[1] == 'xs' and w.a[0] is G or w is G for w in walk(e.a[2]))
        ctx.need([e for e in cset if not ids(e)] and all(full(e) for e in cset), R, f'{c} chart', p.where(), 'the types are not what later types are derived from')
        if W is None or W.kind == 'loop0':
            continue
        pop = next((e for e in p.events if e.kind == 'mutate' and e.a[1] in ('pop', 'popleft') and W.a[0] in ids(e)), None)
        if not ctx.need(pop is not None, R, f'{c} driver', W.where, 'no new type is taken'):
            continue
        drv = lambda v: any(is_call(w, 'pop', 'popleft') and recv(w) is pop.a[0] for w in walk(v))
        isD = lambda v: drv(v) and (is_call(v, 'fresh', 'pop', 'popleft'))
        prog = Attr(me, 'program')
        lr = [e for e in p.events if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V) and noop(itv(p, e)) in (prog, Attr(prog, 'rules'))]
        if not ctx.need(len(lr) == 1, R, f'{c} rules', W.where, 'a new type does not meet every rule'):
            continue
        if lr[0].kind == 'loop0':
            continue
        ctx.need(ended(p, lr[0]), R, f'{c} rules', lr[0].where, 'a new type does not meet every rule')
        k0 = lr[0].a[0]
        body = lambda v: v.k == 'attr' and v.a[1] == 'body' and elem(v.a[0], k0)
        lk = [e for e in inside(p, k0) if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V) and is_call(itv(p, e), 'range', 'enumerate') and any(body(w) for w in walk(itv(p, e)))]
        if not ctx.need(len(lk) == 1, R, f'{c} positions', lr[0].where, 'a new type does not meet every subgoal'):
            continue
        it = itv(p, lk[0])
        okp = is_call(it, 'enumerate') and len(it.a[1]) == 1 and body(it.a[1][0]) or is_call(it, 'range') and len(it.a[1]) == 1 and is_call(it.a[1][0], 'len') and body(it.a[1][0].a[1][0])
        ctx.need(okp and (lk[0].kind == 'loop0' or ended(p, lk[0])), R, f'{c} positions', lk[0].where, f'a new type meets the subgoals {short(it)} only')
        if lk[0].kind == 'loop0':
            continue
        k1 = lk[0].a[0]
        pos = lambda v: at(v, k1) or v.k == 'sub' and is_const(v.a[1], 0) and elem(v.a[0], k1)
        B = next((w for w in walk(it) if body(w)), None)
        lu = [e for e in inside(p, k1) if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V) and is_call(e.a[1], 'unify')]
        ok = len(lu) == 1 and len(lu[0].a[1].a[1]) == 2
        if ok:
            sub = [z for z in lu[0].a[1].a[1] if z.k == 'sub' and (z.a[0] is B and pos(z.a[1]) or is_const(z.a[1], 1) and elem(z.a[0], k1))]
            hd = [z for z in lu[0].a[1].a[1] if z.k == 'attr' and z.a[1] == 'head' and isD(z.a[0])]
            ok = len(sub) == 1 and len(hd) == 1
        if not ctx.need(ok, R, f'{c} driver', lk[0].where, 'a subgoal is not unified with the new type'):
            continue
        if lu[0].kind == 'loop0':
            continue
        lj = [e for e in inside(p, lu[0].a[0]) if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V) and is_call(e.a[1], 'join')]
        ok = len(lj) == 1 and recv(lj[0].a[1]) is CH and others(p, V('tup', 'tuple', tuple(lj[0].a[1].a[1])), B, pos)
        if not ctx.need(ok, R, f'{c} rest', lu[0].where, 'the other subgoals are not joined with all the types found so far'):
            continue
        ctx.need(ended(p, lu[0]) and (lj[0].kind == 'loop0' or ended(p, lj[0])), R, f'{c} rest', lj[0].where, 'only some of the combinations are used')
        if lj[0].kind == 'loop0':
            continue
        n += 1
        lx = [e for e in inside(p, lj[0].a[0]) if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V) and is_call(e.a[1], '_relax')]
        ok = len(lx) == 1
        if ok:
            T = lx[0].a[1].a[1][0]
            ok = is_call(T, 'Rule') and T.a[1] and T.a[1][0].k == 'attr' and T.a[1][0].a[1] == 'head' and elem(T.a[1][0].a[0], k0)
            st = [z.a[0] for z in T.a[1][1:] if z.k == 'star'] if ok else []
            ok = ok and any(elem(z, lj[0].a[0]) for z in st) and any(z.k == 'attr' and z.a[1] == 'body' and isD(z.a[0]) for z in st) and len(st) == len(T.a[1]) - 1 == 2
        if not ctx.need(ok, R, f'{c} type', lj[0].where, 'the new type is not the head under the constraints of all its subgoals'):
            continue
        if lx[0].kind == 'loop0':
            continue
        kx = lx[0].a[0]
        add = [e for e in inside(p, kx) if e.kind == 'mutate' and e.a[0] is G and e.a[1] == 'add' and any(elem(w, kx) for w in walk(e.a[2]))]
        if not ctx.need(len(add) == 1, R, f'{c} covered', lx[0].where, 'a new type is not collected'):
            continue
        dup = fact(p, lambda a: is_call(a, 'add') and recv(a) is G)
        push = [e for e in inside(p, kx) if e.kind == 'mutate' and e.a[1] in ('append', 'add', 'appendleft') and e.a[0] is not G and e.a[0] is pop.a[0] and any(elem(w, kx) for w in walk(e.a[2]))]
        renew = [e for e in cset if kx in ids(e) and e.n > add[0].n]
        later = [e for e in cset if W.a[0] in ids(e)]
        if dup is not True:
            ctx.need(push, R, f'{c} pushed', add[0].where, 'a new type is not driven through the rules')
            ctx.need(renew or later, R, f'{c} chart', add[0].where, 'later types are not derived from a new type')
        ctx.need(ended(p, lx[0]), R, f'{c} pushed', lx[0].where, 'some new types are lost')
    ctx.floor(n, 1, 'rules met by new types')
    # naive
    f = m.func('dyna.analyze.types', 'TypeAnalyzer._run_generalizing')
    me = param(f, 0)
    CH = Attr(me, 'chart')
    for p in ctx.paths(f):
        new = [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'generalize')]
        if not ctx.need(new and any(is_call(w, 'step') and recv(w) is me for w in walk(new[0])), R, f'{f.ref} round', p.where(), 'a round does not derive types from all types found so far'):
            continue
        fix = fact(p, lambda a: is_call(a, 'same') and {recv(a), a.a[1][0]} == {new[0], CH} or a.k == 'cmp' and a.a[0] == '==' and {a.a[1], a.a[2]} == {new[0], CH})
        if p.kind == 'return':
            ctx.need(fix is True, R, f'{f.ref} end', p.where(), 'the analysis ends although a round found something new')
        elif p.kind == 'backedge':
            ctx.need(any(e.kind == 'setattr' and e.a[0] is me and e.a[1] == 'chart' and e.a[2] is new[0] for e in p.events), R, f'{f.ref} round', p.where(), 'what a round found is lost')
    f = m.func('dyna.analyze.types', 'TypeAnalyzer.step')
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind == 'return':
            st = next((w for w in walk(p.value) if is_call(w, 'step') and recv(w) is Attr(me, 'program') and tuple(w.a[1]) == (Attr(me, 'chart'),)), None)
            ctx.need(st is not None and any(is_call(w, 'relax') and w.a[1][0] is st for w in walk(p.value)), R, f.ref, p.where(), f'a round derives {short(p.value)}')
    f = m.func('dyna.analyze.types', 'TypeAnalyzer.relax')
    me, S = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        lp = loops_of(p)
        sp = p.value.a[1][0] if is_call(p.value, 'spawn', 'Program') and p.value.a[1] else None
        if not ctx.need(sp is not None, R, f.ref, p.where(), f'the relaxed types are {short(p.value)}'):
            continue
        ps = pieces(p, sp)
        o = [(e, d) for e, d in lp if isinstance(e.a[1], V) and noop(itv(p, e)) is S]
        for e, d in o[:1]:
            inner = [x for x in inside(p, e.a[0]) if x.kind in ('loop', 'loop0') and isinstance(x.a[1], V) and is_call(x.a[1], '_relax')]
            ok = d and (len(inner) == 1 and elem(inner[0].a[1].a[1][0], e.a[0]) and (inner[0].kind == 'loop0' or len(ps) == 1 and ended(p, inner[0])) or any(q.kind != 'one' for q in ps))
            ctx.need(ok, R, f.ref, e.where, 'a type gets lost when it is relaxed')
    f = m.func('dyna.analyze.types', 'TypeAnalyzer.generalize')
    me, new = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind == 'return':
            none = cmpfact(p, 'is', lambda x: x is new, lambda x: x is NONE)
            ok = is_call(p.value, 'disjoin') and p.value.a[1][0] is (new if none is not True else Attr(me, 'chart'))
            ctx.need(ok, R, f.ref, p.where(), f'overlapping types are merged as {short(p.value)}')


def relaxation(ctx, m):
    R = 'relaxation'
    f = m.func('dyna.analyze.types', 'TypeAnalyzer._relax')
    me, r0 = param(f, 0), param(f, 1)
    c = f.ref
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        rw = [e.a[0] for e in p.events if e.kind == 'call' and (e.a[0].a[0] is Attr(me, 'rewrites'))]
        if not ctx.need(len(rw) == 1 and rw[0].a[1] and rw[0].a[1][0] is r0, R, f'{c} rewritten', p.where(), 'the type is not rewritten'):
            continue
        r = rw[0]
        ys = [e for e in p.events if e.kind == 'yield']
        dead = cmpfact(p, 'is', lambda x: x is r, lambda x: x is NONE)
        if dead is True:
            ctx.need(not ys, R, f'{c} empty', p.where(), 'an empty type is derived')
            continue
        n += 1
        if not ctx.need(len(ys) == 1 and is_call(ys[0].a[0], 'Rule') and ys[0].a[0].a[1], R, f'{c} type', p.where(), 'a type is dropped although it is not empty' if not ys else f'{len(ys)} types are derived'):
            continue
        t = ys[0].a[0]
        h = t.a[1][0]
        ok = is_call(h, 'truncate_term') and len(h.a[1]) == 2 and h.a[1][0] is Attr(r, 'head') and any(w.k == 'attr' and w.a[1] == 'max_depth' for w in walk(h.a[1][1]))
        ctx.need(ok, R, f'{c} head', p.where(), f'the head of the type is {short(h)}')
        lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) is Attr(r, 'body')]
        if not lp:
            ctx.need(any(e.kind == 'loop0' and isinstance(e.a[1], V) and noop(itv(p, e)) is Attr(r, 'body') for e in p.events), R, f'{c} constraints', p.where(), 'the constraints of the type are lost')
            continue
        e, d = lp[0]
        k = e.a[0]
        tv = lambda v: is_call(v, 'term_vars') and elem(v.a[1][0], k)
        hv = lambda v: is_call(v, 'term_vars') and v.a[1][0] is h
        sub = None
        for a, b in p.facts.items():
            if a.k == 'cmp' and a.a[0] in ('<', '<='):
                x, y = a.a[1:3]
                if a.a[0] == '<' and hv(x) and tv(y):
                    sub = not b
                elif tv(x) and hv(y):
                    sub = b
            elif is_call(a, 'issubset', 'issuperset'):
                x, y = recv(a), a.a[1][0]
                if is_call(a, 'issuperset'):
                    x, y = y, x
                if tv(x) and hv(y):
                    sub = b
        some = fact(p, lambda a: tv(a))
        kept = [q.v for x in t.a[1][1:] for q in pieces(p, x.a[0] if x.k == 'star' else x) if elem(q.v, k)]
        want = sub is True and some is True
        if kept:
            ctx.need(want, R, f'{c} local', e.where, 'a constraint about variables that the head does not have (or about none) is kept')
        else:
            ctx.need(sub is False or some is False, R, f'{c} constraints', e.where, 'a constraint about the variables of the head is dropped')
        ctx.need(d, R, f'{c} constraints', e.where, 'the constraints are not all looked at')
    ctx.floor(n, 1, 'relaxed types')
    f = m.func('dyna.analyze.types', 'truncate_term')
    x0, D = param(f, 0), param(f, 1)
    c = f.ref
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        x = next((w for e in p.events for y in e.a if isinstance(y, V) for w in walk(y) if is_call(w, 'snap', 'deref') and w.a[1][0] is x0), x0)
        pos = next((b if a.a[1].k == 'const' else not b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] in ('<', '<=') and D in a.a[1:3]), None)
        var = fact(p, lambda a: is_call(a, 'is_var') and a.a[1][0] is x or is_call(a, 'isinstance') and a.a[1][0] is x and 'Var' in str(a.a[1][1]))
        term = fact(p, lambda a: is_call(a, 'isinstance') and a.a[1][0] is x and str(a.a[1][1]).split('.')[-1] == 'Term')
        if is_call(v, 'Var'):
            ctx.need(pos is False or var is True, R, f'{c} deep', p.where(), 'a term within the depth limit becomes a variable')
        elif v is x or v is x0:
            ctx.need(pos is not False or var is True or term is False, R, f'{c} deep', p.where(), 'a term beyond the depth limit is kept')
            ctx.need(term is not True, R, f'{c} parts', p.where(), 'the parts of a term are not truncated')
        else:
            ps = [(q, y) for y in v.a[1] for q in ([None] if y.k != 'star' else pieces(p, y.a[0]))] if v.k == 'call' else []
            lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and any(w is Attr(x, 'args') for w in walk(itv(p, e)))]
            fnok = v.k == 'call' and any(w is Attr(x, 'fn') for w in walk(v))
            ctx.need(fnok, R, f'{c} functor', p.where(), f'a term is truncated to {short(v)}')
            for e, d in lp[:1]:
                rec = [w for ev in inside(p, e.a[0]) for y in ev.a if isinstance(y, V) for w in walk(y) if is_call(w, 'truncate_term') and len(w.a[1]) == 2]
                ok = d and rec and all(elem(w.a[1][0], e.a[0]) and w.a[1][1].k == 'bin' and w.a[1][1].a[0] == '-' and w.a[1][1].a[1] is D and is_const(w.a[1][1].a[2], 1) for w in rec)
                ctx.need(ok and itv(p, e) is Attr(x, 'args') or ok and noop(itv(p, e)) is Attr(x, 'args'), R, f'{c} parts', e.where, 'the parts of a term are not all truncated at one level less')
    ctx.floor(n, 3, 'truncations')


def answers(ctx, m):
    R = 'answers'
    f = m.func('dyna.analyze.types', 'TypeAnalyzer.intersect')
    me, Q0 = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        text = fact(p, lambda a: is_call(a, 'isinstance') and a.a[1][0] is Q0 and 'Program' not in str(a.a[1][1:]))
        sp = next((w for w in walk(p.value) if is_call(w, 'spawn', 'Program') and w.a[1] and w.a[1][0] is not Q0), None)
        if not ctx.need(sp is not None, R, f'{f.ref} types', p.where(), f'the intersection is {short(p.value)}'):
            continue
        ps = pieces(p, sp.a[1][0])
        lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and (itv(p, e) is Q0 or is_call(itv(p, e), 'Program') and itv(p, e).a[1][0] is Q0)]
        if not lp:
            continue
        e, d = lp[0]
        k = e.a[0]
        inner = [x for x in inside(p, k) if x.kind in ('loop', 'loop0') and isinstance(x.a[1], V) and (x.a[1].k == 'sub' and x.a[1].a[0] is Attr(me, 'chart') or is_call(x.a[1], 'join', '__getitem__') and recv(x.a[1]) is Attr(me, 'chart'))]
        if not ctx.need(len(inner) == 1 and d, R, f'{f.ref} rules', e.where, 'a type is not matched with all the types of the chart'):
            continue
        q = inner[0].a[1]
        at = q.a[1] if q.k == 'sub' else V('tup', 'tuple', tuple(q.a[1]))
        hb = [any(w.k == 'attr' and w.a[1] == z and elem(w.a[0], k) for w in walk(at)) for z in ('head', 'body')]
        ctx.need(all(hb), R, f'{f.ref} query', inner[0].where, f'the chart is asked for {short(at)}')
        if inner[0].kind == 'loop0':
            continue
        n += 1
        rx = [x for x in inside(p, inner[0].a[0]) if x.kind in ('loop', 'loop0') and isinstance(x.a[1], V) and is_call(x.a[1], '_relax')]
        ok = len(rx) == 1
        if ok:
            T = next((w for w in walk(rx[0].a[1].a[1][0]) if is_call(w, 'Rule')), None)
            ok = T is not None and T.a[1][0].k == 'attr' and T.a[1][0].a[1] == 'head' and elem(T.a[1][0].a[0], k) and any(z.k == 'star' and elem(z.a[0], inner[0].a[0]) for z in T.a[1][1:])
        ctx.need(ok and ended(p, inner[0]), R, f'{f.ref} type', inner[0].where, 'an intersection is not the head under the constraints that hold')
        if ok and rx[0].kind == 'loop':
            ctx.need(len(ps) == 1 and ended(p, rx[0]), R, f'{f.ref} types', rx[0].where, 'an intersection gets lost')
    ctx.floor(n, 1, 'intersections with the chart')
    f = m.func('dyna.analyze.types', 'TypeAnalyzer.find_overlap')
    me = param(f, 0)
    for p in ctx.paths(f):
        x = next((e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'intersect')), None)
        lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V)]
        for e, d in lp[:1]:
            it = itv(p, e)
            if is_call(it, 'combinations'):
                ctx.need(d and noop(it.a[1][0]) in (Attr(me, 'chart'), Attr(Attr(me, 'chart'), 'rules')) and is_const(it.a[1][1], 2), R, f'{f.ref} pairs', e.where, 'not all pairs of types are compared')
        if x is None:
            continue
        no = cmpfact(p, 'is', lambda z: z is x, lambda z: z is NONE)
        ys = [e for e in p.events if e.kind == 'yield']
        ctx.need(bool(ys) == (no is False) and no is not None, R, f.ref, p.where(), 'an overlap is lost or invented')
    f = m.func('dyna.analyze.types', 'TypeAnalyzer.is_disjoint')
    for p in ctx.paths(f):
        if p.kind == 'return':
            lp = [e for e in p.events if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V) and is_call(e.a[1], 'find_overlap')]
            anyc = fact(p, lambda a: is_call(a, 'any'))
            if lp and p.value in (TRUE, FALSE):
                ctx.need((p.value is FALSE) == (lp[0].kind == 'loop'), R, f.ref, p.where(), 'types that overlap count as disjoint')
