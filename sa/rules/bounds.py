"""Size and running-time bounds (C31)."""
from ..core import check
from ..values import V, NONE, TRUE, FALSE, is_call, recv, walk, is_const, Attr
from ..util import short
from .match import param
from .execute import noop as noop0
from .transform import pieces
from .coarse import loops_of, consistent
from .query import fact
from .tyan import elem, inside, ended, itv, cmpfact, is_fail

MOD = 'dyna.analyze.runtime'


@check('C31', 'case analysis of the recursions for sizes and running times over all paths: which factor and which summand is counted under which condition',
       'A minimum may only range over complete plans, a sum must count every type, a factor of one needs all variables bound, and an unbound head is infinite.',
       ['that the types cover all items is decided by C30', 'the sizes a user attaches to the names of types are taken as true', 'simplification by sympy is taken as correct'])
def c31(ctx):
    m = ctx.m
    sizes(ctx, m)
    factors(ctx, m)
    times(ctx, m)
    matches(ctx, m)
    totals(ctx, m)
    arithmetic(ctx, m)


def noop(v):
    "v without copies"
    while v.k == 'call' and (is_call(v, 'frozenset', 'set', 'list', 'tuple', 'sorted') and len(v.a[1]) == 1 and not v.a[2] or noop0(v) is not v):
        v = noop0(v) if noop0(v) is not v else v.a[1][0]
    return v


def par(v, n):
    "the bound n"
    return is_call(v, 'Param') and len(v.a[1]) == 1 and (is_const(v.a[1][0], n) if n != 'inf' else str(v.a[1][0]).split('.')[-1] in ('inf', 'oo') or v.a[1][0].k == 'const' and v.a[1][0].a[0] == float('inf') or is_call(v.a[1][0], 'float') and is_const(v.a[1][0].a[1][0], 'inf', 'Infinity'))


def flat(p, v, kind):
    "operands of nested minima or sums"
    r = v
    if kind == 'min':
        if v.k == 'bin' and v.a[0] == '^':
            return flat(p, v.a[1], kind) + flat(p, v.a[2], kind)
        if is_call(v, 'min', 'Min', '__xor__') and recv(v) is not None and len(v.a[1]) == 1 and not str(recv(v)).startswith('sympy'):
            return flat(p, recv(v), kind) + flat(p, v.a[1][0], kind)
        if is_call(v, 'min', 'reduce'):
            xs = [x for a in v.a[1] for x in ([a] if len(v.a[1]) > 1 and not is_call(v, 'reduce') else [q.v for q in pieces(p, a)])]
            return [y for x in xs for y in flat(p, x, kind)]
    else:
        if v.k == 'bin' and v.a[0] == '+':
            return flat(p, v.a[1], kind) + flat(p, v.a[2], kind)
        if is_call(v, 'sum') and v.a[1]:
            return [q.v for q in pieces(p, v.a[1][0])] + list(v.a[1][1:])
    return [r]


def union(p, v):
    v = noop(v)
    if v.k == 'bin' and v.a[0] == '|':
        return union(p, v.a[1]) | union(p, v.a[2])
    if is_call(v, 'union') and recv(v) is not None:
        return union(p, recv(v)).union(*[union(p, x) for x in v.a[1]])
    r = p.res(v)
    if r.k == 'tup' and r.a[1] and all(x.k == 'star' for x in r.a[1]):
        return set().union(*[union(p, x.a[0]) for x in r.a[1]])
    return {v}


def without(p, v, S, c):
    "S without c"
    v = noop(v) if v.k == 'call' else v
    a = b = None
    if v.k == 'bin' and v.a[0] == '-':
        a, b = v.a[1], v.a[2]
    elif is_call(v, 'difference'):
        a, b = recv(v), v.a[1][0]
    if a is None:
        ps = pieces(p, v)
        return bool(ps) and any(x.k == 'cmp' and c in x.a[1:3] for x in p.facts)
    bs = [q.v for q in pieces(p, b)]
    r = p.res(b)
    items = [x for x in r.a[1]] if r.k == 'tup' else r.a[0] if r.k in ('set', 'list') and isinstance(r.a[0], tuple) else bs
    return noop(a) is S and (bs == [c] or list(items) == [c] or any(w is c for w in walk(r)) and not any(w is S for w in [r]))


def bound(p, vs, S):
    "is vs(...) a subset of S on this path?"
    for a, b in p.facts.items():
        if is_call(a, 'issubset'):
            x, y = (a.a[1] if len(a.a[1]) == 2 else (recv(a), a.a[1][0]))
            x, y = noop(x), noop(y)
            if vs(x) and y is S:
                return b
        elif is_call(a, 'issuperset') and vs(noop(a.a[1][0])) and noop(recv(a)) is S:
            return b
        elif a.k == 'cmp' and a.a[0] in ('<', '<='):
            x, y = (noop(z) if z.k == 'call' else z for z in a.a[1:3])
            if a.a[0] == '<=' and vs(x) and y is S:
                return b
            if a.a[0] == '<' and x is S and vs(y):
                return not b
        elif a.k == 'bin' and a.a[0] == '-' and vs(noop(a.a[1]) if a.a[1].k == 'call' else a.a[1]) and (noop(a.a[2]) if a.a[2].k == 'call' else a.a[2]) is S:
            return not b
    return None


def argof(v, i, name):
    return v.a[1][i] if len(v.a[1]) > i else dict(v.a[2]).get(name, NONE)


def kept(ctx, p, R, what, k, kind, part, why):
    "what is accumulated in the loop k keeps what was accumulated before"
    for e in p.events:
        if e.kind == 'carry' and e.a[0] == k and isinstance(e.a[3], V):
            xs = flat(p, e.a[3], kind)
            if any(part(x) for x in xs):
                ctx.need(any(x is e.a[2] or x.k == 'phi' for x in xs), R, what, e.where, why)


def tv(of):
    return lambda x: is_call(x, 'term_vars') and len(x.a[1]) == 1 and of(x.a[1][0])


def sizes(ctx, m):
    R = 'sizes'
    f = m.func(MOD, 'SizeBounds._stype_bound')
    me, V0, REM = (param(f, i) for i in range(3))
    c = f.ref
    n = 0
    s = Attr(me, 's')
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        some = fact(p, lambda a: a is REM)
        if some is not True:
            b = bound(p, tv(lambda z: z is Attr(s, 'head')), V0)
            if not ctx.need(b is not None, R, f'{c} end', p.where(), 'it is not examined whether the head of a type is bound in the end'):
                continue
            ctx.need(par(v, 1) if b else par(v, 'inf'), R, f'{c} end', p.where(), f'a type whose head is {"" if b else "not "}bound in the end has the bound {short(v)}')
            continue
        lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) is REM]
        leaves = flat(p, v, 'min')
        if not lp:
            for x in leaves:
                ctx.need(par(x, 'inf') or any(e.kind == 'loop0' for e in p.events), R, f'{c} start', p.where(), f'the least bound starts at {short(x)}')
                if any(e.kind == 'loop0' and isinstance(e.a[1], V) and noop(itv(p, e)) is REM for e in p.events):
                    ctx.need(par(x, 'inf'), R, f'{c} start', p.where(), f'the least bound starts at {short(x)}')
            continue
        e, d = lp[0]
        k = e.a[0]
        inner = [x for x in inside(p, k) if x.kind in ('loop', 'loop0') and isinstance(x.a[1], V) and is_call(x.a[1], 'lookup_bounds')]
        if not ctx.need(inner, R, f'{c} factors', e.where, 'the bounds of a constraint are not looked up'):
            continue
        q = inner[0].a[1]
        ctx.need(len(q.a[1]) == 2 and elem(q.a[1][0], k) and noop(q.a[1][1]) is V0, R, f'{c} factors', e.where, f'the bounds of a constraint are looked up as {short(q)}')
        cst = q.a[1][0] if q.a[1] else NONE
        for j in [k] + [z.a[0] for z in inner]:
            kept(ctx, p, R, f'{c} plans', j, 'min', lambda y: any(is_call(w, '_stype_bound') for w in walk(y)), 'only the last plan counts')
        prods = []
        for x in leaves:
            if x.k == 'phi' or par(x, 'inf'):
                continue
            if not ctx.need(x.k == 'bin' and x.a[0] == '*', R, f'{c} product', e.where, f'the bound of a plan is {short(x)}'):
                continue
            prods.append(x)
            fs = list(x.a[1:3])
            rec = next((y for y in fs if is_call(y, '_stype_bound')), None)
            cost = [y for y in fs if y is not rec]
            if not ctx.need(rec is not None and recv(rec) is me and any(elem(y, i.a[0]) for y in cost for i in inner), R, f'{c} product', e.where, 'the bound of a plan is not the bound of its first constraint times the bound of the rest'):
                continue
            v1, r1 = argof(rec, 0, 'V'), argof(rec, 1, 'remaining')
            us = union(p, v1)
            ok = us == {noop(V0)} | {u for u in us if tv(lambda z: z is cst)(u)} and len(us) == 2
            ctx.need(ok, R, f'{c} bound variables', e.where, f'after a constraint the bound variables are {short(v1)}')
            ctx.need(without(p, r1, REM, cst), R, f'{c} rest', e.where, f'after a constraint {short(r1)} remains')
        if inner[0].kind == 'loop':
            n += 1
            ctx.need(prods, R, f'{c} plans', e.where, 'a plan is not considered')
            ctx.need(ended(p, inner[0]), R, f'{c} plans', inner[0].where, 'not all plans are considered')
        ctx.need(d, R, f'{c} plans', e.where, 'not all plans are considered')
    ctx.floor(n, 1, 'plans for the size of a type')


def factors(ctx, m):
    R = 'factors'
    f = m.func(MOD, 'SizeBounds.lookup_bounds')
    me, c0, V0 = (param(f, i) for i in range(3))
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        ys = [e for e in p.events if e.kind == 'yield']
        b = bound(p, tv(lambda z: z is c0), V0)
        bi = fact(p, lambda a: is_call(a, 'is_builtin') and a.a[1][0] is c0)
        n += 1
        for e in ys:
            v = e.a[0]
            if is_call(v, 'Param') and v.a[1] and v.a[1][0].k == 'const':
                ctx.need(b is True and par(v, 1), R, f'{f.ref} one', e.where, f'a constraint with unbound variables has the bound {short(v)}' if b is not True else f'a constraint whose variables are all bound has the bound {short(v)}')
            else:
                ok = is_call(v, 'Param') and v.a[1] and is_call(v.a[1][0], 'Symbol') and v.a[1][0].a[1] and any(w is Attr(c0, 'fn') for w in walk(v.a[1][0].a[1][0]))
                ctx.need(ok, R, f'{f.ref} name', e.where, f'a constraint has the bound {short(v)}')
                ctx.need(bi is False, R, f'{f.ref} builtin', e.where, 'a builtin constraint is taken to enumerate its variables')
        if b is True:
            ctx.need(any(par(e.a[0], 1) for e in ys), R, f'{f.ref} one', p.where(), 'a constraint whose variables are all bound has no bound of one')
        elif bi is False:
            ctx.need(ys, R, f'{f.ref} name', p.where(), 'a constraint has no bound')
    ctx.floor(n, 2, 'bounds of constraints')


def times(ctx, m):
    R = 'times'
    f = m.func(MOD, 'Runtime._suffixtime')
    me, SUF, C0, V0 = (param(f, i) for i in range(4))
    S = Attr(me, 'S')
    c = f.ref
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        some = fact(p, lambda a: a is SUF)
        if some is not True:
            ctx.need(some is False and par(v, 1), R, f'{c} end', p.where(), f'the rest of a rule without subgoals takes {short(v)}')
            continue
        fast = fact(p, lambda a: a is Attr(me, 'fast_mode'))
        fl = flat(p, v, 'sum') if v.k == 'bin' else [v]
        top = [x for x in fl if par(x, 1)]
        rest = [x for x in fl if not par(x, 1)]
        if not ctx.need(len(top) == 1 and len(rest) == 1, R, f'{c} one', p.where(), f'the rest of a rule takes {short(v)}'):
            continue
        leaves = flat(p, rest[0], 'min')
        lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and any(w is SUF for w in walk(itv(p, e)) if True) and not is_call(e.a[1], 'lookup')]
        lp = [(e, d) for e, d in lp if not [x for x in e.ctx if x[0] == 'loop' and x[1] != e.a[0]]]
        if not lp:
            for x in leaves:
                ctx.need(par(x, 'inf') or not any(e.kind == 'loop0' for e in p.events), R, f'{c} start', p.where(), f'the least time starts at {short(x)}')
            continue
        e, d = lp[0]
        k = e.a[0]
        if fast is not True:
            ctx.need(noop(itv(p, e)) is SUF and d, R, f'{c} choices', e.where, f'only {short(itv(p, e))} is tried as the next subgoal')
        inner = [x for x in inside(p, k) if x.kind in ('loop', 'loop0') and isinstance(x.a[1], V) and is_call(x.a[1], 'lookup')]
        if not ctx.need(len(inner) == 1 and elem(inner[0].a[1].a[1][0], k), R, f'{c} types', e.where, 'the types of the next subgoal are not looked up'):
            continue
        i = inner[0]
        ps = i.a[1].a[1][0]
        if i.kind == 'loop0':
            continue
        n += 1
        ctx.need(ended(p, i), R, f'{c} types', i.where, 'not every type of the next subgoal is counted')
        el = lambda w, j: w.k == 'sub' and is_const(w.a[1], j) and elem(w.a[0], i.a[0])
        sub1 = lambda w: w.k == 'call' and el(w.a[0], 0) and len(w.a[1]) == 1
        rw = {w for x in inside(p, i.a[0]) if x.kind == 'call' for w in [x.a[0]] if w.a[0].k == 'attr' and w.a[0].a[1] == 'rewrites'}
        s1 = next(iter(rw), None)
        ok = len(rw) == 1 and recv(s1) in (S, None) or len(rw) == 1
        if ok:
            t = s1.a[1][0]
            t = t.a[1][0] if sub1(t) else t
            ok = is_call(t, 'Rule') and t.a[1] and t.a[1][0] is ps and {x.a[0] for x in t.a[1][1:] if x.k == 'star'} >= {w for x in t.a[1][1:] if x.k == 'star' for w in [x.a[0]] if w.k == 'attr' and w.a[1] == 'body' and el(w.a[0], 1)} and all(x.k == 'star' and (x.a[0] is C0 or x.a[0].k == 'attr' and x.a[0].a[1] == 'body' and el(x.a[0].a[0], 1)) for x in t.a[1][1:])
        if rw:
            ctx.need(ok, R, f'{c} context', i.where, f'whether a type contradicts what is known is decided by {short(s1)}')
        dead = cmpfact(p, 'is', lambda x: x is s1, lambda x: x is NONE) if s1 is not None else False
        kept(ctx, p, R, f'{c} sum', i.a[0], 'sum', lambda y: y.k == 'bin' and y.a[0] == '*', 'only the last type is counted')
        kept(ctx, p, R, f'{c} choices', k, 'min', lambda y: any(is_call(w, '_suffixtime') for w in walk(y)), 'only the last choice counts')
        tsum = [y for x in leaves for y in flat(p, x, 'sum')]
        tsum += [y for x in p.events if x.kind == 'carry' and isinstance(x.a[3], V) and x.a[0] == i.a[0] for y in flat(p, x.a[3], 'sum')]
        prods = []
        for x in tsum:
            if x.k == 'phi' or par(x, 0) or par(x, 'inf') or is_const(x, 0):
                continue
            if x.k == 'bin' and x.a[0] == '*':
                prods.append(x)
            else:
                ctx.need(False, R, f'{c} product', i.where, f'the time for a type is {short(x)}')
        if dead is True:
            ctx.need(not prods, R, f'{c} contradiction', i.where, 'a type that contradicts what is known is counted')
            continue
        if not ctx.need(prods, R, f'{c} sum', i.where, 'the time for a type is not counted'):
            continue
        for x in prods:
            fs = list(x.a[1:3])
            rec = next((y for y in fs if is_call(y, '_suffixtime')), None)
            sz = next((y for y in fs if is_call(y, 'stype_bound', 'type_bound')), None)
            if not ctx.need(rec is not None and sz is not None, R, f'{c} product', i.where, 'the time for a type is not its size times the time of the rest of the rule'):
                continue
            st = argof(sz, 1, 's')
            mode, cs = argof(sz, 2, 'V0'), argof(sz, 3, 'remaining0')
            ok = el(st, 1) and mode is V0 and cs.k == 'attr' and cs.a[1] == 'body' and el(cs.a[0], 1)
            ctx.need(ok, R, f'{c} size', i.where, f'the size of a type is {short(sz)}')
            a = [argof(rec, 0, 'suffix'), argof(rec, 1, 'C'), argof(rec, 2, 'V')]
            ctx.need(all(sub1(z) for z in a), R, f'{c} bindings', i.where, 'the bindings of the subgoal are not applied to the rest of the rule')
            b = [z.a[1][0] if sub1(z) else z for z in a]
            ctx.need(without(p, b[0], SUF, ps), R, f'{c} rest', i.where, f'after a subgoal {short(b[0])} remains')
            ctx.need(noop(b[1]) is C0 or any(w.k == 'attr' and w.a[1] == 'body' and w.a[0] is s1 for w in walk(b[1])), R, f'{c} known', i.where, f'after a subgoal {short(b[1])} is known')
            us = union(p, b[2])
            ctx.need(len(us) == 2 and V0 in us and any(tv(lambda z: z is ps)(u) for u in us), R, f'{c} bound variables', i.where, f'after a subgoal the bound variables are {short(b[2])}')
    ctx.floor(n, 1, 'types of a next subgoal')


def matches(ctx, m):
    R = 'matches'
    f = m.func(MOD, 'Runtime.lookup')
    me, b0, s0 = (param(f, i) for i in range(3))
    S = Attr(me, 'S')
    c = f.ref
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        bi = fact(p, lambda a: is_call(a, 'is_builtin') and a.a[1][0] is b0)
        ys = [e for e in p.events if e.kind == 'yield']
        own = [e for e in ys if any(is_call(w, 'Rule') and tuple(w.a[1]) == (b0, b0) for w in walk(e.a[0]))]
        if bi is not None:
            ctx.need(bool(own) == bi, R, f'{c} builtin', p.where(), 'a builtin subgoal has no type' if bi else 'a subgoal that is no builtin is its own type')
        lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) in (Attr(S, 'chart'), Attr(Attr(S, 'chart'), 'rules'))]
        if not lp:
            ctx.need(any(e.kind == 'loop0' for e in p.events) or bi is True, R, f'{c} types', p.where(), 'the types are not looked up')
            continue
        e, d = lp[0]
        k = e.a[0]
        n += 1
        ctx.need(d, R, f'{c} types', e.where, 'only some types are looked up')
        mg = next((x.a[0] for x in inside(p, k) if x.kind == 'call' and is_call(x.a[0], 'mgu')), None)
        hd = lambda z: any(w.k == 'attr' and w.a[1] == 'head' and elem(w.a[0], k) for w in walk(z))
        if not ctx.need(mg is not None and len(mg.a[1]) == 2 and any(z is b0 for z in mg.a[1]) and any(hd(z) for z in mg.a[1]), R, f'{c} match', e.where, 'the subgoal is not unified with the head of the type'):
            continue
        no = cmpfact(p, 'is', lambda x: x is mg, lambda x: x is NONE or is_fail(x))
        got = [y for y in inside(p, k) if y.kind == 'yield']
        ctx.need(no is not None and bool(got) == (no is False), R, f'{c} match', e.where, 'a type that matches the subgoal is not counted')
        for y in got:
            t = p.res(y.a[0])
            ok = t.k == 'tup' and len(t.a[1]) == 2 and t.a[1][0] is mg and t.a[1][1].k == 'call' and t.a[1][1].a[0] is mg and t.a[1][1].a[1]
            if ok:
                r = t.a[1][1].a[1][0]
                ok = is_call(r, 'Rule') and r.a[1][0] is b0 and len(r.a[1]) == 2 and r.a[1][1].k == 'star' and any(w.k == 'attr' and w.a[1] == 'body' and elem(w.a[0], k) for w in walk(r.a[1][1].a[0]))
            ctx.need(ok, R, f'{c} type', y.where, f'the type of a subgoal is {short(t)}')
    ctx.floor(n, 1, 'types looked up')


def totals(ctx, m):
    R = 'totals'
    f = m.func(MOD, 'Runtime.__call__')
    me, r0 = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        if is_call(v, '_suffixtime'):
            a = [argof(v, 0, 'suffix'), argof(v, 1, 'C'), argof(v, 2, 'V')]
            empty = lambda z: is_call(z, 'frozenset', 'set') and not z.a[1] or not pieces(p, noop(z))
            ctx.need(noop(a[0]) is Attr(r0, 'body') and empty(a[1]) and empty(a[2]), R, f'{f.ref} rule', p.where(), f'the time of a rule is {short(v)}')
            n += 1
        else:
            lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) in (r0, Attr(r0, 'rules'))]
            for e, d in lp[:1]:
                xs = flat(p, v, 'sum')
                ok = d and any(x.k == 'call' and (x.a[0] is me or is_call(x, '__call__', '_suffixtime')) and any(elem(w, e.a[0]) for w in walk(x)) for x in xs)
                ctx.need(ok, R, f'{f.ref} program', e.where, f'the time of a program is {short(v)}')
                n += 1
    ctx.floor(n, 2, 'total times')
    f = m.func(MOD, 'type_bound')
    S, st, V0 = (param(f, i) for i in range(3))
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        v = p.value
        lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and (is_call(noop(itv(p, e)), 'intersect') and recv(noop(itv(p, e))) is S or itv(p, e).k == 'bin' and any(is_call(w, 'intersect') for w in walk(itv(p, e))))]
        if not lp:
            ctx.need(any(e.kind == 'loop0' and isinstance(e.a[1], V) and any(is_call(w, 'intersect') for w in walk(itv(p, e))) for e in p.events), R, f'{f.ref} types', p.where(), 'the types that overlap are not looked up')
            continue
        e, d = lp[0]
        k = e.a[0]
        inner = [x for x in inside(p, k) if x.kind in ('loop', 'loop0') and isinstance(x.a[1], V) and is_call(x.a[1], 'unify')]
        ctx.need(d, R, f'{f.ref} types', e.where, 'only some types that overlap are counted')
        if not ctx.need(len(inner) == 1 and any(z is Attr(st, 'head') for z in inner[0].a[1].a[1]) and any(z.k == 'attr' and z.a[1] == 'head' and elem(z.a[0], k) for z in inner[0].a[1].a[1]), R, f'{f.ref} match', e.where, 'the type is not unified with the types that overlap'):
            continue
        if inner[0].kind == 'loop0':
            continue
        n += 1
        xs = flat(p, v, 'sum')
        xs += [x.a[2] for x in inside(p, inner[0].a[0]) if x.kind == 'mutate' and x.a[1] == 'append' and is_call(v, 'sum') and v.a[1] and x.a[0] is v.a[1][0]]
        ok = any(is_call(x, 'stype_bound') and elem(argof(x, 1, 's'), k) and noop(argof(x, 2, 'V0')) is V0 and argof(x, 3, 'remaining0').k == 'attr' and argof(x, 3, 'remaining0').a[1] == 'body' and elem(argof(x, 3, 'remaining0').a[0], k) for x in xs)
        ctx.need(ok and (is_call(v, 'sum') or v.k == 'bin' and v.a[0] == '+'), R, f'{f.ref} sum', e.where, f'the size of a pattern is {short(v)}')
    ctx.floor(n, 1, 'types that overlap a pattern')
    f = m.func(MOD, 'stype_bound')
    S, s, V0, R0 = (param(f, i) for i in range(4))
    for p in ctx.paths(f):
        if p.kind == 'return':
            v = p.value
            ok = is_call(v, '_stype_bound') and is_call(recv(v), 'SizeBounds') and tuple(recv(v).a[1]) == (S, s) and noop(argof(v, 0, 'V')) is V0 and noop(argof(v, 1, 'remaining')) is R0
            ctx.need(ok, R, f.ref, p.where(), f'the size of a type is {short(v)}')
    f = m.func('dyna.analyze.types', 'TypeAnalyzer.size')
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind == 'return':
            lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) in (Attr(me, 'chart'), Attr(Attr(me, 'chart'), 'rules'))]
            for e, d in lp[:1]:
                x = next((w for w in flat(p, p.value, 'sum') if is_call(w, 'stype_bound')), None)
                ok = d and x is not None and elem(argof(x, 1, 's'), e.a[0]) and argof(x, 3, 'remaining0').k == 'attr' and argof(x, 3, 'remaining0').a[1] == 'body' and is_call(argof(x, 2, 'V0'), 'frozenset', 'set') and not argof(x, 2, 'V0').a[1]
                ctx.need(ok, R, f.ref, e.where, f'the size of the types is {short(p.value)}')


def arithmetic(ctx, m):
    R = 'arithmetic'
    c = m.cls(MOD, 'Param')
    for name, op in (('__add__', '+'), ('__mul__', '*'), ('min', 'min'), ('__xor__', 'min')):
        f = m.func(MOD, 'Param.' + name)
        me, y = param(f, 0), param(f, 1)
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            v = p.value
            if name == '__xor__' and is_call(v, 'min') and {recv(v), *v.a[1]} == {me, y}:
                ctx.ob(R, f.ref, f.where if hasattr(f, 'where') else '')
                continue
            t = v.a[1][0] if is_call(v, 'Param') and v.a[1] else NONE
            xs = list(t.a[1:3]) if t.k == 'bin' and t.a[0] == op else list(t.a[1]) if op == 'min' and is_call(t, 'Min', 'min') else []
            ctx.need(set(xs) == {Attr(me, 'x'), Attr(y, 'x')}, R, f.ref, p.where(), f'two bounds are combined as {short(v)}')
    f = m.func(MOD, 'Symbol', required=False)
    if f is not None:
        x = param(f, 0)
        for p in ctx.paths(f):
            if p.kind == 'return':
                ctx.need(any(w is x for w in walk(p.value)) or any(w is x for w in walk(p.res(p.value))), R, f.ref, p.where(), f'the size of a type is called {short(p.value)}')
                for w in [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'Symbol')]:
                    ctx.need(w.a[1] and w.a[1][0] is x, R, f.ref, p.where(), f'the size of a type is called {short(w)}')
    f = m.func(MOD, 'issubset', required=False)
    if f is not None:
        a, b = param(f, 0), param(f, 1)
        for p in ctx.paths(f):
            if p.kind == 'return':
                v = p.value
                ok = is_call(v, 'issubset') and noop(recv(v)) is a and noop(v.a[1][0]) is b or v.k == 'cmp' and v.a[0] == '<=' and noop(v.a[1]) is a and noop(v.a[2]) is b or v.k == 'un' and v.a[1].k == 'cmp' and v.a[1].a[0] == '<' and noop(v.a[1].a[1]) is b and noop(v.a[1].a[2]) is a or is_call(v, 'all', 'issuperset') or v.k == 'un'
                ctx.need(ok, R, f.ref, p.where(), f'the variables are compared as {short(v)}')
