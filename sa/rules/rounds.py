"""Evaluation by rounds, by single changes and by Newton steps: where it starts, what it carries on, when it ends (C32)."""
from ..core import check
from ..values import V, NONE, TRUE, FALSE, is_call, recv, walk, is_const, Attr, Sub
from ..util import short
from .match import param
from .transform import pieces
from .coarse import consistent
from .query import fact
from .tyan import inside, itv, elem

MOD = 'dyna.program'


@check('C32', 'loop-carried dataflow of every evaluation loop over all paths: initial state, state carried to the next round, condition of every exit, value of every exit',
       'A loop must start from the empty chart and its first consequences, carry on what the round computed, and leave only at a fixpoint or at the limit of the caller with the chart that the last round computed.',
       ['what a single round computes is decided by C13 and C16', 'that a fixpoint is reached at all is not decided'])
def c32(ctx):
    m = ctx.m
    seminaive(ctx, m)
    naive(ctx, m)
    newton(ctx, m)
    newton_rounds(ctx, m)
    agenda(ctx, m)


def empty(p, v):
    "a program without rules"
    v = v if v.k == 'call' else p.res(v)
    return is_call(v, 'Program') and (not v.a[1] or not pieces(p, v.a[1][0])) and not any(k == 'rules' and pieces(p, x) for k, x in v.a[2]) or is_call(v, 'spawn') and len(v.a[1]) == 1 and not pieces(p, v.a[1][0])


def init(v):
    return v.a[2] if v.k == 'phi' and isinstance(v.a[2], V) else v


def folded(v):
    while is_call(v, 'constant_folding', 'copy', 'fresh') and recv(v) is not None and not v.a[1]:
        v = recv(v)
    return v


def position(v):
    "(initial value, offset) of a counter that goes up by one in every round"
    k = 0
    while v.k == 'bin' and v.a[0] in ('+', '-') and v.a[2].k == 'const' and isinstance(v.a[2].a[0], int):
        k += v.a[2].a[0] if v.a[0] == '+' else -v.a[2].a[0]
        v = v.a[1]
    if v.k == 'bin' and v.a[0] == '+' and v.a[1].k == 'const' and isinstance(v.a[1].a[0], int):
        k += v.a[1].a[0]
        v = v.a[2]
    if v.k == 'phi' and isinstance(v.a[2], V) and v.a[2].k == 'const' and isinstance(v.a[2].a[0], int):
        return v, v.a[2].a[0] + k
    return None, None


def shift(v, T):
    "T + k as (T, k)"
    if v.k == 'bin' and v.a[0] in ('+', '-') and v.a[1] is T and v.a[2].k == 'const' and isinstance(v.a[2].a[0], int):
        return T, v.a[2].a[0] if v.a[0] == '+' else -v.a[2].a[0]
    if v.k == 'bin' and v.a[0] == '+' and v.a[2] is T and v.a[1].k == 'const' and isinstance(v.a[1].a[0], int):
        return T, v.a[1].a[0]
    return v, 0


def at_limit(p, T):
    "facts of the form: so many rounds are done as the caller allows.  [(number of rounds beyond the limit at which it stops)]"
    out = []
    for a, b in p.facts.items():
        if a.k != 'cmp' or a.a[0] not in ('<', '<=', '=='):
            continue
        op, x, y = a.a
        (x, dx), (y, dy) = shift(x, T), shift(y, T)
        if T not in (x, y) or NONE in (x, y):
            continue
        ph, k = position(y if x is T else x)
        if ph is not None:
            k -= dx + dy
        if ph is None:
            out.append((b, None))
            continue
        # the counter after r rounds is r + k
        if op == '==':
            out.append((b, -k))
        elif x is T:
            out.append((b, (1 if op == '<' else 0) - k))             # T < r + k
        else:
            out.append((not b, (0 if op == '<' else 1) - k))         # not r + k < T
    return out


def counted(ctx, R, f, p, T, e):
    "a loop over a range runs exactly as many rounds as the caller allows"
    for c in e.ctx:
        if c[0] == 'loop' and isinstance(c[2], V):
            it = p.res(c[2])
            if is_call(it, 'range') and T in walk(it):
                a = it.a[1]
                lo = a[0].a[0] if len(a) > 1 and a[0].k == 'const' else 0 if len(a) == 1 else None
                hi, k = shift(a[1] if len(a) > 1 else a[0], T)
                ok = len(a) <= 2 and hi is T and lo == k
                ctx.need(ok, R, f'{f.ref} limit', e.where, f'there is a round for each of {short(it)}')


def carried(p):
    return {e.a[2]: e.a[3] for e in p.events if e.kind == 'carry' and isinstance(e.a[3], V) and isinstance(e.a[2], V)}


def seminaive(ctx, m):
    R = 'seminaive'
    f = m.func(MOD, 'Program.seminaive')
    me, T = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise' or not consistent(p):
            continue
        us = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'seminaive_update')]
        if not us and p.kind == 'return':
            lim = [x for x in at_limit(p, T) if x[0]]
            v = init(p.value)
            ok = empty(p, v) and (lim or any(e.kind == 'loopend' for e in p.events)) or empty(p, v) and fact(p, lambda a: is_call(a, 'step')) is False
            ctx.need(ok, R, f'{f.ref} end', p.where(), 'the evaluation ends without a round although the limit allows one')
            for _, o in lim:
                ctx.need(o in (0, None), R, f'{f.ref} limit', p.where(), f'the evaluation ends {o} rounds off the limit of the caller')
            continue
        n += 1
        for e in us[:1]:
            U = e.a[0]
            counted(ctx, R, f, p, T, e)
            a = U.a[1]
            if not ctx.need(recv(U) is me and len(a) == 2, R, f'{f.ref} round', e.where, f'a round is {short(U)}'):
                continue
            m0, d0 = init(a[0]), init(a[1])
            ctx.need(empty(p, m0), R, f'{f.ref} start', e.where, f'the first round starts from {short(m0)}')
            ctx.need(is_call(d0, 'step') and recv(d0) is me and len(d0.a[1]) == 1 and empty(p, d0.a[1][0]), R, f'{f.ref} start', e.where, 'the first change is not what the rules give without items')
            c = carried(p)
            part = lambda v, i: v.k == 'sub' and v.a[0] is U and is_const(v.a[1], i)
            inloop = any(x[0] == 'loop' for x in e.ctx)
            if p.kind == 'backedge' or c:
                for i in (0, 1):
                    ctx.need(a[i].k == 'phi' and a[i] in c and part(c[a[i]], i), R, f'{f.ref} carried', e.where, f'the next round starts from {short(c[a[i]]) if a[i] in c else "the same state as this one"}')
            nothing = any(b is False and part(x, 1) for x, b in p.facts.items())
            same = any(b is True and x.k == 'cmp' and x.a[0] == '==' and any(part(z, 0) for z in x.a[1:3]) and a[0] in x.a[1:3] for x, b in p.facts.items())
            for _, o in at_limit(p, T):
                ctx.need(o in (0, None), R, f'{f.ref} limit', p.where(), f'the evaluation ends {o} rounds off the limit of the caller')
            lim = [x for x in at_limit(p, T) if x[0]]
            if p.kind == 'return':
                over = bool(lim) or any(x.kind == 'loopend' and not x.a[1] for x in p.events)
                ctx.need(nothing or same or over or not inloop, R, f'{f.ref} end', p.where(), 'the evaluation ends although the last round changed something')
                ctx.need(part(p.value, 0) or p.value.k == 'phi' and p.value is a[0] and over and not nothing, R, f'{f.ref} answer', p.where(), f'the answer is {short(p.value)}, not the chart of the last round')
            else:
                ctx.need(not nothing and not same, R, f'{f.ref} end', p.where(), 'the evaluation goes on although nothing changed')
    ctx.floor(n, 1, 'rounds of semi-naive evaluation')


def naive(ctx, m):
    R = 'naive'
    for q in ('Program.fc', 'Program._fc'):
        f = m.func(MOD, q, required=False)
        if f is None:
            continue
        me = param(f, 0)
        n = 0
        for p in ctx.paths(f):
            if p.kind == 'raise':
                continue
            ss = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'step') and any(c[0] == 'loop' for c in e.ctx)]
            if not ss:
                continue
            n += 1
            S = ss[-1].a[0]
            N = next((w for e in p.events if e.kind in ('loop', 'loop0') for x in [e.a[1]] if isinstance(x, V) for w in walk(x) if w.k == 'param'), None)
            if N is not None:
                counted(ctx, R, f, p, N, ss[-1])
            a = S.a[1]
            if not ctx.need(recv(S) is me and len(a) == 1, R, f'{f.ref} round', ss[-1].where, f'a round is {short(S)}'):
                continue
            i0 = init(a[0])
            given = i0.k == 'param'
            ctx.need(given or empty(p, i0), R, f'{f.ref} start', ss[-1].where, f'the first round starts from {short(i0)}')
            if given:
                ctx.need(fact(p, lambda x: x is i0 or x.k == 'cmp' and x.a[0] == 'is' and i0 in x.a[1:3]) is not True or i0 in p.facts, R, f'{f.ref} start', ss[-1].where, 'the chart of the caller is used where there is none')
            else:
                ctx.need(any((x.k == 'cmp' and x.a[0] == 'is' and NONE in x.a[1:3] and b is True or x.k == 'param' and b is False) for x, b in p.facts.items()), R, f'{f.ref} start', ss[-1].where, 'the chart of the caller is ignored')
            projected = any(e.kind == 'call' and e.a[0].a[0].k == 'param' and tuple(e.a[0].a[1]) == (S,) for e in p.events)
            new = lambda v: v is S and not projected or v.k == 'call' and v.a[0].k == 'param' and tuple(v.a[1]) == (S,)
            stop = any(b is True and x.k == 'cmp' and x.a[0] == '==' and a[0] in x.a[1:3] for x, b in p.facts.items())
            ctx.need(stop or a[0].k == 'phi' or p.kind == 'backedge', R, f'{f.ref} carried', ss[-1].where, 'the next round starts from the same chart as this one')
            c = carried(p)
            for ph, v in c.items():
                if ph is a[0]:
                    ctx.need(new(v), R, f'{f.ref} carried', ss[-1].where, f'the next round starts from {short(v)}')
            if p.kind == 'backedge' or c:
                ctx.need(a[0] in c, R, f'{f.ref} carried', ss[-1].where, 'the next round starts from the same chart as this one')
            if p.kind == 'return' and not f.is_gen:
                ctx.need(new(p.value) or stop and p.value is a[0], R, f'{f.ref} answer', p.where(), f'the answer is {short(p.value)}, not the chart of the last round')
        ctx.floor(n, 1, f'rounds of {f.ref}')


def newton(ctx, m):
    R = 'newton'
    f = m.func(MOD, 'Program.newton')
    me, T = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise' or not consistent(p):
            continue
        es = [e for e in p.events if e.kind == 'loop' and isinstance(e.a[1], V) and is_call(itv(p, e), '_newton')]
        if not es:
            continue
        k = es[0].a[0]
        row = next((w for e in inside(p, k) for x in e.a if isinstance(x, V) for w in walk(x) if w.k == 'sub' and w.a[1].k == 'idx' and w.a[1].a[0] == k), None)
        if row is None:
            continue
        n += 1
        old, new, t = Sub(row, V('const', 1)), Sub(row, V('const', 4)), Sub(row, V('const', 0))
        same = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and set(a.a[1:3]) == {old, new})
        lim = False
        for a, b in p.facts.items():
            if a.k == 'cmp' and a.a[0] in ('<', '<=', '==') and T in a.a[1:3] and NONE not in a.a[1:3] and any(w is t for z in a.a[1:3] for w in walk(z)):
                op, x, y = a.a
                if op == '==' and t in (x, y):
                    lim = lim or b is True
                elif t in (x, y):
                    over = b is True if (x is T) == True else b is False
                    ok = (x is T and op == '<=') or (x is t and op == '<')
                    ctx.need(ok, R, f'{f.ref} limit', p.where(), 'the evaluation ends one round off the limit of the caller')
                    lim = lim or over
                else:
                    ctx.fail(R, f'{f.ref} limit', p.where(), f'the limit of the caller is compared as {short(a)}')
        left = p.kind == 'return' and any(e.kind == 'return' and any(c[0] == 'loop' and c[1] == k for c in e.ctx) for e in p.events) or any(e.kind == 'loopend' and e.a[0] == k and e.a[1] for e in p.events)
        if left:
            ctx.need(same is True or lim, R, f'{f.ref} end', p.where(), 'the evaluation ends although the last round changed the chart')
            ctx.need(p.value is new or same is True and p.value is old, R, f'{f.ref} answer', p.where(), f'the answer is {short(p.value)}, not the chart of the last round')
        else:
            ctx.need(same is False, R, f'{f.ref} end', p.where(), 'the evaluation goes on without a test of whether the chart changed')
    ctx.floor(n, 1, 'rounds of the Newton method')


def newton_rounds(ctx, m):
    R = 'newton rounds'
    f = m.func(MOD, 'Program._newton')
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise' or not consistent(p):
            continue
        ys = [e for e in p.events if e.kind == 'yield' and e.a[0].k == 'tup' and len(e.a[0].a[1]) == 5]
        for e in ys:
            n += 1
            t, chart, lin, change, nxt = e.a[0].a[1]
            ctx.need(is_call(change, 'solve_linear') and recv(change) is lin, R, f'{f.ref} solved', e.where, f'the change is {short(change)}, not the solution of the linear program')
            s = folded(nxt)
            ctx.need(s.k == 'bin' and s.a[0] == '+' and {s.a[1], s.a[2]} == {chart, change}, R, f'{f.ref} added', e.where, f'the next chart is {short(nxt)}')
            ph, k = position(t)
            ctx.need(ph is None or k == 1, R, f'{f.ref} count', e.where, 'the first round is not number one')
            ctx.need(empty(p, init(chart)), R, f'{f.ref} start', e.where, f'the first chart is {short(init(chart))}')
            L = init(lin)
            L = L if L.k == 'call' else p.res(L)
            ok = is_call(L, 'Program', 'spawn') and len(L.a[1]) >= 1
            if ctx.need(ok, R, f'{f.ref} start', e.where, f'the first linear program is {short(L)}'):
                starts(ctx, R, f, p, me, L.a[1][0], e)
            c = carried(p)
            sets = {x.a[0] for x in p.events if x.kind == 'setitem'}
            if p.kind == 'backedge' or c:
                ctx.need(c.get(chart) is nxt, R, f'{f.ref} carried', e.where, 'the next round does not start from the chart of this one')
                v = c.get(lin)
                ok = v is not None and v is not lin and (v in sets if sets else empty(p, v)) and not any(x is v for x in (chart, change, nxt))
                ctx.need(ok, R, f'{f.ref} carried', e.where, 'the next round does not solve the linear program that was built in this one')
    ctx.floor(n, 1, 'rounds of the Newton method')


def starts(ctx, R, f, p, me, rules, e):
    "the first linear program has exactly the rules with at most one item"
    got = [q.v for q in pieces(p, rules)]
    if any(v is me or v is Attr(me, 'rules') for v in [rules] + got):
        ctx.fail(R, f'{f.ref} first rules', e.where, 'rules with several items are taken for linear')
    for x in [x for x in p.events if x.kind == 'loop' and isinstance(x.a[1], V) and x in p.events[:p.events.index(e)]]:
        it = itv(p, x)
        if it is not me and it is not Attr(me, 'rules') or any(c[0] == 'loop' and c[1] != x.a[0] for c in x.ctx):
            continue
        k = x.a[0]
        const = fact(p, lambda a: is_call(a, 'is_const') and recv(a) is not None and elem(recv(a), k))
        lin = fact(p, lambda a: is_call(a, 'is_linear') and recv(a) is not None and elem(recv(a), k))
        kept = any(elem(v, k) for v in got)
        if const is None and lin is None:
            if kept:
                ctx.fail(R, f'{f.ref} first rules', e.where, 'a rule is taken for the first linear program without a look at how many items it has')
            continue
        if kept:
            ctx.need(const is True or lin is True, R, f'{f.ref} first rules', e.where, 'a rule with several items is taken for linear')
        else:
            ctx.need(const is False and lin is False, R, f'{f.ref} first rules', e.where, 'a rule with at most one item is missing in the first round')


def agenda(ctx, m):
    R = 'agenda'
    f = m.func(MOD, 'Program.agenda')
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise' or not consistent(p):
            continue
        pops = [e for e in p.events if e.kind == 'mutate' and e.a[1] == 'pop']
        ws = [e for e in p.events if e.kind in ('loop', 'loop0') and e.a[1] is None]
        Q = pops[0].a[0] if pops else next((a for a in p.facts if is_call(a, 'step')), None)
        if Q is None:
            continue
        n += 1
        Q0 = init(Q)
        ctx.need(is_call(Q0, 'step') and recv(Q0) is me and len(Q0.a[1]) == 1 and empty(p, init(Q0.a[1][0])), R, f'{f.ref} start', (pops or ws or [None])[0].where if (pops or ws) else p.where(), 'the first changes are not what the rules give without items')
        if p.kind == 'return':
            ctx.need(empty(p, init(p.value)) and init(p.value) is not Q0, R, f'{f.ref} answer', p.where(), f'the answer is {short(p.value)}')
        if pops:
            u = next((w for e in p.events for x in e.a if isinstance(x, V) for w in walk(x) if is_call(w, 'pop') and recv(w) is pops[0].a[0]), None)
            ups = [e for e in p.events if e.kind == 'mutate' and e.a[1] == 'update' and len(e.a) == 4 and e.a[2] is Attr(u, 'head') and e.a[3].k == 'star' and e.a[3].a[0] is Attr(u, 'body')] if u is not None else []
            if p.kind == 'return':
                ctx.need(any(e.a[0] is p.value for e in ups), R, f'{f.ref} answer', p.where(), 'a change that is taken up is missing in the answer')
                ctx.need(sum(e.a[0] is p.value for e in ups) <= 1, R, f'{f.ref} answer', p.where(), 'a change is added twice')
        elif p.kind == 'return':
            none = fact(p, lambda a: a is Q) is False
            lim = any(a.k == 'cmp' and a.a[0] in ('<', '<=') and any(w.k == 'param' and w.a[1] == 'max_iter' for z in a.a[1:3] for w in walk(z)) for a in p.facts)
            ctx.need(none or lim, R, f'{f.ref} end', p.where(), 'the evaluation ends before every change was taken up')
    ctx.floor(n, 1, 'paths of the evaluation by changes')
    # the test of the loop
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] == 'pop' and p.kind != 'raise':
                Q = e.a[0]
                ctx.need(fact(p, lambda a: a is Q) is True, R, f'{f.ref} end', e.where, 'a change is taken up without a test of whether there is one')
                for a, b in p.facts.items():
                    if a.k == 'cmp' and a.a[0] in ('<', '<=') and any(w.k == 'param' and w.a[1] == 'max_iter' for z in a.a[1:3] for w in walk(z)):
                        ph, k = position(a.a[1] if a.a[1].k != 'param' else a.a[2])
                        if ph is None:
                            continue
                        # taken up although r rounds are done: allowed iff r < max_iter
                        low = a.a[2].k == 'param'
                        ok = (a.a[0] == '<' and k == 0 and b is True or a.a[0] == '<=' and k == 1 and b is True) if low else (a.a[0] == '<=' and k == 0 and b is False or a.a[0] == '<' and k == 1 and b is False)
                        ctx.need(ok, R, f'{f.ref} limit', e.where, 'the limit of the caller is missed by a round')
