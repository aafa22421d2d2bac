"""Comparison in values: distances, equality assertions and alignments (C29)."""
from ..core import check
from ..values import V, NONE, TRUE, FALSE, fname, is_call, recv, walk, is_const, Attr, Sub
from ..util import short
from .match import param
from .execute import noop
from .transform import pieces
from .goal import itv
from .coarse import loops_of
from .query import fact, around, plain


@check('C29', 'case analysis of every comparison over all paths: which facts lead to which distance, verdict and pair of rules',
       'On each path the distance must be the largest distance of the paired values, infinite exactly if keys or symbolic rules differ or a value is not a number; verdicts must follow from the distance and the tolerance; alignments must list every rule once.',
       ['the distance of two values is that of the semiring (another package)', 'that equal symbolic rules are found is decided by C06, that constants are folded correctly by C16'])
def c29(ctx):
    m = ctx.m
    distance(ctx, m)
    lifting(ctx, m)
    verdict(ctx, m)
    alignment(ctx, m)
    display(ctx, m)
    queries(ctx, m)
    changes(ctx, m)


def raw(v):
    "(kind, other operand) of an infinite or zero distance"
    if is_call(v, 'float') and len(v.a[1]) == 1 and v.a[1][0].k == 'const' and str(v.a[1][0].a[0]).lower().lstrip('+') in ('inf', 'infinity'):
        return 'inf'
    if v.k in ('attr', 'ext', 'name', 'global') and str(v).split('.')[-1] in ('inf', 'infty', 'Infinity'):
        return 'inf'
    if v.k == 'const' and not isinstance(v.a[0], bool) and isinstance(v.a[0], (int, float)):
        return 'inf' if v.a[0] == float('inf') else 'zero' if v.a[0] == 0 else None
    return None


def parts_of(p, v):
    "the distances that v is the maximum of"
    v = noop(v) if v.k == 'call' else v
    if is_call(v, 'max') and recv(v) is None:
        out = []
        kw = dict(v.a[2])
        xs = list(v.a[1])
        if len(xs) == 1:
            ps = pieces(p, xs[0])
            out = [('one', q.v) if q.kind == 'one' else ('seq', q.v) for q in ps]
            if not ps and 'default' in kw:
                out += parts_of(p, kw['default'])
            flat = []
            for k, x in out:
                flat += parts_of(p, x) if k == 'one' else [(k, x)]
            return flat
        for x in xs:
            out += [(k, y) for k, y in parts_of(p, x.a[0])] if x.k == 'star' else parts_of(p, x)
        return out
    if v.k == 'phi' and isinstance(v.a[2], V):
        return parts_of(p, v.a[2])
    return [('one', v)]


def nanfact(p, d):
    f = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and a.a[1] is d and a.a[2] is d)
    if f is not None:
        return not f
    return fact(p, lambda a: is_call(a, 'isnan') and len(a.a[1]) == 1 and a.a[1][0] is d)


def folded(v, a):
    "v is the chart (or the symbolic rules) of the folded form of a"
    return v.k == 'attr' and is_call(v.a[0], 'constant_folding', 'ConstantFolded') and (recv(v.a[0]) is a or a in v.a[0].a[1])


def distance(ctx, m):
    R = 'distance'
    f = m.func('dyna.program', 'Program.metric')
    me, other = param(f, 0), param(f, 1)
    c = f.ref
    n = same = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        co = next((e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], '_coerce_semirings')), None)
        if co is not None:
            A, B = Sub(co, V('const', 0)), Sub(co, V('const', 1))
            ctx.need(recv(co) is me and tuple(co.a[1]) == (other,), R, f'{c} lifted', p.where(), f'the programs are lifted as {short(co)}')
        else:
            A, B = me, other
        cs = {w for a in list(p.facts) + [p.value] for w in walk(a) if w.k == 'attr' and w.a[1] in ('chart', 'symbolic')} | \
             {w for e in p.events for x in e.a if isinstance(x, V) for w in walk(x) if w.k == 'attr' and w.a[1] in ('chart', 'symbolic')}
        bad = [w for w in cs if not (folded(w, A) or folded(w, B)) and not (w.a[0].k == 'name')]
        ctx.need(not bad, R, f'{c} folded', p.where(), f'the comparison is about {", ".join(sorted({short(w) for w in bad}))[:200]}, not about the folded programs')
        keyset = lambda y, X: y.k != 'sub' and not is_call(y, 'len', 'get', 'metric') and any(folded(w, X) and w.a[1] == 'chart' for w in walk(y))
        keys = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and any(keyset(a.a[1], X) and keyset(a.a[2], Y) for X, Y in ((A, B), (B, A))))
        if keys is None:      # an empty symmetric difference
            keys = fact(p, lambda a: any(x.k == 'bin' and x.a[0] == '^' and {True} == {any(folded(w, X) and w.a[1] == 'chart' for w in walk(y)) for X, y in zip((A, B), x.a[1:3])} or is_call(x, 'symmetric_difference') for x in [a]))
            keys = None if keys is None else not keys
        if keys is None:      # one set within another of the same size
            le = fact(p, lambda a: a.k == 'cmp' and a.a[0] in ('<', '<=', '>=', '>') and any(keyset(a.a[1], X) and keyset(a.a[2], Y) for X, Y in ((A, B), (B, A))))
            if le is not None:
                ctx.fail(R, f'{c} items', p.where(), 'the items of only one program are looked up in the other')
                continue
        if contradictory(p):
            continue
        for a in p.facts:
            if a.k == 'cmp' and a.a[0] == '==' and any(w.k == 'attr' and w.a[1] == 'chart' for w in walk(a)) and any(is_call(w, 'len') for w in (a.a[1], a.a[2])):
                ctx.fail(R, f'{c} items', p.where(), 'only the numbers of items are compared')
        sym = fact(p, lambda a: is_call(a, '_symbolic_equal') and len(a.a[1]) == 2 and ((folded(a.a[1][0], A) and folded(a.a[1][1], B)) or (folded(a.a[1][0], B) and folded(a.a[1][1], A)))
                   and all(x.a[1] == 'symbolic' for x in a.a[1]))
        ps = parts_of(p, p.value)
        infinite = any(k == 'one' and raw(x) == 'inf' for k, x in ps)
        D = [(k, x) for k, x in ps if not (k == 'one' and raw(x))]
        if keys is False or sym is False:
            ctx.need(infinite, R, f'{c} {"items" if keys is False else "rules"}', p.where(),
                     f'the programs differ in their {"items" if keys is False else "symbolic rules"}, but their distance is {short(p.value)}')
            continue
        if keys is None or sym is None:
            ctx.fail(R, f'{c} {"items" if keys is None else "rules"}', p.where(), f'a distance is given without comparing {"the items" if keys is None else "the symbolic rules"}')
            continue
        same += 1
        mets = {e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'metric')}
        lp = [(e, done) for e, done in loops_of(p) if isinstance(e.a[1], V) and any(w.k == 'attr' and w.a[1] == 'chart' for w in walk(itv(p, e)))]
        if not lp:
            none = any(e.kind in ('loop0',) and isinstance(e.a[1], V) and any(w.k == 'attr' and w.a[1] == 'chart' for w in walk(itv(p, e))) for e in p.events)
            ctx.need(none and not D and not infinite, R, f'{c} values', p.where(), f'the values are not compared; the distance is {short(p.value)}')
            continue
        e, done = lp[0]
        it = itv(p, e)
        whole = not any(w.k == 'slice' or is_call(w, 'islice', 'filter') for w in walk(it)) and len(lp) == 1 and done
        ctx.need(whole, R, f'{c} values', e.where, 'not all values are compared')
        if not mets and not infinite and not D and fact(p, lambda a: a.k == 'cmp' and a.a[0] in ('==', 'is') and pair(a.a[1:3], A, B, it, e.a[0])) is True:
            continue          # equal values have no distance
        if not ctx.need(len(mets) == 1, R, f'{c} values', e.where, f'{len(mets)} distances of values are taken for one item'):
            continue
        d = next(iter(mets))
        xy = list(d.a[1])
        sr = recv(d)
        ok = pair(xy, A, B, it, e.a[0]) and sr is not None and any(w.k == 'attr' and w.a[1] in ('Semiring', 'semiring') for w in walk(sr))
        ctx.need(ok, R, f'{c} pair', e.where, f'the distance of {short(d)} is not that of the two values of one item')
        nan = nanfact(p, d)
        lost = [x for x in p.events if x.kind == 'carry' and isinstance(x.a[3], V) and x.a[2] is not x.a[3] and any(w is d for w in walk(x.a[3])) and not any(w.k == 'phi' for w in walk(x.a[3]))] \
            if not any(is_call(w, 'metric') and w is not d for w in walk(p.value)) and p.value.k != 'obj' else []
        for x in lost:
            if any(k == 'loop' for k, *_ in x.ctx) or True:
                ctx.fail(R, f'{c} largest', x.where, 'the distance is that of the last item only')
        if nan is True:
            eq = fact(p, lambda a: a.k == 'cmp' and a.a[0] in ('==', 'is') and {a.a[1], a.a[2]} == set(xy))
            if eq is None:
                ctx.fail(R, f'{c} nan', p.where(), 'a distance that is not a number is taken without comparing the values')
            else:
                ctx.need(infinite != (eq is True) and not D, R, f'{c} nan', p.where(), f'{"equal" if eq else "different"} values whose distance is not a number give {short(p.value)}')
        elif nan is False:
            ctx.need(not infinite and [x for _, x in D] == [d], R, f'{c} largest', p.where(), f'the distance is {short(p.value)}')
        else:
            ctx.need(not infinite and [x for _, x in D] == [d], R, f'{c} largest', p.where(), f'the distance is {short(p.value)}')
            ctx.fail(R, f'{c} nan', p.where(), 'a distance of values that is not a number gets lost in the maximum')
    ctx.floor(same, 1, 'distances of programs with the same items')


def pair(xy, A, B, it, k):
    "the two values belong to one item of the two programs"
    if len(xy) != 2:
        return False
    own = [X for x in xy for X, P in (('A', A), ('B', B)) if any(folded(w, P) and w.a[1] == 'chart' for w in walk(strip_key(x)))]
    return sorted(own) == ['A', 'B'] and len({at(x, it, k) for x in xy}) == 1 and at(xy[0], it, k) is not None


def contradictory(p):
    for a, b in p.facts.items():
        if b is False and a.k == 'obj' and (p.res(a).k != 'tup' or p.res(a).a[1]):
            return True
        if b is False and raw(a) == 'inf' or b is True and raw(a) == 'zero':
            return True
    return False


def strip_key(x):
    "what the value is taken from, without the key"
    return x.a[0] if x.k == 'sub' else x


def at(x, it, k):
    "the item whose value x is: 'key' of the loop"
    if x.k == 'sub' and x.a[1].k in ('sub', 'elem', 'key', 'idx'):
        y = x.a[1]
        if y.k == 'sub' and is_const(y.a[1], 0) and y.a[0].k == 'sub':
            y = y.a[0]
        if y.k == 'idx':
            return ('k', y.a[0]) if y.a[0] == k else None
        if y.k in ('sub', 'key') and any(w.k == 'idx' and w.a[0] == k for w in walk(y)):
            return ('k', k)
        if y.k == 'key' and any(w is y.a[0] for w in walk(it)):
            return ('k', k)
        return None
    if x.k == 'call' and is_call(x, 'get') and x.a[1]:
        return at(Sub(recv(x), x.a[1][0]), it, k)
    if x.k == 'sub' and is_const(x.a[1], 1) and any(w.k == 'idx' and w.a[0] == k for w in walk(x)):
        return ('k', k)
    return None


def lifting(ctx, m):
    R = 'lifting'
    f = m.func('dyna.program', 'Program._coerce_semirings', required=False)
    if f is None:
        return ctx.ob(R, 'no helper', '')
    me, other = param(f, 0), param(f, 1)
    c = f.ref
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        if not ctx.need(v.k == 'tup' and len(v.a[1]) == 2, R, f'{c} pair', p.where(), f'the programs become {short(v)}'):
            continue
        text = fact(p, lambda a: is_call(a, 'isinstance') and a.a[1][0] is other)
        O = next((w for w in walk(v) if is_call(w, 'Program') and tuple(w.a[1]) == (other,)), None)
        if text is True:
            ctx.need(O is not None, R, f'{c} text', p.where(), 'a text is not read as a program')
        O = O if O is not None and text is not False else other
        sr = lambda x: fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'is' and NONE in a.a[1:3] and Attr(x, 'semiring') in a.a[1:3])
        s, o = sr(me), sr(O)
        lift = lambda v, x, y: is_call(v, 'lift_semiring') and recv(v) is x and len(v.a[1]) == 1 and v.a[1][0].k == 'attr' and v.a[1][0].a[1] in ('semiring', 'Semiring') and v.a[1][0].a[0] is y
        a, b = v.a[1]
        # on some paths the semiring of the lifted program is asked again
        if (o is None or s is None) and any(all(any(w is Attr(x, 'semiring') for w in walk(a)) for x in (me, O)) for a in p.facts):
            continue
        if o is None or s is None:
            ctx.fail(R, f'{c} cases', p.where(), 'the programs are not asked for their semirings')
            continue
        n += 1
        if s is True and o is False:
            ctx.need(lift(a, me, O) and b is O, R, f'{c} lifted', p.where(), f'a program without semiring is compared as {short(v)}')
        elif s is False and o is True:
            ctx.need(a is me and lift(b, O, me), R, f'{c} lifted', p.where(), f'a program is compared with one without semiring as {short(v)}')
        elif s is not None and s is o:
            ctx.need(a is me and b is O, R, f'{c} unchanged', p.where(), f'two programs of one kind are compared as {short(v)}')
    ctx.floor(n, 3, 'cases of lifting')


def verdict(ctx, m):
    R = 'verdict'
    f = m.func('dyna.program', 'Program.assert_equal')
    me, other, prec = param(f, 0), param(f, 1), param(f, 2)
    c = f.ref
    n = 0
    for p in ctx.paths(f):
        d = next((e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'metric')), None)
        if d is None:
            if p.kind == 'return':
                ok = fact(p, lambda a: a.k == 'cmp' and a.a[0] in ('is',) and {a.a[1], a.a[2]} == {me, other}) is True
                ctx.need(ok, R, f'{c} asked', p.where(), 'an assertion holds without comparing the programs')
            continue
        n += 1
        co = next((e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], '_coerce_semirings')), None)
        sides = {me, other} if co is None else {Sub(co, V('const', 0)), Sub(co, V('const', 1))}
        ok = {recv(d), d.a[1][0] if d.a[1] else None} == sides
        ctx.need(ok, R, f'{c} sides', p.where(), f'the assertion is about {short(d)}')
        none = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'is' and prec in a.a[1:3] and NONE in a.a[1:3])
        exact = is_zero = False
        got = None
        for a, b in p.facts.items():
            if a.k == 'cmp' and a.a[0] == '<' and d in a.a[1:3]:
                tol = a.a[1] if a.a[2] is d else a.a[2]
                got = (tol, a.a[2] is d, b)
            elif a.k == 'cmp' and a.a[0] == '==' and d in a.a[1:3]:
                tol = a.a[1] if a.a[2] is d else a.a[2]
                if raw(tol) == 'zero':
                    got = (tol, True, not b)
        if not ctx.need(got is not None, R, f'{c} tolerance', p.where(), 'the distance is not compared with a tolerance'):
            continue
        tol, upper, over = got
        if none is True:
            ctx.need(raw(tol) == 'zero', R, f'{c} tolerance', p.where(), f'without precision the tolerance is {short(tol)}')
        else:
            ctx.need(power(tol, prec), R, f'{c} tolerance', p.where(), f'the tolerance is {short(tol)}')
        if none is None and power(tol, prec):
            pass
        if not upper:
            ctx.fail(R, f'{c} tolerance', p.where(), 'a distance that is exactly the tolerance is too much')
            continue
        ctx.need((p.kind == 'raise') == over, R, f'{c} verdict', p.where(), f'the assertion {"fails although the distance is within" if not over else "holds although the distance exceeds"} the tolerance')
    ctx.floor(n, 2, 'verdicts')


def power(t, prec):
    "10 ** -precision"
    neg = lambda x: x.k == 'un' and x.a[0] == '-' and x.a[1] is prec or x.k == 'bin' and x.a[0] == '-' and is_const(x.a[1], 0) and x.a[2] is prec
    if t.k == 'bin' and t.a[0] == '**':
        return is_const(t.a[1], 10, 10.0) and neg(t.a[2]) or t.a[1].k == 'const' and t.a[1].a[0] == 0.1 and t.a[2] is prec
    if is_call(t, 'pow') and len(t.a[1]) == 2:
        return is_const(t.a[1][0], 10, 10.0) and neg(t.a[1][1])
    if t.k == 'bin' and t.a[0] == '/':
        return is_const(t.a[1], 1, 1.0) and t.a[2].k == 'bin' and t.a[2].a[0] == '**' and is_const(t.a[2].a[1], 10, 10.0) and t.a[2].a[2] is prec
    if is_call(t, 'float') and t.a[1]:
        return power(t.a[1][0], prec)
    return False


def alignment(ctx, m):
    R = 'alignment'
    f = m.func('dyna.program', 'Program.align')
    me, S = param(f, 0), param(f, 1)
    c = f.ref
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        ps = pieces(p, p.value)
        outer = []
        for e, done in loops_of(p):
            if isinstance(e.a[1], V) and not around(e)[:-1] and over(p, e, me):
                outer.append((e, done))
        if len(outer) > 1:
            outer = [x for x in outer if any(q.v.k == 'tup' and q.e is not None and any(k == x[0].a[0] for k, _ in around(q.e)) for q in ps)] or outer[:1]
        mine = [q for q in ps if q.v.k == 'tup' and len(q.v.a[1]) == 2 and not q.v.a[1][0] is NONE]
        rest = [q for q in ps if q.v.k == 'tup' and len(q.v.a[1]) == 2 and q.v.a[1][0] is NONE]
        if any(q.v.k != 'tup' or len(q.v.a[1]) != 2 for q in ps):
            continue      # another way to build the pairs
        if outer:
            e, done = outer[0]
            n += 1
            ctx.need(done and len(mine) == 1, R, f'{c} once', e.where, f'a rule is listed {len(mine)} times' if done else 'not every rule is listed')
            if len(mine) == 1:
                i, j = mine[0].v.a[1]
                ctx.need(rule_no(i, e), R, f'{c} number', e.where, f'a rule is listed as {short(i)}')
                eq = [(a, b) for a, b in p.facts.items() if is_call(a, 'same')]
                hit = [a for a, b in eq if b is True]
                if j is NONE:
                    ctx.need(not hit, R, f'{c} partner', e.where, 'a rule with an equal partner is listed without one')
                elif eq:
                    ok = len(hit) == 1 and partner(hit[0], i, j, me, S)
                    ctx.need(ok, R, f'{c} partner', e.where, 'a rule is listed with a partner that is not equal to it')
                    for z in paired_again(p, mine[0], j):
                        ctx.fail(R, f'{c} leftover', e.where, 'a rule that has a partner is listed again as one without')
                else:
                    ctx.fail(R, f'{c} partner', e.where, 'a rule is listed with a partner without comparing them')
        else:
            ctx.need(not mine, R, f'{c} once', p.where(), 'a pair is listed outside of the rules')
        # leftovers
        for q in rest:
            j = q.v.a[1][1]
            ctx.need(j.k in ('sub', 'elem', 'idx', 'key'), R, f'{c} leftover', p.where(), f'an unmatched rule is listed as {short(j)}')
        left = [(e, done) for e, done in loops_of(p) if isinstance(e.a[1], V) and any(any(k == e.a[0] for k, _ in (around(q.e) if q.e is not None else ())) for q in rest)]
        for e, done in left:
            ctx.need(done, R, f'{c} leftover', e.where, 'not every unmatched rule is listed')
        for e in p.events:
            if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V) and not [k for k, _ in around(e) if k != e.a[0]] and (e.n > outer[0][0].n if outer else True):
                it = strip(itv(p, e))
                rs = [w for w in walk(it) if is_call(w, 'range')]
                if not rs or over(p, e, me):
                    continue
                full = all(len(w.a[1]) == 1 and is_call(w.a[1][0], 'len') and w.a[1][0].a[1][0] in (S, Attr(S, 'rules')) for w in rs) and not any(w.k == 'slice' or is_call(w, 'islice', 'min') for w in walk(it))
                ctx.need(full, R, f'{c} leftover', e.where, f'the rules without partner are looked for among {short(it)} only')
        if not rest and p.kind == 'return':
            # the rules of the other program that have no partner
            z = any(e.kind == 'loop0' and not around(e) and isinstance(e.a[1], V) and any(is_call(w, 'range', 'enumerate', 'set') for w in walk(itv(p, e))) and any(w is S for w in walk(itv(p, e))) for e in p.events)
            z = z or any(e.kind == 'loop0' and not around(e) and isinstance(e.a[1], V) and itv(p, e).k in ('obj', 'tup', 'bin', 'call') for e in p.events)
            skip = any(e.kind == 'loop' and not around(e)[:-1] and e.n > (outer[0][0].n if outer else -1) and not over(p, e, me) for e in p.events if e.kind == 'loop' and isinstance(e.a[1], V))
            taken = any(a.k == 'cmp' and a.a[0] == 'in' for a in p.facts)
            ctx.need(z or (skip and taken), R, f'{c} leftover', p.where(), 'the rules without partner of the other program are not listed')
    ctx.floor(n, 2, 'listed rules')


def paired_again(p, q, j):
    "the partner stays among the rules that are still to be listed"
    if not any(e.kind in ('loop', 'loop0') and isinstance(e.a[1], V) and not around(e)[:-1] and itv(p, e).k in ('call', 'obj', 'bin', 'phi', 'tup') for e in p.events):
        return []
    gone = any(z.kind == 'mutate' and z.a[1] in ('remove', 'discard') and z.a[2] is j and strip(p.res(z.a[0])).k != 'sub' for z in p.events)
    gone = gone or any(z.kind == 'delitem' and z.a[1] is j and z.a[0].k != 'sub' for z in p.events)
    used = any(z.kind == 'mutate' and z.a[1] in ('add', 'append') and z.a[2] is j for z in p.events) or any(z.kind == 'setitem' and z.a[1] is j for z in p.events)
    asked = any(a.k == 'cmp' and a.a[0] == 'in' and a.a[1].k == 'idx' for a in p.facts)
    return [] if gone or used or asked else [q]


def strip(v):
    while v.k == 'phi' and isinstance(v.a[2], V):
        v = v.a[2]
    return v


def over(p, e, me):
    "a loop over the rules (or the positions) of the program"
    it = noop(itv(p, e))
    it = plain(it)
    if it is me or it is Attr(me, 'rules'):
        return True
    if is_call(it, 'range') and len(it.a[1]) == 1:
        x = it.a[1][0]
        return is_call(x, 'len') and x.a[1][0] in (me, Attr(me, 'rules'))
    return False


def rule_no(i, e):
    k = e.a[0]
    return i.k == 'idx' and i.a[0] == k or i.k in ('sub', 'elem') and is_call(i.a[0], 'range') and any(w.k == 'idx' and w.a[0] == k for w in walk(i))


def partner(a, i, j, me, S):
    "the comparison a is that of rule i of the one with rule j of the other program"
    r, s = recv(a), (a.a[1][0] if a.a[1] else None)
    if r is None and len(a.a[1]) == 2:
        r, s = a.a[1]
    own = lambda v, P, n: v is not None and v.k in ('sub', 'elem') and v.a[0] in (P, Attr(P, 'rules')) and (v.a[1] is n)
    return own(r, me, i) and own(s, S, j) or own(s, me, i) and own(r, S, j)


def display(ctx, m):
    R = 'display'
    f = m.func('dyna.program', 'Program._compare')
    me, other = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        al = [w for w in walk(v) if is_call(w, 'align')]
        fm = v if is_call(v, '_format_alignment') else None
        if not al or fm is None:
            continue
        ok = len(fm.a[1]) == 2 and recv(al[0]) is recv(fm) and al[0].a[1][0] is fm.a[1][0] and fm.a[1][1] is al[0]
        a, b = recv(fm), fm.a[1][0]
        ok = ok and is_call(a, 'constant_folding') and recv(a) is me and is_call(b, 'constant_folding') and (recv(b) is other or is_call(recv(b), 'Program') and tuple(recv(b).a[1]) == (other,))
        ctx.need(ok, R, f.ref, p.where(), f'the comparison that is shown is {short(v)}')
    f = m.func('dyna.program', 'Program._format_alignment')
    me, other, al = param(f, 0), param(f, 1), param(f, 2)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        lp = [(e, done) for e, done in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) is al]
        if not lp:
            continue
        e, done = lp[0]
        n += 1
        ctx.need(done, R, f'{f.ref} all', e.where, 'not every pair is shown')
        facts = [(a, b) for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'is' and NONE in a.a[1:3]]
        for side, P in ((0, me), (1, other)):
            x = [w for ev in p.events if ev.kind in ('mutate', 'newobj', 'call') for z in ev.a if isinstance(z, V) for w in walk(z) if w.k == 'sub' and w.a[0] in (Attr(P, 'rules'), P)]
            for w in x:
                i = w.a[1]
                ok = i.k == 'sub' and is_const(i.a[1], side) and i.a[0].k in ('sub', 'elem') and i.a[0].a[0] is al
                ctx.need(ok, R, f'{f.ref} side', e.where, f'the rule that is shown is {short(w)}')
                known = [b for a, b in facts if i in a.a[1:3]]
                ctx.need(False in known, R, f'{f.ref} side', e.where, 'a rule is shown for a pair that has none on this side')


def queries(ctx, m):
    R = 'query'
    f = m.func('dyna.program', 'Program.assert_equal_query')
    me, q, want = param(f, 0), param(f, 1), param(f, 2)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        if any(b is True and is_call(x, 'isinstance') and is_call(x.a[1][0], 'Program') and not any('Program' in str(w) for w in x.a[1][1:]) for x, b in p.facts.items()):
            continue      # a program is not a plain value
        ev = [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'assert_equal')]
        if not ctx.need(len(ev) == 1, R, f'{f.ref} asked', p.where(), f'the answer is compared {len(ev)} times'):
            continue
        n += 1
        a = ev[0]
        u = recv(a)
        text = fact(p, lambda a: is_call(a, 'isinstance') and a.a[1][0] is q)
        Q = u.a[1][0] if is_call(u, 'user_query') and u.a[1] else None
        ok = Q is not None and recv(u) is me and (Q is q if text is not True else is_call(Q, 'term') and tuple(Q.a[1]) == (q,))
        ctx.need(ok, R, f'{f.ref} answer', p.where(), f'the answer that is compared is {short(u)}')
        kw = any(str(k).startswith('**') or k is None for k, _ in a.a[2]) or any(x.k == 'star' for x in a.a[1])
        w = a.a[1][0] if a.a[1] else NONE
        prim = [(x, b) for x, b in p.facts.items() if is_call(x, 'isinstance') and x.a[1][0] is want]
        if w is want:
            ctx.need(not any(b is True and not any(is_call(z, 'str') for z in walk(x)) and any(fname(z) in ('Semiring', 'float', 'int') for z in walk(x)) for x, b in prim), R, f'{f.ref} expected', p.where(), 'a plain value is compared with a program')
        elif is_call(w, 'Program') and w.a[1]:
            ps = pieces(p, w.a[1][0])
            ok = len(ps) == 1 and is_call(ps[0].v, 'Rule') and len(ps[0].v.a[1]) == 2 and (ps[0].v.a[1][0] is Q) and ps[0].v.a[1][1] is want
            ctx.need(ok, R, f'{f.ref} expected', p.where(), f'a plain value stands for {short(w)}')
            sem = any(b is True and 'Semiring' in str(x.a[1][1]) for x, b in prim)
            if sem:
                sr = dict(w.a[2]).get('semiring')
                ctx.need(sr is not None and (is_call(sr, 'type') and sr.a[1][0] is want or sr.k == 'attr' and sr.a[1] == '__class__' and sr.a[0] is want), R, f'{f.ref} expected', p.where(), 'the semiring of the expected value is lost')
    ctx.floor(n, 2, 'query assertions')
    for q, b in (('assert_equal', 1), ('assert_equal_query', 2)):
        f = m.func('dyna.execute.base', 'BaseSolver.' + q, required=False)
        if f is None:
            continue
        me = param(f, 0)
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            ev = [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], q)]
            ok = len(ev) == 1 and is_call(recv(ev[0]), 'sol') and recv(recv(ev[0])) is me and tuple(ev[0].a[1][:b]) == tuple(param(f, i + 1) for i in range(b))
            ctx.need(ok, R, f.ref, p.where(), 'the solution is not what is compared')
    f = m.func('dyna.execute.base', 'BaseSolver.sol')
    me = param(f, 0)
    ch = Attr(me, 'chart')
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        if not ctx.need(is_call(v, 'Program') and v.a[1], R, f'{f.ref} program', p.where(), f'the solution is {short(v)}'):
            continue
        ps = pieces(p, v.a[1][0])
        lp = [(e, done) for e, done in loops_of(p) if isinstance(e.a[1], V) and any(w is ch for w in walk(itv(p, e)))]
        if lp:
            e, done = lp[0]
            ok = done and len(lp) == 1 and len(ps) == 1 and is_call(ps[0].v, 'Rule') and len(ps[0].v.a[1]) == 2 and not any(w.k == 'slice' for w in walk(itv(p, e)))
            if ok:
                k, x = ps[0].v.a[1]
                ok = any(w is ch for w in walk(k)) and any(w is ch for w in walk(x)) and k is not x and (x.k == 'sub' and (x.a[1] is k or is_const(x.a[1], 1) or x.a[1].k in ('idx', 'key')))
            ctx.need(ok, R, f'{f.ref} items', e.where, 'the solution does not consist of every item of the chart with its value')
        sr = dict(v.a[2]).get('semiring')
        ctx.need(sr is not None and sr.k == 'attr' and sr.a[1] in ('Weight', 'semiring', 'Semiring'), R, f'{f.ref} semiring', p.where(), 'the solution does not have the semiring of the program')


def changes(ctx, m):
    R = 'change'
    f = m.func('dyna.execute.base', 'BaseSolver.approx_equal')
    me, x, y = param(f, 0), param(f, 1), param(f, 2)
    c = f.ref
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        ds = {e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'metric')} | {w for a in p.facts for w in walk(a) if is_call(w, 'metric')} | {w for w in walk(v) if is_call(w, 'metric')}
        eqf = fact(p, lambda a: a.k == 'cmp' and a.a[0] in ('==', 'is') and {a.a[1], a.a[2]} == {x, y})
        if not ds:
            ctx.need(v is TRUE and eqf is True, R, f'{c} asked', p.where(), 'whether two values are equal does not depend on their distance')
            continue
        d = next(iter(ds))
        ctx.need(len(ds) == 1 and set(d.a[1]) == {x, y} and recv(d) is not None, R, f'{c} distance', p.where(), f'the distance is that of {", ".join(short(z) for z in ds)}')
        tol = Attr(me, 'tol')
        lim = [(a, b) for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == '<' and d in a.a[1:3]]
        ok = all(tol in a.a[1:3] for a, b in lim)
        ctx.need(ok, R, f'{c} tolerance', p.where(), 'the distance is not compared with the tolerance of the solver')
        nan = nanfact(p, d)
        if v.k == 'un' and v.a[0].strip() == 'not' and v.a[1].k == 'cmp' and v.a[1].a[0] == '<':
            v = V('cmp', '<=', v.a[1].a[2], v.a[1].a[1])
        over = next((b for a, b in lim if a.a[1] is tol and a.a[2] is d), None)
        if v is TRUE:
            ok = over is False or eqf is True
            ctx.need(ok, R, f'{c} verdict', p.where(), 'two values count as equal although their distance exceeds the tolerance')
        elif v is FALSE:
            ok = over is True and (nan is False or eqf is False)
            ctx.need(over is not False, R, f'{c} verdict', p.where(), 'two values count as different although their distance is within the tolerance')
            ctx.need(ok or over is False, R, f'{c} infinite', p.where(), 'a value that stays infinite counts as changed, so that the evaluation does not end')
        elif v.k == 'cmp' and {v.a[1], v.a[2]} == {x, y} and v.a[0] == '==':
            ctx.need(over is True or nan is True, R, f'{c} verdict', p.where(), 'values within the tolerance are compared exactly')
        elif v.k == 'cmp' and d in v.a[1:3]:
            ok = v.a[0] == '<=' and v.a[1] is d and v.a[2] is tol
            ok = ok or v.a[0] == '>=' and v.a[1] is tol and v.a[2] is d
            ctx.need(ok, R, f'{c} verdict', p.where(), f'two values count as equal if {short(v)}')
            ctx.need(eqf is False or nan is False, R, f'{c} infinite', p.where(), 'a value that stays infinite counts as changed, so that the evaluation does not end')
        else:
            ctx.fail(R, f'{c} verdict', p.where(), f'two values count as equal if {short(v)}')
    ctx.floor(n, 1, 'verdicts on changes')
