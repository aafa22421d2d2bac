"""Queries, steps and builtin evaluation enumerate every alternative once (C27)."""
import ast
from ..core import check
from ..values import V, NONE, TRUE, fname, is_call, recv, walk, is_const, strip_phi, Attr, Sub
from ..util import short, is_fresh
from .match import param
from .execute import noop, unfresh, all_rules
from .transform import pieces, Piece
from .goal import itv, helpers_of, nested
from .observe import truth
from .coarse import loops_of, consistent, seq, names


@check('C27', 'accounting of the alternatives that each query, join, rule step and builtin evaluation goes through',
       'On every path, the loops must run over exactly the alternatives that the question has, to their end, and hand on one answer for each innermost iteration; '
       'inputs and unready builtins must be answered by themselves; derived programs must take over the declarations of their source.',
       ['the order in which rules are tried is not decided here', 'what a single unification or a single builtin answers is decided by C05 and C09 to C12'])
def c27(ctx):
    m = ctx.m
    streams(ctx, m)
    values_of(ctx, m)
    subgoal(ctx, m)
    stepping(ctx, m)
    grounding(ctx, m)
    evaluation(ctx, m)
    equations(ctx, m)
    derived(ctx, m)


# ------------------------------------------------------------------ nests of loops
class Out:
    "One answer that is handed on: its value, the loops around it, and where."
    def __init__(self, v, loops, e):
        self.v, self.loops, self.e = v, loops, e


def real(c):
    return c[0] in ('loop', 'unroll') and isinstance(c[2], V) and not str(c[2]).startswith('genexp(')


def around(e):
    return [(c[1], c[2]) for c in e.ctx if c[0] == 'loop' and (not isinstance(c[2], V) or real(c))]


def outputs(p):
    "what the generator (or the function that returns an iterable) hands on"
    out = []
    gen = False
    for e in p.events:
        if e.kind == 'yield':
            gen = True
            out.append(Out(e.a[0], around(e), e))
        elif e.kind == 'yieldfrom':
            gen = True
            v = e.a[0]
            if v.k == 'obj' or v.k == 'tup':
                out += [Out(q.v, around(q.e) if q.e is not None else around(e), q.e or e) for q in pieces(p, v)]
            else:
                out.append(Out(V('each', v), around(e) + [('from', v)], e))
    if not gen and p.kind == 'return' and p.value is not NONE:
        v = p.value
        while is_call(v, 'iter', 'list', 'tuple') and len(v.a[1]) == 1:
            v = v.a[1][0]
        if v.k in ('obj', 'tup') or (v.k == 'phi'):
            for q in pieces(p, v):
                if q.kind == 'one':
                    out.append(Out(q.v, around(q.e) if q.e is not None else [], q.e or p.events[-1]))
                else:
                    out.append(Out(V('each', q.v), (around(q.e) if q.e is not None else []) + [('from', q.v)], q.e or p.events[-1]))
        else:
            out.append(Out(V('each', v), [('from', v)], p.events[-1] if p.events else None))
    return out


def out_of(p, q):
    "a piece of a sequence as an answer; where it was put in is found from the elements it is made of if it is no longer known"
    if q.e is not None:
        return Out(q.v, around(q.e), q.e)
    ids = {w.a[0] for w in walk(q.v) if w.k == 'idx'}
    es = [e for e, _ in loops_of(p) if e.a[0] in ids and isinstance(e.a[1], V)]
    return Out(q.v, [(e.a[0], e.a[1]) for e in es], None)


def one_of(v, it, k):
    "v is the element that loop k over `it` is at"
    v = noop(v)
    if v.k == 'each':
        return k == 'from'
    return v.k in ('sub', 'elem') and (v.k == 'elem' or (v.a[1].k == 'idx' and v.a[1].a[0] == k)) and v.a[0] is it


def plain(v):
    "what is gone through, without the positions"
    return v.a[1][0] if is_call(v, 'enumerate') and v.a[1] else v


def nest(ctx, R, c, p, want, value, what, outs=None, at=None):
    """On this path the loops `want` (predicates of what they run over) are nested in this order, each runs
    to its end, and each innermost iteration hands on exactly one answer `value(v, elements)`."""
    outs = outputs(p) if outs is None else outs
    chain, its = [], []
    for d, w in enumerate(want):
        got = None
        for e, ended in loops_of(p):
            if isinstance(e.a[1], V) and real(('loop', 0, e.a[1])) and [k for k, _ in around(e)][:-1] == chain and w(plain(itv(p, e)), its):
                got = (e, ended)
                break
        if got:
            e, ended = got
            if not ended and p.kind != 'backedge':
                ctx.fail(R, f'{c} complete', e.where, f'{what}: the loop over {short(itv(p, e))} ends early')
                return False
            chain.append(e.a[0])
            its.append((e.a[0], plain(itv(p, e))))
            continue
        for e in p.events:
            if e.kind == 'loop0' and isinstance(e.a[1], V) and [k for k, _ in around(e)] == chain and w(plain(itv(p, e)), its):
                return ctx.need(not outs, R, f'{c} none', e.where, f'{what}: an answer is handed on although there is no alternative')
        fr = [o for o in outs if o.loops and o.loops[-1][0] == 'from' and [k for k, _ in o.loops[:-1]] == chain and w(o.loops[-1][1], its)]
        if fr and d == len(want) - 1:
            chain.append('from')
            its.append(('from', fr[0].loops[-1][1]))
            continue
        ctx.fail(R, f'{c} alternatives', at or p.where(), f'{what}: not every alternative is gone through')
        return False
    here = [o for o in outs if [k for k, _ in o.loops] == chain]
    ok = len(outs) == 1 and len(here) == 1
    if not ok:
        ctx.fail(R, f'{c} once', at or p.where(), f'{what}: an alternative is {"answered " + str(len(outs)) + " times" if outs else "left out"}')
        return False
    return ctx.need(value(here[0].v, its), R, f'{c} answer', here[0].e.where if here[0].e is not None else p.where(), f'{what}: the answer is {short(here[0].v)}')


def single(ctx, R, c, p, value, what):
    "On this path exactly one answer is handed on, outside of any loop."
    outs = outputs(p)
    ok = len(outs) == 1 and not outs[0].loops
    if not ctx.need(ok, R, f'{c} once', p.where(), f'{what}: answered {len(outs)} times' if not ok and not any(o.loops for o in outs) else f'{what}: not answered exactly once'):
        return
    ctx.need(value(outs[0].v), R, f'{c} answer', outs[0].e.where, f'{what}: the answer is {short(outs[0].v)}')


def made(p):
    "the value that is returned, its parts as they are recorded"
    return p.value if p.value.k != 'phi' else strip_phi(p.value)


def cut(v, x, lo):
    "v is x[lo:]"
    return v.k == 'sub' and v.a[0] is x and v.a[1].k == 'slice' and is_const(v.a[1].a[0], lo) and is_const(v.a[1].a[1], None) and is_const(v.a[1].a[2], None)


def nth(v, x, i):
    return v.k == 'sub' and v.a[0] is x and is_const(v.a[1], i)


def product_of(v, a, b):
    "v is the product of something satisfying a and something satisfying b, in order"
    return v.k == 'bin' and v.a[0] == '*' and a(v.a[1]) and b(v.a[2])


# ------------------------------------------------------------------ streams
def streams(ctx, m):
    R = 'streams'
    f = m.func('dyna.term', 'Stream.__mul__')
    me, other = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind == 'return':
            v = p.value
            ctx.need(is_call(v, 'Join') and tuple(v.a[1]) == (me, other), R, f.ref, p.where(), f'the product of two streams is {short(v)}')
    f = m.func('dyna.term', 'Join.__iter__')
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        nest(ctx, R, f.ref, p, [lambda it, _: noop(it) is Attr(me, 'xs'), lambda it, _: noop(it) is Attr(me, 'ys')],
             lambda v, its: product_of(v, lambda a: one_of(a, its[0][1], its[0][0]), lambda b: one_of(b, its[1][1], its[1][0])), 'the join of two streams')
    f = m.func('dyna.term', 'I.__iter__')
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        nest(ctx, R, f.ref, p, [lambda it, _: is_call(it, 'unify') and {id(x) for x in it.a[1]} == {id(Attr(me, 'x')), id(Attr(me, 'y'))}],
             lambda v, its: v is Attr(me, 'v'), 'a value under an equality')
    f = m.func('dyna.term', 'Constant.__iter__')
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind not in ('raise', 'backedge'):
            single(ctx, R, f.ref, p, lambda v: v is Attr(me, 'v'), 'a stream of one value')
    f = m.func('dyna.term', 'ResultStream.__iter__')
    me = param(f, 0)

    def called(it, _=None):
        return it.k == 'call' and it.a[0] is Attr(me, 'f') and len(it.a[1]) == 1 and it.a[1][0].k == 'star' and it.a[1][0].a[0] is Attr(me, 'args') and not it.a[2]
    for p in ctx.paths(f):
        if p.kind not in ('raise', 'backedge') and consistent(p):
            nest(ctx, R, f.ref, p, [called], lambda v, its: one_of(v, its[0][1], its[0][0]), 'the results of a call')
    # what the streams are over
    for cls, parts in (('Join', ('xs', 'ys')), ('I', ('x', 'y', 'v')), ('ResultStream', ('args',)), ('Constant', ('v',))):
        f = m.func('dyna.term', cls + '.__init__')
        me = param(f, 0)
        va = f.node.args.vararg
        for p in ctx.paths(f):
            if p.kind == 'raise':
                continue
            st = {e.a[1]: p.res(e.a[2]) for e in p.events if e.kind == 'setattr' and e.a[0] is me}
            for i, a in enumerate(x.arg for x in f.node.args.args[1:]):
                if a in parts or a == 'f':
                    ctx.need(a in st and st[a] is param(f, i + 1), R, f'{cls}.{a}', p.where(), f'a {cls} keeps {short(st[a]) if a in st else "nothing"} as its {a}')
            if va is not None and va.arg in parts:
                v = st.get(va.arg)
                ctx.need(v is not None and va.arg in str(v) and (v.k in ('param', 'star', 'name') or is_call(v, 'tuple', 'list')), R, f'{cls}.{va.arg}', p.where(), f'a {cls} keeps {short(v) if v is not None else "nothing"} as its arguments')
            if cls == 'Constant' and any(b is False and a.k == 'cmp' and a.a[0] == 'is' and NONE in a.a[1:] for a, b in p.facts.items()):
                continue
            vs = st.get('vars')
            seen = {id(x) for w in walk(vs) if is_call(w, 'term_vars') for x in w.a[1]} if vs is not None else set()
            for a in parts:
                ok = id(st.get(a)) in seen or id(Attr(me, a)) in seen or (va is not None and a == va.arg and seen)
                ctx.need(ok, R, f'{cls}.vars', p.where(), f'the variables of a {cls} leave out those of its {a}')


# ------------------------------------------------------------------ queries
def values_of(ctx, m):
    R = 'query'
    f = m.func('dyna.program', 'Program.__getitem__')
    me, xs = param(f, 0), param(f, 1)
    n = 0

    def of(v, x):
        "the query of one subgoal (or of a sequence)"
        if v.k == 'sub' and v.a[0] is me:
            return x(v.a[1])
        if is_call(v, '__getitem__') and recv(v) is me and len(v.a[1]) == 1:
            return x(v.a[1][0])
        return is_call(v, 'ResultStream') and len(v.a[1]) == 2 and v.a[1][0] is Attr(me, 'lookup_vals') and x(v.a[1][1])
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        many = next((b for a, b in p.facts.items() if is_call(a, 'isinstance') and a.a[1][0] is xs), None)
        if many is False:
            ctx.need(is_call(v, 'ResultStream') and tuple(v.a[1]) == (Attr(me, 'lookup_vals'), xs), R, f'{f.ref} one', p.where(), f'a subgoal is answered by {short(v)}')
            continue
        if many is None:
            ctx.fail(R, f'{f.ref} kind', p.where(), 'one subgoal is not told from a sequence of subgoals')
            continue
        if p.facts.get(xs) is False:
            ctx.need(is_call(v, 'Constant') and v.a[1] and v.a[1][0].k == 'attr' and v.a[1][0].a[1] == 'one', R, f'{f.ref} empty', p.where(), f'an empty body is answered by {short(v)}')
            continue
        one = next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == '==' and any(is_const(z, 1) for z in a.a[1:3]) and any(is_call(z, 'len') and z.a[1][0] is xs for z in a.a[1:3])), None)
        ph = v if v.k == 'phi' else None
        if ph is not None or any(e.kind in ('loop', 'loop0') for e in p.events):
            for e in p.events:
                if e.kind == 'carry' and isinstance(e.a[3], V):
                    el = lambda z: z.k in ('sub', 'elem') and cut(noop(z.a[0]), xs, 1)
                    ctx.need(product_of(e.a[3], lambda a: a is e.a[2] or a.k == 'phi', lambda b: of(b, el)), R, f'{f.ref} several', e.where, f'the next subgoal is joined as {short(e.a[3])}')
            continue
        first = lambda z: nth(z, xs, 0)
        if one is True and of(v, first):
            ctx.ob(R, f'{f.ref} several', p.where())
            continue
        ok = product_of(v, lambda a: of(a, first), lambda b: of(b, lambda z: cut(z, xs, 1)))
        ctx.need(ok, R, f'{f.ref} several', p.where(), f'several subgoals are answered by {short(v)}')
    ctx.floor(n, 3, 'kinds of queries')
    f = m.func('dyna.program', 'Program.lookup_vals')
    me, q = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        const = next((b for a, b in p.facts.items() if is_call(a, 'is_const') and a.a[1] and a.a[1][0] is q), None)
        if const is True:
            bi = p.facts.get(Attr(me, 'has_builtins'))
            if bi is True:
                single(ctx, R, f'{f.ref} constant', p, lambda v: is_call(v, 'Product') and [(x.kind, x.v) for x in pieces(p, v)] == [('one', q)], 'a constant')
            elif bi is False:
                ctx.need(not outputs(p), R, f'{f.ref} constant', p.where(), 'a constant has a value although builtins are off')
            else:
                ctx.fail(R, f'{f.ref} constant', p.where(), 'a constant is answered without asking whether builtins are on')
            continue
        nest(ctx, R, f.ref, p, [lambda it, _: is_call(it, 'lookup') and recv(it) is me and tuple(it.a[1]) == (q,)],
             lambda v, its: v.k == 'attr' and v.a[1] == 'body' and one_of(v.a[0], its[0][1], its[0][0]), 'the values of a subgoal')


def is_rule_one(v, S, me):
    return is_call(v, 'Rule') and len(v.a[1]) == 2 and v.a[1][0] is S and v.a[1][1].k == 'attr' and v.a[1][1].a[1] == 'one'


def is_delayed(v, S):
    return is_call(v, 'Rule') and len(v.a[1]) == 2 and v.a[1][0] is S and v.a[1][1] is S


def fact(p, test):
    return next((b for a, b in p.facts.items() if test(a)), None)


def fn_is(p, S, name):
    "is the functor this one: True, False, or None if not known"
    return fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and any(z is Attr(S, 'fn') for z in a.a[1:3]) and any(is_const(z, name) for z in a.a[1:3]))


def subgoal(ctx, m):
    R = 'lookup'
    f = m.func('dyna.program', 'Program.lookup')
    me, q = param(f, 0), param(f, 1)
    inl = tuple(x for x in names(m, f) if x in ('_lookup_builtin',))
    n = 0
    for p in ctx.paths(f, inline=inl):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        S = next((w for a in list(p.facts) for w in walk(a) if is_call(w, 'snap') and w.a[1] and w.a[1][0] is q), q)
        n += 1
        const = fact(p, lambda a: is_call(a, 'is_const') and a.a[1] and a.a[1][0] is S)
        var = fact(p, lambda a: (is_call(a, 'isinstance') and len(a.a[1]) == 2 and a.a[1][0] is S and fname(a.a[1][1]) == 'Var') or (is_call(a, 'is_var') and a.a[1][0] is S))
        bi = p.facts.get(Attr(me, 'has_builtins'))
        if const is True:
            if bi is True:
                single(ctx, R, f'{f.ref} constant', p, lambda v: v is S, 'a constant')
            else:
                ctx.need(bi is False and not outputs(p), R, f'{f.ref} constant', p.where(), 'a constant is not answered exactly when builtins are on')
            continue
        if var is True:
            nest(ctx, R, f'{f.ref} variable', p, [lambda it, _: own_rules(it, me), lambda it, its: is_call(it, 'unify') and pair(it, S, lambda z: head_in(z, its[0], me))],
                 lambda v, its: same_rule(v, its, me), 'a variable subgoal')
            continue
        if fn_is(p, S, '$lift') is True:
            single(ctx, R, f'{f.ref} lift', p, lambda v: is_call(v, 'Rule') and len(v.a[1]) == 2 and v.a[1][0] is S and is_call(v.a[1][1], 'lift'), 'a lifted value')
            continue
        inp = fact(p, lambda a: is_call(a, 'is_input') and a.a[1] and a.a[1][0] is S)
        if inp is True:
            single(ctx, R, f'{f.ref} input', p, lambda v: is_delayed(v, S), 'an input')
            continue
        if inp is None:
            ctx.fail(R, f'{f.ref} input', p.where(), 'a subgoal is answered without asking whether it is an input')
            continue
        two = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and any(is_const(z, 2) for z in a.a[1:3]) and any((z.k == 'attr' and z.a[1] == 'arity') or is_call(z, 'len') for z in a.a[1:3]))
        comp = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is Attr(S, 'fn') and fname(a.a[2]) == 'cmps')
        if bi is True:
            if comp is True and two is True:
                gr = [b for a, b in p.facts.items() if is_call(a, 'is_ground')]
                if False in gr or (not gr):
                    single(ctx, R, f'{f.ref} comparison', p, lambda v: is_delayed(v, S), 'a comparison that is not ground')
                else:
                    holds = fact(p, lambda a: a.k == 'call' and a.a[0].k == 'sub' and fname(a.a[0].a[0]) == 'cmps')
                    if holds is False:
                        ctx.need(not outputs(p), R, f'{f.ref} comparison', p.where(), 'a comparison that does not hold is answered')
                    else:
                        single(ctx, R, f'{f.ref} comparison', p, lambda v: is_rule_one(v, S, me), 'a comparison that holds')
                continue
            if fn_is(p, S, '=') is True and two is True:
                nest(ctx, R, f'{f.ref} equation', p, [lambda it, _: is_call(it, 'unify') and len(it.a[1]) == 2 and all(under(z, S) for z in it.a[1]) and it.a[1][0] is not it.a[1][1]],
                     lambda v, its: is_rule_one(v, S, me), 'an equation')
                continue
            if fn_is(p, S, 'is') is True:
                ready = fact(p, lambda a: is_call(a, 'is_ready') and a.a[1] and a.a[1][0] is S)
                if ready is True:
                    nest(ctx, R, f'{f.ref} builtin', p, [lambda it, _: it.k == 'call' and tuple(it.a[1][:1]) == (S,) and 'builtins' in str(it.a[0])],
                         lambda v, its: is_rule_one(v, S, me), 'a builtin that is ready')
                elif ready is False:
                    single(ctx, R, f'{f.ref} delayed', p, lambda v: is_delayed(v, S), 'a builtin that is not ready')
                else:
                    ctx.fail(R, f'{f.ref} delayed', p.where(), 'a builtin is answered without asking whether it is ready')
                continue
            isb = fact(p, lambda a: is_call(a, 'isinstance') and len(a.a[1]) == 2 and a.a[1][0] is S and fname(a.a[1][1]) == 'BuiltinConstraint')
            if isb is True or fn_is(p, S, '$not_matches') is True:
                nest(ctx, R, f'{f.ref} constraint', p, [lambda it, _: is_call(it, 'run') and tuple(it.a[1]) == (me,) and under(recv(it), S)],
                     lambda v, its: one_of(v, its[0][1], its[0][0]), 'a constraint')
                continue
        nest(ctx, R, f'{f.ref} rules', p, [lambda it, _: noop(it).k == 'call' and is_call(noop(it), 'f2r') and noop(it).a[1] and noop(it).a[1][0] is Attr(S, 'fn') or own_rules(it, me),
                                           lambda it, its: is_call(it, 'unify') and pair(it, S, lambda z: head_in(z, its[0], me))],
             lambda v, its: same_rule(v, its, me), 'the rules that match a subgoal')
    ctx.floor(n, 6, 'cases of a lookup')


def under(z, S):
    return any(w is S for w in walk(z))


def own_rules(it, me):
    it = noop(it)
    if is_call(it, 'enumerate', 'iter') and it.a[1]:
        it = noop(it.a[1][0])
    it = unfresh(it)
    if it.k == 'attr' and it.a[1] == 'rules':
        it = unfresh(it.a[0])
    return it is me


def pair(it, S, other):
    a = it.a[1]
    return len(a) == 2 and ((a[0] is S and other(a[1])) or (a[1] is S and other(a[0])))


def rule_at(v, lp, me):
    "v is (a copy of) the rule that the loop is at"
    v = strip_phi(v)
    while True:
        v = unfresh(noop(v))
        if v.k == 'enter':
            v = v.a[0]
        elif v.k == 'call' and len(v.a[1]) == 1 and (fname(v.a[0]) or '') in ('_fresh', 'fresh'):
            v = v.a[1][0]
        elif v.k == 'sub' and v.a[0].k == 'tup' and False:
            pass
        else:
            break
    if v.k not in ('sub', 'elem') or len(v.a) < 2:
        return False
    i = v.a[1]
    at = (i.k == 'idx' and i.a[0] == lp[0]) or (i.k in ('sub', 'elem') and len(i.a) > 1 and i.a[1].k == 'idx' and i.a[1].a[0] == lp[0])
    return at and any(w is me for w in walk(v.a[0]))


def head_in(z, lp, me):
    return z.k == 'attr' and z.a[1] == 'head' and rule_at(z.a[0], lp, me)


def same_rule(v, its, me):
    u = its[1][1].a[1]
    h = [z for z in u if z.k == 'attr' and z.a[1] == 'head']
    return any(z.a[0] is v for z in h) and rule_at(v, its[0], me)


# ------------------------------------------------------------------ one step
def stepping(ctx, m):
    R = 'step'
    f = m.func('dyna.program', 'Program.step')
    me, ch = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        new = [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'Program')]
        q = made(p)
        if q in new:
            kw = dict(q.a[2])
            base = kw.get('rules') or (q.a[1][0] if q.a[1] else None)
            ctx.need(base is None or base.k in ('obj', 'tup') and not [x for x in pieces(p, base) if x.e is None or x.e.kind == 'newobj'] or is_const(base, ''), R, f'{f.ref} start', p.where(), 'a step starts from a program that is not empty')
            ctx.need(kw.get('inputs') is Attr(ch, 'inputs'), R, f'{f.ref} inputs', p.where(), f'the inputs of the new chart are {short(kw["inputs"]) if "inputs" in kw else "none"}, not those of the chart that the rules are applied to')
            ctx.need(kw.get('outputs') is Attr(me, 'outputs'), R, f'{f.ref} outputs', p.where(), f'the outputs of the new chart are {short(kw["outputs"]) if "outputs" in kw else "none"}, not those of the program')
            s = kw.get('semiring')
            ctx.need(s is not None and s.k == 'attr' and s.a[0] is me and s.a[1] in ('semiring', 'Semiring'), R, f'{f.ref} semiring', p.where(), 'the new chart does not have the semiring of the program')
            hb = kw.get('has_builtins')
            if hb is not None:
                t = p.facts.get(Attr(me, 'has_builtins'))
                ok = (t is True and hb in (Attr(me, 'has_builtins'), TRUE)) or (t is False and hb is Attr(ch, 'has_builtins')) or \
                     (hb.k == 'bool' or hb.k == 'bin') or p.facts.get(Attr(ch, 'has_builtins')) is not None or is_call(hb, 'any', 'bool')
                ctx.need(ok, R, f'{f.ref} builtins', p.where(), 'the new chart has builtins although neither of the two programs has them, or the other way around')
        lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and all_rules(itv(p, e), me)]
        if not lp:
            ctx.need(any(e.kind == 'loop0' and isinstance(e.a[1], V) and all_rules(itv(p, e), me) for e in p.events), R, f'{f.ref} rules', p.where(), 'not every rule is applied')
        for e, d in lp:
            k = [x for x in p.events if x.kind == 'setitem' and p.res(x.a[0]) is p.res(q) and [c[1] for c in x.ctx if c[0] == 'loop'][-1:] == [e.a[0]]]
            k += [x for x in p.events if x.kind == 'call' and is_call(x.a[0], '__setitem__') and p.res(recv(x.a[0])) is p.res(q)]
            ctx.need(d and len(k) == 1, R, f'{f.ref} once', e.where, 'a rule is not applied exactly once')
    ctx.floor(n, 2, 'steps')


def grounding(ctx, m):
    R = 'groundings'
    f = m.func('dyna.program', 'Program.groundings')
    me, ch = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue

        def chart_of(it):
            "the query of the body of a rule in the chart"
            if it.k == 'sub' and it.a[1].k == 'attr' and it.a[1].a[1] == 'body':
                return it.a[0], it.a[1].a[0]
            return None

        def second(it, its):
            c = chart_of(it)
            return c is not None and rule_at(c[1], its[0], me)

        def answer(v, its):
            if not is_call(v, 'Grounding'):
                return False
            a = list(v.a[1]) + [x for _, x in sorted(v.a[2])]
            if len(a) != 3:
                return False
            i, r, val = a
            src = chart_of(its[1][1])[1]
            ok = i.k == 'idx' and i.a[0] == its[0][0]
            ok = ok or (i.k in ('sub', 'elem') and str(i).endswith('.i')) or (i.k == 'attr' and i.a[1] == 'i')
            ok = ok and is_fresh(r) and any(w is src for w in walk(r)) and is_fresh(val)
            return ok and any(w.k in ('sub', 'elem') and w.a[0] is its[1][1] for w in walk(val))
        outs = outputs(p)
        if nest(ctx, R, f.ref, p, [lambda it, _: own_rules(it, me), second], answer, 'the groundings of a program', outs=outs) and outs:
            c = chart_of(next(itv(p, e) for e, _ in loops_of(p) if chart_of(itv(p, e)) is not None))
            none = p.facts.get(next((a for a in p.facts if a.k == 'cmp' and a.a[0] == 'is' and ch in a.a[1:]), None))
            ctx.need(c[0] is ch if none is False else (none is not True or c[0] is not ch), R, f'{f.ref} chart', p.where(), f'the bodies are looked up in {short(c[0])}')
            v = outs[0].v
            r = (list(v.a[1]) + [x for _, x in sorted(v.a[2])])[1]
            tag = [e for e in p.events if e.kind == 'setattr' and e.a[1] == 'i' and p.res(e.a[0]) is p.res(r)]
            ctx.need(bool(tag) and all(t.a[2] is v.a[1][0] for t in tag), R, f'{f.ref} index', p.where(), 'a grounding does not say which rule it comes from')
            both = [w for w in walk(r) if is_call(w, 'fresh')] and [w for w in walk(v) if is_call(w, 'fresh')]
            ctx.need(len(set(both)) <= 1, R, f'{f.ref} together', p.where(), 'the rule and its value are renamed separately: they no longer share their variables')
    f = m.func('dyna.program', 'Program.instantiate')
    me, ch = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        G = p.res(p.value)
        none = p.facts.get(next((a for a in p.facts if a.k == 'cmp' and a.a[0] == 'is' and ch in a.a[1:]), None))
        ctx.need(is_call(G, 'spawn') and recv(G) is me or is_call(G, 'Program', 'TransformedProgram'), R, f'{f.ref} declarations', p.where(), 'the instantiated program is not derived from this one')
        adds = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('append', '_add_rule', 'extend') and (p.res(e.a[0]) is G or p.res(e.a[0]) is Attr(G, 'rules'))]
        outs = []
        for e in adds:
            outs += [out_of(p, q) for q in pieces(p, e.a[-1])] if e.a[1] == 'extend' else [Out(p.res(e.a[-1]), around(e), e)]
        if not outs and is_call(G, 'spawn') and G.a[1]:
            outs = [out_of(p, x) for x in pieces(p, G.a[1][0])]
        nest(ctx, R, f.ref, p, [lambda it, _: is_call(it, 'groundings') and recv(it) is me and (none is not False or tuple(it.a[1]) == (ch,))],
             lambda v, its: v.k == 'attr' and v.a[1] == 'rule' and one_of(v.a[0], its[0][1], its[0][0]) or (v.k in ('sub', 'elem') and is_const(v.a[1], 1) and one_of(v.a[0], its[0][1], its[0][0])), 'the instantiation of a program', outs=outs)
        si = [p.res(e.a[2]) for e in p.events if e.kind == 'setattr' and p.res(e.a[0]) is G and e.a[1] == 'inputs']
        ok = bool(si) and si[-1].k == 'attr' and si[-1].a[1] == 'inputs' and si[-1].a[0] is not me and (none is not False or si[-1].a[0] is ch)
        ctx.need(ok, R, f'{f.ref} inputs', p.where(), 'the instantiated program does not have the inputs of the chart')


# ------------------------------------------------------------------ evaluating builtins
def rule_at_any(v, p):
    return v.k in ('sub', 'elem')


def evaluation(ctx, m):
    R = 'evaluation'
    f = m.func('dyna.program', 'Program._run_builtins', required=False)
    top = m.func('dyna.program', 'Program.run_builtins')
    if f is None:
        return ctx.fail(R, top.ref, top.ref, 'there is no evaluation of the builtins of a body')
    me, ys = param(f, 0), param(f, 1)

    def rest(it, _=None):
        return is_call(it, f.name) and len(it.a[1]) == 1 and cut(it.a[1][0], ys, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        n += 1
        if p.facts.get(ys) is False:
            single(ctx, R, f'{f.ref} empty', p, lambda v: is_call(v, 'Product') and not pieces(p, v), 'an empty body')
            continue
        bi = fact(p, lambda a: is_call(a, 'is_builtin') and a.a[1] and nth(a.a[1][0], ys, 0))
        if bi is True:
            nest(ctx, R, f'{f.ref} builtin', p, [lambda it, _: is_call(it, 'lookup_vals') and tuple(it.a[1]) == (Sub0(ys),), rest],
                 lambda v, its: product_of(v, lambda a: one_of(a, its[0][1], its[0][0]), lambda b: one_of(b, its[1][1], its[1][0])), 'a body that starts with a builtin')
        elif bi is False:
            nest(ctx, R, f'{f.ref} other', p, [rest],
                 lambda v, its: product_of(v, lambda a: nth(a, ys, 0), lambda b: one_of(b, its[0][1], its[0][0])), 'a body that starts with an item')
        elif any(is_call(e.a[0], f.name) for e in p.events if e.kind == 'call'):
            ctx.fail(R, f'{f.ref} kind', p.where(), 'the first subgoal is evaluated or kept without asking whether it is a builtin')
    ctx.floor(n, 3, 'cases of the evaluation of builtins')
    f = top
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise' or not consistent(p):
            continue
        whole = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and all_rules(itv(p, e), me)]
        if not whole:
            ctx.need(any(e.kind == 'loop0' and isinstance(e.a[1], V) and all_rules(itv(p, e), me) for e in p.events), R, f'{f.ref} rules', p.where(), 'not every rule is evaluated')
            continue
        e0, d0 = whole[0]
        if p.kind != 'backedge':
            ctx.need(d0, R, f'{f.ref} rules', e0.where, 'the evaluation of the rules ends early')
        calls = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and is_call(itv(p, e), '_run_builtins')]
        inner = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('append', '_add_rule') and is_call(p.res(e.a[-1]), 'Rule')]
        for e, d in calls:
            n += 1
            b = itv(p, e).a[1][0]
            r = b.a[0] if b.k == 'attr' and b.a[1] == 'body' else None
            ctx.need(d or p.kind == 'backedge', R, f'{f.ref} solutions', e.where, 'some solutions of the builtins are not kept')
            mine = [x for x in inner if around(x) and around(x)[-1][0] == e.a[0]]
            ok = r is not None and len(mine) == 1
            if ok:
                v = p.res(mine[0].a[-1])
                ok = v.a[1][0] is Attr(r, 'head') and len(v.a[1]) == 2 and v.a[1][1].k == 'star' and one_of(v.a[1][1].a[0], itv(p, e), e.a[0])
            ctx.need(ok, R, f'{f.ref} solutions', e.where, 'a solution of the builtins does not give exactly one rule with the head of the rule it comes from')
            if r is not None and around(e)[:-1]:
                k, it = around(e)[-2]
                o = next((x for x in p.events if x.kind == 'loop' and x.a[0] == k), None)
                dd = next((d for x, d in loops_of(p) if x is o), True)
                ctx.need(dd, R, f'{f.ref} solutions', e.where, 'some solutions of the builtins are not evaluated further')
        for e in p.events:
            # a round over the intermediate rules must evaluate every one of them
            if e.kind == 'loop' and isinstance(e.a[1], V) and len(around(e)) >= 2 and not is_call(itv(p, e), '_run_builtins'):
                if not any(x.kind in ('loop', 'loop0') and isinstance(x.a[1], V) and is_call(itv(p, x), '_run_builtins') and e.a[0] in [k for k, _ in around(x)] for x in p.events):
                    ctx.fail(R, f'{f.ref} solutions', e.where, 'an intermediate rule is left out')
        if p.kind == 'return' and any(e.kind == 'loop' and e.a[1] is None for e in p.events):
            same = any(b is True and a.k == 'cmp' and a.a[0] == '==' for a, b in p.facts.items())
            ctx.need(same, R, f'{f.ref} fixpoint', p.where(), 'the evaluation stops although the last round has changed something')
            v = p.value
            carried = {e.a[2]: e.a[3] for e in p.events if e.kind == 'carry'}
            parts = [x for x in sum_parts(v)]
            fps = {z for a, b in p.facts.items() if b is True and a.k == 'cmp' and a.a[0] == '==' for z in a.a[1:3]}
            ok = (any(x in fps for x in parts) and len(parts) > 1) or any(e.kind == 'mutate' and e.a[1] in ('extend', 'iadd', 'append', '_add_rule') and len(around(e)) >= 1 for e in p.events if e not in inner)
            ctx.need(ok, R, f'{f.ref} kept', p.where(), 'the rules that the evaluation arrives at are not kept')
            ctx.need(not parts or not (v.k == 'bin') or any(x.k == 'phi' or is_call(x, 'spawn') for x in parts if x not in fps) or len(parts) < 2, R, f'{f.ref} kept', p.where(), 'the rules of the rules before are lost')
    ctx.floor(n, 1, 'evaluations of builtins')
    for q, per in (('Program.snap_unifications', 'program'),):
        f = m.func('dyna.program', q)
        me = param(f, 0)
        for p in ctx.paths(f):
            if p.kind != 'return' or not consistent(p):
                continue
            adds = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('append', '_add_rule', 'extend') and is_call(p.res(e.a[-1]), 'Rule')]
            outs = [Out(p.res(e.a[-1]), around(e), e) for e in adds]
            if not outs and is_call(p.value, 'spawn', 'TransformedProgram') and p.value.a[1]:
                outs = [out_of(p, x) for x in pieces(p, p.value.a[1][-1])]
            nest(ctx, R, f.ref, p, [lambda it, _: all_rules(it, me), lambda it, its: is_call(it, 'snap_unifications') and recv(it).k == 'attr' and recv(it).a[1] == 'body' and one_of(recv(it).a[0], its[0][1], its[0][0]) or False],
                 lambda v, its: is_call(v, 'Rule') and len(v.a[1]) == 2 and v.a[1][0].k == 'attr' and v.a[1][0].a[1] == 'head' and v.a[1][0].a[0] is recv(its[1][1]).a[0] and v.a[1][1].k == 'star' and one_of(v.a[1][1].a[0], its[1][1], its[1][0]),
                 'the resolution of equations', outs=outs)
    f = m.func('dyna.term', 'Product.snap_unifications')
    me = param(f, 0)

    def rest(it, _=None):
        return is_call(it, 'snap_unifications') and recv(it) is not None and cut(recv(it), me, 1)
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        if p.facts.get(me) is False:
            single(ctx, R, f'{f.ref} empty', p, lambda v: is_call(v, 'Product') and not pieces(p, v), 'no subgoals')
            continue
        x0 = Sub0(me)
        t = fact(p, lambda a: is_call(a, 'isinstance') and a.a[1][0] is x0 and fname(a.a[1][1]) == 'Term')
        eq = fn_is(p, x0, '=')
        if eq is True and t is not False:
            nest(ctx, R, f'{f.ref} equation', p, [lambda it, _: is_call(it, 'unify') and len(it.a[1]) == 2 and set(map(side(x0), it.a[1])) == {0, 1}, rest],
                 lambda v, its: one_of(v, its[1][1], its[1][0]), 'an equation')
        else:
            nest(ctx, R, f'{f.ref} other', p, [rest], lambda v, its: product_of(v, lambda a: a is x0, lambda b: one_of(b, its[0][1], its[0][0])) or
                 (is_call(v, 'Product') and [x.v for x in pieces(p, v)][:1] == [x0]), 'another subgoal')


def Sub0(x):
    from ..values import Const
    return Sub(x, Const(0))


def side(x0):
    def g(z):
        if z.k == 'sub' and z.a[0] is x0 and z.a[1].k == 'const':
            return z.a[1].a[0] - 1
        if z.k == 'sub' and z.a[0] in (Attr(x0, 'args'), Attr(x0, 'fargs')) and z.a[1].k == 'const':
            return z.a[1].a[0] - (1 if z.a[0].a[1] == 'fargs' else 0)
        return None
    return g


def sum_parts(v):
    if v.k == 'bin' and v.a[0] == '+':
        return sum_parts(v.a[1]) + sum_parts(v.a[2])
    return [v]


# ------------------------------------------------------------------ nested terms as equations
def equations(ctx, m):
    R = 'equations'
    f = m.func('dyna.program', 'Program.normalize_unification2')
    hs = [f] + list(helpers_of(m, f))
    for g in list(hs):
        hs += [x for x in nested(m, g) if x not in hs]
    n = 0
    for g in hs:
        if g.node is f.node or g.node not in [x.node for x in hs if x.outer is not None]:
            continue
        calls = {c.func.id for c in ast.walk(g.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)}
        if g.name not in calls or 'Term' not in calls or 'Var' not in calls or not g.node.args.args:
            continue
        x = param(g, 0)
        for p in ctx.paths(g):
            if p.kind != 'return' or not consistent(p):
                continue
            kinds = {k: b for a, b in p.facts.items() if is_call(a, 'isinstance') and a.a[1][0] is x for k in (('list',) if fname(a.a[1][1]) is None else (fname(a.a[1][1]),))}
            v = p.res(p.value) if p.value.k != 'obj' else p.value
            eqs = [p.res(e.a[-1]) for e in p.events if e.kind == 'mutate' and e.a[1] == 'append' and is_call(p.res(e.a[-1]), 'Term') and is_const(p.res(e.a[-1]).a[1][0], '=')]
            n += 1
            if kinds.get('Var') is True:
                ctx.need(v is x and not eqs, R, f'{g.ref} variable', p.where(), f'a variable is replaced by {short(v)}')
            elif kinds.get('list') is True or kinds.get('tuple') is True:
                continue
            else:
                ok = len(eqs) == 1 and is_call(v, 'Var') and len(eqs[0].a[1]) == 3 and eqs[0].a[1][1] is v
                if ok and kinds.get('Term') is True:
                    t = eqs[0].a[1][2]
                    ok = is_call(t, 'Term') and len(t.a[1]) == 2 and t.a[1][0] is Attr(x, 'fn') and t.a[1][1].k == 'star' and \
                        any(is_call(w, g.name) for w in walk(t.a[1][1])) and any(w is Attr(x, 'args') for w in walk(t.a[1][1])) or \
                        is_call(t, 'Term') and mapped(p, t, g, x)
                elif ok:
                    ok = eqs[0].a[1][2] is x
                ctx.need(ok, R, f'{g.ref} equation', p.where(), 'a nested value is not replaced by a new variable that is equated, once, with it')
    # every subgoal and every equation enters the rule
    me = param(f, 0)
    for p in ctx.paths(f, ):
        if p.kind != 'return' or not consistent(p):
            continue
        lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and all_rules(itv(p, e), me)]
        for e, d in lp:
            made = [x for x in p.events if x.kind == 'mutate' and x.a[1] == 'append' and is_call(p.res(x.a[-1]), 'Rule') and around(x) and around(x)[-1][0] == e.a[0]]
            ctx.need(d and len(made) == 1, R, f'{f.ref} rules', e.where, 'a rule is left out or repeated')
            bl = [(y, dd) for y, dd in loops_of(p) if isinstance(y.a[1], V) and y is not e and len(around(y)) == 2 and noop(itv(p, y)).k == 'attr' and noop(itv(p, y)).a[1] == 'body']
            for y, dd in bl:
                k = y.a[0]
                adds = [x for x in p.events if x.kind == 'mutate' and x.a[1] in ('append', 'extend', 'iadd') and [z for z, _ in around(x)] == [e.a[0], k] and not any(c[0] == 'call' for c in x.ctx)]
                adds += [x for x in p.events if x.kind == 'aug' and x.a[0] == '+' and [z for z, _ in around(x)] == [e.a[0], k] and not any(c[0] == 'call' for c in x.ctx)]
                own = [x for x in adds if one_of(p.res(x.a[-1]), itv(p, y), k)]
                n += 1
                if own:
                    ctx.need(dd and len(adds) == 1, R, f'{f.ref} subgoals', y.where, 'a subgoal in normal form is not kept exactly once')
                else:
                    ctx.need(dd and (len(adds) >= 2 or any(x.kind == 'aug' or x.a[1] in ('extend', 'iadd') for x in adds)), R, f'{f.ref} subgoals', y.where, 'a subgoal is replaced without the equations of its parts, or left out')


def mapped(p, t, g, x):
    qs = [q for z in t.a[1][1:] if z.k == 'star' for q in pieces(p, z.a[0])]
    return any(is_call(q.v, g.name) for q in qs)


# ------------------------------------------------------------------ declarations
def belongs(ctx, m):
    R = 'declared'
    for q, a in (('Program.is_input', 'inputs'), ('Program.is_output', 'outputs'), ('Program.is_item', None)):
        f = m.func('dyna.program', q)
        me, x = param(f, 0), param(f, 1)
        src = lambda it: all_rules(it, me) if a is None else noop(it) is Attr(me, a) or (noop(it).k == 'attr' and noop(it).a[1] == 'rules' and noop(it).a[0] is Attr(me, a)) or \
            (is_call(noop(it), 'just_heads') and recv(noop(it)) is Attr(me, a))
        for p in ctx.paths(f):
            if p.kind != 'return' or not consistent(p):
                continue
            v = p.value
            if a is not None and any(b is True and z.k == 'cmp' and z.a[0] == 'is' and Attr(me, a) in z.a[1:] for z, b in p.facts.items()):
                ctx.need(is_const(v, False), R, f'{f.ref} none', p.where(), f'something is one of the {a} although none are declared')
                continue
            lp = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and real(('loop', 0, e.a[1])) and src(itv(p, e))]
            if not lp:
                z = [e for e in p.events if e.kind == 'loop0' and isinstance(e.a[1], V) and src(itv(p, e))]
                if any(e.kind in ('loop', 'loop0') for e in p.events):
                    ctx.need(bool(z) and (is_const(v, False) or v.k != 'const'), R, f'{f.ref} all', p.where(), 'not every declaration is compared')
                continue
            e, d = lp[0]
            us = [(z, b) for z, b in p.facts.items() if is_call(z, 'unifies') and len(z.a[1]) == 2 and any(w is x for w in z.a[1])]
            got = next((b for z, b in us for w in z.a[1] if w is not x and under_loop(w, e.a[0])), None)
            if is_const(v, True):
                ctx.need(got is True, R, f'{f.ref} member', p.where(), 'something that does not match a declaration is taken for declared')
            elif is_const(v, False):
                ctx.need(got is False and d, R, f'{f.ref} member', p.where(), 'something is taken for undeclared although it may match a declaration')
    f = m.func('dyna.program', 'Program.is_exogenous')
    me, x = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        asked = {fname(z.a[0]): b for z, b in p.facts.items() if is_call(z, 'is_const', 'is_builtin', 'is_input') and z.a[1] and z.a[1][-1] is x}
        last = {fname(w.a[0]) for w in walk(v) if is_call(w, 'is_const', 'is_builtin', 'is_input')}
        if truth(p, v) is True:
            ctx.need(True in asked.values(), R, f.ref, p.where(), 'an item is taken for one that is defined elsewhere')
        else:
            ctx.need((set(asked) | last) >= {'is_const', 'is_builtin', 'is_input'} and (last or True not in asked.values()), R, f.ref, p.where(), 'a constant, builtin or input is not taken for one that is defined elsewhere')


def under_loop(w, k):
    return any(z.k == 'idx' and z.a[0] == k for z in walk(w))


def sums(f, node):
    "the list is a part of a larger expression"
    return any(isinstance(b, ast.BinOp) and any(x is node for x in ast.walk(b)) for b in ast.walk(f.node))


def accumulated(ctx, m):
    "what several declarations (or rules) of a text declare is kept, all of it"
    R = 'declared'
    f = m.func('dyna.program', '_parse')
    for p in ctx.paths(f):
        if p.kind not in ('return', 'backedge'):
            continue
        inner = {e.a[0] for e in p.events if e.kind == 'newobj' and around(e) and not sums(f, e.node)}
        for e in p.events:
            if e.kind == 'call' and is_call(e.a[0], 'Program') and not around(e):
                for o in e.a[0].a[1][:1]:
                    ctx.need(o not in inner or any(w.k == 'phi' for q in pieces(p, o) for w in walk(q.v)), R, f'{f.ref} all', e.where, 'a declaration replaces the ones before it')
        for e, d in loops_of(p):
            if isinstance(e.a[1], V) and is_call(itv(p, e), 'parser'):
                ctx.need(d or p.kind == 'backedge', R, f'{f.ref} all', e.where, 'the rest of the text is not read')
            elif isinstance(e.a[1], V) and is_call(itv(p, e), 'flatten_op'):
                ctx.need(d or p.kind == 'backedge', R, f'{f.ref} all', e.where, 'the rest of a declaration is not read')


# ------------------------------------------------------------------ derived programs
DECL = {'inputs', 'outputs', 'semiring', 'has_builtins'}


def derived(ctx, m):
    R = 'declarations'
    belongs(ctx, m)
    accumulated(ctx, m)
    f = m.func('dyna.program', 'Program.spawn')
    me, rs = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        kw = dict(v.a[2]) if v.k == 'call' else {}
        sets = {e.a[1]: e.a[2] for e in p.events if e.kind == 'setattr' and p.res(e.a[0]) is p.res(v)}
        kw = {**kw, **sets}
        r = kw.get('rules') or (v.a[1][0] if v.k == 'call' and v.a[1] else None)
        ctx.need(is_call(v, 'Program') and r is rs, R, f'{f.ref} rules', p.where(), f'a program with {short(r) if r is not None else "no rules"} is made')
        for a in sorted(DECL):
            ok = kw.get(a) is Attr(me, a) or (a == 'semiring' and kw.get(a) is Attr(me, 'Semiring'))
            ctx.need(ok, R, f'{f.ref} {a}', p.where(), f'a program that is derived from another has {short(kw[a]) if a in kw else "the default"} as its {a}')
    f = m.func('dyna.program', 'TransformedProgram.__init__')
    me, par, prog = param(f, 0), param(f, 2), param(f, 3)
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        n += 1
        sup = [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], '__init__')]
        kw = {}
        for s in sup:
            kw.update(dict(s.a[2]))
            pos = [z for z in s.a[1] if z is not me]
            kw.update({k: z for k, z in zip(('rules', 'inputs', 'outputs', 'semiring', 'has_builtins'), pos)})
        kw.update({e.a[1]: e.a[2] for e in p.events if e.kind == 'setattr' and e.a[0] is me})
        ctx.need(kw.get('rules') is prog, R, f'{f.ref} rules', p.where(), 'a transformed program does not have the rules that the transformation made')
        for a in sorted(DECL):
            ctx.need(kw.get(a) is Attr(par, a) or (a == 'semiring' and kw.get(a) is Attr(par, 'Semiring')), R, f'{f.ref} {a}', p.where(), f'a transformed program has {short(kw[a]) if a in kw else "the default"} as its {a}')
        ctx.need(kw.get('parent') is par, R, f'{f.ref} parent', p.where(), 'a transformed program does not know the program that it comes from')
        ctx.need(kw.get('root') is Attr(par, 'root'), R, f'{f.ref} root', p.where(), 'a transformed program does not know the root of its history')
    f = m.func('dyna.program', 'Program.__init__')
    me = param(f, 0)
    ps = {a.arg: param(f, i) for i, a in enumerate(f.node.args.args)}
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        n += 1
        st = {e.a[1]: p.res(e.a[2]) for e in p.events if e.kind == 'setattr' and e.a[0] is me}
        for a in ('semiring', 'has_builtins'):
            ctx.need(a not in ps or st.get(a) is ps[a], R, f'{f.ref} {a}', p.where(), f'a program is made with {short(st[a]) if a in st else "nothing"} as its {a}')
        for a, s in (('inputs', 'set_input_types'), ('outputs', 'set_output_types')):
            got = [e.a[0].a[1][0] for e in p.events if e.kind == 'call' and is_call(e.a[0], s) and recv(e.a[0]) is me]
            got = [p.res(g) for g in got] + ([st[a]] if a in st else [])
            txt = any(b is True and is_call(x, 'isinstance') and x.a[1][0] is ps['rules'] for x, b in p.facts.items())
            want = lambda g: g is ps[a] if not txt else any(is_call(w, '_parse') for w in walk(g)) and is_const(g.a[1], 1 if a == 'inputs' else 2)
            ctx.need(bool(got) and all(want(g) for g in got), R, f'{f.ref} {a}', p.where(), f'a program is made with {short(got[0]) if got else "nothing"} as its {a}')
        r = st.get('rules')
        src = [ps['rules']] + [w for w in walk(r) if w.k in ('sub', 'elem') and is_call(w.a[0], '_parse') and is_const(w.a[1], 0)] if r is not None else []
        ctx.need(r is not None and is_call(r, 'list') and r.a[1][0] in src, R, f'{f.ref} rules', p.where(), 'a program does not have a list of its own with the rules it is made of')
    for s, a in (('set_input_types', 'inputs'), ('set_output_types', 'outputs')):
        f = m.func('dyna.program', 'Program.' + s)
        me, x = param(f, 0), param(f, 1)
        for p in ctx.paths(f):
            if p.kind == 'raise':
                continue
            n += 1
            st = [p.res(e.a[2]) for e in p.events if e.kind == 'setattr' and e.a[0] is me and e.a[1] == a]
            txt = any(b is True and is_call(z, 'isinstance') and z.a[1][0] is x and fname(z.a[1][1]) == 'str' for z, b in p.facts.items())
            ok = len(st) == 1 and (st[0] is x or txt and is_call(st[0], 'Program') and tuple(st[0].a[1]) == (x,))
            ctx.need(ok, R, f'{f.ref}', p.where(), f'the {a} are set to {short(st[0]) if st else "nothing"}')
    f = m.func('dyna.program', 'Program.__add__')
    me, rs = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        if not ctx.need(is_call(v, 'spawn') and recv(v) is me and len(v.a[1]) == 1 or is_call(v, 'TransformedProgram'), R, f'{f.ref} result', p.where(), f'the sum of two programs is {short(v)}'):
            continue
        ps_ = pieces(p, v.a[1][-1])
        mine = [q for q in ps_ if q.kind == 'seq' and all_rules(q.v, me)]
        his = [q for q in ps_ if q not in mine]
        ok = len(mine) == 1 and len(his) == 1 and any(w is rs for w in walk(his[0].v)) and ps_.index(mine[0]) == 0
        ctx.need(ok, R, f'{f.ref} rules', p.where(), 'the sum of two programs does not have the rules of the first and then of the second, once each')
    f = m.func('dyna.program', 'Program.lift_semiring')
    me, s = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        n += 1
        t = made(p)
        src = t.a[1][-1] if is_call(t, 'TransformedProgram', 'spawn') and t.a[1] else None
        if not ctx.need(src is not None, R, f'{f.ref} result', p.where(), f'{short(t)} is returned'):
            continue
        outs = [out_of(p, x) for x in pieces(p, src)]
        nest(ctx, R, f.ref, p, [lambda it, _: all_rules(it, me)], lambda v, its: is_call(v, 'lift') and tuple(v.a[1]) == (s,) and one_of(recv(v), its[0][1], its[0][0]), 'the lifting of a program', outs=outs)
        st = [e.a[2] for e in p.events if e.kind == 'setattr' and e.a[1] == 'semiring' and p.res(e.a[0]) is p.res(t)]
        ctx.need(st[-1:] == [s], R, f'{f.ref} semiring', p.where(), 'the lifted program does not have the semiring that it is lifted to')
    f = m.func('dyna.rule', 'Rule.lift')
    me, s = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p) or p.value is me:
            continue
        n += 1
        v = p.value
        if not ctx.need(is_call(v, 'Rule') and v.a[1] and v.a[1][0] is Attr(me, 'head'), R, f'{f.ref} head', p.where(), f'a lifted rule is {short(v)}'):
            continue
        outs = [out_of(p, x) for z in v.a[1][1:] for x in pieces(p, z)]
        c = [(a.a[1][0], b) for a, b in p.facts.items() if is_call(a, 'is_const')]

        def val(v, its):
            w = v.a[1][0] if is_call(v, 'lift') and recv(v) is s and v.a[1] else v
            k = next((b for a, b in c if a is w), None)
            return one_of(w, its[0][1], its[0][0]) and (k is True) == (w is not v) and k is not None
        nest(ctx, R, f.ref, p, [lambda it, _: noop(it) is Attr(me, 'body')], val, 'the lifting of a rule', outs=outs)
    for q, keep in (('Program.fresh', 'fresh'), ('Program.sort', 'sorted')):
        f = m.func('dyna.program', q)
        me = param(f, 0)
        for p in ctx.paths(f):
            if p.kind != 'return' or not consistent(p):
                continue
            n += 1
            t = made(p)
            src = t.a[1][-1] if is_call(t, 'TransformedProgram', 'spawn') and t.a[1] else None
            if not ctx.need(src is not None, R, f'{f.ref} result', p.where(), f'{short(t)} is returned'):
                continue
            ps_ = pieces(p, src)
            if len(ps_) == 1 and ps_[0].kind == 'seq' and (all_rules(ps_[0].v, me) or is_call(ps_[0].v, 'sorted') and all_rules(ps_[0].v.a[1][0], me)):
                ctx.ob(R, f.ref, p.where())
                continue
            outs = [out_of(p, x) for x in ps_]
            nest(ctx, R, f.ref, p, [lambda it, _: all_rules(it, me)], lambda v, its: one_of(unfresh(v), its[0][1], its[0][0]), 'a program of the same rules', outs=outs)
    f = m.func('dyna.program', 'Program.user_lookup')
    me, x = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        mk = [w for w in walk(p.value) if is_call(w, 'Program') and dict(w.a[2]).get('inputs') is not None or is_call(w, 'spawn')]
        if not mk:
            continue
        n += 1
        src = dict(mk[0].a[2]).get('rules') or (mk[0].a[1][0] if mk[0].a[1] else None)
        outs = [out_of(p, q) for q in pieces(p, src)] if src is not None else []
        nest(ctx, 'query', f.ref, p, [lambda it, _: is_call(it, 'lookup') and recv(it) is me and it.a[1] and any(w is x for w in walk(it.a[1][0]))],
             lambda v, its: is_call(v, 'fresh') and one_of(unfresh(v), its[0][1], its[0][0]), 'the answer to a query', outs=outs)
    ctx.floor(n, 12, 'derived programs')
