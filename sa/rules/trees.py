"""Derivations: enumeration, measures and mappings use every subderivation exactly once (C28)."""
import ast
from ..core import check
from ..model import Func
from ..values import V, NONE, TRUE, FALSE, fname, is_call, recv, walk, is_const, strip_phi, Attr, Sub
from ..util import short
from .match import param
from .execute import noop, unfresh, all_rules, derivation_sites
from .transform import pieces
from .goal import itv, nested
from .coarse import loops_of, consistent
from .query import nest, single, outputs, fact, cut, nth, product_of, one_of, around, real


@check('C28', 'conservation of subderivations in enumerations, measures and derivation mappings, and typestate of the enumeration loops',
       'On every path the derivation that is built must hold each subderivation of its parts exactly once, under the rule that is applied; every loop over subderivations runs to its end.',
       ['that a mapping is a bijection between whole (infinite) sets of derivations is not decided here; conservation and the choice of rules, per step, are'])
def c28(ctx):
    m = ctx.m
    measures(ctx, m)
    enumerations(ctx, m)
    construction(ctx, m)
    mappings(ctx, m)
    paths_between(ctx, m)


# ------------------------------------------------------------------ measures of a derivation
def elements(p, v, fn, d, extra=()):
    """v (or the sequence it is made of) consists of fn(element) for every element of d: 'all', 'none' (d is empty on this path), or None"""
    ps = pieces(p, v)
    if not ps:
        return 'none' if any(e.kind == 'loop0' and noop(itv(p, e)) is d for e in p.events) else None
    ok = len(ps) == 1 and ps[0].kind == 'one' and is_fn(ps[0].v, fn)
    if not ok:
        return None
    v = ps[0].v
    x = arg0(v)
    rest = list(v.a[1])[1:] if recv(v) is None or fname(recv(v)) == 'Derivation' else list(v.a[1])
    ok = x.k in ('sub', 'elem') and x.a[0] is d and [y for y in rest] == list(extra)
    lp = [(e, done) for e, done in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) is d]
    return 'all' if ok and len(lp) == 1 and lp[0][1] else None


def local_functions(m, f):
    "the functions and lambdas that are written inside f"
    out = nested(m, f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Lambda):
            r = ast.copy_location(ast.Return(value=n.body), n)
            d = ast.copy_location(ast.FunctionDef(name='<lambda>', args=n.args, body=[r], decorator_list=[], type_params=[]), n)
            out.append(Func(f.mod, f.qual + '.<lambda>', d, f.cls, f))
    return out


def is_fn(v, fn):
    return is_call(v, fn)


def arg0(v):
    "the derivation that a function of a derivation is called with (as a method or as a function)"
    r = recv(v)
    if r is not None and fname(r) != 'Derivation':
        return r
    return v.a[1][0] if v.a[1] else V('none')


def seqfact(p, d):
    return fact(p, lambda a: is_call(a, 'isinstance') and len(a.a[1]) == 2 and a.a[1][0] is d and any(w for w in walk(a.a[1][1]) if fname(w) in ('tuple', 'Product', 'list')))


def basefact(p, d):
    return fact(p, lambda a: is_call(a, 'base') and arg0(a) is d)


def carried(p, fn, d, op):
    "an accumulation over the elements of d: (initial value, ok)"
    for e in p.events:
        if e.kind == 'carry' and isinstance(e.a[3], V):
            new, old = e.a[3], e.a[2]
            if op == 'max':
                if is_call(new, 'max') and len(new.a[1]) == 2 and old in new.a[1]:
                    o = [x for x in new.a[1] if x is not old]
                    return len(o) == 1 and is_fn(o[0], fn) and arg0(o[0]).k in ('sub', 'elem') and arg0(o[0]).a[0] is d
            elif new.k == 'bin' and new.a[0] == op and old in new.a[1:3]:
                o = new.a[2] if new.a[1] is old else new.a[1]
                if is_fn(o, fn) and arg0(o).k in ('sub', 'elem') and arg0(o).a[0] is d:
                    return op != '*' or new.a[1] is old
    return None


def measures(ctx, m):
    R = 'measure'
    for fn, red, one in (('size', 'sum', True), ('height', 'max', True)):
        f = m.func('dyna.derivations', 'Derivation.' + fn)
        d = param(f, 0)
        n = 0
        for p in ctx.paths(f):
            if p.kind in ('raise', 'backedge') or not consistent(p):
                continue
            n += 1
            v = p.value
            if seqfact(p, d) is True:
                if is_call(v, red) and v.a[1]:
                    ctx.need(elements(p, v.a[1][0], fn, d) is not None, R, f'{f.ref} parts', p.where(), f'the {fn} of a sequence is {short(v)}')
                    if red == 'max':
                        nonempty = p.facts.get(d) is True or any(k == 'default' and is_const(x, 0) for k, x in v.a[2]) or len(v.a[1]) > 1
                        ctx.need(nonempty, R, f'{f.ref} empty', p.where(), 'the height of an empty body is not defined')
                elif v.k == 'phi' or any(e.kind == 'carry' for e in p.events) or any(noop(itv(p, e)) is d for e, _ in loops_of(p)):
                    leaf = any(b is True and is_call(a, 'base') and arg0(a).k in ('sub', 'elem') and arg0(a).a[0] is d for a, b in p.facts.items())
                    got = carried(p, fn, d, '+' if red == 'sum' else 'max')
                    ctx.need((got is True or leaf and got is None) and all(done for _, done in loops_of(p)), R, f'{f.ref} parts', p.where(), f'the {fn} of a sequence is {short(v)}')
                else:
                    ctx.need(is_const(v, 0) and (p.facts.get(d) is False or any(e.kind == 'loop0' for e in p.events)), R, f'{f.ref} parts', p.where(), f'the {fn} of a sequence is {short(v)}')
            elif basefact(p, d) is True:
                ctx.need(is_const(v, 0), R, f'{f.ref} base', p.where(), f'the {fn} of a base case is {short(v)}')
            else:
                ok = basefact(p, d) is False and v.k == 'bin' and v.a[0] == '+' and any(is_const(x, 1) for x in v.a[1:3]) and \
                    any(is_fn(x, fn) and arg0(x) is Attr(d, 'body') for x in v.a[1:3])
                ctx.need(ok, R, f'{f.ref} step', p.where(), f'the {fn} of a derivation is {short(v)}')
        ctx.floor(n, 3, f'cases of {f.ref}')
    f = m.func('dyna.derivations', 'Derivation.value')
    d = param(f, 0)
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        v = p.value
        if seqfact(p, d) is True:
            if any(e.kind in ('loop', 'loop0') for e in p.events):
                ctx.need(carried(p, 'value', d, '*') is not False, R, f'{f.ref} parts', p.where(), f'the value of a sequence is {short(v)}')
            elif p.facts.get(d) is False:
                ctx.need(is_call(v, 'Product') and not pieces(p, v), R, f'{f.ref} empty', p.where(), f'the value of an empty body is {short(v)}')
            else:
                ctx.need(product_of(v, lambda a: is_fn(a, 'value') and nth(arg0(a), d, 0), lambda b: is_fn(b, 'value') and cut(arg0(b), d, 1)), R, f'{f.ref} parts', p.where(), f'the value of a sequence is {short(v)}')
        else:
            c = fact(p, lambda a: is_call(a, 'is_const') and a.a[1] and a.a[1][0] is d)
            if c is True:
                ctx.need(v is d, R, f'{f.ref} leaf', p.where(), f'the value of a constant is {short(v)}')
            elif v.k == 'call' and not any(x for x in p.events if x.kind == 'loop'):
                ctx.need(is_fn(v, 'value') and arg0(v) is Attr(d, 'body'), R, f'{f.ref} step', p.where(), f'the value of a derivation is {short(v)}')
    f = m.func('dyna.derivations', 'Derivation.map')
    d, node = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        v = p.value
        if seqfact(p, d) is True:
            ok = (is_call(v, 'Product') or is_call(v, '__class__') or v.k == 'call') and v.a[1] and elements(p, v.a[1][0], 'map', d, (node,)) is not None
            ctx.need(ok, R, f'{f.ref} parts', p.where(), f'a sequence is mapped to {short(v)}')
        elif basefact(p, d) is True:
            ctx.need(v is d, R, f'{f.ref} base', p.where(), f'a base case is mapped to {short(v)}')
        else:
            ctx.need(basefact(p, d) is False and v.k == 'call' and v.a[0] is node and tuple(v.a[1]) == (d,), R, f'{f.ref} step', p.where(), f'a derivation is mapped to {short(v)}')
    f = m.func('dyna.derivations', 'Derivation.is_subtree')
    d, x = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        v = p.value
        eq = fact(p, lambda a: a.k == 'cmp' and a.a[0] in ('==', 'is') and {id(a.a[1]), id(a.a[2])} == {id(d), id(x)})
        if eq is True:
            ctx.need(v is TRUE, R, f'{f.ref} itself', p.where(), 'a derivation is not part of itself')
        elif eq is None:
            ctx.fail(R, f'{f.ref} itself', p.where(), 'a derivation is not compared with the part')
        elif basefact(p, d) is True:
            ctx.need(v is FALSE, R, f'{f.ref} base', p.where(), 'a base case has parts')
        elif v in (TRUE, FALSE):
            yes = any(b is True and is_fn(a, 'is_subtree') and arg0(a).k in ('sub', 'elem') and arg0(a).a[0] is Attr(d, 'body') for a, b in p.facts.items())
            whole = [done for e, done in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) is Attr(d, 'body')]
            none = any(e.kind == 'loop0' and noop(itv(p, e)) is Attr(d, 'body') for e in p.events)
            ctx.need(yes if v is TRUE else (not yes and (none or whole == [True])), R, f'{f.ref} parts', p.where(), 'the search for a part does not go through all subderivations')
        else:
            ctx.fail(R, f'{f.ref} parts', p.where(), f'whether a derivation has a part is {short(v)}')
    f = m.func('dyna.derivations', 'Derivation.dimension')
    d = param(f, 0)
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        v = p.value
        if seqfact(p, d) is not True:
            b = basefact(p, d)
            ctx.need((b is True and is_const(v, 0)) or (b is False and is_fn(v, 'dimension') and arg0(v) is Attr(d, 'body')), R, f'{f.ref} step', p.where(), f'the dimension of a derivation is {short(v)}')
            continue
        tie = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and all(z.k == 'sub' and not is_call(z, 'len') for z in a.a[1:3]) and a.a[1].a[0] is a.a[2].a[0])
        ta = next((a for a in p.facts if a.k == 'cmp' and a.a[0] == '==' and all(z.k == 'sub' and not is_call(z, 'len') for z in a.a[1:3]) and a.a[1].a[0] is a.a[2].a[0]), None)
        if ta is not None and descending(ta.a[1].a[0]) is not None:
            at = {z.a[1].a[0] if z.a[1].k == 'const' else None for z in ta.a[1:3]}
            ctx.need(at == ({0, 1} if descending(ta.a[1].a[0]) else {-1, -2}), R, f'{f.ref} tie', p.where(), 'it is not the two largest parts that are compared')
        add = v.k == 'bin' and v.a[0] == '+' and any(is_const(z, 1) for z in v.a[1:3])
        w = next((z for z in v.a[1:3] if not is_const(z, 1)), v) if add else v
        if w.k != 'sub':
            ctx.need(is_const(v, 0) and tie is not True, R, f'{f.ref} parts', p.where(), f'the dimension of a sequence is {short(v)}')
            continue
        desc = descending(w.a[0])
        top = desc is not None and (is_const(w.a[1], 0) if desc else is_const(w.a[1], -1))
        ctx.need(top, R, f'{f.ref} largest', p.where(), f'the dimension of a sequence is built from {short(w)}')
        ctx.need(add == (tie is True), R, f'{f.ref} tie', p.where(), 'the dimension grows although the two largest parts differ, or does not although they are equal')


def descending(v):
    rev = False
    v = noop(v)
    while v.k == 'call':
        if is_call(v, 'reversed'):
            rev = not rev
        elif is_call(v, 'sorted'):
            kw = dict(v.a[2])
            if 'reverse' in kw:
                rev = rev != (kw['reverse'] is TRUE)
            return rev if 'key' not in kw else None
        elif not is_call(v, 'list', 'tuple'):
            return None
        v = v.a[1][0] if v.a[1] else V('none')
    return None


# ------------------------------------------------------------------ enumerations
def is_derivation(v, head, body, prog, ix):
    if not is_call(v, 'Derivation') or not v.a[1]:
        return False
    kw = dict(v.a[2])
    P = kw.get('p') or (v.a[1][1] if len(v.a[1]) > 1 else None)
    I = kw.get('I') or (v.a[1][2] if len(v.a[1]) > 2 else None)
    r = v.a[1][0]
    return is_call(r, 'Rule') and len(r.a[1]) == 2 and head(r.a[1][0]) and r.a[1][1].k == 'star' and body(r.a[1][1].a[0]) and P is not None and prog(P) and I is not None and ix(I)


def enumerations(ctx, m):
    R = 'enumeration'
    f = m.func('dyna.derivations', 'sld')
    P, x = param(f, 0), param(f, 1)
    rec = lambda it, y: is_call(it, 'sld') and len(it.a[1]) == 2 and it.a[1][0] is P and y(it.a[1][1])
    n = 0
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        n += 1
        s = seqfact(p, x)
        if s is True:
            if p.facts.get(x) is False:
                single(ctx, R, f'{f.ref} empty', p, lambda v: is_call(v, 'Product') and not pieces(p, v), 'an empty body')
            else:
                nest(ctx, R, f'{f.ref} body', p, [lambda it, _: rec(it, lambda y: nth(y, x, 0)), lambda it, _: rec(it, lambda y: cut(y, x, 1))],
                     lambda v, its: product_of(v, lambda a: one_of(a, its[0][1], its[0][0]), lambda b: one_of(b, its[1][1], its[1][0])), 'the derivations of a body')
        elif fact(p, lambda a: is_call(a, 'is_const') and a.a[1] and a.a[1][0] is x) is True:
            single(ctx, R, f'{f.ref} constant', p, lambda v: v is x, 'a constant')
        else:
            nest(ctx, R, f'{f.ref} item', p, [lambda it, _: is_call(it, 'lookup') and recv(it) is P and tuple(it.a[1]) == (x,),
                                              lambda it, its: rec(it, lambda y: y.k == 'attr' and y.a[1] == 'body' and one_of(y.a[0], its[0][1], its[0][0]))],
                 lambda v, its: is_derivation(v, lambda h: h is Attr(its[1][1].a[1][1].a[0], 'head'), lambda b: one_of(b, its[1][1], its[1][0]), lambda q: q is P, lambda i: i is Attr(its[1][1].a[1][1].a[0], 'i')),
                 'the derivations of an item')
    ctx.floor(n, 4, 'cases of the top-down enumeration')
    # rounds
    f = m.func('dyna.derivations', 'naive')
    P = param(f, 0)
    rounds(ctx, R, f, P, 'step_derivations')
    f = m.func('dyna.derivations', 'seminaive')
    rounds(ctx, R, f, param(f, 0), 'seminaive_update')
    f = m.func('dyna.derivations', 'peel', required=False)
    if f is not None:
        ds = param(f, 0)
        for p in ctx.paths(f):
            if p.kind == 'return':
                ps = pieces(p, p.value)
                if len(ps) == 1 and len(loops_of(p)) == 2:
                    (e1, d1), (e2, d2) = loops_of(p)
                    v, it = ps[0].v, itv(p, e2)
                    ok = d1 and d2 and noop(itv(p, e1)) is ds and it.k == 'attr' and it.a[1] == 'body' and one_of(it.a[0], noop(itv(p, e1)), e1.a[0]) and one_of(v, it, e2.a[0])
                    ctx.need(ok, R, f'{f.ref} all', p.where(), 'the derivation under each head is not handed on exactly once')
                    continue
                if not ps:
                    ctx.need(any(e.kind == 'loop0' and all(d for _, d in loops_of(p)) for e in p.events), R, f'{f.ref} all', p.where(), 'the derivations are lost')
                    continue
                lp = [(e, done) for e, done in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) is ds]
                v = ps[0].v
                v = v.a[1][0] if v.k == 'call' and len(v.a[1]) == 1 and fname(v.a[0]) in ('next', 'first') else v
                ok = len(ps) == 1 and len(lp) == 1 and lp[0][1] and v.k == 'sub' and (is_const(v.a[1], 0) or is_const(v.a[1], -1)) and v.a[0].k == 'attr' and v.a[0].a[1] == 'body' and one_of(v.a[0].a[0], itv(p, lp[0][0]), lp[0][0].a[0])
                ctx.need(ok, R, f'{f.ref} all', p.where(), 'the derivation under each head is not handed on exactly once')
    for q, g in (('Naive', 'naive'), ('Seminaive', 'seminaive')):
        f = m.func('dyna.derivations', q)
        P, T, x = param(f, 0), param(f, 1), param(f, 2)
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            cs = [w for w in walk(p.value) if is_call(w, g)]
            us = [w for w in walk(p.value) if is_call(w, 'user_lookup', 'lookup')]
            ok = len(cs) == 1 and cs[0].a[1][0] is P and any(z is T for z in walk(cs[0])) and len(us) == 1 and tuple(us[0].a[1]) == (x,) and recv(us[0]) is cs[0]
            ctx.need(ok, R, f.ref, p.where(), f'the derivations of an item are {short(p.value)}')
    derivation_sites(ctx, m)
    f = m.func('dyna.derivations', 'agenda', required=False)
    for p in ctx.paths(f) if f is not None else ():
        took = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('pop', 'popleft') or e.kind == 'delitem']
        if not took:
            continue
        lp = [c[1] for c in took[0].ctx if c[0] == 'loop']
        ys = [e for e in p.events if e.kind == 'yield' and [c[1] for c in e.ctx if c[0] == 'loop'] == lp]
        ups = [e for e in p.events if e.kind == 'mutate' and e.a[1] == 'update' and len(e.a) == 4]
        if not f.is_gen and p.kind == 'return' and p.value is not NONE:
            continue      # collects its answers
        ok = len(ys) == 1 and all(p.res(e.a[3]) is p.res(ys[0].a[0]) for e in ups)
        ctx.need(ok, R, f'{f.ref} answers', p.where(), f'a derivation that is taken up is handed on {len(ys)} times')
    # the step: builtins stand for themselves
    f = m.func('dyna.derivations', 'step_derivations')
    P = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind != 'setitem' or not is_call(p.res(e.a[2]), 'Derivation'):
                continue
            n += 1
            j, v = e.a[1], p.res(e.a[2])
            ctx.need(j.k in ('idx', 'const'), R, f'{f.ref} builtins', e.where, f'the builtin at {short(j)} is replaced, which need not be the position that is looked at')
            if j.k == 'idx':
                it = next((itv(p, x) for x, _ in loops_of(p) if x.a[0] == j.a[0]), None)
                ctx.need(it is None or not any(w.k == 'slice' or is_call(w, 'filter', 'set', 'islice') for w in walk(it)), R, f'{f.ref} builtins', e.where, f'the builtins are looked for in {short(it) if it is not None else ""}')
            bi = [a for a, b in p.facts.items() if b is True and is_call(a, 'is_builtin')]
            body = [a.a[1][0].a[0] for a in bi if a.a[1] and a.a[1][0].k == 'sub' and a.a[1][0].a[1] is j]
            r = v.a[1][0]
            ok = bool(body) and is_call(r, 'Rule') and len(r.a[1]) == 2 and r.a[1][0] is Sub(body[0], j) and r.a[1][1].k in ('sub', 'elem')
            ctx.need(ok, R, f'{f.ref} builtins', e.where, f'the value of a builtin is kept as {short(v)}')


def rounds(ctx, R, f, P, step):
    "an enumeration by rounds: it starts from nothing, each round goes on from the last one, and it ends when a round has nothing new or at the limit"
    T = param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise' or not consistent(p):
            continue
        calls = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], step)]
        for e in calls:
            n += 1
            a = list(e.a[0].a[1]) + [x for _, x in e.a[0].a[2]]
            inloop = any(c[0] == 'loop' for c in e.ctx)
            ok = bool(a) and a[0] is P
            if inloop:
                ok = ok and all(x.k == 'phi' for x in a[1:])
            ctx.need(ok, R, f'{f.ref} round', e.where, f'a round goes on from {short(e.a[0])}')
        for e in p.events:
            if e.kind == 'call' and is_call(e.a[0], 'step_derivations') and not any(c[0] == 'loop' for c in e.ctx):
                a = e.a[0].a[1]
                ok = len(a) == 2 and a[0] is P and is_call(a[1], 'Program') and (not a[1].a[1] or not pieces(p, a[1].a[1][0]))
                ctx.need(ok, R, f'{f.ref} start', e.where, 'the enumeration does not start from the program and nothing else')
        if p.kind == 'backedge':
            last = calls[-1].a[0] if calls else None
            for e in p.events:
                if e.kind == 'carry' and isinstance(e.a[3], V) and last is not None and e.a[2].k == 'phi' and e.a[2] in last.a[1]:
                    i = [k for k, x in enumerate(last.a[1]) if x is e.a[2]][0]
                    if step == 'step_derivations':
                        ok = e.a[3] is last
                    else:
                        ok = e.a[3].k == 'sub' and e.a[3].a[0] is last and is_const(e.a[3].a[1], i - 1)
                    ctx.need(ok, R, f'{f.ref} carried', e.where, f'the next round starts from {short(e.a[3])}')
            if last is not None:
                ph = {x for x in last.a[1][1:]}
                got = {e.a[2] for e in p.events if e.kind == 'carry'}
                ctx.need(ph <= got, R, f'{f.ref} carried', p.where(), 'the next round starts from the same state as the last one')
        if p.kind == 'return':
            over = any(b is True and a.k == 'cmp' and a.a[0] in ('<', '<=') and T in (a.a[1], a.a[2]) for a, b in p.facts.items()) or \
                any(b is False and a.k == 'cmp' and a.a[0] in ('<', '<=') and T in (a.a[1], a.a[2]) for a, b in p.facts.items())
            limit = [(a, b) for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] in ('<', '<=', '==') and T in (a.a[1], a.a[2])]
            stop_limit = [(a, b) for a, b in limit if (a.a[0] == '<' and a.a[1] is T and b is True) or (a.a[0] == '<=' and a.a[1] is T and b is True)
                          or (a.a[0] == '<' and a.a[2] is T and b is False) or (a.a[0] == '<=' and a.a[2] is T and b is False)]
            last = calls[-1].a[0] if calls and any(c[0] == 'loop' for c in calls[-1].ctx) else None
            lines = {e.line for e in p.events if e.kind == 'loop'}
            if any(e.kind == 'carry' and last is not None and e.a[2] in last.a[1] for e in p.events) and \
                    any(e.kind == 'cond' and e.line in lines and isinstance(e.a[0], V) and T in walk(e.a[0]) for e in p.events):
                continue      # left by the test of the loop, which is about the limit
            if last is None and any(b is False and a.k == 'phi' for a, b in p.facts.items()) and step != 'step_derivations':
                ctx.need(p.value.k == 'phi' and p.facts.get(p.value) is not False, R, f'{f.ref} result', p.where(), f'the enumeration answers {short(p.value)}')
                continue      # the last round has found nothing
            if last is None:
                ctx.need(bool(stop_limit), R, f'{f.ref} end', p.where(), 'the enumeration ends before a round')
                for a, b in stop_limit:
                    strict = (a.a[0] == '<' and b is True) or (a.a[0] == '<=' and b is False)
                    o = a.a[2] if a.a[1] is T else a.a[1]
                    early = (not strict) and o.k == 'bin'
                    ctx.need(not early, R, f'{f.ref} end', p.where(), 'the enumeration ends one round before the limit')
                ctx.need(p.value.k == 'phi' or is_call(p.value, 'Program'), R, f'{f.ref} result', p.where(), f'the enumeration answers {short(p.value)}')
                continue
            if step == 'step_derivations':
                quiet = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and all(is_call(z, 'len') for z in a.a[1:3]) and last in (a.a[1].a[1][0], a.a[2].a[1][0])) is True
                ctx.need(p.value is last or p.value in last.a[1], R, f'{f.ref} result', p.where(), f'the enumeration answers {short(p.value)}')
            else:
                new = Sub(last, V('const', 1)) if False else next((w for a in p.facts for w in walk(a) if w.k == 'sub' and w.a[0] is last and is_const(w.a[1], 1)), None)
                quiet = new is not None and p.facts.get(new) is False
                ctx.need(p.value.k == 'sub' and p.value.a[0] is last and is_const(p.value.a[1], 0), R, f'{f.ref} result', p.where(), f'the enumeration answers {short(p.value)}')
            ctx.need(quiet or bool(stop_limit), R, f'{f.ref} end', p.where(), 'the enumeration ends although the last round has found something new')
    ctx.floor(n, 1, f'rounds of {f.ref}')


# ------------------------------------------------------------------ construction
def construction(ctx, m):
    R = 'construction'
    f = m.func('dyna.derivations', 'Derivation.__init__')
    me, D, P, I = (param(f, i) for i in range(4))
    n = 0
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        n += 1
        st = {e.a[1]: p.res(e.a[2]) for e in p.events if e.kind == 'setattr' and e.a[0] is me}
        ctx.need(st.get('p') is P and st.get('i') is I, R, f'{f.ref} rule', p.where(), 'a derivation does not keep the program and the number of its rule')
        none = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'is' and I in a.a[1:3] and NONE in a.a[1:3])
        Rv = st.get('R')
        if Rv is not None:
            ok = (none is True and Rv is NONE) or (none is False and Rv.k == 'sub' and Rv.a[1] is I and any(w is P for w in walk(Rv.a[0]))) or (none is None)
            ctx.need(ok, R, f'{f.ref} rule', p.where(), f'the rule of a derivation is {short(Rv)}')
        r = st.get('r')
        if r is not None:
            body = []
            for x in (r.a[1][1:] if is_call(r, 'Rule') else ()):
                body += pieces(p, x.a[0]) if x.k == 'star' else pieces(p, V('tup', 'tuple', (x,)))
            ok = is_call(r, 'Rule') and r.a[1] and r.a[1][0] is Attr(D, 'head')
            lp = [(e, done) for e, done in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) is Attr(D, 'body')]
            if lp:
                y = next((w for q in body for w in walk(q.v) if w.k in ('sub', 'elem') and w.a[0] is Attr(D, 'body')), None)
                isd = fact(p, lambda a: is_call(a, 'isinstance') and y is not None and a.a[1][0] is y)
                ok = ok and len(body) == 1 and lp[0][1] and y is not None and body[0].v is (Attr(y, 'head') if isd is True else y)
            ctx.need(ok, R, f'{f.ref} instance', p.where(), 'the instantiated rule of a derivation is not made of the heads of its subderivations')
        sup = [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], '__init__')]
        cov = fact(p, lambda a: is_call(a, 'covers') and len(a.a[1]) == 2)
        ca = next((a for a in p.facts if is_call(a, 'covers') and len(a.a[1]) == 2), None)
        if ca is not None:
            ctx.need(ca.a[1][0] is not r and r is not None and ca.a[1][1] is r, R, f'{f.ref} covered', p.where(), f'the rule is compared as {short(ca)}')
        for c in sup:
            a = c.a[1]
            a = a[1:] if a and a[0] is me else a
            ok = len(a) == 2 and a[0] is Attr(D, 'head') and a[1].k == 'star'
            ctx.need(ok, R, f'{f.ref} parts', p.where(), f'a derivation is built as {short(c)}')
            if ok:
                plain = a[1].a[0] is Attr(D, 'body')
                ctx.need(plain or is_call(a[1].a[0], 'reorder_subgoals') or a[1].a[0].k != 'attr', R, f'{f.ref} parts', p.where(), 'the subderivations of a derivation are not those it was given')
                ctx.need(plain == (none is True or cov is True) or cov is None and none is None, R, f'{f.ref} order', p.where(), 'the subderivations are taken in the given order although they are not in the order of the rule, or the other way around')
    ctx.floor(n, 2, 'ways to build a derivation')
    f = m.func('dyna.derivations', 'Derivation.fresh')
    me, mm = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind == 'return':
            v = p.value
            ok = is_call(v, 'Derivation') and len(v.a[1]) + len(v.a[2]) == 3
            if ok:
                a = list(v.a[1]) + [x for _, x in v.a[2]]
                ok = a[0].k == 'call' and a[0].a[0] is mm and Attr(me, 'p') in a[1:] and Attr(me, 'i') in a[1:]
                ok = ok and any(w is Attr(me, 'head') for w in walk(a[0])) and any(w is Attr(me, 'body') for w in walk(a[0]))
            ctx.need(ok, R, f.ref, p.where(), f'a renamed derivation is {short(v)}')
    f = m.func('dyna.derivations', 'reorder_subgoals', required=False)
    if f is not None:
        D, r, RR = (param(f, i) for i in range(3))
        for p in ctx.paths(f):
            if p.kind != 'return' or not consistent(p) or p.value is Attr(D, 'body'):
                continue
            for q in pieces(p, p.value):
                v = q.v
                if not (v.k in ('sub', 'elem') and v.a[0] is Attr(D, 'body')):
                    ctx.fail(R, f'{f.ref} parts', p.where(), f'a subderivation is {short(v)}')
                    continue
                side = position_side(p, v.a[1])
                if side is not None:
                    ctx.need(side[0] == 0 and side[1] == 1, R, f'{f.ref} order', p.where(), 'the alignment of the subderivations with the rule is applied in the wrong direction')
            for a, b in p.facts.items():
                if is_call(a, 'folds_by'):
                    ctx.need(recv(a) is r and tuple(a.a[1]) == (RR,), R, f'{f.ref} alignment', p.where(), f'the alignment is that of {short(a)}')


def position_side(p, i):
    """The component of an alignment entry that i is (0: position in the derivation), and the one the entries are sorted by; None if unknown."""
    def source(v):
        "(alignment items value, component) that v comes from"
        if v.k in ('sub', 'elem') and len(v.a) > 1:
            c = v.a[1].a[0] if isinstance(v.a[1], V) and v.a[1].k == 'const' else None
            return v.a[0], c
        return None, None

    def entry(v, depth=0):
        # -> (component, sorted_by)
        if depth > 6:
            return None
        base, c = source(v)
        if base is None:
            return None
        if c in (0, 1):
            w = base
            it = w.a[0] if w.k in ('sub', 'elem', 'each') else w
            return resolve(it, c, depth)
        if base.k == 'obj' or base.k == 'call':
            ps = [q.v for q in pieces(p, base) if q.kind == 'one'] if base.k == 'obj' else []
            return entry(ps[0], depth + 1) if len(ps) == 1 else None
        return None

    def resolve(it, c, depth, by=None):
        it = noop(it) if it.k == 'call' else it
        while it.k == 'call' and fname(it.a[0]) in ('list', 'tuple'):
            it = it.a[1][0]
        if is_call(it, 'items'):
            return (c, by)
        if is_call(it, 'sorted') and it.a[1]:
            key = dict(it.a[2]).get('key')
            inner = it.a[1][0]
            if key is None:
                by = 0
                if inner.k == 'obj' or inner.k != 'call':
                    ps = [q.v for q in pieces(p, inner) if q.kind == 'one']
                    if len(ps) == 1 and ps[0].k == 'tup' and len(ps[0].a[1]) == 2:
                        first, want = ps[0].a[1][0], ps[0].a[1][c]
                        e1, e2 = entry(first, depth + 1), entry(want, depth + 1)
                        if e1 and e2:
                            return (e2[0], e1[0])
                        return None
                return resolve(inner, c, depth + 1, 0)
            k = str(key)
            return resolve(inner, c, depth + 1, 1 if '[1]' in k or 'itemgetter(1)' in k else None) if '[1]' in k or '(1)' in k else None
        return None
    e = entry(i)
    return e if e is not None and e[1] is not None else None


# ------------------------------------------------------------------ derivation mappings
def node_of(ctx, m, R, cls_mod, cls):
    "the function that maps one rule of a derivation, its derivation parameter, and the test for `self`"
    f = m.func(cls_mod, cls + '.transform')
    me, d = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        if not (is_call(v, 'map') and arg0(v) is d):
            continue
        fn = v.a[1][-1]
        if fn.k == 'attr' and fn.a[0] is me:
            g = m.func(cls_mod, f'{cls}.{fn.a[1]}', required=False)
            return (g, param(g, 1), param(g, 0)) if g is not None else None
        for g in nested(m, f):
            if g.name in str(fn):
                return g, param(g, 0), me
    return None


def selfish(me):
    return lambda v: v is me or (v.k in ('name', 'param') and v.a[-1 if v.k == 'name' else 1] == 'self')


def transformed(v, S):
    "the part that is mapped, if v is the mapping of a part by this transformation"
    return v.a[1][0] if is_call(v, 'transform') and recv(v) is not None and S(recv(v)) and len(v.a[1]) == 1 else None


def leaves(p, v, S, out, ctor):
    """The mapped parts a built derivation holds (through other built derivations); names of items inside heads are not parts."""
    if v.k == 'call' and v.a[0].k == 'call' and is_call(v.a[0], 'd'):
        ctor.append(v)
        for i, x in enumerate(v.a[1]):
            if i == 0 and x.k != 'star':
                continue      # the head
            leaves(p, x.a[0] if x.k == 'star' else x, S, out, ctor)
        return
    if v.k == 'obj' or v.k == 'tup' or (v.k == 'bin' and v.a[0] == '*'):
        for q in pieces(p, v):
            if q.v is not v:
                leaves(p, q.v, S, out, ctor)
            else:
                out.append(q.v)
        return
    out.append(v)


def rule_table(v, S, d):
    "the name of the table of rules that the constructor v takes its rule from, if it is at this derivation's rule"
    a = v.a[0].a[1]
    if len(a) != 1 or not S(recv(v.a[0])):
        return '?'
    i = a[0]
    if i is NONE:
        return None
    if i.k == 'attr' and i.a[1] in ('_index', 'i'):
        i = i.a[0]
    if i.k == 'sub' and i.a[0].k == 'attr' and S(i.a[0].a[0]):
        return i.a[0].a[1] if i.a[1] is Attr(d, 'i') or i.a[0].a[1] in ('ro', 'rso') else '?' + i.a[0].a[1]
    if i.k == 'attr' and S(i.a[0]):
        return i.a[1]
    return '?'


def slice_of(v, b, lo, hi):
    if v.k != 'sub' or v.a[0] is not b or v.a[1].k != 'slice':
        return False
    s = v.a[1].a
    return lo(s[0]) and hi(s[1]) and is_const(s[2], None)


def plus1(v, j):
    return v.k == 'bin' and v.a[0] == '+' and ((v.a[1] is j and is_const(v.a[2], 1)) or (v.a[2] is j and is_const(v.a[1], 1)))


def parts_at(b, j):
    "predicates for b[:j], b[j], b[j+1:]"
    nn = lambda x: is_const(x, None)
    return (lambda v: slice_of(v, b, lambda x: nn(x) or is_const(x, 0), lambda x: x is j), lambda v: v.k == 'sub' and v.a[0] is b and v.a[1] is j,
            lambda v: slice_of(v, b, lambda x: plus1(x, j), nn))


def copied(ctx, R, c, p, v, S, d):
    "a rule that was copied keeps its parts"
    out, ctor = [], []
    leaves(p, v, S, out, ctor)
    ok = len(ctor) == 1 and len(out) == 1 and transformed(out[0], S) is Attr(d, 'body') and v.a[1][0] is Attr(d, 'head')
    ctx.need(ok, R, f'{c} copied', p.where(), f'the mapping of a copied rule is {short(v)}')
    if ok:
        i = v.a[0].a[1][0]
        ok = is_call(i, 'index') and recv(i).k == 'attr' and recv(i).a[1] == 'rules' and S(recv(i).a[0]) and tuple(i.a[1]) == (Attr(d, 'R'),)
        ctx.need(ok or i.k not in ('call', 'attr'), R, f'{c} copied', p.where(), f'the rule of a copied step is {short(i)}')


def mappings(ctx, m):
    R = 'mapping'
    unfold_map(ctx, m, R)
    fold_map(ctx, m, R)
    slash_map(ctx, m, R)
    lct_map(ctx, m, R)
    for mod, cls in (('dyna.transform.unfold', 'Unfold'), ('dyna.transform.fold', 'Fold')):
        f = m.func(mod, cls + '.untransform')
        me, d = param(f, 0), param(f, 1)
        for p in ctx.paths(f):
            if p.kind == 'return':
                v = p.value
                u = Attr(me, 'undo')
                ok = is_call(v, 'Transform') and recv(v) is u and len(v.a[1]) == 2 and v.a[1][1] is Attr(me, 'parent') and is_call(v.a[1][0], 'transform') and recv(v.a[1][0]) is u and tuple(v.a[1][0].a[1]) == (d,)
                ctx.need(ok, R, f.ref, p.where(), f'the mapping back to the parent is {short(v)}')


def unfold_map(ctx, m, R):
    g = node_of(ctx, m, R, 'dyna.transform.unfold', 'Unfold')
    if g is None:
        return ctx.fail(R, 'Unfold', 'dyna/transform/unfold.py', 'the mapping of derivations by an unfold is not a mapping of every rule')
    f, d, me = g
    S = selfish(me)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        v = p.value
        mine = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and Attr(d, 'i') in a.a[1:3] and any(z.k == 'attr' and z.a[1] == 'i' and S(z.a[0]) for z in a.a[1:3]))
        if mine is False:
            copied(ctx, R, f.ref, p, v, S, d)
            continue
        if not ctx.need(mine is True, R, f'{f.ref} kind', p.where(), 'the step of the unfolded rule is not told from the others'):
            continue
        n += 1
        b = Attr(d, 'body')
        jj = next((w for w in walk(v) if w.k == 'attr' and w.a[1] == 'j' and S(w.a[0])), None)
        out, ctor = [], []
        leaves(p, v, S, out, ctor)
        ok = len(ctor) == 1 and len(out) == 1 and v.a[1][0] is Attr(d, 'head') and jj is not None
        t = transformed(out[0], S) if ok else None
        seqs = [q.v for q in pieces(p, t)] if t is not None else ([transformed(o, S) for o in out] if len(ctor) == 1 else [])
        L, M, Rr = parts_at(b, jj) if jj is not None else (None, None, None)
        mid = None
        if len(seqs) == 3 and seqs[0] is not None and seqs[2] is not None and L(seqs[0]) and Rr(seqs[2]):
            mid = seqs[1]
        if not ctx.need(mid is not None, R, f'{f.ref} parts', p.where(), f'the mapping of the unfolded rule is {short(v)}'):
            continue
        dm = next((w for w in walk(mid) if is_call(w, 'Transform') and S(recv(w)) and M(w.a[1][0])), None)
        ok = dm is not None and is_call(mid, 'Transform') and mid.a[1][0] is Attr(dm, 'body') and len(mid.a[1]) == 2 and mid.a[1][1].k == 'attr' and mid.a[1][1].a[1] == 'parent' and dm.a[1][1].k == 'attr' and dm.a[1][1].a[1] == 'defs'
        ctx.need(ok, R, f'{f.ref} unfolded', p.where(), 'the unfolded subgoal is not replaced by the parts of its definition')
        i = v.a[0].a[1][0]
        ok = i.k == 'sub' and i.a[0].k == 'attr' and i.a[0].a[1] == 'def2new' and dm is not None and i.a[1] is Attr(dm, 'i')
        ctx.need(ok, R, f'{f.ref} rule', p.where(), f'the rule of the unfolded step is {short(i)}')
    ctx.floor(n, 1, 'unfolded steps')


def fold_map(ctx, m, R):
    g = node_of(ctx, m, R, 'dyna.transform.fold', 'Fold')
    if g is None:
        return ctx.fail(R, 'Fold', 'dyna/transform/fold.py', 'the mapping of derivations by a fold is not a mapping of every rule')
    f, d, me = g
    S = selfish(me)
    b = Attr(d, 'body')
    n = 0
    sides = {}
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        v = p.value
        rep = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is Attr(d, 'i') and a.a[2].k == 'attr' and a.a[2].a[1] == 'S')
        if rep is False:
            copied(ctx, R, f.ref, p, v, S, d)
            continue
        if not ctx.need(rep is True, R, f'{f.ref} kind', p.where(), 'the steps of the replaced rules are not told from the others'):
            continue
        safe = fact(p, lambda a: a.k == 'attr' and a.a[1] == 'partially_safe')
        if safe is False or is_call(v, 'Transform'):
            ok = is_call(v, 'Transform') and len(v.a[1]) == 2 and is_call(v.a[1][0], 'Transform') and S(recv(v.a[1][0])) and v.a[1][0].a[1][0] is d and recv(v) is v.a[1][0].a[1][1]
            ok = ok and v.a[1][1] is Attr(recv(v), 'undo') and safe is False
            ctx.need(ok, R, f'{f.ref} reverse', p.where(), f'the mapping through the reverse transformation is {short(v)}')
            continue
        n += 1
        out, ctor = [], []
        leaves(p, v, S, out, ctor)
        ok = len(ctor) == 1 and len(out) == 1 and v.a[1][0] is Attr(d, 'head') and v.a[0].a[1][0].k == 'attr' and v.a[0].a[1][0].a[1] == 'i' and S(v.a[0].a[1][0].a[0])
        t = transformed(out[0], S) if ok else None
        if not ctx.need(t is not None, R, f'{f.ref} parts', p.where(), f'the mapping of a replaced rule is {short(v)}'):
            continue
        flat = []

        def factors(x):
            if x.k == 'bin' and x.a[0] == '*':
                factors(x.a[1])
                factors(x.a[2])
            else:
                flat.append(x)
        factors(t)
        if not ctx.need(len(flat) == 3 and flat[0].k == 'sub' and flat[2].k == 'sub' and flat[0].a[0] is b and flat[2].a[0] is b, R, f'{f.ref} parts', p.where(), f'the parts of a replaced rule are {short(t)}'):
            continue
        for side, x in (('left', flat[0]), ('right', flat[2])):
            ps = pieces(p, x.a[1])
            for q in ps:
                if q.kind != 'one' or q.v.k not in ('sub', 'elem') or 'remaining' not in str(q.v):
                    ctx.fail(R, f'{f.ref} {side}', p.where(), f'a part beside the fold is {short(q.v)}')
                    continue
                for a, bb in p.facts.items():
                    if a.k == 'cmp' and q.v in a.a[1:3] and a.a[0] in ('<', '<='):
                        o = a.a[2] if a.a[1] is q.v else a.a[1]
                        # (position compared, the element is the smaller side, holds)
                        sides.setdefault(side, set()).add((o, a.a[0], a.a[1] is q.v, bb))
        mid = flat[1]
        df = next((w for w in walk(mid) if w.k == 'call' and is_call(w.a[0], 'd')), None)
        ok = is_call(mid, 'Transform') and len(mid.a[1]) == 2 and mid.a[1][0] is df and df is not None and mid.a[1][1].k == 'attr' and mid.a[1][1].a[1] == 'parent'
        if ctx.need(ok, R, f'{f.ref} folded', p.where(), f'the folded part is {short(mid)}'):
            i = df.a[0].a[1][0]
            ctx.need(i.k == 'sub' and i.a[0].k == 'attr' and i.a[0].a[1] == 'par2def' and i.a[1] is Attr(d, 'i'), R, f'{f.ref} definition', p.where(), f'the definition of the folded part is {short(i)}')
            al = [w for w in walk(df) if w.k == 'sub' and w.a[0] is b and 'align' in str(w.a[1])]
            st = [x for x in df.a[1][1:]]
            ok = len(st) == 1 and st[0].k == 'star' and is_call(st[0].a[0], 'Transform') and S(recv(st[0].a[0])) and st[0].a[0].a[1][0] in al and st[0].a[0].a[1][1].k == 'attr' and st[0].a[0].a[1][1].a[1] == 'defs'
            ctx.need(ok, R, f'{f.ref} folded', p.where(), 'the parts that the definition replaces are not those that are aligned with it')
            hd = df.a[1][0]
            ctx.need(hd.k == 'call' and any(w.k == 'attr' and w.a[1] == 'head' for w in walk(hd)), R, f'{f.ref} folded', p.where(), f'the head of the folded part is {short(hd)}')
            cov = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'cover', 'covers') and recv(e.a[0]) is not None]
            for e in cov:
                a = e.a[0].a[1]
                ok = len(a) == 2 and all(z.k == 'sub' for z in a) and ix(a[0]) == 1 and ix(a[1]) == 0 and any(w is d for w in walk(a[1])) and not any(w is d for w in walk(a[0].a[0].a[0] if a[0].a[0].k == 'attr' and False else V('none')))
                ctx.need(ok, R, f'{f.ref} alignment', e.where, f'the definition is matched as {short(e.a[0])}')
    if len(sides) == 2 and all(len(x) == 1 for x in sides.values()):
        (o1, op1, l1, b1), = sides['left']
        (o2, op2, l2, b2), = sides['right']
        ctx.need(o1 is o2 and op1 == op2 and l1 == l2 and b1 != b2, R, f'{f.ref} beside', f.ref, 'the parts on the left and on the right of the fold do not complement each other')
        small = (l1 and b1) or (not l1 and not b1)
        ctx.need(small, R, f'{f.ref} beside', f.ref, 'the parts on the left and on the right of the fold are exchanged')
    elif sides:
        ctx.fail(R, f'{f.ref} beside', f.ref, 'the parts on the left and on the right of the fold do not complement each other')
    ctx.floor(n, 1, 'folded steps')


def ix(v):
    "the component of an alignment entry that v is indexed with"
    i = v.a[1]
    if i.k == 'key':
        return 0
    if i.k == 'sub' and i.a[1].k == 'const':
        return i.a[1].a[0]
    if i.k == 'sub' and i.a[1].k == 'key':
        return 1
    return None


def is_head_slash(v, S, h, y):
    "the slashed item h over y"
    return is_call(v, '_slash') and S(recv(v)) and len(v.a[1]) == 2 and v.a[1][0] is h and y(v.a[1][1])


def is_other(v, S, h):
    return is_call(v, '_other') and S(recv(v)) and tuple(v.a[1]) == (h,)


def unifies_fact(p, y, S):
    return fact(p, lambda a: is_call(a, 'unifies') and len(a.a[1]) == 2 and y in a.a[1] and any(z.k == 'attr' and z.a[1] == 'x' and S(z.a[0]) for z in a.a[1]))


def useful_fact(p, h, S):
    return fact(p, lambda a: is_call(a, '_is_useful_other') and tuple(a.a[1]) == (h,))


def bare(v):
    return v.a[1][0] if is_call(v, 'Product', 'list', 'tuple') and len(v.a[1]) == 1 else v


def slash_map(ctx, m, R):
    g = node_of(ctx, m, R, 'dyna.transform.slash', 'Slash')
    if g is None:
        return ctx.fail(R, 'Slash', 'dyna/transform/slash.py', 'the mapping of derivations by a slash is not a mapping of every rule')
    f, d, me = g
    S = selfish(me)
    b, h = Attr(d, 'body'), Attr(d, 'head')
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        n += 1
        v = p.value
        c = f.ref
        pos = next((w for a in p.facts for w in walk(a) if is_call(w, 'get') and 'positions' in str(w.a[0])), None)
        nopos = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'is' and NONE in a.a[1:3] and pos in a.a[1:3])
        if pos is None:
            q = next((a for a in p.facts if a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is Attr(d, 'i') and 'positions' in str(a.a[2])), None)
            nopos = None if q is None else not p.facts[q]
            pos = next((w for w in walk(v) if w.k == 'sub' and 'positions' in str(w.a[0]) and w.a[1] is Attr(d, 'i')), pos)
        if nopos is None:
            ctx.fail(R, f'{c} position', p.where(), 'the mapping does not depend on whether a position was chosen for the rule')
            continue
        out, ctor = [], []
        leaves(p, v, S, out, ctor)
        tabs = [rule_table(x, S, d) for x in ctor]
        hu = unifies_fact(p, h, S)
        uo = useful_fact(p, h, S)
        if nopos:
            ctx.need([transformed(o, S) for o in out] == [b], R, f'{c} parts', p.where(), f'the parts of a rule without position are mapped as {short(v)}')
            core, table = None, 'o'
        else:
            L, M, Rr = parts_at(b, pos)
            dd = next((w for w in walk(v) if transformed(w, S) is not None and M(transformed(w, S))), None)
            isb = fact(p, lambda a: is_call(a, 'base') and arg0(a) is dd) if dd is not None else None
            if dd is None:
                ctx.fail(R, f'{c} parts', p.where(), 'the derivation of the chosen subgoal is lost')
                continue
            du = fact(p, lambda a: is_call(a, 'unifies') and dd in a.a[1])
            lens = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and any(is_const(z, 1) for z in a.a[1:3]) and any(is_call(z, 'len') and z.a[1][0] is Attr(dd, 'body') for z in a.a[1:3]))
            body = Attr(dd, 'body')
            if isb is True:
                split, want = du, [dd]
                if du is None:
                    ctx.fail(R, f'{c} constant', p.where(), 'a chosen constant is mapped without asking whether it matches the slashed item')
                    continue
            elif isb is False and lens is True:
                split, want = False, [Sub(body, C0)]
            elif isb is False and lens is False:
                split, want = True, [Sub(body, C0), Sub(body, C1)]
            else:
                ctx.fail(R, f'{c} form', p.where(), 'the forms of the mapped subderivation are not told apart')
                continue
            t = [transformed(o, S) if transformed(o, S) is not None and not M(transformed(o, S)) else o for o in out]
            nl = [o for o in t if L(o)]
            nr = [o for o in t if Rr(o)]
            rest = [o for o in t if not L(o) and not Rr(o)]
            ok = len(nl) == 1 and len(nr) == 1 and len(rest) == len(want) and all(any(o is w for w in want) for o in rest) and len(set(rest)) == len(rest)
            ctx.need(ok, R, f'{c} parts', p.where(), f'not every subderivation is mapped exactly once: {short(v)}')
            if ok:
                ctx.need(t.index(nl[0]) < t.index(nr[0]), R, f'{c} order', p.where(), 'the subderivations before and after the chosen one are exchanged')
            table = 'ss' if split else 'oo'
        core = next((x for x in ctor if rule_table(x, S, d) == table), None)
        ctx.need(core is not None and tabs.count(table) == 1, R, f'{c} rule', p.where(), f'the mapped step does not use the {"rule without position" if nopos else "slashed rule" if table == "ss" else "marked rule"}: {tabs}')
        bad = [t for t in tabs if isinstance(t, str) and (t.startswith('?') or t in {'o', 'oo', 'ss'} - {table})]
        ctx.need(not bad, R, f'{c} rule', p.where(), f'the mapped derivation uses rules of {bad}')
        if core is None:
            continue
        ctx.need(v.a[1] and v.a[1][0] is h, R, f'{c} head', p.where(), f'the mapped derivation is one of {short(v.a[1][0]) if v.a[1] else "nothing"}')
        bases = [x for x in ctor if rule_table(x, S, d) == 'base']
        if table == 'ss':
            ctx.need(is_head_slash(core.a[1][0], S, h, lambda y: any(w is want[0] for w in walk(y))), R, f'{c} head', p.where(), f'the slashed step is one of {short(core.a[1][0])}')
            if isb is True:
                ctx.need(len(bases) == 1 and is_head_slash(bases[0].a[1][0], S, dd, lambda y: y is dd), R, f'{c} spine', p.where(), 'the spine does not start at the chosen constant')
                # the chosen constant stands next to its spine
            continue
        if hu is True:
            ctx.need(len(bases) == 1 and is_head_slash(bases[0].a[1][0], S, h, lambda y: y is h), R, f'{c} spine', p.where(), 'the spine of an item that matches the slashed item does not start at the item')
            ctx.need(is_other(core.a[1][0], S, h), R, f'{c} head', p.where(), f'the marked step is one of {short(core.a[1][0])}')
        else:
            ctx.need(hu is False, R, f'{c} head', p.where(), 'the mapping does not depend on whether the item matches the slashed item')
            ctx.need(not bases, R, f'{c} spine', p.where(), 'an item that does not match the slashed item gets a spine')
            if uo is True:
                ctx.need(is_other(core.a[1][0], S, h) and len(ctor) == 2, R, f'{c} head', p.where(), f'the marked step is one of {short(core.a[1][0])}')
            else:
                ctx.need(uo is False and core is v, R, f'{c} head', p.where(), f'an item that is never marked is mapped to {short(v)}')
    ctx.floor(n, 6, 'cases of the slash mapping')


C0, C1 = V('const', 0), V('const', 1)


def lct_map(ctx, m, R):
    g = node_of(ctx, m, R, 'dyna.transform.lct', 'LCT')
    if g is None:
        return ctx.fail(R, 'LCT', 'dyna/transform/lct.py', 'the mapping of derivations by a left-corner rewrite is not a mapping of every rule')
    f, d, me = g
    S = selfish(me)
    b, h = Attr(d, 'body'), Attr(d, 'head')
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        n += 1
        v = p.value
        c = f.ref
        out, ctor = [], []
        leaves(p, v, S, out, ctor)
        nopos = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'is' and NONE in a.a[1:3] and 'positions' in str(a))
        if nopos is None:
            q = next((a for a in p.facts if a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is Attr(d, 'i') and 'positions' in str(a.a[2])), None)
            nopos = None if q is None else not p.facts[q]
        if nopos is None:
            ctx.fail(R, f'{c} position', p.where(), 'the mapping does not depend on whether a position was chosen for the rule')
            continue
        ctx.need(v.k == 'call' and v.a[1] and v.a[1][0] is h, R, f'{c} head', p.where(), f'the mapped derivation is one of {short(v)}')
        hu = unifies_fact(p, h, S)
        tabs = [rule_table(x, S, d) for x in ctor]
        if nopos or hu is False:
            ctx.need([transformed(o, S) for o in out] == [b], R, f'{c} parts', p.where(), f'the parts of a rule are mapped as {short(v)}')
            uo = useful_fact(p, h, S)
            if nopos and uo is True:
                ok = len(ctor) == 2 and tabs[1] == 'o' and is_other(ctor[1].a[1][0], S, h)
                ctx.need(ok, R, f'{c} marked', p.where(), f'an item that is marked is mapped to {short(v)}')
            elif nopos:
                ctx.need(uo is False and len(ctor) == 1, R, f'{c} marked', p.where(), f'an item that is never marked is mapped to {short(v)}')
            continue
        if not ctx.need(hu is True, R, f'{c} match', p.where(), 'the mapping does not depend on whether the item matches the rewritten item'):
            continue
        sp = next((w for w in walk(v) if is_call(w, 'transform_spine')), None)
        if sp is None:
            continue
        ok = sp.a[1][0] is d and sp.a[1][1] is d
        ctx.need(ok, R, f'{c} spine', p.where(), f'the spine is that of {short(sp)}')
        x, s = Sub(sp, C0), Sub(sp, C1)
        const = fact(p, lambda a: is_call(a, 'is_const') and a.a[1] and a.a[1][0] is x)
        spn = [o for o in out if o is s]
        oth = [o for o in out if o is not s]
        if const is True:
            ok = len(spn) == 1 and len(oth) == 1 and oth[0] is x
        else:
            ok = len(spn) == 1 and len(oth) == 1 and transformed(oth[0], S) is Attr(x, 'body')
            o = next((k for k in ctor if k is not v and k.a[1] and is_other(k.a[1][0], S, Attr(x, 'head'))), None)
            ok = ok and o is not None and o.a[0].a[1][0].k == 'attr' and o.a[0].a[1][0].a[0].k == 'sub' and o.a[0].a[1][0].a[0].a[1] is Attr(x, 'i') and o.a[0].a[1][0].a[0].a[0].a[1] == 'o'
        ctx.need(ok, R, f'{c} parts', p.where(), f'the left corner and its spine are not used exactly once: {short(v)}')
    ctx.floor(n, 3, 'cases of the left-corner mapping')
    f = m.func('dyna.transform.lct', 'LCT.transform_spine', required=False)
    if f is None:
        return
    me, d, y, cb = (param(f, i) for i in range(4))
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        v = p.value
        if v.k == 'tup' and len(v.a[1]) == 2:
            a, bb = v.a[1]
            ok = a is d and bb.k == 'call' and bb.a[0] is cb and len(bb.a[1]) == 1
            if ok:
                k = bb.a[1][0]
                ok = k.k == 'call' and is_call(k.a[0], 'd') and rule_table(k, selfish(me), d) == 'base' and is_head_slash(k.a[1][0], selfish(me), Attr(y, 'head'), lambda z: z is Attr(y, 'head'))
            ctx.need(ok, R, f'{f.ref} start', p.where(), f'the spine starts with {short(v)}')
        elif is_call(v, f.name):
            a = list(v.a[1]) + [z for _, z in v.a[2]]
            ok = len(a) == 3 and a[0].k == 'sub' and a[0].a[0] is Attr(d, 'body') and 'positions' in str(a[0].a[1]) and a[1] is y and a[2] is not cb
            ctx.need(ok, R, f'{f.ref} step', p.where(), f'the spine goes on with {short(v)}')
    for g in nested(m, f):
        if g.name == '<lambda>' or len(g.node.args.args) != 1:
            continue
        for p in ctx.paths(g):
            if p.kind != 'return':
                continue
            v = p.value
            S = selfish(me)
            out, ctor = [], []
            leaves(p, v, S, out, ctor)
            nm = lambda z, s: z.k in ('name', 'param') and str(z) == s
            dn = [w for w in walk(v) if w.k == 'attr' and w.a[1] == 'body']
            if len(ctor) != 1 or not dn:
                ctx.fail(R, f'{g.ref} step', p.where(), f'a step of the spine is {short(v)}')
                continue
            bn = dn[0]
            t = [transformed(o, S) for o in out]
            jn = next((w.a[1].a[1] for w in t if w is not None and w.k == 'sub' and w.a[1].k == 'slice' and is_const(w.a[1].a[0], None)), None)
            ok = False
            if jn is not None:
                L, M, Rr = parts_at(bn, jn)
                ok = len([x for x in t if x is not None and L(x)]) == 1 and len([x for x in t if x is not None and Rr(x)]) == 1 and len(out) == 3
                o = [x for x, y2 in zip(out, t) if y2 is None]
                ok = ok and len(o) == 1 and o[0].k == 'call' and len(o[0].a[1]) == 1 and o[0].a[1][0] is param(g, 0)
            ctx.need(ok, R, f'{g.ref} step', p.where(), f'a step of the spine does not hold every other subderivation exactly once: {short(v)}')
            i = v.a[0].a[1][0]
            ok = i.k == 'attr' and i.a[0].k == 'sub' and i.a[0].a[0].k == 'attr' and i.a[0].a[0].a[1] == 'ss' and i.a[0].a[1].k == 'attr' and i.a[0].a[1].a[0] is bn.a[0]
            ctx.need(ok, R, f'{g.ref} rule', p.where(), f'a step of the spine uses the rule {short(i)}')


# ------------------------------------------------------------------ between programs
def paths_between(ctx, m):
    R = 'between'
    f = m.func('dyna.program', 'Program.Transform')
    me, d, t = (param(f, i) for i in range(3))
    src = Attr(d, 'p')
    n = 0
    for p in ctx.paths(f):
        if p.kind in ('raise', 'backedge') or not consistent(p):
            continue
        n += 1
        v = p.value
        c = f.ref
        call = lambda q, x, y: is_call(q, 'Transform') and x(recv(q)) and len(q.a[1]) == 2 and y(q.a[1][0])
        if seqfact(p, d) is True:
            ps = pieces(p, v.a[1][0]) if v.k == 'call' and v.a[1] else pieces(p, v)
            lp = [(e, done) for e, done in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) is d]
            ok = (not ps and not lp) or (len(ps) == 1 and len(lp) == 1 and lp[0][1] and call(ps[0].v, lambda q: q is me, lambda x: x.k in ('sub', 'elem') and x.a[0] is d) and ps[0].v.a[1][1] is t)
            ctx.need(ok, R, f'{c} sequence', p.where(), f'a sequence is mapped to {short(v)}')
            continue
        if basefact(p, d) is True:
            ctx.need(v is d, R, f'{c} base', p.where(), f'a base case is mapped to {short(v)}')
            continue
        same = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'is' and {a.a[1], a.a[2]} == {src, t})
        inn = [(a, b) for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and 'transforms' in str(a.a[2])]
        up = next((b for a, b in inn if a.a[1] is t), None)          # target is an ancestor of the source
        down = next((b for a, b in inn if a.a[1] is src), None)
        if up is False and down is False:
            root = Attr(src, 'root')
            ok = call(v, lambda q: q is root, lambda x: call(x, lambda q: q is src, lambda y: y is d) and x.a[1][1] is root) and v.a[1][1] is t
            ctx.need(ok, R, f'{c} root', p.where(), f'the way over the common root is {short(v)}')
            continue
        if same is True:
            ctx.need(v is d, R, f'{c} same', p.where(), f'a derivation of the same program is mapped to {short(v)}')
            continue
        eq = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and {a.a[1], a.a[2]} == {src, t})
        if eq is True:
            ok = v.k == 'call' and is_call(v.a[0], 'd') and recv(v.a[0]) is t and v.a[1] and v.a[1][0] is Attr(d, 'head')
            if ok:
                i = v.a[0].a[1][0]
                ok = i.k == 'sub' and i.a[1] is Attr(d, 'i') and any(is_call(w, 'align') and recv(w) is src and tuple(w.a[1]) == (t,) for w in walk(i.a[0]))
            ctx.need(ok, R, f'{c} equal', p.where(), f'a derivation of an equal program is mapped to {short(v)}')
            if ok:
                lp = [(e, done) for e, done in loops_of(p) if isinstance(e.a[1], V) and noop(itv(p, e)) is Attr(d, 'body')]
                ps = []
                for x in v.a[1][1:]:
                    ps += pieces(p, x.a[0]) if x.k == 'star' else pieces(p, V('tup', 'tuple', (x,)))
                ok = (not lp and not ps) or (len(lp) == 1 and lp[0][1] and len(ps) == 1 and call(ps[0].v, lambda q: q in (src, me), lambda x: x.k in ('sub', 'elem') and x.a[0] is Attr(d, 'body')) and ps[0].v.a[1][1] is t)
                ctx.need(ok, R, f'{c} equal', p.where(), 'not every subderivation is mapped into the equal program')
            continue
        if eq is None and same is None:
            ctx.fail(R, f'{c} same', p.where(), 'the mapping does not ask whether both programs are the same')
            continue
        if down is True:
            par = Attr(t, 'parent')
            one = fact(p, lambda a: a.k == 'cmp' and a.a[0] in ('==', 'is') and {a.a[1], a.a[2]} == {src, par})
            ok = (one is True and is_call(v, 'transform') and recv(v) is t and tuple(v.a[1]) == (d,)) or \
                 (one is False and is_call(v, 'transform') and recv(v) is t and len(v.a[1]) == 1 and call(v.a[1][0], lambda q: q is src, lambda y: y is d) and v.a[1][0].a[1][1] is par) or \
                 (one is False and call(v, lambda q: q is par, lambda x: call(x, lambda q: q is src, lambda y: y is d) and x.a[1][1] is par) and v.a[1][1] is t)
            ctx.need(ok, R, f'{c} down', p.where(), f'the mapping down the lineage is {short(v)}')
        elif down is False or up is True:
            par = Attr(src, 'parent')
            one = fact(p, lambda a: a.k == 'cmp' and a.a[0] in ('==', 'is') and {a.a[1], a.a[2]} == {par, t})
            ok = (one is True and is_call(v, 'untransform') and recv(v) is src and tuple(v.a[1]) == (d,)) or \
                 (one is False and call(v, lambda q: q is par, lambda x: is_call(x, 'untransform') and recv(x) is src and tuple(x.a[1]) == (d,)) and v.a[1][1] is t) or \
                 (one is False and call(v, lambda q: q is par, lambda x: call(x, lambda q: q is src, lambda y: y is d) and x.a[1][1] is par) and v.a[1][1] is t)
            ctx.need(ok, R, f'{c} up', p.where(), f'the mapping up the lineage is {short(v)}')
    ctx.floor(n, 6, 'cases of the mapping between programs')
    f = m.func('dyna.program', 'Program.d')
    me, i = param(f, 0), param(f, 1)
    for g in local_functions(m, f):
        for p in ctx.paths(g):
            if p.kind != 'return':
                continue
            for w in [w for w in walk(p.value) if is_call(w, 'Derivation')]:
                kw = dict(w.a[2])
                P = kw.get('p')
                ctx.need(P is None or selfish(me)(P), R, f'{f.ref} program', p.where(), f'a derivation is built for {short(P) if P is not None else ""}')
                r = w.a[1][0]
                if is_call(r, 'Rule') and g.node.args.vararg is not None:
                    a = r.a[1]
                    ok = len(a) == 2 and a[0] is param(g, 0) and a[1].k == 'star' and (a[1].a[0].k == 'obj' or noop(a[1].a[0]).k == 'param' and noop(a[1].a[0]).a[1] == '*' + g.node.args.vararg.arg)
                    ctx.need(ok, R, f'{f.ref} parts', p.where(), f'a derivation is built as {short(w)}')
                I = kw.get('I')
                if I is not None and g.name != '<lambda>':
                    cs = [a for a, b in p.facts.items() if b is True and is_call(a, 'covers')]
                    if cs and I is not NONE and I.k != 'phi':
                        rr = cs[-1].a[1][0]
                        ok = I.k == 'idx' and rr.k in ('sub', 'elem') and any(z is I for z in walk(rr))
                        ctx.need(ok, R, f'{f.ref} rule', p.where(), 'the rule of a derivation is not the one that covers it')
