"""Terms are observed through their bindings; equality, order, canonical copies, products (C26)."""
import ast
from ..core import check
from ..values import V, Const, NONE, TRUE, FALSE, fname, is_call, recv, walk, is_const, strip_phi, Attr, Sub
from ..util import short
from ..model import AnalysisError
from .match import param
from .terms import isinst_names, p_values
from .execute import noop
from .transform import pieces
from .goal import itv
from .coarse import loops_of, consistent, names, seq

KINDS = {'Var': {'VU', 'VB'}, 'Term': {'T'}, 'list': {'L'}, 'tuple': {'U'}, 'Product': {'U'}}
ALL = {'VU', 'VB', 'T', 'L', 'U', 'O'}
SAID = {'VU': 'an unbound variable', 'VB': 'a bound variable', 'T': 'a compound term', 'L': 'a list', 'U': 'a tuple', 'O': 'a constant'}


@check('C26', 'case analysis, over every kind of value, of the functions that observe terms and of the ones that build sequences of subgoals',
       'Each function is split into the cases unbound variable, bound variable, compound term, list, tuple and constant; each path must give, for every case that it can be taken in, '
       'the answer for the value that is denoted: bound variables followed, all components visited, nothing that can go stale kept.',
       ['a constant is equal, ordered and hashed as Python does it',
        'the name of a variable is cosmetic: it is used for printing and for ordering variables only'])
def c26(ctx):
    m = ctx.m
    dereferencing(ctx, m)
    groundness(ctx, m)
    variables(ctx, m)
    equality(ctx, m)
    hashing(ctx, m)
    shape(ctx, m)
    canonical(ctx, m)
    ordering(ctx, m)
    substitution(ctx, m)
    products(ctx, m)


# ------------------------------------------------------------------ cases
def subject(p, x):
    "(the value that the path distinguishes, the kinds it can have)"
    S = x
    for a in list(p.facts):
        for w in walk(a):
            if is_call(w, 'snap', 'deref') and w.a[1] and w.a[1][0] is x:
                S = w
    kinds = set(ALL) if S is x else ALL - {'VB'}
    for a, b in p.facts.items():
        if is_call(a, 'isinstance') and len(a.a[1]) == 2 and a.a[1][0] is S:
            ks = set().union(*(KINDS.get(n, {'O'} if n else set()) for n in isinst_names(a)))
            sure = all(n in KINDS and n != 'Product' for n in isinst_names(a))
            kinds = kinds & ks if b else (kinds - (ks - {'O'}) if sure else kinds - set().union(*(KINDS.get(n, set()) for n in isinst_names(a) if n != 'Product')))
        elif is_call(a, 'is_bound') and recv(a) is S:
            kinds &= {'VB'} if b else {'VU'}
        elif is_call(a, 'is_var') and a.a[1] and a.a[1][0] in (S, x):
            kinds &= {'VU'} if b and S is not x else {'VU', 'VB'} if b else kinds - {'VU'}
        elif null_test(a, S):
            kinds &= {'VU'} if b else {'VB'}
    return S, kinds


def null_test(a, S):
    return a.k == 'cmp' and a.a[0] in ('is', '==') and any(z is Attr(S, 'value') for z in a.a[1:3]) and any(unset(z) for z in a.a[1:3])


def unset(z):
    return (z.k in ('name', 'global', 'ext') and fname(z) == 'null_ptr') or (z.k == 'const' and z.a[0] is Ellipsis)


def truth(p, v):
    "the truth of a value on this path, or None"
    v = p.res(v) if v.k == 'phi' else v
    if v.k == 'const':
        return bool(v.a[0])
    if v.k == 'un' and v.a[0] == 'not ':
        r = truth(p, v.a[1])
        return None if r is None else not r
    if v in p.facts:
        return p.facts[v]
    if is_call(v, 'bool') and len(v.a[1]) == 1:
        return truth(p, v.a[1][0])
    return None


def truth_k(p, v, S, k):
    "the truth of a value on this path if the subject is of this kind"
    if v.k == 'un' and v.a[0] == 'not ':
        r = truth_k(p, v.a[1], S, k)
        return None if r is None else not r
    if is_call(v, 'isinstance') and len(v.a[1]) == 2 and v.a[1][0] is S and v not in p.facts:
        ks = [KINDS.get(n) for n in isinst_names(v)]
        if any(q and k in q for q in ks):
            return True
        return False if all(ks) else None
    return truth(p, v)


def denotes(v, S):
    "the content of a bound variable"
    return v is Attr(S, 'value') or (is_call(v, 'snap', 'deref') and v.a[1] and (v.a[1][0] is S or v.a[1][0] is Attr(S, 'value')))


def components(v, S, kind):
    "all components of a compound value"
    v = noop(v)
    if is_call(v, 'iter') and len(v.a[1]) == 1:
        v = noop(v.a[1][0])
    if v is S:
        return True
    return kind == 'T' and v is Attr(S, 'fargs')


def rec_of(v, f):
    "argument of a recursive call"
    return v.a[1][0] if is_call(v, f.name) and v.a[1] else None


def each(p, S, kind, f):
    "[(loop event, ended, the value of the recursive call or None)] of the loops over all the components"
    out = []
    for e, d in loops_of(p):
        if e.a[1] is None:
            continue
        it = itv(p, e)
        if is_call(it, 'map') and len(it.a[1]) == 2 and fname(it.a[1][0]) == f.name and components(it.a[1][1], S, kind):
            out.append((e, d, e.a[0], True))
        elif components(seq(it), S, kind):
            out.append((e, d, e.a[0], False))
    return out


def zero(p, S, kind, f):
    for e in p.events:
        if e.kind == 'loop0' and isinstance(e.a[1], V):
            it = itv(p, e)
            if is_call(it, 'map') and len(it.a[1]) == 2 and fname(it.a[1][0]) == f.name and components(it.a[1][1], S, kind):
                return True
            if components(seq(it), S, kind):
                return True
    return False


def cases(ctx, f, x, inline=()):
    for p in ctx.paths(f, inline=inline):
        if p.kind == 'raise' or not consistent(p):
            continue
        S, kinds = subject(p, x)
        yield p, S, kinds


# ------------------------------------------------------------------ snap, deref
def dereferencing(ctx, m):
    R = 'dereference'
    n = 0
    f = m.func('dyna.term', 'snap')
    x = param(f, 0)
    for p, S, kinds in cases(ctx, f, x):
        if p.kind == 'backedge':
            continue
        v = p.value
        n += 1
        ph = {w for w in p_values(p) if w.k == 'phi'} | {e.a[2] for e in p.events if e.kind == 'carry'}
        if ph:
            # a loop along the chain: it must advance by the content and stop only at something that is not a bound variable
            for e in p.events:
                if e.kind == 'carry':
                    ctx.need(e.a[3] is Attr(e.a[2], 'value') or e.a[3] is e.a[2], R, f'{f.ref} chain', e.where, f'the chain of bindings continues with {short(e.a[3])}')
            continue
        for k in kinds:
            if k == 'VB':
                r = rec_of(v, f)
                ctx.need(r is not None and denotes(r, S), R, f'{f.ref} bound', p.where(), f'a bound variable is taken for {short(v)}')
            else:
                ctx.need(v is S or v is x, R, f'{f.ref} other', p.where(), f'{SAID[k]} is taken for {short(v)}')
    f = m.func('dyna.term', 'deref')
    x = param(f, 0)
    for p, S, kinds in cases(ctx, f, x):
        if p.kind == 'backedge':
            continue
        n += 1
        v = p.value
        for k in kinds:
            if k == 'VB':
                r = rec_of(v, f)
                ctx.need(r is not None and denotes(r, S), R, f'{f.ref} bound', p.where(), f'a bound variable is taken for {short(v)}')
            elif k in ('T', 'U'):
                copied(ctx, R, p, f, v, S, k)
            else:
                ctx.need(v is S, R, f'{f.ref} other', p.where(), f'{SAID[k]} is taken for {short(v)}')
    ctx.floor(n, 5, 'cases of dereferencing')


def copied(ctx, R, p, f, v, S, k, extra=()):
    "v is the copy of the compound S that f makes by treating every component alike"
    def ok_rec(r, want):
        return is_call(r, f.name) and r.a[1] and want(r.a[1][0]) and tuple(r.a[1][1:]) == tuple(extra)
    whole = lambda z: components(z, S, k) and (k != 'T' or z is not S)
    if k == 'T':
        if is_call(v, 'fresh', 'sub') and recv(v) is S and len(v.a[1]) == 1 and fname(v.a[1][0]) == f.name:
            return ctx.ob(R, f'{f.ref} compound', p.where())
        made = v.k == 'call' and (v.a[0] is Attr(S, '__class__') or (is_call(v.a[0], 'type') and v.a[0].a[1][0] is S))
        if not ctx.need(made, R, f'{f.ref} compound', p.where(), f'the copy of a compound term is {short(v)}'):
            return
        args = v.a[1]
    else:
        if ok_rec(v, whole):
            return ctx.ob(R, f'{f.ref} compound', p.where())
        args = (V('star', v),) if v.k != 'star' else (v,)
    if len(args) == 1 and args[0].k == 'star' and ok_rec(args[0].a[0], whole):
        return ctx.ob(R, f'{f.ref} compound', p.where())
    lp = each(p, S, k, f)
    got = []
    for a in args:
        if a.k == 'star':
            got += [q.v for q in pieces(p, a.a[0]) if q.kind == 'one'] if not is_call(a.a[0], 'map') else [a.a[0]]
        else:
            got.append(a)
    if len(got) == 1 and is_call(got[0], 'map') and len(got[0].a[1]) == 2 and fname(got[0].a[1][0]) == f.name and whole(got[0].a[1][1]):
        return ctx.ob(R, f'{f.ref} compound', p.where())
    if not lp:
        ctx.need(zero(p, S, k, f) and not got, R, f'{f.ref} compound', p.where(), f'the components of {SAID[k]} are not treated')
        return
    e, d, i, mapped = lp[0]
    ctx.need(d, R, f'{f.ref} components', e.where, 'not every component is treated')
    ctx.need(len(got) == 1 and ok_rec(got[0], lambda z: is_elem(z, S, i)), R, f'{f.ref} components', e.where, f'a component becomes {short(got[0]) if got else "nothing"}')


def is_elem(z, S, i):
    if z.k in ('sub', 'elem') and (z.a[0] is S or z.a[0] is Attr(S, 'fargs')):
        return z.a[1].k == 'idx' and z.a[1].a[0] == i
    return False


# ------------------------------------------------------------------ is_ground, is_var
def groundness(ctx, m):
    R = 'ground'
    f = m.func('dyna.term', 'is_ground')
    x = param(f, 0)
    n = 0
    for p, S, kinds in cases(ctx, f, x):
        if p.kind == 'backedge':
            continue
        n += 1
        v = p.value
        for k in kinds:
            t = truth_k(p, v, S, k)
            w = f'{f.ref} {SAID[k]}'
            if k == 'VU':
                ctx.need(t is False, R, w, p.where(), 'an unbound variable counts as ground')
            elif k == 'O':
                ctx.need(t is True, R, w, p.where(), 'a constant does not count as ground')
            elif k == 'VB':
                r = rec_of(v, f)
                ok = r is not None and denotes(r, S)
                if not ok and t is not None:
                    ok = any(b is t and rec_of(a, f) is not None and denotes(rec_of(a, f), S) for a, b in p.facts.items())
                ctx.need(ok, R, w, p.where(), 'whether a bound variable is ground does not depend on what it is bound to')
            else:
                lp = each(p, S, k, f)
                r = rec_of(v, f)
                if k == 'T' and r is not None and noop(r) is Attr(S, 'fargs'):
                    ctx.ob(R, w, p.where())
                    continue
                hits = [b for e, d, i, mapped in lp for a, b in p.facts.items() if (mapped and a.k in ('sub', 'elem') and a.a[1].k == 'idx' and a.a[1].a[0] == i)
                        or (is_call(a, f.name) and a.a[1] and is_elem(a.a[1][0], S, i))]
                if t is True:
                    ok = (lp and all(d for _, d, _, _ in lp) and hits and all(hits)) or zero(p, S, k, f)
                    ctx.need(bool(ok), R, w, p.where(), f'{SAID[k]} counts as ground although not every component has been found ground')
                elif t is False:
                    ctx.need(False in hits, R, w, p.where(), f'{SAID[k]} does not count as ground although no component has been found that is not')
                else:
                    ctx.fail(R, w, p.where(), f'whether {SAID[k]} is ground is answered by {short(v)}')
    f = m.func('dyna.term', 'is_var')
    x = param(f, 0)
    for p, S, kinds in cases(ctx, f, x):
        if p.kind == 'backedge':
            continue
        n += 1
        v = p.value
        if is_call(v, 'isinstance') and isinst_names(v) == {'Var'} and is_call(v.a[1][0], 'snap', 'deref') and v.a[1][0].a[1][0] is x:
            ctx.ob(R, f.ref, p.where())
            continue
        for k in kinds:
            t = truth_k(p, v, S, k)
            ok = t is (k == 'VU') if k != 'VB' else rec_of(v, f) is not None and denotes(rec_of(v, f), S)
            ctx.need(ok, R, f'{f.ref} {SAID[k]}', p.where(), f'whether {SAID[k]} is an unbound variable is answered by {short(v)}')
    f = m.func('dyna.term', 'Var.is_bound')
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind == 'return':
            n += 1
            v = p.value
            neg = v.k == 'un' and v.a[0] == 'not ' and null_test(v.a[1], me)
            t = truth(p, v)
            if not neg and t is not None:
                neg = any(null_test(a, me) and b is (not t) for a, b in p.facts.items())
            ctx.need(neg, R, f.ref, p.where(), f'a variable counts as bound if {short(v)}')
    ctx.floor(n, 6, 'cases of groundness')


# ------------------------------------------------------------------ the variables of a term
def variables(ctx, m):
    R = 'variables'
    f = m.func('dyna.term', 'term_vars')
    x, vs = param(f, 0), param(f, 1)
    n = 0
    for p, S, kinds in cases(ctx, f, x):
        if p.kind == 'backedge':
            continue
        given = not any(b is True and a.k == 'cmp' and a.a[0] == 'is' and any(z is vs for z in a.a[1:3]) and any(is_const(z, None) for z in a.a[1:3]) for a, b in p.facts.items())
        n += 1
        v = p.res(p.value)
        adds = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('add', 'append') and len(e.a) > 2]
        recs = [c.a[0] for c in p.events if c.kind == 'call' and is_call(c.a[0], f.name)]
        coll = vs if given else None
        if coll is None:
            objs = [e.a[0] for e in adds] + [r.a[1][1] for r in recs if len(r.a[1]) > 1] + [v]
            objs = [o for o in objs if not is_call(o, f.name)]
            coll = objs[0] if objs else None
            ctx.need(coll is None or kinds == {'O'} or is_call(coll, 'OrderedSet', 'set', 'list') or coll.k == 'obj', R, f'{f.ref} start', p.where(), f'the variables are collected in {short(coll) if coll is not None else ""}')
        same = lambda o: o is coll or (o.k != 'obj' and p.res(o) is coll)
        kept = [r for r in recs if len(r.a[1]) > 1 and same(r.a[1][1])]
        for k in kinds:
            w = f'{f.ref} {SAID[k]}'
            if k == 'VU':
                ctx.need(any(same(e.a[0]) and e.a[2] is S for e in adds), R, w, p.where(), 'an unbound variable is left out')
            elif k == 'VB':
                ctx.need(any(denotes(r.a[1][0], S) for r in kept), R, w, p.where(), 'the variables of what a variable is bound to are left out')
                ctx.need(not adds, R, w, p.where(), 'a bound variable counts as one of the variables')
            elif k in ('T', 'L', 'U'):
                lp = each(p, S, k, f)
                if k == 'T' and any(noop(r.a[1][0]) is Attr(S, 'fargs') for r in kept):
                    ctx.ob(R, w, p.where())
                elif not lp:
                    ctx.need(zero(p, S, k, f), R, w, p.where(), f'the components of {SAID[k]} are not visited')
                for e, d, i, mapped in lp:
                    ctx.need(d and any(is_elem(r.a[1][0], S, i) for r in kept), R, w, e.where, f'the variables of a component of {SAID[k]} are left out')
            ok = same(v) or (is_call(v, f.name) and v in kept) or (k == 'O' and v.k == 'bin' and v.a[0] == '|')
            ctx.need(ok, R, f'{f.ref} result', p.where(), f'the answer is {short(v)}, not the collected variables')
    ctx.floor(n, 5, 'cases of the variables of a term')


# ------------------------------------------------------------------ equality
def isvar_fact(p, A):
    for a, b in p.facts.items():
        if is_call(a, 'isinstance') and a.a[1][0] is A and isinst_names(a) == {'Var'}:
            return b
        if is_call(a, 'is_var') and a.a[1] and a.a[1][0] is A:
            return b
        if is_call(a, 'isinstance') and a.a[1][0] is A and b is True and 'Var' not in isinst_names(a):
            return False
    return None


def cmp_pair(v, X, Y, ops):
    return v.k == 'cmp' and v.a[0] in ops and ((v.a[1] in X and v.a[2] in Y) or (v.a[1] in Y and v.a[2] in X))


def equality(ctx, m):
    R = 'equality'
    n = 0
    f = m.func('dyna.term', 'Var.__eq__')
    x, y = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind not in ('return',):
            continue
        n += 1
        X = {w for w in p_values(p) if is_call(w, 'snap', 'deref') and w.a[1][0] is x} | {w for w in walk(p.value) if is_call(w, 'snap', 'deref') and w.a[1][0] is x}
        Y = {w for w in p_values(p) if is_call(w, 'snap', 'deref') and w.a[1][0] is y} | {w for w in walk(p.value) if is_call(w, 'snap', 'deref') and w.a[1][0] is y}
        v = p.value
        bound = next((b for a, b in p.facts.items() if (is_call(a, 'is_bound') and recv(a) is x)), None)
        if bound is None:
            bound = next((not b for a, b in p.facts.items() if null_test(a, x)), None)
        XV = X | {Attr(x, 'value')} if bound is True else X
        if bound is False:
            X = X | {x}
        t = truth(p, v)
        same = next((b for a, b in p.facts.items() if cmp_pair(a, X | {x}, Y | {y}, ('is',))), None)
        for a in (True, False):
            for b in (True, False):
                fa = [isvar_fact(p, z) for z in X if isvar_fact(p, z) is not None]
                fb = [isvar_fact(p, z) for z in Y if isvar_fact(p, z) is not None]
                if bound is False:
                    fa.append(True)
                if any(z is not a for z in fa) or any(z is not b for z in fb):
                    continue
                w = f'{f.ref} {"variable" if a else "value"}/{"variable" if b else "value"}'
                if same is True:
                    ctx.need(t is True, R, w, p.where(), 'a variable is not equal to itself')
                elif a or b:
                    ok = cmp_pair(v, X, Y, ('is',)) or (t is False and (a != b or same is False)) or (cmp_pair(v, XV, Y | {y}, ('==',)) and bound is True)
                    ctx.need(ok, R, w, p.where(), 'an unbound variable is equal to something else than itself, or its bindings are not followed')
                else:
                    ok = cmp_pair(v, XV, Y | {y}, ('==',)) or (t is not None and any(c is t and cmp_pair(z, XV, Y | {y}, ('==',)) for z, c in p.facts.items()))
                    ctx.need(ok, R, w, p.where(), 'bound variables are not compared by the values that they are bound to')
    f = m.func('dyna.term', 'Term.__eq__')
    x, y = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        Y = {w for q in (p_values(p), walk(v)) for w in q if is_call(w, 'snap', 'deref') and w.a[1] and w.a[1][0] is y}
        Y |= {w for a in p.facts for w in walk(a) if is_call(w, 'snap', 'deref') and w.a[1] and w.a[1][0] is y}
        fx = {Attr(x, 'fargs')}
        fy = {Attr(z, 'fargs') for z in Y}
        t = truth(p, v)
        term = next((b for a, b in p.facts.items() if is_call(a, 'isinstance') and a.a[1][0] in Y and isinst_names(a) == {'Term'}), None)
        if v is not None and v.k == 'name' and fname(v) == 'NotImplemented':
            t = False
        if cmp_pair(v, fx, fy, ('==',)):
            ctx.need(term is True, R, f'{f.ref} kind', p.where(), 'a term is compared with something that may not be a term, or whose bindings have not been followed')
        elif is_call(v, '__eq__') and recv(v) in fx | fy:
            ctx.need(term is True and v.a[1][0] in fx | fy and v.a[1][0] is not recv(v), R, f'{f.ref} kind', p.where(), 'a term is compared with something else than the arguments of the other')
        elif t is True:
            eq = any(b is True and (cmp_pair(a, fx, fy, ('==',)) or cmp_pair(a, {x}, Y | {y}, ('is',))) for a, b in p.facts.items())
            ctx.need(eq or elementwise(p, x, Y, True), R, f'{f.ref} equal', p.where(), 'terms count as equal although not all their components have been found equal')
        elif t is False:
            ne = term is False or any(b is False and (cmp_pair(a, fx, fy, ('==',)) or sizes(a, x, Y)) for a, b in p.facts.items())
            ctx.need(ne or elementwise(p, x, Y, False), R, f'{f.ref} different', p.where(), 'terms count as different although no component differs')
        else:
            ctx.fail(R, f.ref, p.where(), f'the equality of terms is answered by {short(v)}')
    ctx.floor(n, 4, 'cases of equality')


def sizes(a, x, Y):
    def own(z):
        if is_call(z, 'len') and z.a[1]:
            z = z.a[1][0]
            return z.a[0] if z.k == 'attr' and z.a[1] in ('fargs', 'args') else z
        return z.a[0] if z.k == 'attr' and z.a[1] in ('arity', 'fn', 'signature') else None
    return a.k == 'cmp' and a.a[0] == '==' and {id(own(a.a[1])), id(own(a.a[2]))} & {id(x)} and {id(own(a.a[1])), id(own(a.a[2]))} & {id(z) for z in Y}


def elementwise(p, x, Y, val):
    full = False
    for e, d in loops_of(p):
        it = itv(p, e) if e.a[1] is not None else None
        if it is not None and is_call(it, 'zip') and len(it.a[1]) == 2:
            a, b = it.a[1]
            ok = any(z in (x, Attr(x, 'fargs')) for z in (a, b)) and any(z in Y or z in {Attr(y, 'fargs') for y in Y} for z in (a, b))
            hits = [t for c, t in p.facts.items() if c.k == 'cmp' and c.a[0] == '==' and all(any(w.k == 'idx' and w.a[0] == e.a[0] for w in walk(z)) for z in c.a[1:3])]
            if ok and val is True and d and hits and all(hits):
                full = True
            if ok and val is False and False in hits:
                return True
    for e in p.events:
        if e.kind == 'loop0' and isinstance(e.a[1], V) and is_call(itv(p, e), 'zip'):
            full = True
    return full and any(b is True and sizes(a, x, Y) and is_size(a) for a, b in p.facts.items())


def is_size(a):
    return any(is_call(z, 'len') or (z.k == 'attr' and z.a[1] == 'arity') for z in a.a[1:3])


# ------------------------------------------------------------------ hashes
def hashing(ctx, m):
    R = 'hash'
    n = 0
    f = m.func('dyna.term', 'Var.__hash__')
    for p, S, kinds in cases(ctx, f, param(f, 0)):
        if p.kind != 'return':
            continue
        kinds &= {'VU', 'VB'}
        n += 1
        v = p.value
        for k in kinds:
            if k == 'VB':
                ok = is_call(v, 'hash') and v.a[1] and denotes(v.a[1][0], S)
                ctx.need(ok, R, f'{f.ref} bound', p.where(), f'the hash of a bound variable is {short(v)}, which is not the hash of what it is bound to')
            else:
                bad = [w for w in walk(v) if w is Attr(S, 'value')]
                ctx.need(not bad or is_call(v, 'hash') and is_call(v.a[1][0], 'id'), R, f'{f.ref} unbound', p.where(), f'the hash of an unbound variable is {short(v)}')
    f = m.func('dyna.term', 'Term.__hash__')
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        ctx.need(not any(e.kind in ('setattr', 'setitem') for e in p.events), R, f'{f.ref} kept', p.where(), 'the hash of a term is kept, although its variables may be bound and unbound again')
        bad = [w for w in walk(v) if (w.k == 'attr' and w.a[0] is me and w.a[1] not in ('fargs', 'args', 'fn', 'arity', 'signature') and not is_method_of(v, w))
               or is_call(w, 'id', 'getattr') or (is_call(w, '__hash__') and fname(recv(w) or NONE) == 'object')]
        ctx.need(not bad and any(is_call(w, 'hash') or is_call(w, '__hash__') for w in walk(v)), R, f.ref, p.where(), f'the hash of a term is {short(v)}, which equal terms do not share')
    for name in ('Var', 'Term', 'Product'):
        c = m.cls('dyna.term', name)
        eq, ha = '__eq__' in c.methods, '__hash__' in c.methods
        ctx.need(eq == ha, R, f'{c.name} pair', f'dyna/term.py class {name}', 'equality is redefined without the hash')
    ctx.floor(n, 2, 'hashes')


def is_method_of(v, w):
    return any(c.k == 'call' and c.a[0] is w for c in walk(v))


# ------------------------------------------------------------------ parts of a term
def shape(ctx, m):
    R = 'parts'
    me = lambda f: param(f, 0)
    fa = lambda f: Attr(me(f), 'fargs')

    def one(q, test, what):
        f = m.func('dyna.term', q)
        for p in ctx.paths(f):
            if p.kind == 'return':
                vals = [p.value] if not is_const(p.value, None) else [e.a[0] for e in p.events if e.kind in ('yieldfrom', 'yield')]
                ctx.need(bool(vals) and test(f, noop(vals[0]), p), R, f.ref, p.where(), f'{what} is {short(vals[0]) if vals else "nothing"}')
    one('Term.fn', lambda f, v, p: is_call(v, 'snap', 'deref') and v.a[1][0] is Sub(fa(f), Const(0)), 'the function symbol of a term')
    one('Term.args', lambda f, v, p: tail(v, fa(f)), 'the arguments of a term')
    length = lambda f, v: is_call(v, 'len') and (v.a[1][0] is me(f) or noop(v.a[1][0]) is fa(f))
    less = lambda f, v: v.k == 'bin' and v.a[0] == '-' and length(f, v.a[1]) and is_const(v.a[2], 1)
    one('Term.arity', lambda f, v, p: less(f, v) or (is_call(v, 'len') and (tail(v.a[1][0], fa(f)) or v.a[1][0] is Attr(me(f), 'args'))), 'the number of arguments of a term')
    one('Term.__len__', lambda f, v, p: is_call(v, 'len') and noop(v.a[1][0]) is fa(f) or (v.k == 'bin' and v.a[0] == '+' and {str(z) for z in v.a[1:3]} == {'1', str(Attr(me(f), 'arity'))}), 'the size of a term')
    one('Term.__iter__', lambda f, v, p: v is fa(f) or (is_call(v, 'iter') and noop(v.a[1][0]) is fa(f)) or (v.k in ('sub', 'elem') and v.a[0] is fa(f)), 'the first component of a term')
    one('Term.signature', lambda f, v, p: v.k == 'tup' and len(v.a[1]) == 2 and v.a[1][0] is Attr(me(f), 'fn') and v.a[1][1] is Attr(me(f), 'arity'), 'the signature of a term')
    for q in ('Term.fresh', 'Term.sub'):
        f = m.func('dyna.term', q)
        s, t = me(f), param(f, 1)
        for p in ctx.paths(f):
            if p.kind != 'return' or not consistent(p):
                continue
            v = p.value
            made = v.k == 'call' and (v.a[0] is Attr(s, '__class__') or (is_call(v.a[0], 'type') and v.a[0].a[1][0] is s))
            if not ctx.need(made, R, f'{f.ref} class', p.where(), f'the copy of a term is {short(v)}'):
                continue
            args = v.a[1]
            ok = False
            if len(args) == 1 and args[0].k == 'star':
                w = noop(args[0].a[0])
                ok = w.k == 'call' and w.a[0] is t and len(w.a[1]) == 1 and noop(w.a[1][0]) is Attr(s, 'fargs')
                ok = ok or (is_call(w, 'map') and w.a[1][0] is t and noop(w.a[1][1]) in (Attr(s, 'fargs'), s))
            if not ok:
                lp = [(e, d) for e, d in loops_of(p) if noop(seq(itv(p, e))) in (Attr(s, 'fargs'), s)]
                z = [e for e in p.events if e.kind == 'loop0' and noop(seq(itv(p, e))) in (Attr(s, 'fargs'), s)]
                got = [q2.v for a in args for q2 in (pieces(p, a.a[0]) if a.k == 'star' else [type('P', (), {'v': a})()])]
                if lp:
                    e, d = lp[0]
                    ok = d and len(got) == 1 and got[0].k == 'call' and got[0].a[0] is t and len(got[0].a[1]) == 1 and is_elem(got[0].a[1][0], s, e.a[0])
                else:
                    ok = bool(z) and not got
            ctx.need(ok, R, f'{f.ref} components', p.where(), f'the copy of a term is {short(v)}: not every component is copied in its place')


def tail(v, seqv):
    v = noop(v)
    return v.k == 'sub' and v.a[0] is seqv and v.a[1].k == 'slice' and is_const(v.a[1].a[0], 1) and is_const(v.a[1].a[1], None) and is_const(v.a[1].a[2], None)


# ------------------------------------------------------------------ canonical copies
def canonical(ctx, m):
    R = 'canonical'
    n = 0
    f = m.func('dyna.term', '_canonicalize')
    x, vs = param(f, 0), param(f, 1)
    number = m.func('dyna.term', '_canonicalize_var')
    g = m.func('dyna.term', 'canonicalize')
    for p in ctx.paths(g):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        ok = is_call(v, f.name) and v.a[1] and noop_fresh(v.a[1][0]) is param(g, 0)
        memo = None
        if ok:
            memo = v.a[1][1] if len(v.a[1]) > 1 else dict(v.a[2]).get('vs') if v.a[2] else None
        empty = memo is not None and (memo.k == 'obj' or is_call(memo, 'dict')) and not pieces(p, memo) and any(e.kind in ('newobj', 'call') and e.a[0] is memo for e in p.events)
        ctx.need(ok and empty, R, g.ref, p.where(), f'a canonical copy is {short(v)}: the numbering of variables does not start afresh')
    for p, S, kinds in cases(ctx, f, x):
        if p.kind == 'backedge' or p.kind != 'return':
            continue
        n += 1
        v = p.value
        for k in kinds - {'L', 'U'}:
            w = f'{f.ref} {SAID[k]}'
            if k == 'VB':
                ok = is_call(v, f.name) and denotes(v.a[1][0], S) and vs in v.a[1]
                ctx.need(ok, R, w, p.where(), 'a bound variable is not replaced by the copy of what it is bound to')
            elif k == 'VU':
                stores = [e for e in p.events if e.kind == 'setitem' and e.a[0] is vs]
                if is_call(v, number.name):
                    a = v.a[1][0]
                    ok = is_call(a, 'len') and a.a[1][0] is vs and len(stores) == 1 and keyed(stores[0].a[1], S) and stores[0].a[2] is v
                    early = [c for c in p.events if c.kind == 'call' and c.a[0] is v and stores and c.n > stores[0].n]
                    ctx.need(ok and not early, R, w, p.where(), f'a new variable becomes {short(v)}, or is not remembered: two variables may get the same canonical variable, or one two')
                else:
                    known = (is_call(v, 'get', 'setdefault') and recv(v) is vs and v.a[1] and keyed(v.a[1][0], S)) or (v.k == 'sub' and v.a[0] is vs and keyed(v.a[1], S))
                    ctx.need(known and (not stores or keyed(stores[0].a[1], S)), R, w, p.where(), f'a variable becomes {short(v)}')
                    if known and is_call(v, 'get'):
                        ctx.need(any(v in (a.a[1], a.a[2]) and b is False for a, b in p.facts.items() if a.k == 'cmp') or p.facts.get(v) is True, R, w, p.where(), 'a variable that has no number yet becomes nothing')
            elif k == 'T':
                ok = False
                if is_call(v, 'fresh') and recv(v) is S and len(v.a[1]) == 1:
                    h = v.a[1][0]
                    if h.k == 'lam':
                        node = p.flow.lams[h][0] if h in getattr(p.flow, 'lams', {}) else None
                        ok = lam_rec(node, f) if node is not None else True
                    else:
                        ok = fname(h) not in (f.name, g.name)
                elif v.k == 'call' and (v.a[0] is Attr(S, '__class__') or is_call(v.a[0], 'type')):
                    got = [q.v for a in v.a[1] for q in (pieces(p, a.a[0]) if a.k == 'star' else [])]
                    ok = (bool(got) and all(is_call(z, f.name) and vs in z.a[1] for z in got)) or zero(p, S, 'T', f)
                ctx.need(ok, R, w, p.where(), f'the canonical copy of a term is {short(v)}')
            else:
                ctx.need(v is S or denotes(v, x), R, w, p.where(), f'the canonical copy of a constant is {short(v)}')
    i = param(number, 0)
    for p in ctx.paths(number):
        if p.kind != 'return' or p.value is None:
            continue
        n += 1
        v = p.value
        if v.k == 'sub':
            L = v.a[0]
            ctx.need(v.a[1] is i, R, f'{number.ref} index', p.where(), f'the canonical variable with number i is {short(v)}')
            for e, d in loops_of(p):
                it = itv(p, e) if e.a[1] is not None else None
                if it is not None and is_call(it, 'range'):
                    grown = [q for q in p.events if q.kind == 'mutate' and q.a[1] in ('append',) and len(q.a) > 2]
                    ctx.need(bool(grown) and is_call(grown[0].a[2], 'Var'), R, f'{number.ref} grow', e.where, 'the list of canonical variables is not extended by a new variable')
        elif is_call(v, 'Var') and not any(e.kind in ('setitem', 'mutate') for e in p.events):
            ctx.fail(R, f'{number.ref} index', p.where(), 'every use of a number gives another variable')
    ctx.floor(n, 4, 'cases of canonical copies')


def noop_fresh(v):
    while is_call(v, 'snap', 'deref') and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


def keyed(k, S):
    return k is S or (is_call(k, 'id') and len(k.a[1]) == 1 and k.a[1][0] is S)


def lam_rec(node, f):
    "lambda y: _canonicalize(y, <the same memo>)"
    if isinstance(node, ast.Lambda):
        b, arg = node.body, node.args.args[0].arg
    elif isinstance(node, ast.FunctionDef):
        rs = [s for s in ast.walk(node) if isinstance(s, ast.Return)]
        if len(rs) != 1 or not node.args.args:
            return True
        b, arg = rs[0].value, node.args.args[0].arg
    else:
        return True
    memo = f.node.args.args[1].arg
    if isinstance(b, ast.Call) and getattr(b.func, 'id', None) == f.name:
        vals = list(b.args) + [k.value for k in b.keywords]
        return len(vals) == 2 and isinstance(vals[0], ast.Name) and vals[0].id == arg and isinstance(vals[1], ast.Name) and vals[1].id == memo
    return False


# ------------------------------------------------------------------ order
def ordering(ctx, m):
    R = 'order'
    f = m.func('dyna.term', 'lt')
    x, y = param(f, 0), param(f, 1)
    n = 0
    mixed = {}
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        t = truth(p, v)
        A = next((w for a in list(p.facts) + [v] for w in walk(a) if is_call(w, 'snap', 'deref') and w.a[1][0] is x), x)
        B = next((w for a in list(p.facts) + [v] for w in walk(a) if is_call(w, 'snap', 'deref') and w.a[1][0] is y), y)
        ctx.need(is_call(A, 'snap', 'deref') and is_call(B, 'snap', 'deref'), R, f'{f.ref} bindings', p.where(), 'a bound variable is ordered as a variable')
        eq = next((b for a, b in p.facts.items() if cmp_pair(a, {A}, {B}, ('==', 'is'))), None)
        if eq is True:
            ctx.need(t is False, R, f'{f.ref} irreflexive', p.where(), 'a value is smaller than itself')
            continue
        for ka in kind3(p, A):
            for kb in kind3(p, B):
                w = f'{f.ref} {ka}/{kb}'
                if ka == kb == 'variable':
                    ok = t is False or (v.k == 'cmp' and v.a[0] == '<' and all(z.k == 'attr' for z in v.a[1:3]) and v.a[1].a[0] is A and v.a[2].a[0] is B and v.a[1].a[1] == v.a[2].a[1])
                    ctx.need(ok, R, w, p.where(), f'the order of two variables is {short(v)}')
                elif ka == 'variable':
                    ctx.need(t is False, R, w, p.where(), 'a variable is smaller than something that is not a variable')
                elif kb == 'variable':
                    ok = t is True or neg_swap(v, f, A, B) or (is_call(v, f.name) and v.a[1][1] is B and v.a[1][0] is Attr(A, 'fn'))
                    ctx.need(ok, R, w, p.where(), 'something that is not a variable is not smaller than a variable')
                elif ka == kb == 'term':
                    lexical(ctx, R, w, p, f, v, t, A, B, eq)
                elif ka == kb == 'constant':
                    ok = v.k == 'cmp' and v.a[0] == '<' and same_shape(v.a[1], v.a[2], A, B)
                    ctx.need(ok, R, w, p.where(), f'the order of two constants is {short(v)}')
                elif ka == 'term':
                    mixed.setdefault('term', []).append((p, v, t, is_call(v, f.name) and noop_fresh(v.a[1][0]) in (Attr(A, 'fn'), Sub(Attr(A, 'fargs'), Const(0))) and v.a[1][1] is B))
                else:
                    mixed.setdefault('constant', []).append((p, v, t, neg_swap(v, f, A, B)))
    for side, other in (('term', 'constant'), ('constant', 'term')):
        for p, v, t, std in mixed.get(side, []):
            if t is not None:
                ok = all(t2 is not None and t2 is not t for _, _, t2, _ in mixed.get(other, [])) or any(s for _, _, _, s in mixed.get(other, []))
            else:
                ok = std
            ctx.need(bool(ok), R, f'{f.ref} {side}/{other}', p.where(), f'{short(v)}: a term and a constant may each be smaller than the other, or neither')
    for q in ('Term.__lt__', 'Var.__lt__'):
        g = m.func('dyna.term', q)
        for p in ctx.paths(g):
            if p.kind == 'return':
                v = p.value
                ctx.need(is_call(v, f.name) and tuple(v.a[1]) == (param(g, 0), param(g, 1)), R, g.ref, p.where(), f'the order is {short(v)}')
    ctx.floor(n, 6, 'cases of the order')


def same_shape(a, b, A, B):
    if a is A and b is B:
        return True
    return a is not b and str(a).replace(str(A), '@') == str(b).replace(str(B), '@') and str(A) in str(a)


def kind3(p, A):
    ks = {'variable', 'term', 'constant'}
    for a, b in p.facts.items():
        if is_call(a, 'isinstance') and a.a[1][0] is A:
            got = {{'Var': 'variable', 'Term': 'term'}.get(z, 'constant') for z in isinst_names(a)}
            ks = ks & got if b else ks - (got - {'constant'})
    return sorted(ks)


def neg_swap(v, f, A, B):
    if v.k == 'un' and v.a[0] == 'not ':
        w = v.a[1]
        return (w.k == 'cmp' and w.a[0] == '<' and w.a[1] is B and w.a[2] is A) or (is_call(w, f.name) and tuple(w.a[1]) == (B, A))
    return False


def lexical(ctx, R, w, p, f, v, t, A, B, eq):
    ar = lambda z, S: (z.k == 'attr' and z.a[1] == 'arity' and z.a[0] is S) or (is_call(z, 'len') and z.a[1][0] in (S, Attr(S, 'fargs'), Attr(S, 'args')))
    lp = [(e, d) for e, d in loops_of(p) if e.a[1] is not None]
    slots = [(c, b) for c, b in p.facts.items() if c.k == 'cmp' and c.a[0] == '==' and slot(p, c.a[1]) and slot(p, c.a[2])]
    for e, d in lp:
        it = itv(p, e)
        full = (is_call(it, 'zip') and len(it.a[1]) == 2 and all(z in (S, Attr(S, 'fargs')) for z, S in zip(it.a[1], (A, B)))) or \
            (is_call(it, 'range') and common(it, A, B))
        ctx.need(full, R, w + ' slots', e.where, f'terms are compared over {short(it)}, which leaves out a common component')
    differ = [c for c, b in slots if b is False]
    if v.k == 'cmp' and v.a[0] == '<' and ar(v.a[1], A) and ar(v.a[2], B):
        ctx.need(all(b is True for c, b in slots) and all(d for e, d in lp), R, w, p.where(), 'the number of arguments decides although a component differs')
        ctx.need(bool(lp) or any(e.kind == 'loop0' for e in p.events) or any(e.kind == 'loopend' for e in p.events), R, w, p.where(), 'terms are ordered by their number of arguments alone')
        return
    if is_call(v, f.name) or (v.k == 'cmp' and v.a[0] == '<'):
        a, b = v.a[1][:2] if v.k == 'call' else v.a[1:3]
        ok = bool(differ) and any({a, b} == {c.a[1], c.a[2]} for c in differ) and own(a, A) and own(b, B)
        ctx.need(ok, R, w, p.where(), f'the order of two terms is {short(v)}, which is not the order of their first different component')
        return
    hits = [(c, b) for c, b in p.facts.items() if (is_call(c, f.name) and len(c.a[1]) == 2) or (c.k == 'cmp' and c.a[0] == '<')]
    if t is not None:
        ok = False
        for c, b in hits:
            a1, b1 = c.a[1][:2] if c.k == 'call' else c.a[1:3]
            if ar(a1, A) and ar(b1, B) and not differ:
                ok = ok or b is t
            if own(a1, A) and own(b1, B) and any({a1, b1} == {c2.a[1], c2.a[2]} for c2 in differ):
                ok = ok or b is t
            if own(a1, B) and own(b1, A) and any({a1, b1} == {c2.a[1], c2.a[2]} for c2 in differ):
                ok = ok or b is (not t)
        # lt(a, b) tested before equality: smaller one way decides
            if b is True and own(a1, A) and own(b1, B) and slot(p, a1):
                ok = ok or t is True
            if b is True and own(a1, B) and own(b1, A) and slot(p, a1):
                ok = ok or t is False
        ctx.need(ok, R, w, p.where(), f'two terms are ordered as {t} although their first different component is not ordered so')
        return
    ctx.fail(R, w, p.where(), f'the order of two terms is {short(v)}')


def slot(p, z):
    return any(w.k == 'idx' for w in walk(z))


def own(z, S):
    while z is not S and z.k in ('attr', 'sub', 'elem'):
        z = z.a[0]
    return z is S


def common(it, A, B):
    "range(min(A.arity, B.arity)+1), range(min(len(A), len(B)))"
    args = it.a[1]
    if len(args) == 2 and is_const(args[0], 0):
        args = args[1:]
    if len(args) != 1:
        return False
    z, extra = args[0], 0
    if z.k == 'bin' and z.a[0] == '+' and any(is_const(q, 1) for q in z.a[1:3]):
        extra = 1
        z = next(q for q in z.a[1:3] if not is_const(q, 1))
    if not is_call(z, 'min') or len(z.a[1]) != 2:
        return False
    def size(q):
        if q.k == 'attr' and q.a[1] == 'arity':
            return q.a[0], 0
        if is_call(q, 'len') and q.a[1]:
            r = q.a[1][0]
            return (r.a[0], 0 if r.a[1] == 'args' else 1) if r.k == 'attr' and r.a[1] in ('fargs', 'args') else (r, 1)
        if q.k == 'bin' and q.a[0] == '+' and is_const(q.a[2], 1):
            s, e = size(q.a[1])
            return s, e + 1
        return None, 0
    got = [size(q) for q in z.a[1]]
    return {id(s) for s, _ in got} == {id(A), id(B)} and all(e + extra >= 1 for _, e in got)


# ------------------------------------------------------------------ replacement
def substitution(ctx, m):
    R = 'replace'
    f = m.func('dyna.term', 'replace_in_expr')
    x, old, new = (param(f, i) for i in range(3))
    n = 0
    clean = lambda z: noop_fresh(z)
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        n += 1
        S, kinds = subject(p, x)
        v = p.value
        hit = next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] in ('==', 'is') and {id(clean(a.a[1])), id(clean(a.a[2]))} == {id(x), id(old)}), None)
        if hit is True:
            ctx.need(clean(v) is new, R, f.ref, p.where(), f'the target becomes {short(v)}')
            continue
        if not ctx.need(hit is False, R, f.ref, p.where(), 'something is kept without being compared with the target'):
            continue
        for k in kinds:
            w = f'{f.ref} {SAID[k]}'
            if k in ('T', 'U'):
                args = (V('star', v),)
                if k == 'T':
                    if not ctx.need(v.k == 'call' and (v.a[0] is Attr(S, '__class__') or (is_call(v.a[0], 'type') and v.a[0].a[1][0] is S)), R, w, p.where(), f'{SAID[k]} becomes {short(v)}'):
                        continue
                    args = v.a[1]
                rest = lambda r: is_call(r, f.name) and len(r.a[1]) == 3 and clean(r.a[1][1]) is old and clean(r.a[1][2]) is new
                got = [v2 for a in args for v2 in ([q.v for q in pieces(p, a.a[0])] if a.k == 'star' else [a])]
                lp = [(e, d) for e, d in loops_of(p) if noop(seq(itv(p, e))) in (Attr(S, 'fargs'), S)]
                if len(args) == 1 and rest(args[0].a[0]) and noop(args[0].a[0].a[1][0]) is Attr(S, 'fargs'):
                    ctx.ob(R, w, p.where())
                elif lp:
                    e, d = lp[0]
                    ctx.need(d and len(got) == 1 and rest(got[0]) and is_elem(got[0].a[1][0], S, e.a[0]), R, w, e.where, 'not every component is searched for the target')
                else:
                    ctx.need(not got, R, w, p.where(), 'not every component is searched for the target')
            elif k == 'VB':
                ctx.need(is_call(v, f.name) and denotes(v.a[1][0], S), R, w, p.where(), 'what a variable is bound to is not searched for the target')
            elif k != 'L':
                ctx.need(clean(v) is x, R, w, p.where(), f'{SAID[k]} becomes {short(v)}')
    ctx.floor(n, 3, 'cases of replacement')


# ------------------------------------------------------------------ sequences of subgoals
def products(ctx, m):
    R = 'product'
    n = 0
    for cls in ('Product', 'Term', 'Var'):
        for name, first in (('__mul__', True), ('__rmul__', False)):
            f = m.func('dyna.term', f'{cls}.{name}')
            me, other = param(f, 0), param(f, 1)
            for p in ctx.paths(f):
                if p.kind != 'return':
                    continue
                n += 1
                ps = pieces(p, p.value)
                tup = next((b for a, b in p.facts.items() if is_call(a, 'isinstance') and a.a[1][0] is other and isinst_names(a) & {'tuple', 'Product'}), None)
                got = [(q.kind, noop(q.v) if q.kind == 'seq' else q.v) for q in ps]
                mine = ('seq' if cls == 'Product' else 'one', me)
                his = [('seq', other)] if tup is not False else [('one', other)]
                if tup is None:
                    his.append(('one', other))
                ok = is_call(p.value, 'Product') and any(got == ([mine, h] if first else [h, mine]) for h in his) and tup is not None
                ctx.need(ok, R, f.ref, p.where(), f'a product of {"this and another" if first else "another and this"} is {short(p.value)}')
    f = m.func('dyna.term', 'Product.__getitem__')
    me, xs = param(f, 0), param(f, 1)
    base = lambda v: is_call(v, '__getitem__') or (v.k == 'sub')
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        n += 1
        v = p.value
        many = next((b for a, b in p.facts.items() if is_call(a, 'isinstance') and a.a[1][0] is xs and isinst_names(a) & {'tuple', 'list'}), None)
        sl = next((b for a, b in p.facts.items() if is_call(a, 'isinstance') and a.a[1][0] is xs and isinst_names(a) == {'slice'}), None)
        if many is True:
            lp = [(e, d) for e, d in loops_of(p) if noop(seq(itv(p, e))) is xs]
            got = [q.v for q in pieces(p, v)]
            ok = is_call(v, 'Product') and (not got if not lp else lp[0][1] and len(got) == 1 and base(got[0]) and is_elem(got[0].a[1][0] if got[0].k == 'call' else got[0].a[1], xs, lp[0][0].a[0]))
            ctx.need(ok, R, f'{f.ref} several', p.where(), f'the chosen subgoals are {short(v)}: not one for each position, in order')
        elif sl is True:
            w = v.a[1][0] if is_call(v, 'Product') and len(v.a[1]) == 1 else None
            ctx.need(w is not None and base(w) and (w.a[1][0] if w.k == 'call' else w.a[1]) is xs, R, f'{f.ref} slice', p.where(), f'a slice of subgoals is {short(v)}')
        else:
            ctx.need(base(v) and (v.a[1][0] if v.k == 'call' else v.a[1]) is xs, R, f'{f.ref} one', p.where(), f'a single subgoal is {short(v)}')
    f = m.func('dyna.term', 'flatten_op')
    x, op = param(f, 0), param(f, 1)
    for p, S, kinds in cases(ctx, f, x):
        if p.kind == 'backedge':
            continue
        n += 1
        outs = [e for e in p.events if e.kind in ('yield', 'yieldfrom')]
        same = next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == '==' and {id(z) for z in a.a[1:3]} == {id(Attr(S, 'fn')), id(op)}), None)
        conj = kinds == {'T'} and same is True
        if 'VB' in kinds:
            ctx.fail(R, f'{f.ref} bindings', p.where(), 'a conjunction that a variable is bound to is not split')
            continue
        if conj:
            lp = [(e, d) for e, d in loops_of(p) if e.a[1] is not None and noop(seq(itv(p, e))) is Attr(S, 'args') and not backwards(itv(p, e))]
            if not lp:
                ctx.need(any(e.kind == 'loop0' for e in p.events) and not outs, R, f'{f.ref} parts', p.where(), 'the parts of a conjunction are not split in order')
            for e, d in lp:
                ok = d and len(outs) == 1 and is_call(outs[0].a[0], f.name) and tuple(outs[0].a[0].a[1][1:]) == (op,) and elem_is(outs[0].a[0].a[1][0], Attr(S, 'args'), e.a[0])
                ok = ok or (d and len(outs) == 1 and outs[0].kind == 'yield' and any(c[0] == 'loop' and is_call(c[2], f.name) and elem_is(c[2].a[1][0], Attr(S, 'args'), e.a[0]) for c in outs[0].ctx))
                ok = ok or (d and not outs and any(c.kind == 'loop0' and isinstance(c.a[1], V) and is_call(c.a[1], f.name) for c in p.events))
                ctx.need(ok, R, f'{f.ref} parts', e.where, 'a part of a conjunction is left out, repeated or not split further')
        else:
            ok = len(outs) == 1 and outs[0].kind == 'yield' and outs[0].a[0] is S and not (kinds == {'T'} and same is None)
            ctx.need(ok, R, f'{f.ref} other', p.where(), 'something that is not a conjunction is not kept as it is, once')
    f = m.func('dyna.term', 'flatten')
    for p in ctx.paths(f):
        if p.kind == 'return':
            n += 1
            vals = [e.a[0] for e in p.events if e.kind in ('yield', 'yieldfrom')] or [p.value]
            v = vals[0]
            if v.k in ('sub', 'elem'):
                v = v.a[0]
            ok = is_call(v, 'flatten_op') and v.a[1][0] is param(f, 0) and is_const(v.a[1][1] if len(v.a[1]) > 1 else NONE, ',')
            ctx.need(ok or not any(e.kind in ('yield', 'yieldfrom') for e in p.events) and any(e.kind == 'loop0' for e in p.events), R, f.ref, p.where(), f'a conjunction is split into {short(vals[0])}')
    join(ctx, R, m)
    ctx.floor(n, 12, 'cases of products')


def backwards(it):
    return any(is_call(w, 'reversed', 'set', 'sorted') for w in walk(it))


def elem_is(z, S, i):
    return z.k in ('sub', 'elem') and z.a[0] is S and z.a[1].k == 'idx' and z.a[1].a[0] == i


def join(ctx, R, m):
    f = m.func('dyna.term', 'join_f')
    g = param(f, 0)
    va = f.node.args.vararg
    if va is None:
        return
    for p in ctx.paths(f):
        if p.kind == 'raise' or not consistent(p):
            continue
        outs = [e for e in p.events if e.kind in ('yield', 'yieldfrom')]
        many = next((b for a, b in p.facts.items() if str(a) == f'*{va.arg}'), None)
        rec = [w for w in p_values(p) if is_call(w, f.name)]
        if not rec and many is not True and not any(e.kind in ('loop', 'loop0') for e in p.events):
            ok = len(outs) == 1 and is_call(outs[0].a[0], 'Product') and not pieces(p, outs[0].a[0])
            ctx.need(ok, R, f'{f.ref} empty', p.where(), 'the empty product has not exactly one combination')
            continue
        if not rec:
            ctx.need(not outs, R, f'{f.ref} combinations', p.where(), 'a combination is reported without the rest')
            continue
        first = [e for e, d in loops_of(p) if e.a[1] is not None and itv(p, e).k == 'call' and itv(p, e).a[0] is g]
        rest = [(e, d) for e, d in loops_of(p) if e.a[1] is not None and is_call(itv(p, e), f.name)]
        for e in first:
            a = itv(p, e).a[1]
            ctx.need(len(a) == 1 and a[0].k == 'sub' and is_const(a[0].a[1], 0), R, f'{f.ref} first', e.where, f'the first stream is that of {short(a[0]) if a else ""}')
        for r in rec:
            a = r.a[1]
            ok = len(a) == 2 and a[0] is g and a[1].k == 'star' and a[1].a[0].k == 'sub' and a[1].a[0].a[1].k == 'slice' and \
                is_const(a[1].a[0].a[1].a[0], 1) and is_const(a[1].a[0].a[1].a[1], None)
            ctx.need(ok, R, f'{f.ref} rest', p.where(), f'the combinations of the rest are {short(r)}')
        if first and rest:
            ok = len(outs) == 1 and outs[0].kind == 'yield'
            v = outs[0].a[0] if ok else None
            ok = ok and v.k == 'bin' and v.a[0] == '*' and stream_elem(p, v.a[1], lambda it: it.k == 'call' and it.a[0] is g) and stream_elem(p, v.a[2], lambda it: is_call(it, f.name))
            ctx.need(ok and all(d for _, d in rest), R, f'{f.ref} combinations', p.where(), f'a combination is {short(v) if v is not None else "reported not exactly once"}')


def stream_elem(p, z, test):
    return z.k in ('sub', 'elem') and z.a[1].k == 'idx' and test(z.a[0])
