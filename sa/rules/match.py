"""Unification, matching and generalisation by cases (C05); equality of rules and programs (C06)."""
from ..core import check
from ..values import (V, Const, NONE, TRUE, FALSE, fname, is_call, recv, walk, contains, is_const, strip_phi, Attr, Sub)
from ..util import mentions, root, is_fresh, analysis_roots, calls_name, short, calls_in
from ..model import AnalysisError
from .terms import isinst_names, p_values, is_restore


def param(f, i):
    return V('param', f.ref, f.node.args.args[i].arg, i)


def snaps(p, x):
    "The values that stand for the argument `x` on this path (itself, dereferenced)."
    return {x} | {w for w in p_values(p) if is_call(w, 'snap', 'deref') and w.a[1] and w.a[1][0] is x}


def fact(p, pred):
    return next((b for a, b in p.facts.items() if pred(a)), None)


def tfact(p, xs, T):
    "isinstance(x, T...) on this path."
    r = None
    for a, b in p.facts.items():
        if is_call(a, 'isinstance') and a.a[1][0] in xs and T in isinst_names(a):
            if b:
                return True if len(isinst_names(a)) == 1 or T != 'Var' else r
            r = False
    return r


def compound(p, xs):
    "True/False/None: is the argument known to be a compound (Term/tuple/list)?"
    r = None
    for a, b in p.facts.items():
        if is_call(a, 'isinstance') and a.a[1][0] in xs and isinst_names(a) & {'Term', 'tuple', 'list'}:
            if b:
                return True
            r = False
    return r


def eqfact(p, xs, ys, ops=('==', 'is')):
    return fact(p, lambda a: a.k == 'cmp' and a.a[0] in ops and ((a.a[1] in xs and a.a[2] in ys) or (a.a[1] in ys and a.a[2] in xs)))


def sizes_equal(p, xs, ys):
    def size(v):
        if is_call(v, 'len') and v.a[1]:
            w = v.a[1][0]
            if w.k == 'attr' and w.a[1] in ('fargs', 'args'):
                w = w.a[0]
            return w
        if v.k == 'attr' and v.a[1] == 'arity':
            return v.a[0]
        return None
    return fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and size(a.a[1]) is not None and size(a.a[2]) is not None
                and ((size(a.a[1]) in xs and size(a.a[2]) in ys) or (size(a.a[1]) in ys and size(a.a[2]) in xs)))


def whole(v, xs):
    "All the components of the argument: itself or its full argument tuple."
    return v in xs or (v.k == 'attr' and v.a[1] == 'fargs' and v.a[0] in xs)


def unification(ctx):
    m = ctx.m
    f = m.func('dyna.term', 'unify')
    x, y = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        n += 1
        X, Y = snaps(p, x), snaps(p, y)
        outs = [e for e in p.events if e.kind in ('yield', 'yieldfrom')]
        where = p.where()
        eq = eqfact(p, X, Y)
        vx, vy = tfact(p, X, 'Var'), tfact(p, Y, 'Var')
        bound = lambda S: fact(p, lambda a: is_call(a, 'is_bound') and recv(a) in S)
        ctx.need(len(outs) <= 1, 'once', f.ref, where, 'one way of unifying is reported more than once')
        if not outs:
            occ = fact(p, lambda a: is_call(a, 'occurs_check')) is True
            cx, cy = compound(p, X), compound(p, Y)
            clash = vx is False and vy is False and (cx is False or cy is False or sizes_equal(p, X, Y) is False)
            ctx.need(occ or clash, 'complete', f.ref, where, 'a path gives up although the terms may unify')
            continue
        e = outs[0]
        if e.kind == 'yield':
            opened = [w for w in p.events if w.kind == 'setattr' and w.a[1] == 'value' and not is_restore(w.a[0], w.a[2], w.facts) and w.n < e.n]
            ok = eq is True or (opened and ((opened[0].a[0] in X and opened[0].a[2] in Y and vx) or (opened[0].a[0] in Y and opened[0].a[2] in X and vy)))
            ctx.need(ok, 'sound', f.ref, e.where, 'success is reported although the terms are neither equal nor made equal')
            continue
        v = p.res(e.a[0])
        if is_call(v, f.name) and len(v.a[1]) == 2:
            A, B = v.a[1]
            val = lambda S: {Attr(s, 'value') for s in S} | S
            ok = (A in val(X) and B in val(Y)) or (A in val(Y) and B in val(X))
            swapped = A in Y and B in X
            moved = A.k == 'attr' or B.k == 'attr'
            for z, S in ((A, X), (B, Y), (A, Y), (B, X)):
                if z.k == 'attr' and z.a[1] == 'value' and z.a[0] in S:
                    ok = ok and bound(S) is True
            ok = ok and (moved or (swapped and vx is False and vy))
            ctx.need(ok, 'sound', f.ref, e.where, f'the unification of the arguments is reduced to {short(v)}')
        elif is_call(v, 'unifyN') and len(v.a[1]) == 2:
            A, B = v.a[1]
            ok = (whole(A, X) and whole(B, Y)) or (whole(A, Y) and whole(B, X))
            ctx.need(ok, 'sound', f.ref, e.where, f'compound terms are compared by {short(v)}, which leaves something out')
            ctx.need(sizes_equal(p, X, Y) is True, 'sound', f.ref + ' arity', e.where, 'compound terms are compared without checking that they have the same number of components')
            ctx.need(vx is False and vy is False, 'sound', f.ref + ' kind', e.where, 'a variable is treated as a compound term')
        else:
            ctx.need(False, 'sound', f.ref, e.where, f'success is delegated to {short(v)}')
    ctx.floor(n, 8, 'cases of unify')
    f = m.func('dyna.term', 'unifyN')
    xs, ys = param(f, 0), param(f, 1)
    k = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        outs = [e for e in p.events if e.kind in ('yield', 'yieldfrom')]
        heads = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'unify')]
        for e in outs:
            k += 1
            if e.kind == 'yield':
                # every component unified in nested loops: first with first, rest with rest
                us = [p.res(c[2]) for c in e.ctx if c[0] == 'loop' and c[2] is not None and is_call(c[2], 'unify', f.name)]
                if len(us) == 2 and is_call(us[0], 'unify') and is_call(us[1], f.name) and all(swap_eq(u.a[1][0], u.a[1][1], xs, ys) for u in us) and advances(us[0].a[1][0], us[1], xs, f):
                    continue
                emp = any(b is False and (a in (xs, ys) or (is_call(a, 'len') and a.a[1][0] in (xs, ys))) for a, b in p.facts.items()) or \
                    any(b is True and a.k == 'cmp' and a.a[0] == '==' and any(is_call(w, 'len') for w in a.a[1:]) for a, b in p.facts.items() if not same_len(a, xs, ys))
                ctx.need(emp, 'sound', f.ref, e.where, 'success is reported before every component has been unified')
                continue
            v = p.res(e.a[0])
            lp = [c for c in e.ctx if c[0] == 'loop' and c[2] is not None and is_call(c[2], 'unify')]
            ok = bool(lp) and is_call(v, f.name)
            if ok:
                h = p.res(lp[-1][2])
                a, b = h.a[1]
                ok = swap_eq(a, b, xs, ys) and swap_eq(v.a[1][0], v.a[1][1], xs, ys) and tuple(v.a[1][2:]) == tuple(v.a[1][2:])
                ok = ok and advances(h.a[1][0], v, xs, f)
            ctx.need(ok, 'sound', f.ref, e.where, 'the components are not unified pairwise, each exactly once')
        if not outs:
            ctx.need(any(e.kind == 'loop0' for e in p.events), 'complete', f.ref, p.where(), 'a path gives up without trying')
    ctx.floor(k, 2, 'cases of unifyN')


def same_len(a, xs, ys):
    L = {w.a[1][0] for w in a.a[1:] if isinstance(w, V) and is_call(w, 'len') and w.a[1]}
    return L == {xs, ys}


def swap_eq(a, b, xs, ys):
    "b is a with xs replaced by ys (the same projection on both sides)."
    from ..values import rewrite
    return rewrite(a, lambda v: ys if v is xs else v) is b or rewrite(a, lambda v: xs if v is ys else v) is b


def advances(a, v, xs, f):
    "The recursion continues right after the component just unified."
    if a.k != 'sub':
        return False
    i = a.a[1]
    rest = v.a[1][0]
    if rest.k == 'sub' and rest.a[1].k == 'slice':
        lo, hi, st = rest.a[1].a
        return is_const(i, 0) and is_const(lo, 1) and hi is NONE and st is NONE
    return any(w.k == 'bin' and w.a[0] == '+' and i in w.a[1:] and any(is_const(z, 1) for z in w.a[1:]) for w in v.a[1][2:])


def failing(v):
    return is_const(v, None) or (v.k in ('attr', 'global', 'name') and fname(v) == 'FAIL')


def substitutions(ctx):
    "Subst.mgu and Subst.cover by cases."
    m = ctx.m
    for q, twoway in (('Subst.mgu', True), ('Subst.cover', False)):
        f = m.func('dyna.term', q)
        s, x, y = param(f, 0), param(f, 1), param(f, 2)
        k = 0
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            k += 1
            X, Y = snaps(p, x), snaps(p, y)
            v = p.res(p.value)
            where = p.where()
            eq = eqfact(p, X, Y)
            vx, vy = tfact(p, X, 'Var'), tfact(p, Y, 'Var')
            inx = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'in' and a.a[1] in X and a.a[2] is s)
            iny = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'in' and a.a[1] in Y and a.a[2] is s)
            occ = fact(p, lambda a: is_call(a, 'occur_check', 'occurs_check'))
            recs = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], f.name) and any(c[0] == 'loop' for c in e.ctx)]
            loops = [e for e in p.events if e.kind in ('loop', 'loop0')]
            sets = [e for e in p.events if e.kind == 'setitem' and e.a[0] is s]
            for e in sets:
                ok = e.a[1] in X and e.a[2] in Y and vx is True and inx is False
                if twoway:
                    ok = ok or (e.a[1] in Y and e.a[2] in X and vy is True and iny is False)
                    ok = ok and (iny is False or vy is False or e.a[1] in Y)
                ctx.need(ok, 'bind', f.ref, e.where, f'{short(e.a[1])} is mapped to {short(e.a[2])}: ' + (
                    'an existing entry may be overwritten' if e.a[1] in X else 'only variables of the pattern may be bound'))
            direct = is_call(v, f.name) and not recs
            if direct:
                A, B = v.a[1][:2]
                val = lambda S: {Sub(s, z) for z in S}
                if twoway:
                    ok = (A in val(X) and B in Y and inx is True) or (A in X and B in val(Y) and iny is True) or (A in Y and B in X and vx is False and vy) \
                        or (whole(A, X) and whole(B, Y) and A.k == B.k == 'attr')
                else:
                    ok = (whole(A, X) and whole(B, Y) and A.k == B.k == 'attr')
                ctx.need(ok and recv(v) is s, 'reduce', f.ref, where, f'the problem is reduced to {short(v)}')
                continue
            if failing(v):
                bad_rec = any(b is True and a.k == 'cmp' and a.a[0] in ('is', '==') and any(is_call(strip_phi(w), f.name) for w in a.a[1:]) for a, b in p.facts.items())
                if twoway:
                    clash = vx is False and vy is False and (compound(p, X) is False or compound(p, Y) is False or sizes_equal(p, X, Y) is False or differ(p, X, Y))
                    ok = occ is True or clash or bad_rec
                else:
                    mism = inx is True and fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and any(w.k == 'sub' and w.a[0] is s and w.a[1] in X for w in a.a[1:])) is False
                    clash = vx is False and (compound(p, X) is False or compound(p, Y) is False or sizes_equal(p, X, Y) is False or differ(p, X, Y))
                    ok = occ is True or clash or bad_rec or mism
                ctx.need(ok, 'complete', f.ref, where, 'a path reports failure although the terms may match')
                continue
            # success
            if loops:
                it = [p.res(e.a[1]) for e in loops if e.a[1] is not None]
                zipped = any(is_call(z, 'zip') and len(z.a[1]) == 2 and whole(z.a[1][0], X) and whole(z.a[1][1], Y) for z in it)
                counted = any(is_call(z, 'range') and mentions_size(z) for z in it)
                ctx.need(zipped or counted, 'components', f.ref, where, 'not every pair of corresponding components is matched')
                ctx.need(sizes_equal(p, X, Y) is True, 'components', f.ref + ' arity', where, 'components are matched without checking that there are equally many')
                ctx.need(vx is False and (vy is False or not twoway), 'components', f.ref + ' kind', where, 'a variable is treated as a compound term')
                if any(e.kind == 'loop' for e in loops):
                    ok = bool(recs)
                    for e in recs:
                        r = p.res(e.a[0])
                        ok = ok and len(r.a[1]) >= 2 and comp_of(r.a[1][0], X) and comp_of(r.a[1][1], Y)
                        tested = any(b is False and a.k == 'cmp' and a.a[0] in ('is', '==') and (is_const(a.a[1], None) or is_const(a.a[2], None) or failing(a.a[1]) or failing(a.a[2]))
                                     and (e.a[0] in a.a[1:] or r in a.a[1:]) for a, b in p.facts.items())
                        ctx.need(tested, 'components', f.ref + ' failure', e.where, 'the failure of one component is not passed on')
                    ctx.need(ok, 'components', f.ref + ' pair', where, 'a component is not matched against the corresponding one')
                continue
            if v is not s and not is_call(v, 'copy'):
                ctx.need(False, 'sound', f.ref, where, f'the answer is {short(v)}')
                continue
            same_val = inx is True and fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and any(w.k == 'sub' and w.a[0] is s and w.a[1] in X for w in a.a[1:])
                                            and any(w in Y for w in a.a[1:])) is True
            ctx.need(eq is True or bool(sets) or same_val, 'sound', f.ref, where, 'a path reports success although the terms are neither equal nor made equal')
        ctx.floor(k, 8, f'cases of {q}')
    # a substitution is a dict: an empty one is falsy, so success is never tested by truth value
    for f in analysis_roots(m, lambda f: calls_name(f, 'mgu', 'cover')):
        if f.mod.name in ('dyna.search.old',):
            continue
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'cond' and is_call(strip_phi(e.a[0]), 'mgu', 'cover') and recv(strip_phi(e.a[0])) is not None:
                    ctx.fail('truth-value', f.ref, e.where, 'an empty substitution (success without bindings) is mistaken for failure')
        ctx.ob('truth-value', f.ref, f.where)
    f = m.func('dyna.term', 'covers')
    x, y = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        cs = calls_in(v, 'cover') or [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'cover')]
        ok = bool(cs) and all(contains(c.a[1][0], x) and contains(c.a[1][1], y) and is_call(recv(c), 'Subst') for c in cs)
        ctx.need(ok, 'direction', f.ref, f.where, f'{short(v)} does not match the first argument, as the pattern, against the second')
    f = m.func('dyna.term', 'same')
    x, y = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        cs = {tuple(e.a[0].a[1][:2]) for e in p.events if e.kind == 'call' and is_call(e.a[0], 'covers')}
        v = p.res(p.value)
        if is_const(v, False) or any(b is False and is_call(a, 'covers') for a, b in p.facts.items()):
            continue
        if any(is_call(a, 'is_non_specializing') for a in p.facts) or is_call(v, 'is_non_specializing'):
            continue
        ctx.need((x, y) in cs and (y, x) in cs, 'direction', f.ref, f.where, 'equivalence needs both directions of subsumption')
    renaming_test(ctx)


def renaming_test(ctx):
    m = ctx.m
    f = m.func('dyna.term', 'Subst.is_non_specializing')
    s = param(f, 0)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        if is_const(v, False):
            continue
        conds = [(a, b) for a, b in p.facts.items()] + [(v, True)]
        inj = any(b is True and a.k == 'cmp' and a.a[0] == '==' and any(is_call(w, 'len') and mentions_set_of_values(w, s, p) for w in a.a[1:])
                  and any(is_call(w, 'len') and w.a[1] and keys_of(w.a[1][0], s) for w in a.a[1:]) for a, b in conds)
        ctx.need(inj, 'bijection', f.ref, p.where(), 'a substitution that maps two variables to one is accepted as a renaming')
        lp = any(e.kind in ('loop', 'loop0') and is_call(p.res(e.a[1]), 'values') for e in p.events)
        if any(e.kind == 'loop' for e in p.events):
            isv = any(b is True and is_call(a, 'isinstance') and 'Var' in isinst_names(a) for a, b in p.facts.items()) or any(b is True and is_call(a, 'is_var') for a, b in p.facts.items())
            ctx.need(isv and lp, 'bijection', f.ref + ' range', p.where(), 'a substitution that maps a variable to a non-variable is accepted as a renaming')
        else:
            ctx.need(lp or isv_all(p), 'bijection', f.ref + ' range', p.where(), 'the values of the substitution are not examined')


def isv_all(p):
    return any(is_call(a, 'all') for a in p.facts)


def differ(p, X, Y):
    "The functors (or names) are known to differ."
    return fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and all(w.k == 'attr' and w.a[1] in ('fn', 'signature') for w in a.a[1:])) is False


def mentions_size(z):
    return any(is_call(w, 'len') or (w.k == 'attr' and w.a[1] == 'arity') for w in walk(z))


def comp_of(v, S):
    v = v
    return v.k in ('sub', 'elem') and whole(v.a[0], S)


def keys_of(v, s):
    return v is s or (is_call(v, 'keys') and recv(v) is s) or (is_call(v, 'set', 'list', 'tuple') and v.a[1] and keys_of(v.a[1][0], s)) or (is_call(v, 'values') and recv(v) is s)


def mentions_set_of_values(w, s, p):
    a = w.a[1][0] if w.a[1] else None
    if a is None:
        return False
    if is_call(a, 'set', 'frozenset'):
        return any(is_call(z, 'values') and recv(z) is s for z in walk(a)) or True
    return a.k in ('obj', 'tup')


def generalisation(ctx):
    "Every variable the anti-unifier returns stands for exactly one pair of subterms."
    m = ctx.m
    f = m.func('dyna.term', 'generalizer')
    x, y = param(f, 0), param(f, 1)
    k = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        k += 1
        v = p.res(p.value)
        raw = p.value
        X, Y = snaps(p, x), snaps(p, y)
        where = p.where()
        if eqfact(p, X, Y) is True:
            ctx.need(v in X or v in Y, 'generalize', f.ref, where, f'equal terms are generalised to {short(v)}')
            continue
        if is_call(v, 'Var'):
            ctx.ob('generalize', f.ref + ' new', where)
            continue
        if v in X or v in Y:
            own, oth = (X, Y) if v in X else (Y, X)
            isv = tfact(p, own, 'Var') is True
            sets = [e for e in p.events if e.kind == 'setitem' and e.a[1] in own]
            absent = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'in' and a.a[1] in own) is False
            present = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'in' and a.a[1] in own) is True
            equal = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and any(w.k == 'sub' and w.a[1] in own for w in a.a[1:]) and any(w in oth for w in a.a[1:])) is True
            ok = isv and ((absent and sets and sets[-1].a[2] in oth) or (present and equal))
            ctx.need(ok, 'generalize', f.ref + ' variable', where, f'{short(v)} is reused although it may already stand for a different subterm of the other term')
            continue
        if raw.k == 'sub' or v.k == 'sub':
            key = p.res((raw if raw.k == 'sub' else v).a[1])
            both = any(w in X for w in walk(key)) and any(w in Y for w in walk(key))
            ctx.need(both, 'generalize', f.ref + ' memo', where, f'the variable remembered under {short(key)} is shared by positions where the other term differs')
            continue
        if is_call(v, 'setdefault', 'get'):
            key = v.a[1][0]
            both = any(w in X for w in walk(key)) and any(w in Y for w in walk(key))
            ctx.need(both, 'generalize', f.ref + ' memo', where, f'the variable remembered under {short(key)} is shared by positions where the other term differs')
            continue
        if v.k == 'call':
            same_fn = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and all(w.k == 'attr' and w.a[1] == 'fn' for w in a.a[1:])) is True
            loops = [p.res(e.a[1]) for e in p.events if e.kind in ('loop', 'loop0') and e.a[1] is not None]
            zipped = any(is_call(z, 'zip') and len(z.a[1]) == 2 for z in loops)
            full = any(is_call(z, 'zip') and all(whole(w, X) or whole(w, Y) for w in z.a[1]) for z in loops)
            argsonly = any(is_call(z, 'zip') and all(w.k == 'attr' and w.a[1] == 'args' for w in z.a[1]) for z in loops)
            ctx.need(zipped and (full or (argsonly and same_fn)), 'generalize', f.ref + ' arguments', where, 'not every pair of corresponding arguments is generalised')
            ctx.need(sizes_equal(p, X, Y) is True, 'generalize', f.ref + ' arity', where, 'terms of different arity are generalised argument by argument')
            continue
        ctx.need(False, 'generalize', f.ref, where, f'the generalisation is {short(v)}')
    ctx.floor(k, 8, 'cases of the anti-unifier')


@check('C05', 'exhaustive case analysis (decision tables) of the unification, matching and anti-unification procedures over their symbolic paths',
       'Each path of the five procedures is classified by what it knows about the two arguments (equal, unbound/bound variable, compound with '
       'equal/different size, atomic). Success may only be reported where the arguments are equal or have just been made equal, failure '
       'only where they cannot be, and compound arguments must be reduced to all pairs of corresponding components. A variable that '
       'stands for a pair of subterms in a generalisation must be keyed by both of them.',
       ['equality of terms is structural (Term/Var equality is part of the same module)'])
def c05(ctx):
    unification(ctx)
    substitutions(ctx)
    generalisation(ctx)
    alternatives(ctx)


def created_in(p, x, ids):
    "The substitution is made inside the innermost of these loops."
    x = strip_phi(root(x)) if x.k != 'call' else x
    while is_call(x, 'cover', 'mgu') and recv(x) is not None:
        x = recv(x)
    for e in p.events:
        if e.kind in ('call', 'newobj') and e.a and p.res(e.a[0]) is p.res(x):
            return any(c[0] == 'loop' and c[1] == ids[-1] for c in e.ctx)
    return False


def alternatives(ctx):
    "A substitution extended in a loop is a copy made for that round, unless a failed round ends the loop."
    k = 0
    for f in analysis_roots(ctx.m, lambda f: calls_name(f, 'cover', 'mgu', '_cover')):
        if f.mod.name == 'dyna.search.old':
            continue
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind != 'call' or not is_call(e.a[0], 'cover', 'mgu') or recv(e.a[0]) is None:
                    continue
                ids = [c[1] for c in e.ctx if c[0] == 'loop']
                if not ids:
                    continue
                k += 1
                v = p.res(e.a[0])
                if is_call(recv(v), 'copy', 'Subst') or created_in(p, recv(e.a[0]), ids):
                    ctx.ob('alternatives', e.func.ref, e.where)
                    continue
                failed = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'is' and a.a[1] in (v, e.a[0]) and is_const(a.a[2], None))
                left = not any(w.kind == 'loopend' and w.a[0] == ids[-1] and w.n > e.n for w in p.events) or any(
                    w.kind in ('return', 'raise') and in_ctx_loop(w, ids[-1]) and w.n > e.n for w in p.events)
                ok = failed is False or (failed is True and left)
                ctx.need(ok, 'alternatives', e.func.ref, e.where, f'{short(v)} extends a substitution that the next round of the loop goes on using, even when it failed')
    ctx.floor(k, 6, 'substitutions extended in a loop')


def in_ctx_loop(e, i):
    return any(c[0] == 'loop' and c[1] == i for c in e.ctx)


# ---------------------------------------------------------------------------- C06
WRAP = ('list', 'sorted', 'tuple', 'enumerate', 'set', 'reversed', 'copy', 'iter', 'frozenset')


def unwrap(v):
    while is_call(v, *WRAP):
        v = v.a[1][0] if v.a[1] else recv(v)
        if v is None:
            break
    return v


def pool_shrinks(ctx, f, p, e, cand):
    "After a successful pairing the candidate is gone before the next rule is tried."
    lps = [c for c in e.ctx if c[0] == 'loop' and c[2] is not None]
    outer = lps[0][1] if len(lps) > 1 else None
    pools = [p.res(c[2]) for c in lps[1:]] or [p.res(c[2]) for c in lps]
    bare = {unwrap(x) for x in pools} | set(pools) | {strip_phi(unwrap(x)) for x in pools}
    for w in p.events:
        if w.n <= e.n:
            continue
        r = None
        if w.kind == 'mutate' and w.a[1] in ('remove', 'discard', 'pop'):
            r = p.res(w.a[0])
        elif w.kind == 'delitem':
            r = p.res(w.a[0])
        elif w.kind in ('mutate', 'setitem') and (w.kind == 'setitem' or w.a[1] in ('add', 'append')):
            # a collection of used partners, consulted before the pairing is tried
            u = w.a[0]
            if any(b is False and a.k == 'cmp' and a.a[0] == 'in' and root(a.a[2]) in (u, root(u)) for a, b in p.facts.items()):
                return True
            continue
        if w.kind == 'carry' and outer is not None and w.a[0] == outer and any(w.a[2] in (x, unwrap(x)) for x in pools):
            return True
        if r is None:
            continue
        if r in bare or strip_phi(r) in bare or unwrap(r) in bare:
            # the pool must outlive this rule
            inside = [z for z in p.events if z.kind in ('call', 'newobj') and z.a[0] is r and outer is not None and any(c[0] == 'loop' and c[1] == outer for c in z.ctx)]
            if inside and r.k in ('call', 'obj') and not any(z.kind == 'carry' and p.res(z.a[3]) is r for z in p.events):
                continue
            return True
    return False


@check('C06', 'path-sensitive analysis of the equality procedures: a "yes" must rest on a one-to-one alignment and on a variable bijection',
       'Every path on which rule equality answers yes must come from a matching of the heads and of a complete alignment of the bodies '
       '(each subgoal used once, each search branch on its own copy of the substitution) under a substitution tested to be a bijection of '
       'variables. Every path on which program equality answers yes must have compared sizes and signature buckets and paired each '
       'rule with a distinct partner. The hash must be computed from order-insensitive collections of canonical terms.')
def c06(ctx):
    renaming_test(ctx)
    m = ctx.m
    f = m.func('dyna.rule', 'Rule.same')
    me, other = param(f, 0), param(f, 1)
    k = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        if is_const(v, False):
            continue
        k += 1
        if eqfact(p, {me}, {other}, ('is',)) is True:
            ctx.ob('rule-equality', f.ref, p.where())
            continue
        ms = [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], '_match_comm', 'match_comm')]
        ok = False
        for c in ms:
            c = p.res(c)
            xs = c.a[1]
            kw = dict(c.a[2])
            body = xs[0] if xs else kw.get('ys') or kw.get('other')
            start = xs[1] if len(xs) > 1 else kw.get('i')
            js = xs[2] if len(xs) > 2 else kw.get('js')
            s = xs[3] if len(xs) > 3 else kw.get('s')
            b_ok = recv(c) is Attr(me, 'body') and body is not None and body.k == 'attr' and body.a[1] == 'body' and contains(body, other)
            i_ok = start is None or is_const(start, 0)
            j_ok = js is None or is_const(js, None) or (any(is_call(w, 'range') and len(w.a[1]) == 1 and is_call(w.a[1][0], 'len') and w.a[1][0].a[1][0] is body for w in walk(js)))
            s_ok = s is not None and any(is_call(w, 'cover', 'mgu') and len(w.a[1]) == 2 and w.a[1][0] is Attr(me, 'head') and w.a[1][1].k == 'attr' and w.a[1][1].a[1] == 'head' and contains(w.a[1][1], other) for w in walk(s))
            ok = ok or (b_ok and i_ok and j_ok and s_ok)
        ctx.need(ok, 'rule-equality', f.ref + ' alignment', p.where(), 'the answer does not rest on matching the head and every subgoal of both bodies')
        bij = any(b is True and is_call(a, 'is_non_specializing') for a, b in p.facts.items()) or bool(calls_in(v, 'is_non_specializing'))
        ctx.need(bij, 'rule-equality', f.ref + ' bijection', p.where(), 'a specialising substitution is accepted as a renaming of variables')
    ctx.floor(k, 2, 'positive answers of rule equality')

    for q, exact in (('Product._match_comm', True), ('Product._covers', False)):
        f = m.func('dyna.term', q)
        me = param(f, 0)
        names = [a.arg for a in f.node.args.args]
        ys, i, js, s = (param(f, n) for n in (1, 2, 3, 4))
        k = 0
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], f.name):
                    k += 1
                    c = p.res(e.a[0])
                    kw = dict(c.a[2])
                    arg = lambda n: c.a[1][n - 1] if len(c.a[1]) >= n else kw.get(names[n])
                    i2, js2, s2 = arg(2), arg(3), arg(4)
                    cov = [w for w in walk(s2) if is_call(w, 'cover', 'mgu')] if s2 is not None else []
                    copied = any(is_call(w, 'copy', 'Subst') and contains(w, s) for cc in cov for w in walk(recv(cc)))
                    ctx.need(copied, 'alignment', f.ref + ' branch', e.where, 'the branches of the search share one substitution, so a failed attempt leaves its bindings behind')
                    ok = False
                    if cov and len(cov[0].a[1]) == 2:
                        A, B = cov[0].a[1]
                        j = B.a[1] if B.k == 'sub' else None
                        ok = A is Sub(me, i) and B.k == 'sub' and B.a[0] is ys
                        gone = js2 is not None and js2.k == 'bin' and js2.a[0] == '-' and js2.a[1] is js and contains(js2.a[2], j) if j is not None else False
                        gone = gone or (js2 is not None and is_call(js2, 'difference') and recv(js2) is js and j is not None and contains(js2, j))
                        gone = gone or (js2 is not None and any(is_call(w, 'frozenset', 'set') for w in walk(js2)) and j is not None and contains(js2, j) and js2 is not js)
                        ctx.need(gone, 'alignment', f.ref + ' once', e.where, 'a subgoal that has been matched stays available, so it can be matched twice')
                        fwd = i2 is not None and i2.k == 'bin' and i2.a[0] == '+' and i in i2.a[1:] and any(is_const(w, 1) for w in i2.a[1:])
                        ctx.need(fwd, 'alignment', f.ref + ' every', e.where, 'the search does not go on to the next subgoal')
                    ctx.need(ok, 'alignment', f.ref + ' pair', e.where, 'the current subgoal is not matched against the chosen one')
                if e.kind == 'yield' and not exact:
                    v = p.res(e.a[0])
                    if v.k == 'tup' and len(v.a[1]) == 3:
                        S3, A3, R3 = v.a[1]
                        if any(c[0] == 'loop' for c in e.ctx):
                            rs = [w.a[0] for w in walk(S3) if w.k == 'sub' and is_const(w.a[1], 0)]
                            R = rs[0] if rs else None
                            ctx.need(R is not None and S3 is Sub(R, Const(0)) and R3 is Sub(R, Const(2)), 'alignment', f.ref + ' result', e.where,
                                     'the substitution or the unmatched subgoals found for the rest of the pattern are not passed on')
                            ents = [t for w in walk(A3) if w.k == 'dict' for t in w.a[0]]
                            js_ = [w.a[1][1].a[1] for w in walk(R) if is_call(w, 'cover', 'mgu') and len(w.a[1]) == 2 and w.a[1][1].k == 'sub' and w.a[1][1].a[0] is ys] if R is not None else []
                            pairs = {(a, b) for a, b in ents if a is not None}
                            whole_ = R is not None and contains(A3, Sub(R, Const(1)))
                            if ents:
                                ctx.need(whole_ and len(pairs) == 1 and js_ and (js_[0], i) in pairs, 'alignment', f.ref + ' map', e.where,
                                         'the reported alignment does not send the matched subgoal to the pattern subgoal that matched it')
                        else:
                            ctx.need(S3 is s and contains(R3, js), 'alignment', f.ref + ' result', e.where, 'the subgoals that were not matched are not reported')
                if e.kind == 'yield':
                    v = p.res(e.a[0])
                    bottom = not any(c[0] == 'loop' for c in e.ctx)
                    if bottom:
                        done = eqfact(p, {i}, {w for w in p_values(p) if is_call(w, 'len') and w.a[1] and w.a[1][0] is me}) is True
                        ctx.need(done, 'alignment', f.ref + ' end', e.where, 'an alignment is reported before every subgoal has been matched')
                        alive = any(b is False and a.k == 'cmp' and a.a[0] in ('==', 'is') and s in a.a[1:] for a, b in p.facts.items())
                        ctx.need(alive, 'alignment', f.ref + ' failed', e.where, 'an alignment is reported for a substitution that has failed')
        ctx.floor(k, 1, f'recursive steps of {q}')
    # the two bodies have the same length: checked by _match_comm or by its callers
    f = m.func('dyna.term', 'Product._match_comm')
    me, js = param(f, 0), param(f, 3)
    okl = any(fact(p, lambda a: a.k == 'cmp' and a.a[0] in ('==', '<', '<=') and any(is_call(w, 'len') for x in a.a[1:] for w in walk(x)) and contains(a, js)) is not None for p in ctx.paths(f))
    same = m.func('dyna.rule', 'Rule.same')
    sig = all(any(a.k == 'cmp' and '_hash_cache' in repr(a) for a in p.facts) or is_const(p.value, True) for p in ctx.paths(same))
    ctx.need(okl or sig, 'alignment', f.ref + ' size', f.where, 'bodies of different length can be aligned')

    # programs
    f = m.func('dyna.program', 'Program._check_bucket')
    k = 0
    for p in ctx.paths(f):
        hits = [e for e in p.events if e.kind == 'cond' and is_call(e.a[0], 'same') and e.a[1] is True]
        for e in hits:
            k += 1
            if p.kind == 'return' and is_const(p.value, False):
                continue
            ctx.need(pool_shrinks(ctx, f, p, e, None), 'one-to-one', f.ref, e.where, 'a rule that has found its partner leaves it available for the next rule')
        if p.kind == 'return' and is_const(p.value, True):
            outer = [e for e in p.events if e.kind == 'loop' and e.a[1] is not None and len([c for c in e.ctx if c[0] == 'loop']) == 1]
            lost = any(b is False and a.k == 'cmp' and a.a[0] == 'is' and is_const(a.a[2], None) and is_const(a.a[1], None) for a, b in p.facts.items())
            if outer and not hits and not lost:
                ctx.fail('one-to-one', f.ref + ' unmatched', p.where(), 'a rule without a partner does not make the programs different')
            ctx.ob('one-to-one', f.ref + ' unmatched', p.where())
    ctx.floor(k, 1, 'pairings of rules')
    for q in ('Program.__eq__', 'Program._symbolic_equal'):
        f = m.func('dyna.program', q)
        a0, a1 = (param(f, 0), param(f, 1))
        inline = ('dyna.program:Program._bucket_equal',)
        k = 0
        for p in ctx.paths(f, inline=inline):
            if p.kind != 'return':
                continue
            v = p.res(p.value)
            if is_const(v, False) or eqfact(p, {a0}, {a1} | {w for w in p_values(p) if is_call(w, 'Program')}, ('is',)) is True:
                continue
            k += 1
            keys = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and (all(is_call(w, 'keys', 'set', 'frozenset', 'sorted') for w in a.a[1:]))) is True or any(
                b is True and a.k == 'cmp' and a.a[0] == '==' and all(w.k == 'attr' and w.a[1] == 'signature' for w in a.a[1:]) for a, b in p.facts.items())
            lens = fact(p, lambda a: a.k == 'cmp' and a.a[0] == '==' and all(is_call(w, 'len') for w in a.a[1:])) is True or any(
                b is True and a.k == 'cmp' and a.a[0] == '==' and all(w.k == 'attr' and w.a[1] == 'signature' for w in a.a[1:]) for a, b in p.facts.items())
            ctx.need(lens, 'program-equality', f.ref + ' size', p.where(), 'programs with different numbers of rules can be equal')
            ctx.need(keys, 'program-equality', f.ref + ' buckets', p.where(), 'a group of rules that only one program has is not noticed')
            loops = [e for e in p.events if e.kind == 'loop' and any(is_call(w.a[0], '_check_bucket') for w in p.events if w.kind == 'call' and in_loop(w, e.a[0]))]
            if any(e.kind == 'loop0' for e in p.events) and not loops:
                continue
            tested = any(b is True and is_call(a, '_check_bucket') for a, b in p.facts.items()) or is_call(v, '_check_bucket')
            ctx.need(tested, 'program-equality', f.ref + ' pairing', p.where(), 'the rules themselves are not paired')
        ctx.floor(k, 1, f'positive answers of {q}')
    # hash invariance
    f = m.func('dyna.rule', 'Rule.signature')
    for p in ctx.paths(f):
        if p.kind == 'return':
            v = p.res(p.value)
            order_free(ctx, f, p, v)
    f = m.func('dyna.program', 'Program.signature')
    for p in ctx.paths(f):
        if p.kind == 'return':
            order_free(ctx, f, p, p.res(p.value))
    f = m.func('dyna.program', 'Program.align')
    for p in ctx.paths(f):
        hits = [e for e in p.events if e.kind == 'cond' and is_call(e.a[0], 'same') and e.a[1] is True]
        for e in hits:
            ctx.need(pool_shrinks(ctx, f, p, e, None), 'one-to-one', f.ref, e.where, 'a rule that has found its partner leaves it available for the next rule')
            prs = [w for w in p.events if w.n > e.n and w.kind == 'mutate' and w.a[1] in ('append', 'add') and w.a[2].k == 'tup' and len(w.a[2].a[1]) == 2
                   and not any(x.k == 'const' for x in w.a[2].a[1])]
            for w in prs:
                J = w.a[2].a[1][1]
                gone = any(z.kind == 'mutate' and z.a[1] in ('remove', 'discard') and z.a[2] is J and unwrap(p.res(z.a[0])).k != 'sub' and
                           (mentions(p.res(z.a[0]), lambda q: is_call(q, 'range', 'len')) or z.a[0].k == 'obj') for z in p.events)
                left = [z for z in p.events if z.kind in ('loop', 'loop0') and z.a[1] is not None and mentions(p.res(z.a[1]), lambda q: is_call(q, 'range') and not is_call(q, 'enumerate')) and z.n > w.n]
                used = any(z.kind == 'mutate' and z.a[1] in ('add', 'append') and z.a[2] is J for z in p.events)
                ctx.need(gone or used, 'one-to-one', f.ref + ' leftover', w.where, 'a rule that has a partner is also reported as unmatched')


def in_loop(e, i):
    return any(c[0] == 'loop' and c[1] == i for c in e.ctx)


BAGS = {'FrozenBag', 'Counter', 'frozenset', 'sorted', 'Bag'}


def order_free(ctx, f, p, v):
    "Collections of subgoals/rules enter the signature through an order-insensitive bag, terms through canonicalisation."
    loops = [e for e in p.events if e.kind in ('loop', 'loop0')]
    bag = any(is_call(w, *BAGS) for w in walk(v))
    ctx.need(bag or not loops, 'signature', f.ref + ' order', f.where, 'the signature depends on the order of subgoals or rules')
    for w in walk(v):
        if w.k == 'attr' and w.a[1] in ('head', 'name') and w.a[0].k == 'param':
            pass
    raw = [w for w in walk_signature(v)]
    ctx.need(not raw, 'signature', f.ref + ' canonical', f.where, f'{short(raw[0]) if raw else ""} enters the signature with its variable names')


def walk_signature(v):
    "Term-valued leaves of a signature that are not canonicalised."
    if v.k == 'call':
        n = fname(v.a[0])
        if n in ('term_signature', 'canonicalize', 'len', 'fn'):
            return
        for x in v.a[1]:
            yield from walk_signature(x)
        return
    if v.k == 'tup':
        for x in v.a[1]:
            yield from walk_signature(x)
        return
    if v.k == 'star':
        yield from walk_signature(v.a[0])
        return
    if v.k == 'attr' and v.a[1] in ('signature', 'arity', 'fn', '_hash_cache'):
        return
    if v.k == 'attr' and v.a[1] in ('head', 'body') or (v.k in ('sub', 'elem') and v.a[0].k == 'attr' and v.a[0].a[1] == 'body'):
        yield v
