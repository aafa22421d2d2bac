"""Safety measures of transformation sequences (C19)."""
from collections import Counter
from ..core import check
from ..values import (V, Const, NONE, TRUE, FALSE, fname, is_call, recv, walk, contains, is_const, Attr, Sub, carg)
from ..util import short
from .match import param
from .execute import noop, all_rules
from .transform import pieces, Piece, yes_paths, in_loop, calls_in_events, named

FAM_KEEP = ('ss', 'oo', 'o')
FAM_ZERO = ('rso', 'ro')


@check('C19', 'symbolic evaluation of the safety conditions: every condition and every rule measure is reduced to a signed sum of lower and upper bounds and compared with its meaning; guard dominance for the unsafe verdicts',
       'For each transformation that claims a measure, every path of its computation must hand over the conditions of its parent (and of its definitions), one strict positivity condition per rule that the step '
       'replaced or produced, and for every rule a measure that bounds the derivation size from both sides; steps without a measure, and definitions that clash with the parent, must give the unsafe verdict. '
       'Interval arithmetic, minimum and maximum are evaluated symbolically.',
       ['the alignment of equal programs is one-to-one (C06)', 'the SMT solver is sound'])
def c19(ctx):
    m = ctx.m
    verdict(ctx, m)
    classes(ctx, m)
    fold_measure(ctx, m)
    unfold_measure(ctx, m)
    define_measure(ctx, m)
    for mod, c in (('dyna.transform.slash', 'Slash'), ('dyna.transform.lct', 'LCT')):
        family_measure(ctx, m, mod, c)
    arithmetic(ctx, m)
    variables(ctx, m)
    freshness(ctx, m)
    alignment(ctx, m)
    new2def(ctx, m)


# ------------------------------------------------------------------ helpers
def meas(v, M, x):
    return is_call(v) and v.a[0] is M and len(v.a[1]) == 1 and v.a[1][0] is x


def rule_measure(v, M, x):
    "index k of M(x).m[k]"
    if v.k == 'sub' and v.a[0].k == 'attr' and v.a[0].a[1] == 'm' and meas(v.a[0].a[0], M, x):
        return v.a[1]
    return None


def is_key(v, d):
    return (v.k == 'key' and v.a[0] is d) or (v.k in ('sub', 'elem') and v.a[0] is d and len(v.a) > 1 and v.a[1].k == 'idx')


def lin(v, side=None, sign=1, out=None):
    """A (bound of a) measure expression as a signed sum of atoms: ('lo'|'hi', interval) and (None, number).
    lo(a - b) = lo a - hi b, and so on."""
    if out is None:
        out = Counter()
    if side is None:
        if v.k == 'attr' and v.a[1] in ('lo', 'hi'):
            return lin(v.a[0], v.a[1], sign, out)
        if v.k == 'bin' and v.a[0] in '+-':
            lin(v.a[1], None, sign, out)
            lin(v.a[2], None, sign if v.a[0] == '+' else -sign, out)
            return out
        if v.k == 'un' and v.a[0].strip() == '-':
            return lin(v.a[1], None, -sign, out)
        if is_const(v, 0):
            return out
        if v.k == 'const' and isinstance(v.a[0], int):
            out[(None, 'const')] += sign * v.a[0]
            return out
        out[(None, v)] += sign
        return out
    if v.k == 'bin' and v.a[0] == '+':
        lin(v.a[1], side, sign, out)
        return lin(v.a[2], side, sign, out)
    if v.k == 'bin' and v.a[0] == '-':
        lin(v.a[1], side, sign, out)
        return lin(v.a[2], 'hi' if side == 'lo' else 'lo', -sign, out)
    if is_call(v, 'Interval') and len(v.a[1]) == 2:
        return lin(v.a[1][0 if side == 'lo' else 1], None, sign, out)
    out[(side, v)] += sign
    return out


def clean(c):
    return {k: n for k, n in c.items() if n}


def order(v):
    "('<' or '<=', smaller, larger)"
    if v.k == 'un' and v.a[0].strip() == 'not' and v.a[1].k == 'cmp' and v.a[1].a[0] in ('<', '<='):
        op, a, b = v.a[1].a[:3]
        return '<=' if op == '<' else '<', b, a
    return v.a[:3] if v.k == 'cmp' else (None, None, None)


def positive(v):
    "The linear form that the condition requires to be positive, or None."
    op, a, b = order(v)
    if op not in ('<', '<='):
        return None
    c = lin(b)
    lin(a, None, -1, c)
    if op == '<=':
        c[(None, 'const')] += 1         # integers: a <= b iff 0 < b - a + 1
    return clean(c)


def dict_loops(p, d):
    "Loops over the whole dictionary (items, keys or values)."
    out = []
    for e in p.events:
        if e.kind in ('loop', 'loop0'):
            it = e.a[1]
            while is_call(it, 'list', 'tuple', 'sorted', 'iter', 'set') and it.a[1] and not it.a[2]:
                it = it.a[1][0]
            if it is d or (is_call(it, 'items', 'keys', 'values') and recv(it) is d):
                out.append(e)
    return out


def hollow(p):
    "The path enters a loop over a list that is empty on it."
    for e in p.events:
        if e.kind == 'loop' and e.a[1].k == 'obj' and e.a[1].a[0] != 'dict' and not e.contents.get(e.a[1], ('', (1,)))[1]:
            born = next((x for x in p.events if x.kind == 'newobj' and x.a[0] is e.a[1]), None)
            if born is not None and [c[1] for c in born.ctx if c[0] == 'loop'] == [c[1] for c in e.ctx if c[0] == 'loop' and c[1] != e.a[0]]:
                return True
    return False


def broke(p, e):
    return not any(x.kind == 'loopend' and x.a[0] == e.a[0] and not x.a[1] for x in p.events)


def pair(P, D, par2def, def2par):
    return (is_key(D, def2par) and P is Sub(def2par, D)) or (is_key(P, par2def) and D is Sub(par2def, P))


def safety_result(ctx, R, f, p, me, M):
    "The (measures, safe) arguments of the returned record; None when the unsafe verdict is returned."
    v = p.value
    if is_call(v, 'zero_measure') and (recv(v) is M or recv(v) is None):
        ok = v.a[1] and noop(v.a[1][-1]) is me
        ctx.need(ok, R, f.ref + ' verdict', p.where(), f'{short(v)} is returned')
        return None
    if not is_call(v, 'safety', 'measure_safety'):
        ctx.fail(R, f.ref + ' verdict', p.where(), f'{short(v)} is returned')
        return None
    a = [carg(v, k, n) for k, n in enumerate(('m', 'p', 'safe'))]
    if None in a:
        ctx.fail(R, f.ref + ' verdict', p.where(), f'{short(v)} is incomplete')
        return None
    ctx.need(noop(a[1]) is me, R, f.ref + ' verdict', p.where(), f'the measure is given for {short(a[1])}')
    return a[0], a[2]


def inherits(p, pcs, M, *progs):
    "The conditions of the given programs are among the pieces."
    def has(x):
        return any(q.kind == 'seq' and q.v.k == 'attr' and q.v.a[1] == '_safe' and meas(q.v.a[0], M, x) for q in pcs)
    return all(has(x) for x in progs)


def no_alias(ctx, R, f, p):
    "A record of another program is not changed."
    for e in p.events:
        if e.kind == 'mutate' and e.a[0].k == 'attr' and e.a[0].a[1] in ('_safe', 'm'):
            ctx.fail(R, f.ref + ' aliasing', e.where, f'{short(e.a[0])} of another program is changed')
        if e.kind == 'aug' and e.a[0] in ('+', '|') and e.a[1].k == 'attr' and e.a[1].a[1] in ('_safe', 'm'):
            ctx.fail(R, f.ref + ' aliasing', e.where, f'{short(e.a[1])} of another program is changed')


def fresh_guard(p, M, me):
    "False when the definitions were found not to clash with the parent."
    for a, b in p.facts.items():
        x = a
        if x.k == 'cmp' and is_call(x.a[1], 'len') and is_const(x.a[2], 0):
            b = (not b) if x.a[0] == '==' else b
            x = x.a[1].a[1][0]
        elif x.k == 'cmp' and is_call(x.a[2], 'len') and is_const(x.a[1], 0):
            b = (not b) if x.a[0] == '==' else b
            x = x.a[2].a[1][0]
        while is_call(x, 'bool', 'len', 'any', 'list') and x.a[1]:
            x = x.a[1][0]
        if is_call(x, '_freshness_violations') and [noop(y) for y in x.a[1]] == [Attr(me, 'parent'), Attr(me, 'defs')]:
            return b
    return None


def other_rule(p, v, M, me, N):
    "The measure of a rule that was kept: that of the same rule in the parent."
    k = rule_measure(v, M, Attr(me, 'parent'))
    if k is None:
        return False
    if is_call(k, 'index') and recv(k) is not None and noop(recv(k)) in (Attr(Attr(me, 'parent'), 'rules'), Attr(me, 'parent')):
        r = noop(k.a[1][0])
        if r.k in ('sub', 'elem') and noop(r.a[0]) in (me, Attr(me, 'rules')):
            return N is None or r.a[1] is N
    return False


# ------------------------------------------------------------------ fold
def fold_measure(ctx, m):
    f = m.func('dyna.transform.fold', 'Fold.compute_measure')
    me, M = param(f, 0), param(f, 1)
    par, dfs = Attr(me, 'parent'), Attr(me, 'defs')
    p2d, d2p = Attr(me, 'par2def'), Attr(me, 'def2par')
    R = 'fold'
    n = full = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        no_alias(ctx, R, f, p)
        res = safety_result(ctx, R, f, p, me, M)
        if res is None:
            continue
        ctx.need(p.facts.get(Attr(me, 'partially_safe')) is True, R, f.ref + ' precondition', p.where(), 'a fold that does not unfold to its parent gets a measure')
        ctx.need(fresh_guard(p, M, me) is False, R, f.ref + ' freshness', p.where(), 'a fold gets a measure without checking that its definitions do not clash with the parent')
        roots(ctx, R, f, p, me)
        mv, sv = res
        pcs = pieces(p, sv)
        ctx.need(inherits(p, pcs, M, par, dfs), R, f.ref + ' inherited', p.where(), 'the conditions of the parent or of the definitions are dropped')
        if hollow(p):
            continue
        lps = sorted(dict_loops(p, d2p) + dict_loops(p, p2d), key=lambda e: e.n)
        ctx.need(bool(lps) and not any(broke(p, e) for e in lps), R, f.ref + ' coverage', p.where(), 'not every replaced rule gets its condition')
        conds = [q for q in pcs if q.kind == 'one']
        good = 0
        for q in conds:
            c = positive(q.v)
            if c is None:
                ctx.fail(R, f.ref + ' condition', p.where(), f'{short(q.v)} is not a strict positivity condition')
                continue
            lo = [k for k in c if k[0] == 'lo' and c[k] == 1 and rule_measure(k[1], M, par) is not None]
            hi = [k for k in c if k[0] == 'hi' and c[k] == -1 and rule_measure(k[1], M, dfs) is not None]
            rest = {k: x for k, x in c.items() if k not in lo + hi}
            ok = len(lo) == 1 and len(hi) == 1
            if ok:
                P, D = rule_measure(lo[0][1], M, par), rule_measure(hi[0][1], M, dfs)
                ok = pair(P, D, p2d, d2p)
                for (s, x), k in rest.items():
                    ok = ok and s is None and k == 1 and isinstance(x, V) and is_call(x, 'min_size') and rest_of(x.a[1][-1], me, P)
                sides = Counter(side for (s, x), k in rest.items() if isinstance(x, V) and is_call(x, 'min_size') for side in rest_sides(x.a[1][-1]))
                ok = ok and all(k == 1 for k in sides.values())
            ctx.need(ok, R, f.ref + ' condition', p.where(), f'the condition {short(q.v)} is not: lower bound of the replaced rule minus upper bound of the definition plus the size of the remaining subgoals is positive')
            good += ok
        entered = [e for e in lps if e.kind == 'loop']
        safe_loops = [e for e in entered if any(in_any_loop(q, e) for q in conds)]
        last = lps[-1] if lps else None
        if last is not None and last.kind == 'loop':
            ctx.need(bool(safe_loops), R, f.ref + ' coverage', p.where(), 'a replaced rule gets no condition')
        # measures of the rules
        for idx_, val, facts_i in entries(p, mv, me):
            at = facts_i
            if at is True or (idx_ is not None and is_const(idx_) is False and idx_ is Attr(me, 'i')):
                full += 1
                ctx.need(new_fold_rule(p, val, M, me, par, dfs, p2d, d2p), R, f.ref + ' new rule', p.where(), f'the measure of the folded rule is {short(val)}: not bounded by the smallest and the largest difference between replaced rule and definition')
            else:
                ctx.need(at is False and other_rule(p, val, M, me, idx_) or kept_rule(p, val, M, me), R, f.ref + ' kept rule', p.where(), f'the measure of a kept rule is {short(val)}')
    ctx.need(n > 0 and full > 0, R, f.ref + ' present', f.ref, 'the folded rule gets no measure')


def in_any_loop(q, e):
    if any(c[1] == e.a[0] for c in q.ctx):
        return True
    return any(w.k in ('key', 'idx') and e.a[0] in w.a for w in walk(q.v))


def rest_of(v, me, P):
    "bookkeeping[P].left / .right (or their product)"
    v = noop(v)
    if v.k == 'bin' and v.a[0] in '+*':
        return rest_of(v.a[1], me, P) and rest_of(v.a[2], me, P)
    return v.k == 'attr' and v.a[1] in ('left', 'right') and v.a[0].k == 'sub' and v.a[0].a[0] is Attr(me, 'bookkeeping') and v.a[0].a[1] is P


def rest_sides(v):
    v = noop(v)
    if v.k == 'bin':
        return rest_sides(v.a[1]) + rest_sides(v.a[2])
    return [v.a[1]] if v.k == 'attr' else ['?', '?']


def roots(ctx, R, f, p, me):
    ok = any(b is True and a.k == 'cmp' and a.a[0] in ('is', '==') and {a.a[1], a.a[2]} == {Attr(Attr(me, 'parent'), 'root'), Attr(Attr(me, 'defs'), 'root')} for a, b in p.facts.items())
    ctx.need(ok, R, f.ref + ' root', p.where(), 'a measure is computed although parent and definitions may not descend from the same program')


def entries(p, mv, me):
    "(index, value, index == self.i?) for every rule measure that is set on this path."
    for q in pieces(p, mv):
        if q.kind == 'set':
            i = q.i
        elif q.kind == 'one' and not is_const(q.v, None):
            L = [w for w in walk(q.v) if w.k == 'idx' and noop(w.a[1]) in (me, Attr(me, 'rules'))]
            i = L[0] if L else None
            if i is None:
                cs = [c for c in q.ctx if all_rules(c[2], me)]
                i = V('idx', cs[-1][1], cs[-1][2]) if cs else None
        else:
            continue
        at = None
        for a, b in p.facts.items():
            if a.k == 'cmp' and a.a[0] == '==' and Attr(me, 'i') in a.a[1:] and any(x.k == 'idx' and i is not None and i.k == 'idx' and x.a[0] == i.a[0] for x in a.a[1:]):
                at = b
        if i is Attr(me, 'i'):
            at = True
        yield i, q.v, at


def kept_rule(p, v, M, me):
    "parent.m[k] for a rule k of the parent that is not replaced"
    k = rule_measure(v, M, Attr(me, 'parent'))
    if k is None or k.k != 'idx':
        return False
    return any(b is False and a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is k and a.a[2] is Attr(me, 'S') for a, b in p.facts.items()) or \
        (all_rules(k.a[1], Attr(me, 'parent')) and
         any(b is False and a.k == 'cmp' and a.a[0] == '==' and {a.a[1], a.a[2]} == {k, Attr(me, 'i')} for a, b in p.facts.items()))


def new_fold_rule(p, v, M, me, par, dfs, p2d, d2p):
    if not is_call(v, 'Interval') or len(v.a[1]) != 2:
        return False
    for side, fn, arg in (('lo', 'Min', v.a[1][0]), ('hi', 'Max', v.a[1][1])):
        if not is_call(arg, fn) or len(arg.a[1]) != 1:
            return False
        for q in pieces(p, arg.a[1][0]):
            if q.kind != 'one':
                return False
            c = clean(lin(q.v))
            other = 'hi' if side == 'lo' else 'lo'
            a = [k for k in c if k[0] == side and c[k] == 1 and rule_measure(k[1], M, par) is not None]
            b = [k for k in c if k[0] == other and c[k] == -1 and rule_measure(k[1], M, dfs) is not None]
            if len(c) != 2 or len(a) != 1 or len(b) != 1:
                return False
            if not pair(rule_measure(a[0][1], M, par), rule_measure(b[0][1], M, dfs), p2d, d2p):
                return False
    return True


# ------------------------------------------------------------------ unfold
def unfold_measure(ctx, m):
    f = m.func('dyna.transform.unfold', 'Unfold.compute_measure')
    me, M = param(f, 0), param(f, 1)
    par, dfs = Attr(me, 'parent'), Attr(me, 'defs')
    n2d, P = Attr(me, 'new2def'), Attr(me, 'i')
    R = 'unfold'
    n = full = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        no_alias(ctx, R, f, p)
        res = safety_result(ctx, R, f, p, me, M)
        if res is None:
            continue
        ctx.need(fresh_guard(p, M, me) is False, R, f.ref + ' freshness', p.where(), 'an unfold gets a measure without checking that its definitions do not clash with the parent')
        roots(ctx, R, f, p, me)
        mv, sv = res
        pcs = pieces(p, sv)
        ctx.need(inherits(p, pcs, M, par, dfs), R, f.ref + ' inherited', p.where(), 'the conditions of the parent or of the definitions are dropped')
        lps = dict_loops(p, n2d)
        ctx.need(bool(lps) and not any(broke(p, e) for e in lps), R, f.ref + ' coverage', p.where(), 'not every new rule gets its condition')
        conds = [q for q in pcs if q.kind == 'one']
        for q in conds:
            c = positive(q.v)
            if c is None:
                ctx.fail(R, f.ref + ' condition', p.where(), f'{short(q.v)} is not a strict positivity condition')
                continue
            a = [k for k in c if k[0] == 'lo' and c[k] == 1 and rule_measure(k[1], M, par) is P]
            b = [k for k in c if k[0] == 'lo' and c[k] == 1 and rule_measure(k[1], M, dfs) is not None]
            rest = {k: x for k, x in c.items() if k not in a + b}
            ok = len(a) == 1 and len(b) == 1
            if ok:
                D = rule_measure(b[0][1], M, dfs)
                ok = D.k == 'sub' and D.a[0] is n2d and is_key(D.a[1], n2d)
                parts = []
                for (s, x), k in rest.items():
                    good = s is None and k == 1 and isinstance(x, V) and is_call(x, 'min_size')
                    ok = ok and good
                    if good:
                        parts += body_rest(x.a[1][-1], Attr(Sub(Attr(par, 'rules'), P), 'body'), Attr(me, 'j'))
                ok = ok and '?' not in parts and len(set(parts)) == len(parts)
            ctx.need(ok, R, f.ref + ' condition', p.where(), f'the condition {short(q.v)} is not: lower bounds of the unfolded rule and of the definition plus the size of the other subgoals are positive')
        if any(e.kind == 'loop' for e in lps):
            ctx.need(any(in_any_loop(q, e) for e in lps for q in conds), R, f.ref + ' coverage', p.where(), 'a new rule gets no condition')
        for i, val, _ in entries(p, mv, me):
            new = next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is i and (a.a[2] is n2d or (is_call(a.a[2], 'keys') and recv(a.a[2]) is n2d))), None)
            isk = i is not None and is_key(i, n2d)
            got = [b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'is' and NONE in a.a[1:] and any(is_call(x, 'get') and recv(x) is n2d and x.a[1][0] is i for x in a.a[1:])]
            if new is None and got:
                new = not got[0]
            if new or isk:
                full += 1
                c = [clean(lin(val, s)) for s in ('lo', 'hi')]
                ok = True
                for s, x in zip(('lo', 'hi'), c):
                    ks = set(x)
                    ok = ok and len(ks) == 2 and all(k[0] == s and x[k] == 1 for k in ks) and any(rule_measure(k[1], M, par) is P for k in ks) and any(def_of(rule_measure(k[1], M, dfs), n2d, i) for k in ks)
                ctx.need(ok, R, f.ref + ' new rule', p.where(), f'the measure of a new rule is {short(val)}: not the sum of the unfolded rule and its definition')
            else:
                ctx.need(new is False and other_rule(p, val, M, me, i) or kept_rule(p, val, M, me), R, f.ref + ' kept rule', p.where(), f'the measure of a kept rule is {short(val)}')
    ctx.need(n > 0 and full > 0, R, f.ref + ' present', f.ref, 'the new rules get no measure')


def def_of(v, n2d, i):
    return v is Sub(n2d, i) or (v is not None and is_call(v, 'get') and recv(v) is n2d and v.a[1][0] is i)


def body_rest(v, body, j):
    v = noop(v)
    if v.k == 'bin' and v.a[0] in '+*':
        return body_rest(v.a[1], body, j) + body_rest(v.a[2], body, j)
    if v.k == 'sub' and v.a[0] is body and v.a[1].k == 'slice':
        lo, hi, st = v.a[1].a[:3]
        if is_const(lo, None) and hi is j and is_const(st, None):
            return ['left']
        if is_const(hi, None) and is_const(st, None) and lo.k == 'bin' and lo.a[0] == '+' and {lo.a[1], lo.a[2]} == {j, Const(1)}:
            return ['right']
    return ['?']


def new2def(ctx, m):
    "The index and the definition of every rule that unfolding adds."
    f = m.func('dyna.transform.unfold', 'Unfold.__init__')
    R = 'unfold'
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        for e in p.events:
            if e.kind != 'setitem':
                continue
            tgt = e.a[0]
            if not any(x.kind == 'setattr' and x.a[1] == 'new2def' and x.a[2] is tgt for x in p.events) and not (tgt.k == 'attr' and tgt.a[1] == 'new2def'):
                continue
            n += 1
            i, s = e.a[1], e.a[2]
            lens = [w for w in walk(i) if is_call(w, 'len')]
            ok = len(lens) == 1
            if ok:
                lst = lens[0].a[1][0]
                loop = [c[1] for c in e.ctx if c[0] == 'loop'][-1:]
                app = [x for x in p.events if x.kind == 'mutate' and x.a[1] == 'append' and (x.a[0] is lst or p.res(x.a[0]) is p.res(lst)) and [c[1] for c in x.ctx if c[0] == 'loop'][-1:] == loop]
                off = clean(lin(i)).get((None, 'const'), 0)
                ok = len(app) == 1 and any(off == (0 if x.n < app[0].n else -1) for x in p.events if x.kind == 'call' and x.a[0] is lens[0] and x.n < e.n)
            elif is_idx_enum(p, i):
                ok = True
            ctx.need(ok, R, f.ref + ' position', e.where, f'a new rule is recorded at {short(i)}, not at its index in the new program')
            ctx.need(s.k == 'attr' and s.a[1] == 'i' and any(is_call(w, 'lookup') for w in walk(s)), R, f.ref + ' definition', e.where, f'a new rule is recorded as an instance of {short(s)}, not of the definition it came from')
    ctx.need(n > 0, R, f.ref + ' record', f.ref, 'the definitions of the new rules are not recorded')


def is_idx_enum(p, i):
    "enumerate(lookup, start=len(kept rules))"
    return i.k == 'bin' and i.a[0] == '+' and any(x.k == 'idx' for x in i.a[1:]) and any(is_call(x, 'len') for x in i.a[1:])


# ------------------------------------------------------------------ definitions, slash, left-corner
def define_measure(ctx, m):
    f = m.func('dyna.program', 'Define.compute_measure')
    me, M = param(f, 0), param(f, 1)
    par = Attr(me, 'parent')
    R = 'define'
    seen = Counter()
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        no_alias(ctx, R, f, p)
        res = safety_result(ctx, R, f, p, me, M)
        if res is None:
            continue
        mv, sv = res
        pcs = pieces(p, sv)
        ctx.need(inherits(p, pcs, M, par), R, f.ref + ' inherited', p.where(), 'the conditions of the parent are dropped')
        cons = {q.v.a[0] for q in pcs if q.kind == 'seq' and q.v.k == 'sub' and is_const(q.v.a[1], 1)}
        for q in pieces(p, mv):
            if q.kind == 'seq' and q.v.k == 'attr' and q.v.a[1] == 'm' and meas(q.v.a[0], M, par):
                seen['old'] += 1
                continue
            if q.kind == 'one' and is_const(q.v, None) or q.kind == 'seq':
                continue
            v = q.v
            k = rule_measure(v, M, par)
            if k is not None:
                seen['old'] += 1
                old = is_elem(k, Attr(me, '_old_ix')) or (k.k == 'idx' and all_rules(k.a[1], par))
                ctx.need(old and (q.kind == 'one' or q.i is k), R, f.ref + ' old rule', p.where(), f'rule {short(q.i) if q.i is not None else "?"} gets the measure of rule {short(k)} of the parent')
                continue
            seen['new'] += 1
            ok = is_call(v, 'Interval') and len(v.a[1]) == 2 and v.a[1][0] is v.a[1][1] and v.a[1][0].k == 'sub' and is_const(v.a[1][0].a[1], 0) and is_call(v.a[1][0].a[0], 'new_var')
            ctx.need(ok, R, f.ref + ' new rule', p.where(), f'a new rule gets the measure {short(v)}: not a new variable')
            if ok:
                c = v.a[1][0].a[0]
                ctx.need(c in cons, R, f.ref + ' condition', p.where(), 'the condition of the new variable is dropped')
                ce = next((x for x in p.events if x.kind == 'call' and x.a[0] is c), None)
                lp = [z for z in q.ctx]
                ctx.need(ce is not None and [z[1] for z in ce.ctx if z[0] == 'loop'] == [z[1] for z in lp], R, f.ref + ' sharing', p.where(), 'several new rules share one variable')
                if q.kind == 'set':
                    ctx.need(is_elem(q.i, Attr(me, '_new_ix')), R, f.ref + ' new rule', p.where(), f'the variable is given to rule {short(q.i)}')
    ctx.need(seen['old'] > 0 and seen['new'] > 0, R, f.ref + ' present', f.ref, 'not every rule gets a measure')
    f = m.func('dyna.program', 'Define.__init__')
    par, dfs = param(f, 1), param(f, 2)
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        st = {e.a[1]: p.res(e.a[2]) for e in p.events if e.kind == 'setattr' and isinstance(e.a[2], V)}
        c = next(iter(calls_in_events(p, '__init__')), None)
        pcs = [(q.kind, noop(q.v)) for q in pieces(p, c.a[1][-1])] if c is not None and c.a[1] else []
        unr = [(k, v.a[0] if v.k == 'attr' and v.a[1] == 'rules' else v) for k, v in pcs]
        ctx.need(unr == [('seq', par), ('seq', dfs)], R, f.ref + ' rules', p.where(), 'the program is not the parent followed by the definitions')
        a, b = st.get('_old_ix'), st.get('_new_ix')
        a, b = (x if isinstance(x, V) else None for x in (a, b))
        ln = [is_call(a, 'range') and len(a.a[1]) == 1 and is_len(a.a[1][0], par)] if a is not None else [False]
        ok = b is not None and is_call(b, 'range') and len(b.a[1]) == 2 and is_len(b.a[1][0], par)
        if ok:
            hi = clean(lin(b.a[1][1]))
            ok = len(hi) == 2 and all(n == 1 for n in hi.values()) and any(is_len(k[1], par) for k in hi) and any(is_len(k[1], dfs) for k in hi)
        ctx.need(ln[0] and ok, R, f.ref + ' indices', p.where(), 'the recorded indices are not those of the old and of the new rules')


def is_len(v, x):
    return isinstance(v, V) and is_call(v, 'len') and noop(v.a[1][0]) in (x, Attr(x, 'rules'))


def is_elem(v, c):
    return v is not None and ((v.k in ('sub', 'elem') and v.a[0] is c) or (v.k == 'idx' and v.a[1] is c))


def family_measure(ctx, m, mod, cls):
    f = m.func(mod, cls + '.compute_measure')
    me, M = param(f, 0), param(f, 1)
    par = Attr(me, 'parent')
    R = 'slash'
    got = set()
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        no_alias(ctx, R, f, p)
        res = safety_result(ctx, R, f, p, me, M)
        if res is None:
            continue
        mv, sv = res
        pcs = pieces(p, sv)
        ctx.need(inherits(p, pcs, M, par), R, f.ref + ' inherited', p.where(), 'the conditions of the parent are dropped')
        here = set()
        for q in pieces(p, mv):
            if q.kind != 'set':
                continue
            i = q.i
            r = i.a[0] if i.k == 'attr' and i.a[1] == '_index' else None
            fam = None
            if r is not None and r is Attr(me, 'base'):
                fam = 'base'
            elif r is not None and r.k in ('sub', 'elem') and r.a[0].k == 'attr' and r.a[0].a[0] is me:
                fam = r.a[0].a[1]
            if fam is None:
                ctx.fail(R, f.ref + ' rule', q.e.where, f'a measure is given to {short(i)}')
                continue
            here.add(fam)
            got.add(fam)
            if fam in FAM_KEEP:
                k = rule_measure(q.v, M, par)
                ctx.need(k is not None and r.k == 'sub' and r.a[1] is k and is_key(k, r.a[0]), R, f'{f.ref} {fam}', q.e.where, f'a rule of the {fam} family gets {short(q.v)}, not the measure of the parent rule it came from')
            else:
                v = q.v
                ctx.need(is_call(v, 'Interval') and len(v.a[1]) == 2 and all(is_const(x, 0) for x in v.a[1]) or v.k == 'attr' and v.a[1] == 'zero', R, f'{f.ref} {fam}', q.e.where, f'a rule of the {fam} family gets {short(v)}, not zero')
        for fam in FAM_KEEP + FAM_ZERO:
            lps = dict_loops(p, Attr(me, fam))
            ctx.need(bool(lps) and all(e.kind == 'loop0' or fam in here for e in lps), R, f'{f.ref} {fam} covered', p.where(), f'the rules of the {fam} family get no measure')
        ctx.need('base' in here, R, f'{f.ref} base covered', p.where(), 'the base rule gets no measure')
    ctx.need(set(FAM_KEEP + FAM_ZERO) <= got, R, f'{f.ref} families', f.ref, f'no measure for {sorted(set(FAM_KEEP + FAM_ZERO) - got)}')


# ------------------------------------------------------------------ verdicts
def verdict(ctx, m):
    R = 'verdict'
    f = m.func('dyna.transform.measure', 'measure_safety.is_safe')
    me = param(f, 0)
    S = Attr(me, '_safe')
    n = 0
    for p, facts in yes_paths(ctx, f):
        over = [e for e in p.events if e.kind in ('loop', 'loop0') and noop(e.a[1]) is S]
        if len({e.kind for e in over}) == 2:
            continue            # contradictory: the same list is empty and not empty
        n += 1
        concrete = any(b is True and is_call(a, 'all') and a.a[1] and noop(a.a[1][0]) is S for a, b in facts.items())
        for e in over:
            held = [b for a, b in facts.items() if (a.k in ('sub', 'elem') and a.a[0] is S and a.a[1].k == 'idx' and a.a[1].a[0] == e.a[0]) or
                    (a.k == 'cmp' and a.a[0] in ('is', '==') and TRUE in a.a[1:] and any(x.k == 'sub' and x.a[0] is S and x.a[1].k == 'idx' and x.a[1].a[0] == e.a[0] for x in a.a[1:]))]
            if e.kind == 'loop0' or (held and all(b is True for b in held) and not broke(p, e)):
                concrete = True
        smt = False
        for a, b in facts.items():
            if a.k == 'cmp' and a.a[0] in ('==', 'is') and b is True:
                c = next((x for x in a.a[1:] if is_call(x, 'check')), None)
                o = next((x for x in a.a[1:] if x is not c), None)
                if c is not None and o is not None and (o.k in ('attr', 'name') and str(o).split('.')[-1] == 'sat'):
                    s = recv(c)
                    ce = next((e for e in p.events if e.kind == 'call' and e.a[0] is c), None)
                    direct = any(noop(x.a[0] if x.k == 'star' else x) is S for x in c.a[1])
                    adds = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'add', 'append', 'assert_exprs', 'insert') and recv(e.a[0]) is s and (ce is None or e.n < ce.n)
                            and any(noop(x.a[0] if x.k == 'star' else x) is S for x in e.a[0].a[1])]
                    late = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'reset', 'pop') and recv(e.a[0]) is s and adds and adds[-1].n < e.n and (ce is None or e.n < ce.n)]
                    smt = smt or direct or (bool(adds) and not late)
        ctx.need(concrete or smt, R, f.ref, p.where(), 'a program is reported safe although not all its conditions were found satisfiable together')
    ctx.floor(n, 2, 'safe verdicts')
    f = m.func('dyna.transform.measure', 'Measure.zero_measure')
    for p in ctx.paths(f):
        if p.kind == 'return':
            v = p.value
            s = carg(v, 2, 'safe') if is_call(v, 'measure_safety', 'safety') else None
            bad = s is not None and [q.v for q in pieces(p, s) if q.kind == 'one' and is_const(q.v, False)]
            ctx.need(bool(bad), R, f.ref, p.where(), 'the measure of an unverified step is not unsafe')
    f = m.func('dyna.transform.measure', 'Measure.safe')
    me, x = param(f, 0), param(f, 1)
    for p, facts in yes_paths(ctx, f):
        ok = any(b is True and is_call(a, 'is_safe') and meas(recv(a), me, x) for a, b in facts.items())
        ctx.need(ok, R, f.ref, p.where(), 'a program is reported safe without asking its measure')
    for q, a in (('Program.safe_by_smt', 'measure'), ('Program.safe_by_unit', 'unit_measure')):
        f = m.func('dyna.program', q)
        me = param(f, 0)
        n = 0
        for p, facts in yes_paths(ctx, f):
            n += 1
            ok = any(b is True and ((is_call(y, 'is_safe') and meas(recv(y), Attr(me, a), me)) or (is_call(y, 'safe') and recv(y) is Attr(me, a) and y.a[1] == (me,))) for y, b in facts.items())
            ctx.need(ok, R, f.ref, p.where(), 'a program is reported safe without asking the measure of its history')
        ctx.need(n > 0, R, f.ref + ' present', f.ref, 'never safe')
        f = m.func('dyna.program', 'Program.' + a)
        me = param(f, 0)
        for p in ctx.paths(f):
            if p.kind == 'return':
                v = p.value
                sy = carg(v, 1, 'symbolic') if is_call(v, 'make_smt_measure') else None
                ok = is_call(v, 'make_smt_measure') and carg(v, 0, 'p') is Attr(me, 'root')
                ctx.need(ok, R, f.ref, p.where(), f'{short(v)} is not the measure of the program that the history starts from')
                if ok and a == 'unit_measure':
                    ctx.need(sy is not None and is_const(sy, False), R, f.ref + ' unit', p.where(), 'the unit measure is not concrete')
    f = m.func('dyna.transform.measure', 'make_smt_measure')
    x = param(f, 0)
    for p in ctx.paths(f):
        if p.kind == 'return':
            v = p.value
            ok = is_call(v, 'Measure') and any(recv(c) is v and c.a[1] == (x,) for c in calls_in_events(p, 'add_ref'))
            ctx.need(ok, R, f.ref, p.where(), 'the measure does not start from the given program')


def classes(ctx, m):
    "Every transformation either has a checked measure or the unsafe one."
    R = 'unknown'
    known = {'Fold', 'Unfold', 'Define', 'Slash', 'LCT'}
    n = 0
    for mod in m.modules.values():
        for c, cl in mod.classes.items():
            f = cl.methods.get('compute_measure')
            if f is None or c in known:
                continue
            n += 1
            me, M = param(f, 0), param(f, 1)
            for p in ctx.paths(f):
                if p.kind != 'return':
                    continue
                v = p.value
                if is_call(v, 'zero_measure'):
                    ctx.need(True, R, f.ref, p.where(), '')
                    continue
                fr = any(b is True and a.k == 'cmp' and a.a[0] == '==' and Attr(me, 'name') in a.a[1:] and any(is_const(x, 'fresh') for x in a.a[1:]) for a, b in p.facts.items())
                ctx.need(fr and meas(v, M, Attr(me, 'parent')), R, f.ref, p.where(), f'{short(v)} is claimed as the measure of a transformation that has no safety condition')
    ctx.floor(n, 1, 'default measures')


# ------------------------------------------------------------------ arithmetic
def arithmetic(ctx, m):
    R = 'arithmetic'
    mod = 'dyna.transform.measure'
    for nm, want in (('__add__', {'lo': (('lo', 1), ('lo', 1)), 'hi': (('hi', 1), ('hi', 1))}), ('__sub__', {'lo': (('lo', 1), ('hi', -1)), 'hi': (('hi', 1), ('lo', -1))})):
        f = m.func(mod, 'Interval.' + nm)
        a, b = param(f, 0), param(f, 1)
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            v = p.value
            ok = is_call(v, 'Interval') and len(v.a[1]) == 2
            if ok:
                for side, x in zip(('lo', 'hi'), v.a[1]):
                    (s1, n1), (s2, n2) = want[side]
                    exp = Counter()
                    exp[(s1, a)] += n1
                    exp[(s2, b)] += n2
                    ok = ok and clean(lin(x)) == clean(exp)
            ctx.need(ok, R, f.ref, p.where(), f'{short(v)} is not the interval that holds all results')
    f = m.func(mod, 'Interval.__init__')
    me, lo, hi = (param(f, k) for k in range(3))
    for p in ctx.paths(f):
        st = {e.a[1]: e.a[2] for e in p.events if e.kind == 'setattr'}
        ctx.need(st.get('lo') is lo and st.get('hi') is hi, R, f.ref, p.where(), 'the bounds are mixed up')
    for nm in ('Min', 'Max'):
        f = m.func(mod, nm)
        vs = param(f, 0)
        n = 0
        paths = list(ctx.paths(f))
        steps = {id(x[3]) for p in paths for e in p.events if e.kind == 'call' and is_call(e.a[0], 'If') for x in e.ctx if x[0] == 'loop' and len(x) > 3}
        for p in paths:
            if p.kind != 'return':
                continue
            v = p.value
            if is_call(v, 'min', 'max'):
                n += 1
                sym = [b for a, b in p.facts.items() if any(w.k in ('attr', 'name') and str(w).split('.')[-1] in ('ArithRef', 'ExprRef') for w in walk(a))]
                ctx.need(fname(v.a[0]) == nm.lower() and noop(v.a[1][0]) is vs and (bool(sym) or any(e.kind == 'loop0' for e in p.events)) and True not in sym, R, f.ref + ' numbers', p.where(), f'{short(v)} is not the {nm.lower()}imum of the numbers')
                continue
            for c in calls_in_events(p, 'If'):
                n += 1
                t, x, y = c.a[1][:3]
                op, small, big = order(t)
                ok = op in ('<', '<=')
                if ok:
                    ok = (x, y) == ((small, big) if nm == 'Min' else (big, small))
                ctx.need(ok, R, f.ref + ' step', p.where(), f'{short(c)} is not the {nm.lower()}imum of the two')
            lps = [e for e in p.events if e.kind in ('loop', 'loop0') and id(e.node) in steps and contains(e.a[1], vs) and (noop(e.a[1]) is vs or (noop(e.a[1]).k == 'sub' and noop(e.a[1]).a[0] is vs))]
            tail = [e for e in lps if noop(e.a[1]) is vs or from_one(noop(e.a[1]).a[1])]
            red = any(contains(c, vs) for c in calls_in_events(p, 'reduce'))
            ctx.need(bool(tail) and not any(broke(p, e) for e in tail) or red, R, f.ref + ' all', p.where(), 'not all values are compared')
        ctx.floor(n, 2, f'ways to compute {nm}')
    f = m.func(mod, 'Measure.min_size')
    me, xs = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        if v.k == 'const':
            if v.a[0] == 0:
                ctx.need(True, R, f.ref, p.where(), '')
                continue
            neg = {fname(a.a[0]) for a, b in p.facts.items() if b is False and is_call(a, 'is_const', 'is_builtin') and a.a[1][-1] is xs}
            ctx.need(v.a[0] == 1 and neg == {'is_const', 'is_builtin'}, R, f.ref, p.where(), f'a subgoal counts {v.a[0]} although it may be a constant or a builtin of size 0')
        elif is_call(v, 'sum'):
            tup = any(b is True and is_call(a, 'isinstance') and a.a[1][0] is xs for a, b in p.facts.items())
            el = [q for q in pieces(p, v.a[1][0]) if q.kind == 'one']
            ctx.need(tup and all(is_call(q.v, 'min_size') and q.v.a[1] and contains(q.v.a[1][-1], xs) for q in el), R, f.ref, p.where(), 'the size of several subgoals is not the sum of their sizes')
        else:
            ok = v.k == 'bin' or v.k == 'phi' or is_call(v, 'min_size')
            ctx.need(ok, R, f.ref, p.where(), f'{short(v)} is not a lower bound of the size')


def from_one(s):
    return s.k == 'slice' and is_const(s.a[0], 1, 0, None) and is_const(s.a[1], None)


def variables(ctx, m):
    R = 'variable'
    f = m.func('dyna.transform.measure', 'Measure.new_var')
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        if v.k != 'tup' or len(v.a[1]) != 2:
            ctx.fail(R, f.ref, p.where(), f'{short(v)} is returned')
            continue
        n += 1
        x, c = v.a[1]
        if x.k == 'const':
            ctx.need(isinstance(x.a[0], int) and x.a[0] > 0, R, f.ref + ' unit', p.where(), 'the unit measure is not positive')
            continue
        ok = is_call(x, 'Int') and x.a[1] and any(w is Attr(me, '_var_id') for w in walk(x.a[1][0])) or (is_call(x, 'FreshInt'))
        ctx.need(ok, R, f.ref + ' name', p.where(), f'{short(x)} is not a new variable')
        if is_call(x, 'Int'):
            inc = [e for e in p.events if (e.kind == 'setattr' and e.a[1] == '_var_id' and clean(lin(e.a[2])) == {(None, Attr(me, '_var_id')): 1, (None, 'const'): 1})
                   or (e.kind == 'aug' and any(isinstance(y, V) and y is Attr(me, '_var_id') for y in e.a))]
            ctx.need(bool(inc), R, f.ref + ' unique', p.where(), 'the same variable is handed out twice')
        conds = c.a[1] if c.k == 'tup' else ()
        ctx.need(any(positive(y) == {(None, x): 1} for y in conds), R, f.ref + ' positive', p.where(), 'the variable is not required to be positive')
    ctx.floor(n, 2, 'new variables')
    f = m.func('dyna.transform.measure', 'Measure.add_ref')
    me, P = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        st = [e for e in p.events if e.kind == 'setitem' and e.a[0] is me] + [e for e in p.events if e.kind == 'setitem' and e.a[0] is Attr(me, 'measures')]
        ms = [w for e in p.events for y in e.a if isinstance(y, V) for w in [y] if is_call(w, 'measure_safety', 'safety')]
        ctx.need(bool(st) and bool(ms), R, f.ref + ' stored', p.where(), 'the measure of the first program is not stored')
        if not ms:
            continue
        v = ms[0]
        a = [carg(v, k, x) for k, x in enumerate(('m', 'p', 'safe'))]
        pcs, scs = pieces(p, a[0]), pieces(p, a[2])
        lps = [e for e in p.events if e.kind in ('loop', 'loop0') and all_rules(e.a[1], P)]
        ctx.need(bool(lps), R, f.ref + ' all', p.where(), 'not every rule gets a variable')
        if any(e.kind == 'loop' for e in lps):
            n += 1
            ok = len(pcs) == 1 and is_call(pcs[0].v, 'Interval') and pcs[0].v.a[1][0] is pcs[0].v.a[1][1] and pcs[0].v.a[1][0].k == 'sub'
            c = pcs[0].v.a[1][0].a[0] if ok else None
            ok = ok and is_call(c, 'new_var') and any(e.kind == 'call' and e.a[0] is c and any(x[0] == 'loop' for x in e.ctx) for e in p.events)
            ctx.need(ok, R, f.ref + ' rule', p.where(), 'a rule does not get its own variable')
            ctx.need(ok and any(q.kind == 'seq' and q.v is Sub(c, Const(1)) for q in scs), R, f.ref + ' condition', p.where(), 'the positivity of the variables is dropped')
    ctx.floor(n, 1, 'initial measures')


def freshness(ctx, m):
    R = 'freshness'
    f = m.func('dyna.transform.measure', 'Measure._freshness_violations')
    par, dfs = param(f, 1), param(f, 2)
    hit = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        # what is known about the last stage
        lp = [e for e in p.events if e.kind == 'loop' and is_call(noop(e.a[1]), 'lineage') and recv(noop(e.a[1])) is dfs]
        uni = [(a, b) for a, b in p.facts.items() if is_call(a, 'unifies')]
        stage_no = any(b is False and is_call(a, 'isinstance') and 'Define' in str(a.a[1][1]) for a, b in p.facts.items())
        own = any(b is True and a.k == 'cmp' and a.a[0] == 'in' and stage_in_parent(p, a, par) for a, b in p.facts.items())
        inner = [e for e in p.events if e.kind in ('loop', 'loop0') and e.ctx and (all_rules(e.a[1], par) or new_ix(e.a[1]))]
        if not any(e.kind in ('loop', 'loop0') and is_call(noop(e.a[1]), 'lineage') and recv(noop(e.a[1])) is dfs for e in p.events):
            ctx.fail(R, f.ref + ' lineage', p.where(), 'the history of the definitions is not examined')
            continue
        for e in lp:
            if broke(p, e) and not any(b is True for a, b in uni):
                ctx.fail(R, f.ref + ' all', p.where(), 'the history of the definitions is not examined completely')
        if not lp:
            continue
        if stage_no or own:
            ctx.need(True, R, f.ref, p.where(), '')
            continue
        ctx.need(bool(inner), R, f.ref + ' stage', p.where(), 'a definition that is foreign to the parent is not compared with its rules')
        for e in inner:
            if e.kind == 'loop' and broke(p, e) and not any(b is True for a, b in uni):
                ctx.fail(R, f.ref + ' all', p.where(), 'the rules are not examined completely')
        if any(e.kind == 'loop' and all_rules(e.a[1], par) for e in inner) and any(e.kind == 'loop' and new_ix(e.a[1]) for e in inner):
            if not uni:
                ctx.fail(R, f.ref + ' head', p.where(), 'the heads are not compared')
                continue
            for a, b in uni:
                if b is True:
                    hit += 1
                    v = p.value
                    ok = (v.k == 'obj' and bool(pieces(p, v))) or is_const(v, True)
                    ctx.need(ok, R, f.ref + ' report', p.where(), 'a clash is not reported')
                else:
                    xs = [strip_fresh(x) for x in a.a[1]]
                    good = all(x.k == 'attr' and x.a[1] == 'head' for x in xs) and any(all_rules_elem(x.a[0], par) for x in xs) and any(not all_rules_elem(x.a[0], par) for x in xs)
                    ctx.need(good, R, f.ref + ' head', p.where(), f'{short(a)} is not the comparison of a new head with a head of the parent')
                    apart = any(is_call(x, 'fresh') for x in a.a[1])
                    ctx.need(apart, R, f.ref + ' apart', p.where(), 'the two heads share variables')
    ctx.floor(hit, 1, 'reported clashes')
    for nm, other in (('lineage', 'transforms'), ('transforms', 'lineage')):
        f = m.func('dyna.program', 'Program.' + nm)
        me = param(f, 0)
        n = 0
        for p in ctx.paths(f):
            if p.kind == 'raise':
                continue
            n += 1
            v = p.res(p.value) if p.value is not None else NONE
            via = [e.a[0] for e in p.events if e.kind == 'yieldfrom'] + [v]
            if any(is_call(x, other) and recv(x) is me for x in via):
                ctx.need(nm == 'lineage', R, f.ref, p.where(), 'the history is defined by itself')
                continue
            ys = [e for e in p.events if e.kind == 'yield']
            inl = [e for e in ys if any(c[0] in ('loop', 'while') for c in e.ctx)]
            out = [e for e in ys if e not in inl]
            looped = any(e.kind == 'loop' for e in p.events)
            ctx.need(len(out) == 1 and (not looped or len(inl) == 1), R, f.ref, p.where(), 'a program of the history is left out')
            for e in p.events:
                if e.kind == 'carry' and isinstance(e.a[3], V) and e.a[3].k != 'phi':
                    ctx.need(e.a[3].k == 'attr' and e.a[3].a[1] == 'parent', R, f.ref + ' parent', p.where(), f'the history goes on with {short(e.a[3])}')
        ctx.floor(n, 1, 'histories')


def strip_fresh(v):
    v = noop(v)
    while is_call(v, 'fresh') and v.a[1]:
        v = noop(v.a[1][0])
    return v


def all_rules_elem(v, prog):
    return v.k in ('sub', 'elem') and all_rules(v.a[0], prog)


def new_ix(v):
    v = noop(v)
    return (v.k == 'attr' and v.a[1] in ('_new_ix', 'defs')) or (is_call(v, 'enumerate', 'list') and v.a[1] and new_ix(v.a[1][0]))


def stage_in_parent(p, a, par):
    "id(stage) in {id(s) for s in parent.lineage()}"
    x, c = a.a[1], a.a[2]
    cs = [q.v for q in pieces(p, c)] if c.k in ('obj', 'tup') else []
    objs = [w for w in [c] if is_call(w, 'set', 'list', 'frozenset', 'tuple', 'lineage')]
    if is_call(x, 'id'):
        # either the collected identities, or an empty collection on a path where the history loop was skipped
        return all(is_call(y, 'id') and any(is_call(w, 'lineage') and recv(w) is par for w in walk(y)) for y in cs) or any(is_call(w, 'lineage') and recv(w) is par for w in walk(c))
    return False


def alignment(ctx, m):
    R = 'alignment'
    f = m.func('dyna.transform.measure', 'measure_safety.align')
    me, P = param(f, 0), param(f, 1)
    own = Attr(me, 'p')
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        if v is me:
            ok = any(b is True and a.k == 'cmp' and a.a[0] == 'is' and {a.a[1], a.a[2]} == {P, own} for a, b in p.facts.items())
            ctx.need(ok, R, f.ref + ' same', p.where(), 'the measures are used as they are for a different program')
            continue
        if not is_call(v, 'measure_safety', 'safety'):
            ctx.fail(R, f.ref, p.where(), f'{short(v)} is returned')
            continue
        n += 1
        a = [carg(v, k, x) for k, x in enumerate(('m', 'p', 'safe'))]
        s = [(q.kind, q.v) for q in pieces(p, a[2])] if a[2] is not None else []
        ctx.need(a[1] is P and s == [('seq', Attr(me, '_safe'))], R, f.ref + ' conditions', p.where(), 'the conditions are dropped or changed')
        for q in pieces(p, a[0]):
            if q.kind == 'set':
                k = q.v.a[1] if q.v.k == 'sub' and q.v.a[0] is Attr(me, 'm') else None
                ok = k is not None and aligned(q.i, k, P, own)
                ctx.need(ok, R, f.ref + ' rule', p.where(), f'rule {short(q.i)} gets {short(q.v)}: not the measure of the rule it is aligned with')
            elif q.kind == 'one' and not is_const(q.v, None):
                ctx.fail(R, f.ref + ' rule', p.where(), f'{short(q.v)} is a measure')
        al = [e for e in p.events if e.kind in ('loop', 'loop0') and al_call(e.a[1], P, own) is not None]
        ctx.need(bool(al), R, f.ref + ' aligned', p.where(), 'the programs are not aligned')
    ctx.floor(n, 1, 'aligned measures')
    f = m.func('dyna.transform.measure', 'Measure.__call__')
    me, new = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        n += 1
        if not is_call(v, 'align') or noop(v.a[1][0]) is not new:
            ctx.fail(R, f.ref, p.where(), f'{short(v)} is not aligned with the program')
            continue
        src = recv(v)
        if is_call(src, 'compute', 'compute_measure'):
            ctx.need(contains(src, new), R, f.ref + ' computed', p.where(), f'{short(src)} is computed')
        else:
            ok = (is_call(src, 'get') and recv(src) is Attr(me, 'measures') and key_of(src.a[1][0], me, new)) or (src.k == 'sub' and src.a[0] in (Attr(me, 'measures'), me) and key_of(src.a[1], me, new))
            ctx.need(ok, R, f.ref + ' stored', p.where(), f'{short(src)} is not the measure stored for the program')
    ctx.floor(n, 2, 'measure lookups')
    # fold: from definitions to replaced rules
    f = next((x for k, x in m.cls('dyna.transform.fold', 'Fold').methods.items() if k.endswith('align_to_parent')), None)
    g = m.func('dyna.transform.fold', 'Fold.par2def')
    me = param(g, 0)
    for p in ctx.paths(g):
        if p.kind == 'return':
            for e in p.events:
                if e.kind == 'setitem':
                    ok = e.a[1].k == 'sub' and e.a[1].a[0] is Attr(me, 'def2par') and e.a[1].a[1] is e.a[2]
                    ctx.need(ok, R, g.ref, p.where(), 'the map from rules to definitions is not the inverse of the map from definitions to rules')
            ctx.need(bool(dict_loops(p, Attr(me, 'def2par'))), R, g.ref + ' all', p.where(), 'some definitions are left out')
    if f is None:
        return
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        for e in p.events:
            if e.kind != 'setitem' or e.a[1].k != 'key':
                continue
            D = e.a[1]
            if not (D.a[0].k == 'attr' and D.a[0].a[1] == 'def2new'):
                continue
            n += 1
            P = e.a[2]
            Rv = Sub(D.a[0], D)
            ok = P.k == 'sub' and P.a[1] is Rv and noop(D.a[0].a[0]) is Attr(me, 'undo') and is_call(P.a[0], 'dict') and is_call(P.a[0].a[1][0], 'align') and noop(recv(P.a[0].a[1][0])) is Attr(me, 'undo') and noop(P.a[0].a[1][0].a[1][0]) is Attr(me, 'parent')
            ctx.need(ok, R, f.ref + ' rule', e.where, f'definition {short(D)} is taken to give rule {short(P)}')
    ctx.need(n > 0, R, f.ref + ' present', f.ref, 'the definitions are not matched with the rules they replace')


def al_call(v, P, own):
    v = noop(v)
    if is_call(v, 'items') and recv(v) is not None:
        v = recv(v)
    while is_call(v, 'dict', 'list', 'tuple') and v.a[1]:
        v = noop(v.a[1][0])
    if is_call(v, 'align') and v.a[1]:
        if recv(v) is P and noop(v.a[1][0]) is own:
            return True
        if recv(v) is own and noop(v.a[1][0]) is P:
            return False
    return None


def aligned(i, k, P, own):
    "(i, k) is a pair of the alignment of P (the new program) with the stored one."
    if i.k == 'sub' and k.k == 'sub' and i.a[0] is k.a[0] and is_const(i.a[1]) and is_const(k.a[1]) and i.a[0].k in ('sub', 'elem'):
        d = al_call(i.a[0].a[0], P, own)
        if d is None:
            return False
        return (i.a[1].a[0], k.a[1].a[0]) == ((0, 1) if d else (1, 0))
    if i.k == 'key' and k is Sub(i.a[0], i):
        return al_call(i.a[0], P, own) is True
    return False


def key_of(v, me, new):
    return v is new or (is_call(v, '_key') and v.a[1] and noop(v.a[1][-1]) is new)
