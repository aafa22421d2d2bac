"""Helper names (C21), demand-driven evaluation (C22), queues (C23)."""
import ast
from ..core import check
from ..values import (V, Const, NONE, TRUE, FALSE, fname, is_call, recv, walk, contains, is_const, Attr, Sub, carg)
from ..util import short
from .match import param
from .execute import noop, idx, body_part, all_rules, all_positions, unfresh
from .transform import pieces, rule_parts, super_init, in_loop


# ------------------------------------------------------------------ C21
@check('C21', 'guard dominance and dataflow of generated names: symbol set, generators, and every place that builds helper items',
       'The symbol set must receive the functor of every head and of every subgoal of every rule; a generator may only return a name for which membership in the symbol set (and in the set of names already '
       'given out) was just refuted; in every rewrite that introduces helper items, the functor of a built item must flow from a generator call on the rewritten program, made inside the loop that '
       'introduces one helper per step.',
       [])
def c21(ctx):
    m = ctx.m
    symbols(ctx, m)
    generator(ctx, m)
    counter(ctx, m)
    sites(ctx, m)
    marks(ctx, m)
    abbreviations(ctx, m)


def symbols(ctx, m):
    f = m.func('dyna.program', 'Program.syms')
    me = param(f, 0)
    R = 'symbols'
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value
        pcs = pieces(p, v)
        got = {q.v for q in pcs if q.kind in ('one', 'seq')}
        ctx.need(not any(q.kind not in ('one', 'seq') for q in pcs), R, f.ref + ' kept', p.where(), 'a symbol is taken away')
        outer = [e for e in p.events if e.kind in ('loop', 'loop0') and all_rules(p.res(e.a[1]), me)]
        if not outer:
            ctx.fail(R, f.ref + ' rules', p.where(), 'the symbols are not collected from every rule')
            continue
        bad = [e for e in p.events if e.kind == 'loopend' and e.a[1]]
        ctx.need(not bad, R, f.ref + ' all rules', p.where(), 'the collection of symbols ends early')
        heads = bodies = False
        for e in outer:
            if e.kind != 'loop':
                heads = bodies = True
                continue
            k = e.a[0]

            def rule(x):
                x = noop(x)
                return x.k in ('sub', 'elem') and len(x.a) > 1 and x.a[1].k == 'idx' and x.a[1].a[0] == k

            def part(x, name):
                x = noop(x)
                return x.k == 'attr' and x.a[1] == name and rule(x.a[0])
            inner = [x for x in p.events if x.kind in ('loop', 'loop0') and any(c[0] == 'loop' and c[1] == k for c in x.ctx) and x is not e]
            covers_head = covers_body = False
            for x in inner:
                it = p.res(x.a[1]) if x.a[1].k != 'obj' else x.a[1]
                if part(it, 'body'):
                    covers_body = True
                qs = pieces(p, it)
                if any(part(q.v, 'head') for q in qs if q.kind == 'one'):
                    covers_head = covers_head or any(q.kind == 'seq' and part(q.v, 'body') for q in qs)
                    covers_body = covers_body or any(q.kind == 'seq' and part(q.v, 'body') for q in qs)
                elif any(q.kind == 'seq' and part(q.v, 'body') for q in qs):
                    covers_body = True
            for a, b in p.facts.items():
                t = is_call(a, 'isinstance') and len(a.a[1]) == 2
                if not t:
                    continue
                x = a.a[1][0]
                if part(x, 'head'):
                    covers_head = True
                    if b is True:
                        n += 1
                        ctx.need(Attr(x, 'fn') in got, R, f.ref + ' heads', p.where(), 'the functor of a head is not recorded')
                elif x.k in ('sub', 'elem') and len(x.a) > 1 and x.a[1].k == 'idx' and any(y.a[0] == x.a[1].a[0] for y in inner):
                    if b is True:
                        n += 1
                        ctx.need(Attr(x, 'fn') in got, R, f.ref + ' bodies', p.where(), 'the functor of a subgoal is not recorded')
            if Attr(Attr(Sub(me, V('idx', k, me)), 'head'), 'fn') in got or any(q.k == 'attr' and q.a[1] == 'fn' and part(q.a[0], 'head') for q in got if isinstance(q, V)):
                covers_head = True
            heads, bodies = heads or covers_head, bodies or covers_body
        ctx.need(heads, R, f.ref + ' heads', p.where(), 'the functors of the heads are not recorded')
        ctx.need(bodies, R, f.ref + ' bodies', p.where(), 'the functors of the subgoals are not recorded')
    ctx.floor(n, 1, 'recorded symbols')


def in_syms(a, v, me):
    "the test `v in me.syms`"
    return a.k == 'cmp' and a.a[0] == 'in' and (a.a[1] is v or v is None) and a.a[2].k == 'attr' and a.a[2].a[1] == 'syms' and a.a[2].a[0] is me


def generator(ctx, m):
    R = 'new name'
    for q in ('Program._gen_functor', 'Program.gen_functor'):
        f = m.func('dyna.program', q)
        me = param(f, 0)
        others = [param(f, i) for i in range(2, len(f.node.args.args))]
        n = 0
        paths = list(ctx.paths(f))
        for p in paths:
            if p.kind != 'return' or p.value is None:
                continue
            v = p.res(p.value)
            n += 1
            tests = [lambda a, v, me=me: in_syms(a, v, me)] + [lambda a, v, o=o: a.k == 'cmp' and a.a[0] == 'in' and (a.a[1] is v or v is None) and contains(a.a[2], o) for o in others]
            for t in tests:
                ok = any(b is False and t(a, v) for a, b in p.facts.items())
                if not ok:
                    # the value that a loop leaves behind once its test fails
                    for e in p.events:
                        if e.kind == 'carry' and p.res(e.a[3]) is v and any(t(a, None) and a.a[1].k == 'phi' and a.a[1].a[1] == e.a[1] for x in paths for a in x.facts):
                            ended = [x for x in p.events if x.kind == 'loopend' and x.a[0] == e.a[0]]
                            ok = ok or (bool(ended) and not ended[0].a[1])
                ctx.need(ok, R, f.ref, p.where(), 'a name is handed out that may already be in use')
            # the candidates of a loop must differ from one another
            for e in p.events:
                if e.kind == 'carry' and p.res(e.a[3]) is v and any(in_syms(a, e.a[2], me) for a in p.facts):
                    nxt = p.res(e.a[3])
                    moving = [x for x in p.events if x.kind == 'carry' and x.a[0] == e.a[0] and x.a[1] != e.a[1] and contains(nxt, p.res(x.a[3])) and x.a[3] is not x.a[2]]
                    ctx.need(contains(nxt, e.a[2]) and nxt is not e.a[2] or bool(moving), R, f.ref + ' progress', e.where, 'the candidate names do not change')
        ctx.floor(n, 1, f'names handed out by {q}')


def counter(ctx, m):
    "The global generator never repeats a name between resets."
    f = m.func('dyna.term', 'gen_functor')
    for p in ctx.paths(f):
        if p.kind != 'return' or p.value is None:
            continue
        up = [e for e in p.events if e.kind == 'setattr' and e.a[1] == 'i']
        ok = len(up) == 1
        if ok:
            new = p.res(up[0].a[2])
            old = Attr(up[0].a[0], 'i')
            ok = new.k == 'bin' and new.a[0] == '+' and old in (new.a[1], new.a[2]) and any(is_const(x) and isinstance(x.a[0], int) and x.a[0] > 0 for x in new.a[1:])
            v = p.res(p.value)
            ok = ok and (contains(v, new) or contains(v, old))
        ctx.need(ok, 'new name', f.ref, p.where(), 'the counter does not advance with every name')


GEN = ('gen_functor', '_gen_functor')
SITES = [('dyna.program', 'Program.magic_templates'), ('dyna.program', 'Program.linearize'), ('dyna.program', 'Program.loop_absorption')]


def sites(ctx, m):
    R = 'helper items'
    for mod, q in SITES:
        f = m.func(mod, q)
        me = param(f, 0)
        n = 0
        for p in ctx.paths(f, inline=('Program._loop_absorption', '_loop_absorption')):
            for e in p.events:
                if e.kind != 'call' or not is_call(e.a[0], 'Term') or not e.a[0].a[1]:
                    continue
                fn = e.a[0].a[1][0]
                if fn.k == 'attr' and fn.a[1] == 'fn':
                    continue
                n += 1
                ok = is_call(fn, *GEN) and recv(fn) is me
                ctx.need(ok, R, f.ref, e.where, f'the helper item is named {short(fn)}, which may already be in use')
                if ok:
                    # one helper per step: the name is made in the innermost loop that enumerates the steps
                    g = next((x for x in p.events if x.kind == 'call' and x.a[0] is fn), None)
                    if q.endswith('linearize'):
                        here = [c[1] for c in e.ctx if c[0] == 'loop']
                        there = [c[1] for c in g.ctx if c[0] == 'loop'] if g is not None else here
                        again = fname(fn.a[0]) == '_gen_functor' and bool(here) and len(fn.a[1]) + len(fn.a[2]) < 2      # the same name every time
                        ctx.need(here == there and not again, R, f.ref + ' one name per step', e.where, 'several helper items share a name')
        ctx.floor(n, 1, f'helper items of {q}')


def marks(ctx, m):
    "The two names of the slash and the left-corner rewrites."
    R = 'helper items'
    for mod, q in (('dyna.transform.slash', 'Slash'), ('dyna.transform.lct', 'LCT')):
        cls = m.cls(mod, q)
        used = {}
        for g in cls.methods.values():
            if g.name == '__init__':
                continue
            for p in ctx.paths(g):
                for e in p.events:
                    if e.kind == 'call' and is_call(e.a[0], 'Term') and e.a[0].a[1]:
                        fn = e.a[0].a[1][0]
                        if fn.k == 'attr' and fn.a[0] is param(g, 0):
                            used[fn.a[1]] = e
                        elif fn.k != 'attr' or fn.a[1] != 'fn':
                            ctx.fail(R, g.ref, e.where, f'the helper item is named {short(fn)}, which may already be in use')
        ctx.floor(len(used), 2, f'names of the helper items of {q}')
        f = cls.methods['__init__']
        prog = param(f, 1)
        for p in ctx.paths(f):
            if p.kind == 'raise':
                continue
            vals = []
            for name in used:
                v = [p.res(e.a[2]) for e in p.events if e.kind == 'setattr' and e.a[0] is param(f, 0) and e.a[1] == name]
                ok = len(v) >= 1 and is_call(v[-1], *GEN) and (recv(v[-1]) is prog)
                ctx.need(ok, R, f'{f.ref} {name}', p.where(), f'the name {short(v[-1]) if v else None} may already be in use')
                vals += v[-1:]
            ctx.need(len(set(vals)) == len(used), R, f.ref + ' distinct names', p.where(), 'two kinds of helper items share a name')


def abbreviations(ctx, m):
    R = 'abbreviated names'
    cls = m.cls('dyna.analyze.abbreviate', 'Abbreviate')
    f = cls.methods['__init__']
    prog = param(f, 1)
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind != 'setitem':
                continue
            v = p.res(e.a[2])
            if not (is_call(v, *GEN) or (v.k == 'bin' or v.k == 'fstr' or is_const(v) and isinstance(v.a[0], str))):
                continue
            loop = [c for c in e.ctx if c[0] == 'loop']
            if not loop:
                continue
            D = e.a[0]
            n += 1
            ok = is_call(v, *GEN) and recv(v) is not None and (recv(v) is prog or (recv(v).k == 'attr' and recv(v).a[1] == 'parent'))
            ctx.need(ok, R, f.ref, e.where, f'a type is named {short(v)}, which may already be in use')
            if ok:
                extra = list(v.a[1][1:]) + [b for _, b in v.a[2]]
                used = any(contains(p.res(x) if x.k != 'obj' else x, D) or contains(x, D) for x in extra)
                tested = any(b is False and a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is v and contains(a.a[2], D) for a, b in p.facts.items())
                unique = is_call(v, 'gen_functor')
                ctx.need(used or tested or unique, R, f.ref + ' distinct', e.where, 'two types may get the same name')
                ctx.need(any(x.k == 'idx' for x in walk(p.res(e.a[1]))), R, f.ref + ' key', e.where, 'the name is not recorded for its own type')
    if not n:
        # the names may be built in one expression
        ctx.fail(R, f.ref, f.ref, 'no names are recorded for the types')
    # the recorded name is the one that is used
    users = 0
    for g in cls.methods.values():
        if g is f:
            continue
        for p in ctx.paths(g):
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], 'Term') and e.a[0].a[1]:
                    fn = e.a[0].a[1][0]
                    if fn.k == 'const' or fn.k == 'fstr' or fn.k == 'bin' or (fn.k == 'attr' and fn.a[1] == 'fn'):
                        if is_const(fn) and isinstance(fn.a[0], str) and fn.a[0].startswith('$'):
                            continue
                        ctx.fail(R, g.ref, e.where, f'an abbreviated item is named {short(fn)}, not by the name recorded for its type')
                        users += 1
                    elif fn.k == 'sub':
                        users += 1
                        ctx.need(fn.a[1].k == 'attr' and fn.a[1].a[1] == 'i', R, g.ref, e.where, f'an abbreviated item is named {short(fn)}, not by the name recorded for its type')
    ctx.floor(users, 1, 'uses of abbreviated names')


# ------------------------------------------------------------------ C22
@check('C22', 'symbolic accounting of the rules that linearization and goal-directed rewriting produce, and guard analysis of the dependency walk and of the priorities',
       'Linearization must record every unifying pair that it enumerates and turn each record into one replaced subgoal and one helper rule; goal-directed rewriting must produce, per output, rule and '
       'subgoal, exactly the demanded rules; the evaluator must collect every dependency of every rule and drop an item only when no supported item matches it.',
       [])
def c22(ctx):
    m = ctx.m
    split_pairs(ctx, m)
    split_apply(ctx, m)
    magic(ctx, m)
    dependencies(ctx, m)
    priorities(ctx, m)
    passes(ctx, m)
    booleans(ctx, m)


def itv(p, e):
    "what a loop iterates over"
    return p.res(e.a[1]) if isinstance(e.a[1], V) else NONE


def rewritten(p):
    "The rules of the transformed program that is built on this path: (event, rules value)."
    for e in p.events:
        if e.kind == 'call' and is_call(e.a[0], 'TransformedProgram', 'spawn') and e.a[0].a[1]:
            return e, e.a[0].a[1][-1]
    return None


def rule_elem(v, prog):
    "loop id if v is the element of a loop over all the rules of prog."
    v = noop(v)
    if v.k in ('sub', 'elem') and len(v.a) > 1 and v.a[1].k == 'idx' and all_rules(v.a[0], prog):
        return v.a[1].a[0]
    return None


def pair_of(p, q, me):
    "(i, j) of a recorded pair."
    v = p.res(q)
    if v.k == 'tup' and len(v.a[1]) == 2:
        return v.a[1]
    return None


def split_pairs(ctx, m):
    R = 'pairs'
    f = m.func('dyna.program', 'Program.linearize')
    me = param(f, 0)
    driver = param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        # loops over positions of one rule
        adds = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('add', 'append') and pair_of(p, e.a[2], me) is not None]
        lookups = []
        for a, b in p.facts.items():
            if is_call(a, 'unifies') and len(a.a[1]) == 2:
                x, y = (noop(z) for z in a.a[1])
                if driver in (x, y):
                    continue
                lookups.append((a, x, y, b))
        outer = [e for e in p.events if e.kind in ('loop', 'loop0') and all_rules(itv(p, e), me) and not [c for c in e.ctx if c[0] == 'loop' and c[1] != e.a[0]]]
        if not outer:
            ctx.fail(R, f.ref + ' rules', p.where(), 'the pairs are not collected from every rule')
            continue
        for e in p.events:
            if e.kind == 'loopend' and e.a[1]:
                ctx.fail(R, f.ref + ' all pairs', e.where, 'the enumeration of the pairs ends early')
        first = outer[0]
        if first.kind == 'loop0':
            continue
        k0 = first.a[0]
        rl = next((w for e in p.events for x in e.a if isinstance(x, V) for w in walk(p.res(x)) if rule_elem(w, me) == k0), None)
        if rl is None:
            ctx.fail(R, f.ref + ' all pairs', first.where, 'the subgoals of the rule are not enumerated')
            continue
        B = Attr(rl, 'body')
        inner = [e for e in p.events if e.kind in ('loop', 'loop0') and any(c[0] == 'loop' and c[1] == k0 for c in e.ctx) and e is not first]
        if not inner:
            ctx.fail(R, f.ref + ' all pairs', first.where, 'the subgoals of the rule are not enumerated')
            continue
        one = inner[0]
        it1 = itv(p, one)
        comb = is_call(noop(it1), 'combinations') and len(noop(it1).a[1]) == 2 and is_const(noop(it1).a[1][1], 2)
        if comb:
            src = noop(noop(it1).a[1][0])
            ok = noop(src) is B or all_positions(src, (B,))
            ctx.need(ok, R, f.ref + ' first', one.where, f'the pairs are taken from {short(it1)}, not from every position')
        else:
            ok = noop(it1) is B or from_every(it1, B)
            ctx.need(ok, R, f.ref + ' first', one.where, f'the first subgoal of a pair is taken from {short(it1)}, not from every position')
        if not ok or one.kind == 'loop0':
            continue
        j = V('idx', one.a[0], None)
        two = [e for e in inner if e is not one and any(c[0] == 'loop' and c[1] == one.a[0] for c in e.ctx)]
        X = next((w for e in p.events for x in e.a if isinstance(x, V) for w in walk(p.res(x)) if w.k == 'sub' and w.a[0] is B and w.a[1].k == 'idx' and w.a[1].a[0] == one.a[0]), None)
        skipped = any((is_call(a, 'is_const', 'is_builtin') and b is True and (not a.a[1] or noop(a.a[1][0]).k == 'sub')) or
                      (is_call(a, 'unifies') and driver in a.a[1] and b is False) for a, b in p.facts.items())
        undriven = any(a.k == 'cmp' and driver in a.a and b is True for a, b in p.facts.items()) and any(is_call(a, 'unifies') and driver in a.a[1] for a in p.facts)
        if not comb:
            if not two:
                ctx.need(skipped, R, f.ref + ' second', one.where, 'the subgoals after this one are not compared with it')
                n += 1
                continue
            it2 = itv(p, two[0])
            if two[0].kind == 'loop0' and from_every(it2, B):
                continue
            ctx.need(later(it2, B, one.a[0]) or any(ordered_fact(a, one.a[0], two[0].a[0]) for a in p.facts), R, f.ref + ' second', two[0].where, f'the second subgoal of a pair is taken from {short(it2)}, not from every later position')
            if two[0].kind == 'loop0':
                continue
        n += 1
        if skipped or undriven:
            continue
        if any(ordered_fact(a, one.a[0], two[0].a[0] if two else None) and b is False for a, b in p.facts.items()):
            continue
        verdict = [b for a, x, y, b in lookups]
        if not verdict:
            ctx.need(bool(adds), R, f.ref + ' recorded', p.where(), 'a pair of unifying subgoals is left alone')
        elif any(b is True for b in verdict):
            ctx.need(bool(adds), R, f.ref + ' recorded', p.where(), 'a pair of unifying subgoals is left alone')
        for e in adds:
            i, k = pair_of(p, e.a[2], me)
            kk, off = idx(k)
            ok = i.k == 'idx' and i.a[0] == k0 and ((kk is not None and kk.k == 'idx' and any(kk.a[0] == t.a[0] for t in inner)) or kk is not None and any(w.k == 'idx' and any(w.a[0] == t.a[0] for t in inner) for w in walk(kk)))
            ctx.need(ok, R, f.ref + ' record', e.where, f'the recorded position ({short(i)}, {short(k)}) is not one of the pair')
    ctx.floor(n, 2, 'enumerated pairs')


def from_every(it, B):
    "all positions, or all but the last (which has no later partner)"
    it = noop(it)
    if all_positions(it, (B,)):
        return True
    if is_call(it, 'range') and len(it.a[1]) == 1:
        b, o = idx(it.a[1][0])
        return b is not None and is_call(b, 'len') and noop(b.a[1][0]) is B and o >= -1
    return False


def later(it, B, k1):
    "every position after the one of loop k1"
    it = noop(it)

    def after(x):
        b, o = idx(x)
        return b is not None and b.k == 'idx' and b.a[0] == k1 and o in (0, 1) and (o == 1)
    if is_call(it, 'range') and len(it.a[1]) == 2:
        return after(it.a[1][0]) and is_call(it.a[1][1], 'len') and noop(it.a[1][1].a[1][0]) is B
    if is_call(it, 'enumerate') and it.a[1]:
        x = noop(it.a[1][0])
        start = it.a[1][1] if len(it.a[1]) > 1 else dict(it.a[2]).get('start')
        return body_tail(x, B, after) and start is not None and after(start)
    if is_call(it, 'zip', 'islice'):
        return any(later(x, B, k1) for x in it.a[1])
    return body_tail(it, B, after)


def body_tail(x, B, after):
    return x.k == 'sub' and x.a[0] is B and x.a[1].k == 'slice' and after(x.a[1].a[0]) and is_const(x.a[1].a[1], None) and is_const(x.a[1].a[2], None)


def ordered_fact(a, k1, k2):
    "the test j < k (in one of its spellings)"
    if a.k != 'cmp' or a.a[0] not in ('<', '<=') or k2 is None:
        return False
    x, y = a.a[1], a.a[2]
    return x.k == 'idx' and y.k == 'idx' and {x.a[0], y.a[0]} == {k1, k2}


def split_apply(ctx, m):
    R = 'split'
    f = m.func('dyna.program', 'Program.linearize')
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        out = p.value
        got = rewritten(p)
        recorded = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('add', 'append') and pair_of(p, e.a[2], me) is not None]
        if got is None:
            empty = any(b is False and (is_call(a, 'OrderedSet', 'set', 'list') or a.k == 'obj' or is_call(a, 'len')) for a, b in p.facts.items())
            ctx.need(not recorded or empty, R, f.ref + ' applied', p.where(), 'subgoals that should be split are left alone')
            continue
        e0, rules = got
        pcs = pieces(p, rules)
        base = [q for q in pcs if q.kind == 'seq']
        ok = len(base) == 1 and all_rules(base[0].v, me)
        ctx.need(ok, R, f.ref + ' rules kept', e0.where, 'the split program does not start from all the rules')
        rest = [q for q in pcs if q.kind != 'seq']
        calls = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'Term') and len(e.a[0].a[1]) >= 1 and is_call(e.a[0].a[1][0], *GEN)]
        if not calls:
            lost = [e for e in p.events if e.kind == 'loop' and not all_rules(itv(p, e), me) and not any(c[0] == 'loop' and c[1] != e.a[0] for c in e.ctx) and e.n > (recorded[-1].n if recorded else 0) and recorded]
            ctx.need(not rest and not lost, R, f.ref + ' helper', e0.where, 'a recorded subgoal gets no helper')
            continue
        for c in calls:
            h = c.a[0]
            n += 1
            arg = [x for x in h.a[1][1:]]
            sub = None
            if len(arg) == 1 and arg[0].k == 'star' and arg[0].a[0].k == 'attr' and arg[0].a[0].a[1] == 'args':
                sub = arg[0].a[0].a[0]
            r = i = k = None
            if sub is not None and sub.k == 'sub':
                k = sub.a[1]
                r = sub.a[0].a[0] if sub.a[0].k == 'attr' and sub.a[0].a[1] == 'body' else None
            if r is None:
                ctx.fail(R, f.ref + ' helper', c.where, f'the helper {short(h)} does not take all the arguments of the subgoal')
                continue
            current = r.k == 'sub' and (same(p, r.a[0], rules))
            ctx.need(current, R, f.ref + ' current rule', c.where, f'the subgoal is taken from {short(r)}, not from the current form of the rule')
            if not current:
                continue
            i = r.a[1]
            # the recorded pair
            src = [x for x in p.events if x.kind == 'loop' and any(w.k == 'idx' and w.a[0] == x.a[0] for w in walk(i))]
            ctx.need(bool(src) and any(w.k == 'idx' and w.a[0] == src[-1].a[0] for w in walk(k)), R, f.ref + ' recorded', c.where, 'the split subgoal is not a recorded one')
            mine = [q for q in rest if src and in_loop(q, src[-1].a[0])]
            added = [q for q in mine if q.kind == 'one']
            replaced = [q for q in mine if q.kind == 'set']
            ok = len(added) == 1 and len(mine) == len(added) + len(replaced)
            ok = ok and is_helper_rule(p, added[0].v, h, sub)
            ctx.need(ok, R, f.ref + ' helper rule', c.where, 'the helper is not defined by exactly one rule over the subgoal it replaces')
            ok = len(replaced) == 1 and replaced[0].i is i
            if ok:
                ok = spliced(p, replaced[0].v, r, k, h)
            ctx.need(ok, R, f.ref + ' replaced', c.where, 'the rule is not the old one with just this subgoal replaced by the helper')
    ctx.floor(n, 1, 'split subgoals')


def same(p, a, b):
    return a is b or noop(a) is noop(b) or p.res(a) is p.res(b)


def is_helper_rule(p, v, h, sub):
    parts = rule_parts(p, v)
    return parts is not None and unfresh(parts[0]) is h and len(parts[1]) == 1 and parts[1][0].kind == 'one' and parts[1][0].v is sub


def spliced(p, v, r, k, h):
    "v is the rule r with the subgoal at position k replaced by h"
    parts = rule_parts(p, v)
    if parts is None or parts[0] is not Attr(r, 'head'):
        return False
    B = Attr(r, 'body')
    qs = parts[1]
    if len(qs) == 2 and qs[0].kind == 'seq' and noop(qs[0].v) is B and qs[1].kind == 'set':
        return qs[1].i is k and qs[1].v is h
    if len(qs) == 3 and qs[1].kind == 'one' and qs[1].v is h:
        a, b = body_part(qs[0].v, (B,)), body_part(qs[2].v, (B,))
        return a == ((None, 0), (k, 0)) and b == ((k, 1), None)
    if len(qs) == 1 and qs[0].kind == 'one':
        # one element of a comprehension over the body
        for x in p.events:
            if x.kind == 'loop' and all_positions(itv(p, x), (B,)):
                here = [b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == '==' and k in a.a[1:3] and any(w.k == 'idx' and w.a[0] == x.a[0] for w in a.a[1:3])]
                if here == [True]:
                    return qs[0].v is h
                if here == [False]:
                    w = qs[0].v
                    return w.k == 'sub' and w.a[0] is B and w.a[1].k == 'idx' and w.a[1].a[0] == x.a[0]
    if not qs:
        return any(x.kind == 'loop0' and all_positions(x.a[1], (B,)) for x in p.events)
    return False


def magic(ctx, m):
    R = 'demand'
    f = m.func('dyna.program', 'Program.magic_templates')
    me = param(f, 0)
    n = [0, 0, 0]
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        got = rewritten(p)
        if got is None:
            ctx.fail(R, f.ref, p.where(), 'no goal-directed program is built')
            continue
        e0, rules = got
        pcs = pieces(p, rules)
        odd = [q for q in pcs if q.kind != 'one' or rule_parts(p, q.v) is None]
        ctx.need(not odd, R, f.ref + ' rules', e0.where, f'something else than the demanded rules: {odd[:1]}')
        for e in p.events:
            if e.kind == 'loopend' and e.a[1]:
                ctx.fail(R, f.ref + ' complete', e.where, 'the rewriting ends early')
        outs = [e for e in p.events if e.kind in ('loop', 'loop0') and over_attr(itv(p, e), me, 'outputs')]
        rls = [e for e in p.events if e.kind in ('loop', 'loop0') and all_rules(itv(p, e), me)]
        ctx.need(bool(outs), R, f.ref + ' outputs', p.where(), 'the outputs are not demanded')
        ctx.need(bool(rls), R, f.ref + ' all rules', p.where(), 'not every rule is kept')
        perms = permutations(ctx, f, p)
        for e in outs:
            if e.kind != 'loop':
                continue
            k = e.a[0]
            mine = [q for q in pcs if q.kind == 'one' and any(c[1] == k for c in q.ctx)]
            o = elem_of(p, e, k)
            n[0] += 1
            ok = len(mine) == 1 and o is not None
            if ok:
                h, body = rule_parts(p, mine[0].v)
                ok = demand(h, Attr(o, 'head')) and is_permutation(p, body, Attr(o, 'body'), perms, k)
            ctx.need(ok, R, f.ref + ' outputs', e.where, 'an output is not demanded by exactly one rule with the conditions of the output')
        for e in rls:
            if e.kind != 'loop':
                continue
            k = e.a[0]
            mine = [q for q in pcs if q.kind == 'one' and any(c[1] == k for c in q.ctx)]
            r = elem_of(p, e, k)
            if r is None:
                ctx.fail(R, f.ref + ' rule', e.where, 'a rule is left out')
                continue
            H, B = Attr(r, 'head'), Attr(r, 'body')
            answer = [q for q in mine if rule_parts(p, q.v)[0] is H]
            dem = [q for q in mine if q not in answer]
            n[1] += 1
            ok = len(answer) == 1
            ordered = None
            if ok:
                body = rule_parts(p, answer[0].v)[1]
                g = [q for q in body if q.kind == 'one' and demand(q.v, H)]
                rest = [q for q in body if q not in g]
                ok = len(g) == 1
                ctx.need(ok, R, f.ref + ' guard', answer[0].e.where, 'the rule is not guarded by the demand for its head')
                ok2 = is_permutation(p, rest, B, perms, k)
                ctx.need(ok2, R, f.ref + ' kept', answer[0].e.where, 'the guarded rule does not have exactly the subgoals of the rule')
                ordered = rest
            else:
                ctx.fail(R, f.ref + ' kept', e.where, f'{len(answer)} guarded rules for one rule')
                continue
            # the demands
            inner = [x for x in p.events if x.kind in ('loop', 'loop0') and any(c[0] == 'loop' and c[1] == k for c in x.ctx) and x is not e]
            dl = [x for x in inner if over_ordered(p, x, ordered, perms, k, B)]
            if not dl:
                ctx.need(not ordered or any(x.kind == 'loop0' for x in inner) or no_elements(p, B), R, f.ref + ' subgoals', e.where, 'the subgoals of the rule are not demanded')
                for q in dem:
                    ctx.fail(R, f.ref + ' subgoals', q.e.where, 'a demand for something that is not a subgoal')
                continue
            for x in dl:
                if x.kind != 'loop':
                    continue
                S = sequence(p, x)
                els = [q.v for q in pieces(p, S) if q.kind == 'one']
                if S.k in ('obj', 'tup') and not pieces(p, S):
                    continue            # no such execution: an element of an empty list
                mined = [q for q in dem if made_in(p, q, x.a[0])]
                cls = [(a, b) for a, b in p.facts.items() if is_call(a, 'is_exogenous', 'is_const', 'is_builtin', 'is_input') and a.a[1]]
                exo = any(is_call(a, 'is_exogenous') and b is True for a, b in cls) or (any(is_call(a, 'is_const') and b for a, b in cls))
                n[2] += 1
                if exo:
                    continue
                subj = [a.a[1][0] for a, b in cls if is_call(a, 'is_exogenous')]
                if len(mined) != 1:
                    ctx.fail(R, f.ref + ' subgoals', x.where, f'{len(mined)} demands for a subgoal that is not defined elsewhere')
                    continue
                h, body = rule_parts(p, mined[0].v)
                s = h.a[1][1] if is_call(h, 'Term') and len(h.a[1]) == 2 and is_call(h.a[1][0], *GEN) else None
                ok = s is not None and (s in els or (subgoal_of(s, x.a[0]) and sequence_is(p, s.a[0], S))) and (not subj or any(x is s or p.res(x) is p.res(s) for x in subj))
                ctx.need(ok, R, f.ref + ' subgoals', mined[0].e.where, f'the demand is for {short(h)}, not for the subgoal')
                g = [q for q in body if q.kind == 'one' and demand(q.v, H)]
                ctx.need(len(g) == 1, R, f.ref + ' demand guard', mined[0].e.where, 'the demand does not depend on the demand for the head')
                rest = [q for q in body if q not in g]
                ctx.need(prefix(p, rest, S, x), R, f.ref + ' conditions', mined[0].e.where, 'the demand is not conditioned on exactly the subgoals before it')
            stray = [q for q in dem if not any(made_in(p, q, x.a[0]) for x in dl)]
            ctx.need(not stray, R, f.ref + ' subgoals', e.where, 'a demand outside the loop over the subgoals')
    for c, what in zip(n, ('outputs', 'rules', 'subgoals')):
        ctx.floor(c, 1, 'rewritten ' + what)


def over_attr(it, me, name):
    it = noop(it)
    if is_call(it, 'enumerate', 'iter') and it.a[1]:
        it = noop(it.a[1][0])
    if it.k == 'attr' and it.a[1] == 'rules':
        it = it.a[0]
    return it.k == 'attr' and it.a[1] == name and it.a[0] is me


def elem_of(p, e, k):
    for x in p.events:
        if any(c[0] == 'loop' and c[1] == k for c in x.ctx):
            for a in x.a:
                if isinstance(a, V):
                    for w in walk(p.res(a) if a.k != 'obj' else a):
                        if w.k in ('sub', 'elem') and len(w.a) > 1 and w.a[1].k == 'idx' and w.a[1].a[0] == k:
                            return w
    return None


def demand(v, x):
    return is_call(v, 'Term') and len(v.a[1]) == 2 and is_call(v.a[1][0], *GEN) and v.a[1][1] is x


def permutations(ctx, f, p):
    """Local lists that are filled by moving elements out of a copy of a body: [(list, source body, loop id, moved values)]."""
    out = []
    R = 'demand'
    loops_ = {e.a[0]: e for e in p.events if e.kind == 'loop'}
    for k, e in loops_.items():
        rem = [x for x in p.events if x.kind == 'mutate' and x.a[1] in ('remove', 'pop', 'popleft') and any(c[0] == 'loop' and c[1] == k for c in x.ctx)]
        app = [x for x in p.events if x.kind == 'mutate' and x.a[1] in ('append',) and any(c[0] == 'loop' and c[1] == k for c in x.ctx)]
        for x in rem:
            Y = p.res(x.a[0]) if x.a[0].k != 'obj' else x.a[0]
            B = source_body(p, Y)
            if B is None or innermost(x) != k:
                continue
            moved = x.a[2] if x.a[1] == 'remove' else None
            to = [y for y in app if innermost(y) == k and y.a[0] is not x.a[0] and (y.a[2] is moved if moved is not None else is_call(y.a[2], 'pop', 'popleft') and same(p, recv(y.a[2]), x.a[0]))]
            out.append((Y, B, k, [y.a[2] for y in to], [y.a[0] for y in to], x))
            ctx.need(len(to) == 1, R, f.ref + ' order', x.where, 'a subgoal gets lost when the subgoals are ordered')
            if moved is not None:
                ctx.need(contains(moved, x.a[0]) or contains(moved, Y), R, f.ref + ' order', x.where, 'the moved subgoal is not one of the remaining ones')
            tests = [a for a, b in p.facts.items() if whole(p, a, x.a[0], Y, B)]
            it = p.res(e.a[1]) if isinstance(e.a[1], V) else None
            counted = it is not None and (noop(it) is B or all_positions(it, (B,)) or is_call(noop(it), 'range') and is_call(noop(it).a[1][-1], 'len') and len(noop(it).a[1]) == 1)
            ctx.need(bool(tests) or counted, R, f.ref + ' order', x.where, 'the ordering may end before all subgoals are placed')
    return out


def innermost(e):
    ks = [c[1] for c in e.ctx if c[0] == 'loop']
    return ks[-1] if ks else None


def source_body(p, Y):
    y = noop(Y)
    if y.k == 'attr' and y.a[1] == 'body':
        return y
    if Y.k == 'obj':
        pcs = [q for q in pieces(p, Y) if q.kind == 'seq']
        if len(pcs) == 1:
            y = noop(pcs[0].v)
            if y.k == 'attr' and y.a[1] == 'body':
                return y
    return None


def whole(p, a, Y0, Y, B):
    "a test that fails exactly when nothing remains"
    def rem(x):
        return x is Y0 or x is Y or (x.k == 'phi' and x.a[2] in (Y0, Y))

    def size(x):
        return is_call(x, 'len') and x.a[1] and rem(x.a[1][0])
    if rem(a) or size(a):
        return True
    if a.k == 'cmp':
        op, x, y = a.a[:3]
        if op == '==' and (size(x) and is_const(y, 0) or size(y) and is_const(x, 0)):
            return True
        if op in ('<',) and is_const(x, 0) and size(y):
            return True
        if op in ('<=',) and is_const(x, 1) and size(y):
            return True
        if op in ('<', '==') and is_call(x, 'len') and is_call(y, 'len'):
            return noop(y.a[1][0]) is B or noop(x.a[1][0]) is B
    return False


def no_elements(p, B):
    return any(b is False and (noop(a) is B or is_call(a, 'len') and noop(a.a[1][0]) is B) for a, b in p.facts.items())


def is_permutation(p, qs, B, perms, k):
    "the pieces hold every subgoal of B exactly once (in the number of iterations of this path)"
    if len(qs) == 1 and qs[0].kind == 'seq':
        v = noop(qs[0].v)
        while is_call(v, 'sorted', 'reversed') and v.a[1]:
            v = noop(v.a[1][0])
        return v is B
    mine = [x for x in perms if x[1] is B and any(c[0] == 'loop' and c[1] == k for c in x[5].ctx)]
    if not qs:
        return no_elements(p, B)
    moved = [v for x in mine for v in x[3]]
    return [q.v for q in qs] == moved and all(q.kind == 'one' for q in qs)


def over_ordered(p, e, ordered, perms, k, B):
    "e is a loop over the ordered subgoals"
    it = p.res(e.a[1]) if isinstance(e.a[1], V) and e.a[1].k != 'obj' else e.a[1]
    if not isinstance(it, V):
        return False
    it = noop(it)
    if is_call(it, 'enumerate') and it.a[1]:
        it = noop(it.a[1][0])
    elif is_call(it, 'range') and len(it.a[1]) == 1 and is_call(it.a[1][0], 'len'):
        it = noop(it.a[1][0].a[1][0])
    lists = [y for x in perms for y in x[4]]
    if it in lists or any(p.res(y) is p.res(it) for y in lists):
        return True
    if it.k in ('obj', 'tup'):
        vs = [q.v for q in pieces(p, it)]
        return vs == [q.v for q in ordered] and all(q.e is None or True for q in pieces(p, it))
    while is_call(it, 'sorted', 'reversed') and it.a[1]:
        it = noop(it.a[1][0])
    return it is B


def subgoal_of(s, k):
    return s.k in ('sub', 'elem') and len(s.a) > 1 and s.a[1].k == 'idx' and s.a[1].a[0] == k


def made_in(p, q, k):
    "the contribution is made in loop k, or its rule is"
    if any(c[1] == k for c in q.ctx):
        return True
    return any(e.kind == 'call' and is_call(e.a[0], 'Rule') and (e.a[0] is q.v or p.res(e.a[0]) is p.res(q.v)) and any(c[0] == 'loop' and c[1] == k for c in e.ctx) for e in p.events)


def sequence(p, e):
    "the sequence that loop e walks through, by element or by position"
    it = e.a[1]
    if is_call(it, 'enumerate') and it.a[1]:
        it = it.a[1][0]
    elif is_call(it, 'range') and len(it.a[1]) == 1 and is_call(it.a[1][0], 'len'):
        it = it.a[1][0].a[1][0]
    return it


def sequence_is(p, a, S):
    return a is S or noop(a) is noop(S) or p.res(a) is p.res(S)


def prefix(p, qs, S, e):
    "the pieces are exactly the elements of S before the current one of loop e"
    if len(qs) == 1 and qs[0].kind == 'seq':
        v = noop(qs[0].v)
        if v.k == 'sub' and v.a[1].k == 'slice':
            lo, hi, st = v.a[1].a[:3]
            b, o = idx(hi)
            return (is_const(lo, None) or is_const(lo, 0)) and is_const(st, None) and b is not None and b.k == 'idx' and b.a[0] == e.a[0] and o == 0 and sequence_is(p, v.a[0], S)
        return False
    return not qs and grows(p, e)


def grows(p, e):
    "a local list that is extended by the current element after its use"
    return any(x.kind == 'mutate' and x.a[1] == 'append' and x.a[0].k == 'obj' and innermost(x) == e.a[0] and not is_call(unfresh(x.a[2]), 'Rule') for x in p.events)


def nested(m, f):
    return [g for g in m.all_funcs(nested=True) if g.outer is not None and getattr(g.outer, 'node', g.outer) is f.node]


def names_called(g):
    return {n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None) for n in ast.walk(g.node) if isinstance(n, ast.Call)}


def helpers_of(m, f):
    "Nested functions of f, and methods or module functions of its module that it names."
    used = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(f.node) if isinstance(n, (ast.Attribute, ast.Name))}
    out = nested(m, f)
    out += [g for g in m.all_funcs(nested=False) if g.mod is f.mod and g.name in used and g.node is not f.node]
    return out


def dependencies(ctx, m):
    R = 'dependencies'
    f = m.func('dyna.program', 'Program.scc_solver')
    cands = [g for g in helpers_of(m, f) if {'lookup', 'ground_out_rule'} <= names_called(g)]
    if not cands:
        ctx.fail(R, f.ref, f.ref, 'the dependencies of an item are not collected from the rules that match it')
        return
    n = 0
    for g in cands:
        direct = any(isinstance(x, ast.Call) and getattr(x.func, 'id', None) == 'tarjan' and x.args and isinstance(x.args[0], (ast.Name, ast.Attribute)) and getattr(x.args[0], 'id', getattr(x.args[0], 'attr', None)) == g.name for x in ast.walk(f.node))
        lazy = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(g.node)) and not g.node.decorator_list
        ctx.need(not (direct and lazy), R, g.ref + ' lazily', g.ref, 'the dependencies are handed out while the bindings of the lookup are in force')
        params = [param(g, i) for i in range(len(g.node.args.args))]
        for p in ctx.paths(g):
            if p.kind == 'raise':
                continue
            for e in p.events:
                if e.kind == 'loopend' and e.a[1]:
                    ctx.fail(R, g.ref, e.where, 'the collection of dependencies ends early')
            chain = [e for e in p.events if e.kind in ('loop', 'loop0')]
            lk = [e for e in chain if is_call(itv(p, e), 'lookup') and itv(p, e).a[1] and itv(p, e).a[1][0] in params]
            if not lk:
                ctx.fail(R, g.ref, p.where(), 'the rules that match the item are not enumerated')
                continue
            if lk[0].kind == 'loop0':
                continue
            r = V('sub', itv(p, lk[0]), V('idx', lk[0].a[0], itv(p, lk[0])))
            gr = [e for e in chain if is_call(itv(p, e), 'ground_out_rule') and itv(p, e).a[1] and subgoal_of(itv(p, e).a[1][0], lk[0].a[0])]
            if not gr:
                ctx.fail(R, g.ref, p.where(), 'the ways to ground out a matching rule are not enumerated')
                continue
            if gr[0].kind == 'loop0':
                continue
            bd = [e for e in chain if e.n > gr[0].n and body_of_loop(p, e, lk[0].a[0])]
            if not bd:
                ctx.fail(R, g.ref, p.where(), 'the subgoals of a matching rule are not enumerated')
                continue
            if bd[0].kind == 'loop0':
                continue
            n += 1
            exo = any(is_call(a, 'is_exogenous', 'is_const') and b is True for a, b in p.facts.items())
            rec = [e for e in p.events if ((e.kind == 'mutate' and e.a[1] in ADD) or e.kind == 'yield') and any(c[0] == 'loop' and c[1] == bd[0].a[0] for c in e.ctx)]
            ctx.need(exo or bool(rec), R, g.ref + ' subgoals', p.where(), 'a subgoal that is not defined elsewhere is not a dependency')
            for e in rec:
                v = e.a[2] if e.kind == 'mutate' else e.a[0]
                ctx.need(is_call(v, 'canonicalize', 'snap', 'fresh') and subgoal_in(v.a[1][0], bd[0].a[0]), R, g.ref + ' recorded', e.where, f'the dependency {short(v)} is not a copy of the subgoal as bound now')
    ctx.floor(n, 1, 'dependencies')
    # all outputs in all their groundings, and every component
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        for e in p.events:
            if e.kind == 'loopend' and e.a[1]:
                ctx.fail(R, f.ref + ' complete', e.where, 'the walk ends early')
        ol = [e for e in p.events if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V) and outputs_of(itv(p, e))]
        if not ol:
            ctx.fail(R, f.ref + ' outputs', p.where(), 'the walk does not start from every output')
            continue
        t = next((e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'tarjan')), None)
        if t is None:
            continue
        roots = t.a[0].a[1][1] if len(t.a[0].a[1]) > 1 else dict(t.a[0].a[2]).get('roots')
        if ol[0].kind == 'loop':
            gl = [e for e in p.events if e.kind in ('loop', 'loop0') and any(c[0] == 'loop' and c[1] == ol[0].a[0] for c in e.ctx) and is_call(itv(p, e), 'ground_out_rule')]
            ctx.need(bool(gl), R, f.ref + ' outputs', ol[0].where, 'the outputs are not grounded out')
            if gl and gl[0].kind == 'loop':
                n += 1
                got = [q for q in pieces(p, roots) if q.kind == 'one' and is_call(q.v, 'canonicalize', 'snap', 'fresh')] if roots is not None else []
                ok = any(q.v.a[1][0].k == 'attr' and q.v.a[1][0].a[1] == 'head' and subgoal_of(q.v.a[1][0].a[0], ol[0].a[0]) for q in got)
                ctx.need(ok, R, f.ref + ' outputs', gl[0].where, 'a grounded output is not a starting point of the walk')
    ctx.floor(n, 1, 'outputs')


ADD = ('append', 'add', 'extend', 'update', 'iadd')


def outputs_of(it):
    it = noop(it)
    return it.k == 'attr' and it.a[1] == 'outputs' or (it.k == 'attr' and it.a[1] == 'rules' and it.a[0].k == 'attr' and it.a[0].a[1] == 'outputs')


def subgoal_in(v, k):
    return subgoal_of(v, k) or v.k == 'sub' and v.a[1].k == 'idx' and v.a[1].a[0] == k


def body_of_loop(p, e, k):
    it = noop(itv(p, e)) if isinstance(e.a[1], V) else None
    if it is None:
        return False
    if is_call(it, 'enumerate') and len(it.a[1]) == 1:
        it = noop(it.a[1][0])
    return it.k == 'attr' and it.a[1] == 'body' and subgoal_of(it.a[0], k)


def priorities(ctx, m):
    R = 'priority'
    f = m.func('dyna.program', 'Program.scc_solver')
    # the function that is installed as the second pass' priority
    inst = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'priority' for t in n.targets):
            inst = n.value
        if isinstance(n, ast.keyword) and n.arg == 'priority':
            inst = n.value
    if inst is None:
        ctx.ok(R, f.ref)
        return
    name = getattr(inst, 'id', getattr(inst, 'attr', None))
    gs = [g for g in helpers_of(m, f) if g.name == name]
    if not gs:
        return
    g = gs[0]
    n = 0
    for p in ctx.paths(g):
        if p.kind != 'return':
            continue
        n += 1
        v = p.res(p.value) if p.value is not None else NONE
        maybe = is_call(v, 'get') and len(v.a[1]) == 1 and not any(b is False and a.k == 'cmp' and a.a[0] == 'is' and a.a[1] is v for a, b in p.facts.items())
        none = maybe or is_const(v, None) or (v.k == 'phi' and is_const(v.a[2], None)) or any(b is True and a.k == 'cmp' and a.a[0] == 'is' and a.a[1] is v and is_const(a.a[2], None) for a, b in p.facts.items())
        if none:
            looked = [e for e in p.events if e.kind == 'loop0' and is_call(itv(p, e), 'lookup')]
            found = [e for e in p.events if e.kind == 'loop' and is_call(itv(p, e), 'lookup')]
            exo = any(is_call(a, 'is_exogenous') and b is True for a, b in p.facts.items())
            term = not any(is_call(a, 'isinstance') and b is False for a, b in p.facts.items())
            ctx.need(bool(looked) and not found and not exo and term, R, g.ref + ' dropped', p.where(), 'an item is dropped although something it supports may need it')
            for e in looked:
                a = itv(p, e).a[1]
                ctx.need(bool(a) and unfresh(a[-1]) is param(g, len(g.node.args.args) - 1), R, g.ref + ' looked up', e.where, f'{short(a[-1]) if a else None} is looked up, not the item')
        else:
            bad = [e for e in p.events if e.kind == 'loopend' and e.a[1]]
    ctx.floor(n, 2, 'priorities')


def passes(ctx, m):
    "Each pass is run by a solver that is safe for its own program, and the data is part of both."
    R = 'passes'
    f = m.func('dyna.program', 'Program._solver_for')
    me, sol = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f, inline=('Program.is_range_restricted',)):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        ground = v.k == 'attr' and v.a[1] == 'solver'
        n += 1
        if ground:
            asked = any(a.k == 'cmp' and a.a[0] == '==' and sol in a.a[1:3] and any(is_const(x, 1) for x in a.a[1:3]) and b is True for a, b in p.facts.items())
            rr = any(is_call(a, 'is_range_restricted') and recv(a) is me and b is True for a, b in p.facts.items())
            rr = rr or restricted(p, me)
            ctx.need(asked or rr, R, f.ref, p.where(), 'the solver for ground items is chosen for a program whose heads may keep free variables')
        if v is sol:
            ctx.need(not any(a.k == 'cmp' and a.a[0] == 'is' and sol in a.a and b is True for a, b in p.facts.items()), R, f.ref, p.where(), 'no solver is chosen')
    ctx.floor(n, 2, 'choices of a solver')
    f = m.func('dyna.program', 'Program.is_range_restricted')
    me = param(f, 0)
    from .transform import yes_paths
    k = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = truth(p.res(p.value))
        if is_const(v, False):
            continue
        k += 1
        ctx.need(restricted(p, me), R, f.ref, p.where(), 'a program counts as range-restricted although a variable of a head may not occur in the body')
    ctx.floor(k, 1, 'range restriction')
    f = m.func('dyna.program', 'Program.scc_solver')
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        for e in p.events:
            if e.kind != 'call':
                continue
            c = e.a[0]
            fn = c.a[0]
            if is_call(fn, '_solver_for') and c.a[1]:
                n += 1
                prog = c.a[1][0]
                own = recv(fn)
                base = prog
                while is_call(base, 'booleanize', 'copy') and recv(base) is not None:
                    base = recv(base)
                ok = base.k == 'bin' and base.a[0] == '+' and (base.a[1] is own or base.a[2] is own)
                ctx.need(ok, R, f.ref + ' solver', e.where, f'the solver is chosen from {short(own)} but runs {short(prog)}')
                other = base.a[2] if base.k == 'bin' and base.a[1] is own else base.a[1] if base.k == 'bin' else None
                ctx.need(other is not None and (other is param(f, None, 'data') if False else mentions(other, 'data')), R, f.ref + ' data', e.where, 'the data is not part of the program that is run')
                ctx.need(own is not me or not is_call(own, 'linearize'), R, f.ref, e.where, '')
    ctx.floor(n, 2, 'passes')


def mentions(v, name):
    return any(w.k == 'param' and w.a[-1] == name or str(w) == name for w in walk(v))


def truth(v):
    while v.k == 'un' and v.a[0].strip() == 'not' and v.a[1].k == 'const':
        v = Const(not v.a[1].a[0])
    return v


def restricted(p, me):
    "On this path every variable of every head was found in its body."
    ok = False
    for e in p.events:
        if e.kind in ('loop0',) and all_rules(itv(p, e), me):
            return True
        if e.kind == 'loop' and all_rules(itv(p, e), me):
            ok = any(x.kind == 'loopend' and x.a[0] == e.a[0] and not x.a[1] for x in p.events)
    if not ok or any(e.kind == 'loopend' and e.a[1] for e in p.events):
        return False
    for a, b in p.facts.items():
        d = a.a[1] if a.k == 'un' and a.a[0].strip() == 'not' else a
        if d is not a:
            b = not b if isinstance(b, bool) else b
        if d.k == 'bin' and d.a[0] == '-' and head_vars(d.a[1]) and body_vars(d.a[2]) and b is False:
            return True
        if d.k == 'cmp' and d.a[0] == '<' and body_vars(d.a[1]) and head_vars(d.a[2]) and b is False:
            return True
        if d.k == 'cmp' and d.a[0] == '<=' and head_vars(d.a[1]) and body_vars(d.a[2]) and b is True:
            return True
        if is_call(d, 'issubset') and head_vars(recv(d)) and body_vars(d.a[1][0]) and b is True:
            return True
        if is_call(d, 'issuperset') and body_vars(recv(d)) and head_vars(d.a[1][0]) and b is True:
            return True
        if is_call(d, 'difference') and head_vars(recv(d)) and body_vars(d.a[1][0]) and b is False:
            return True
        if d.k == 'cmp' and d.a[0] == '==' and b is True and any(is_call(x, 'len') for x in d.a[1:3]) and any(is_const(x, 0) for x in d.a[1:3]):
            x = next(x for x in d.a[1:3] if is_call(x, 'len')).a[1][0]
            if x.k == 'bin' and x.a[0] == '-' and head_vars(x.a[1]) and body_vars(x.a[2]):
                return True
    return False


def head_vars(v):
    return (is_call(v, 'term_vars') and v.a[1] and noop(v.a[1][0]).k == 'attr' and noop(v.a[1][0]).a[1] == 'head') or (is_call(v, 'head_vars'))


def body_vars(v):
    return is_call(v, 'term_vars') and v.a[1] and noop(v.a[1][0]).k == 'attr' and noop(v.a[1][0]).a[1] == 'body'


def booleans(ctx, m):
    "The Boolean version of a program keeps every rule and every subgoal but the constants."
    R = 'boolean pass'
    f = m.func('dyna.program', 'Program.booleanize')
    me = param(f, 0)
    n = 0
    for p in ctx.paths(f, inline=('remove_constants',)):
        if p.kind != 'return':
            continue
        got = rewritten(p)
        if got is None:
            ctx.fail(R, f.ref, p.where(), 'no Boolean program is built')
            continue
        for e in p.events:
            if e.kind == 'loopend' and e.a[1]:
                ctx.fail(R, f.ref + ' complete', e.where, 'rules or subgoals are left out')
        outer = [e for e in p.events if e.kind in ('loop', 'loop0') and all_rules(itv(p, e), me)]
        ctx.need(bool(outer), R, f.ref + ' rules', got[0].where, 'not every rule is part of the Boolean program')
        if not outer or outer[0].kind == 'loop0':
            continue
        r = elem_of(p, outer[0], outer[0].a[0])
        mine = [q for q in pieces(p, got[1]) if q.kind == 'one']
        n += 1
        ok = r is not None and len(mine) == 1 and rule_parts(p, mine[0].v) is not None
        ctx.need(ok, R, f.ref + ' rules', got[0].where, f'{len(mine)} Boolean rules for one rule')
        if not ok:
            continue
        h, body = rule_parts(p, mine[0].v)
        ctx.need(h is Attr(r, 'head'), R, f.ref + ' head', mine[0].e.where, f'the head of the Boolean rule is {short(h)}')
        B = Attr(r, 'body')
        bl = [e for e in p.events if e.kind in ('loop', 'loop0') and (noop(itv(p, e)) is B or all_positions(itv(p, e), (B,)))]
        whole_body = any(q.kind == 'seq' and noop(q.v) is B for q in body)
        ctx.need(whole_body or bool(bl), R, f.ref + ' subgoals', mine[0].e.where, 'not every subgoal is considered')
        if whole_body or not bl or bl[0].kind == 'loop0':
            continue
        const = any(is_call(a, 'is_const') and b is True for a, b in p.facts.items())
        ctx.need(const or any(subgoal_of(noop(q.v), bl[0].a[0]) for q in body if isinstance(q.v, V)), R, f.ref + ' subgoals', mine[0].e.where, 'a subgoal that is not a constant is left out')
    ctx.floor(n, 1, 'Boolean rules')
