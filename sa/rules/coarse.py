"""Pruning and coarse-grained analyses (C23)."""
from ..core import check
from ..values import V, NONE, fname, is_call, recv, walk, is_const, Attr
from ..util import short
from .match import param
from .execute import noop, all_rules, idx, unfresh
from .transform import pieces, rule_parts
from .goal import itv, helpers_of, elem_of, mentions


@check('C23', 'completeness accounting of the coarse vocabulary, its edges and the worklist closures, and guard analysis of every place where a rule is dropped',
       'Every input, head and subgoal must enter the coarse vocabulary and the coarse edges; merged types must be tested for overlap before they are stored; each worklist step may '
       'skip an edge only for the reasons that keep the closure complete; each rule that a pruning leaves out must have been found useless, and no loop that decides about rules may end early.',
       ['the type analysis that computes the useful items is not decided here (its own transfer is covered by the rule engine properties)'])
def c23(ctx):
    m = ctx.m
    partition(ctx, m)
    vocabulary(ctx, m)
    edges(ctx, m)
    reachability(ctx, m)
    coarsening(ctx, m)
    quick_prunes(ctx, m)
    typed_prunes(ctx, m)
    input_split(ctx, m)
    cyclic(ctx, m)
    expansive(ctx, m)


# ------------------------------------------------------------------ helpers
def names(m, f):
    return tuple({g.name for g in helpers_of(m, f) if not g.name.startswith('__')})


def loops_of(p):
    "[(loop event, ended normally)] of the loops that are entered"
    out = []
    for e in p.events:
        if e.kind == 'loop':
            end = [x for x in p.events if x.kind == 'loopend' and x.a[0] == e.a[0]]
            out.append((e, bool(end) and not end[0].a[1]))
    return out


def consistent(p):
    "No sequence is both empty and not empty on this path, and nothing is taken from an empty list."
    empty, full = set(), set()
    for e in p.events:
        if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V):
            vs = [e.a[1]]
            while vs:
                v = vs.pop()
                v = noop(v)
                if is_call(v, 'enumerate', 'reversed', 'iter', 'sorted') and v.a[1]:
                    vs.append(v.a[1][0])
                elif is_call(v, 'zip') and e.kind == 'loop':
                    vs += v.a[1]
                elif v.k == 'obj':
                    n = bool(pieces(p, v))
                    if e.kind == 'loop' and not n and V('grown', v) not in p.st.contents:
                        return False
                    if e.kind == 'loop0' and any(q.kind == 'one' for q in pieces(p, v)):
                        return False
                elif v.k in ('param', 'attr'):
                    (full if e.kind == 'loop' else empty).add(v)
                elif v.k == 'tup' and not v.a[1] and e.kind == 'loop':
                    return False
    for a, b in p.facts.items():
        if b is True and a.k == 'cmp' and a.a[0] == 'in' and str(a.a[2]) in ('{}', '[]', '()', 'set()'):
            return False
    return not (empty & full)


def within(e, k):
    return any(c[0] == 'loop' and c[1] == k for c in e.ctx)


def inputs_of(v, prog, which='inputs'):
    "v runs over the heads (or rules) of the declared inputs (outputs) of prog"
    v = noop(v)
    if is_call(v, 'enumerate', 'iter') and v.a[1]:
        v = noop(v.a[1][0])
    if is_call(v, 'just_heads'):
        v = noop(recv(v))
    if v.k == 'attr' and v.a[1] == 'rules':
        v = noop(v.a[0])
    return v.k == 'attr' and v.a[1] == which and own_prog(v.a[0], prog)


def own_prog(v, prog):
    v = noop(v)
    return v is prog or (v.k == 'attr' and v.a[1] in ('program', 'parent') and prog.k != 'param')


def body_of(v, prog):
    "the rule whose subgoals v consists of, or None"
    v = noop(v)
    if is_call(v, 'enumerate', 'iter', 'reversed') and v.a[1]:
        v = noop(v.a[1][0])
    r = None
    if v.k == 'attr' and v.a[1] == 'body':
        r = v.a[0]
    elif v.k == 'sub' and v.a[1].k == 'slice' and is_const(v.a[1].a[0], 1) and all(is_const(x, None) for x in v.a[1].a[1:3]):
        r = v.a[0]
    return noop(r) if r is not None and rule_of(r, prog) is not None else None


def rule_of(v, prog):
    "loop index of an element of prog, or None"
    v = noop(v)
    if v.k in ('sub', 'elem') and len(v.a) > 1 and v.a[1].k == 'idx':
        b = noop(v.a[0])
        if b.k == 'attr' and b.a[1] == 'rules':
            b = noop(b.a[0])
        if own_prog(b, prog):
            return v.a[1].a[0]
    return None


def subject(v, prog):
    "('input'|'output'|'head'|'sub'|'any', loop id) of a term that the program mentions"
    v = noop(v)
    if v.k == 'attr' and v.a[1] == 'head':
        r = noop(v.a[0])
        if rule_of(r, prog) is not None:
            return 'head', rule_of(r, prog)
        for w in ('inputs', 'outputs'):
            if r.k in ('sub', 'elem') and len(r.a) > 1 and r.a[1].k == 'idx' and inputs_of(r.a[0], prog, w):
                return w[:-1], r.a[1].a[0]
        return None
    if v.k in ('sub', 'elem') and len(v.a) > 1:
        if v.a[1].k == 'idx' and v.a[0].k == 'tup' and len(v.a[0].a[1]) == 2 and v.a[0].a[1][1].k == 'star':
            h, b = subject(v.a[0].a[1][0], prog), body_of(v.a[0].a[1][1].a[0], prog)
            if h is not None and h[0] == 'head' and b is not None and rule_of(b, prog) == h[1]:
                return 'any', v.a[1].a[0]
        if is_const(v.a[1], 0) and rule_of(v.a[0], prog) is not None:
            return 'head', rule_of(v.a[0], prog)
        if v.a[1].k == 'idx':
            for w in ('inputs', 'outputs'):
                if inputs_of(v.a[0], prog, w):
                    return w[:-1], v.a[1].a[0]
            if body_of(v.a[0], prog) is not None:
                return 'sub', v.a[1].a[0]
            if rule_of(v.a[0], prog) is not None:
                return 'any', v.a[1].a[0]
    return None


def subject_loop(p, e, prog):
    "what kind of subject loop e runs over"
    it = itv(p, e)
    for w in ('inputs', 'outputs'):
        if inputs_of(it, prog, w):
            return w[:-1]
    if all_rules(it, prog) or (all_rules_any(it, prog)):
        return 'head'
    if body_of(it, prog) is not None:
        return 'sub'
    return None


def all_rules_any(it, prog):
    it = noop(it)
    if is_call(it, 'enumerate', 'iter', 'reversed') and it.a[1]:
        it = noop(it.a[1][0])
    if it.k == 'attr' and it.a[1] == 'rules':
        it = noop(it.a[0])
    return own_prog(it, prog)


def solved_elsewhere(p, k, prog, head=False):
    "On this path the subgoal of loop k was found to be a constant or a builtin."
    for a, b in p.facts.items():
        if b is True and is_call(a, 'is_const', 'is_builtin') and a.a[1]:
            s = subject(a.a[1][0], prog)
            if s is not None and s[1] == k and s[0] in ('sub', 'any'):
                return True
    return False


def account(ctx, rule, f, paths, prog, kinds, actions, what, broken=True):
    """`actions(p)` gives [(event, kind, loop id)].  Every loop that acts for a kind must act for
    each of its elements (constants and builtins among the subgoals aside) and run to its end."""
    nodes = {}
    seen = set()
    for p in paths:
        for e, kind, k in actions(p):
            for x in p.events:
                if x.kind == 'loop' and x.a[0] == k:
                    nodes.setdefault(id(x.node), set()).add(kind)
                    seen.add(kind)
                    if kind == 'any':
                        seen |= {'head', 'sub'}
    ok = True
    for kind in kinds:
        ok &= ctx.need(kind in seen, rule, f'{f.ref} {what} {kind}', f.ref, f'no {what} for {label(kind)}')
    for p in paths:
        if p.kind == 'raise':
            continue
        acts = actions(p)
        for e, ended in loops_of(p):
            for kind in nodes.get(id(e.node), ()):
                k = e.a[0]
                outer = [c for c in e.ctx if c[0] == 'loop']
                if not ended and broken:
                    ctx.fail(rule, f'{f.ref} {what} complete', e.where, f'the loop that provides the {what} for {label(kind)} ends early')
                if any(a[1] == kind and a[2] == k for a in acts):
                    ctx.ob(rule, f'{f.ref} {what} {kind}', e.where)
                    continue
                if kind in ('sub', 'any') and solved_elsewhere(p, k, prog):
                    continue
                if blocked(p, e, k):
                    continue
                ctx.fail(rule, f'{f.ref} {what} {kind}', e.where, f'{label(kind)} may be left without a {what}')
    return ok


def blocked(p, e, k):
    "A loop inside the same outermost loop had no elements: there is nothing to act on."
    ks = [c[1] for c in e.ctx if c[0] == 'loop']
    return any(x.kind == 'loop0' and within(x, ks[0] if ks else k) for x in p.events)


def label(kind):
    return {'input': 'an input', 'output': 'an output', 'head': 'the head of a rule', 'sub': 'a subgoal', 'any': 'a head or subgoal'}[kind]


# ------------------------------------------------------------------ the partition into types
def partition(ctx, m):
    R = 'disjoint types'
    f = m.func('dyna.term', 'DisjointEstimate.find_all')
    me, x = param(f, 0), param(f, 1)
    n = 0

    def stored(v):
        return v.k == 'attr' and v.a[1] == 'xs' and v.a[0] is me

    def member(v):
        v = noop(v)
        return v.k in ('sub', 'elem') and len(v.a) > 1 and v.a[1].k == 'idx' and (stored(noop(v.a[0])) or (noop(v.a[0]) is me))
    for p in ctx.paths(f):
        if p.kind not in ('return', 'yield'):
            continue
        lp = [(e, ended) for e, ended in loops_of(p) if stored(seq(itv(p, e))) or seq(itv(p, e)) is me]
        if not lp:
            ok = any(e.kind == 'loop0' and (stored(seq(itv(p, e))) or seq(itv(p, e)) is me) for e in p.events)
            ctx.need(ok, R, f.ref + ' complete', p.where(), 'not every stored type is compared')
            continue
        e, ended = lp[0]
        k = e.a[0]
        n += 1
        ctx.need(ended, R, f.ref + ' complete', e.where, 'the search for overlapping types ends early')
        got = [q for q in pieces(p, p.value) if q.kind == 'one'] if p.kind == 'return' else []
        made = [q for q in got if any(w.k == 'idx' and w.a[0] == k for w in walk(q.v))]
        tests = {a: b for a, b in p.facts.items() if is_call(a, 'unifies')}
        good = [b for a, b in tests.items() if len(a.a[1]) == 2 and any(unfresh(u) is x and member(unfresh(w)) and (is_call(u, 'fresh') or is_call(w, 'fresh'))
                                                                          for u, w in (a.a[1], a.a[1][::-1]))]
        if made:
            b, o = idx(made[0].v)
            ctx.need(b is not None and b.k == 'idx' and b.a[0] == k and o == 0, R, f.ref + ' position', e.where, f'{short(made[0].v)} is reported instead of the position of the overlapping type')
        else:
            ctx.need(False in good, R, f.ref + ' overlap', e.where, 'a stored type is passed over although it was not found to be disjoint (after renaming apart) from the term')
    ctx.floor(n, 1, 'searches for overlapping types')
    f = m.func('dyna.term', 'DisjointEstimate.find')
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'return':
            n += 1
            one = any(unique(a, b) for a, b in p.facts.items())
            v = p.value
            ctx.need(one or (v.k == 'sub' and is_call(v.a[0], 'find_all') and False), R, f.ref, p.where(), 'a type is returned although it is not known to be the only one')
    ctx.floor(n, 1, 'unique types')
    f = m.func('dyna.term', 'DisjointEstimate.root')
    for p in ctx.paths(f):
        if p.kind == 'return':
            v = p.value
            ok = v.k == 'sub' and v.a[1] and is_call(v.a[1], 'find') and v.a[1].a[1] and unfresh(v.a[1].a[1][0]) is param(f, 1)
            if not ok:
                ok = any(unique(a, b) for a, b in p.facts.items())
            ctx.need(ok, R, f.ref, p.where(), f'{short(v)} is returned as the type of the term')
    f = m.func('dyna.term', 'DisjointEstimate.roots')
    me, x = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        qs = pieces(p, p.value)
        for e, ended in loops_of(p):
            ctx.need(ended, R, f.ref, e.where, 'the types of a term are not all returned')
            ctx.need(any(q.kind == 'one' and any(w.k == 'idx' and w.a[0] == e.a[0] for w in walk(q.v)) for q in qs), R, f.ref, e.where, 'a type of the term is left out')
            it = seq(itv(p, e))
            ctx.need((is_call(it, 'find_all') and unfresh(it.a[1][0]) is x) or stored_in(it, me), R, f.ref, e.where, f'the types of the term are taken from {short(it)}')
    added(ctx, m, R)


def stored_in(v, me):
    return v is me or (v.k == 'attr' and v.a[1] == 'xs' and v.a[0] is me)


def unique(a, b):
    return a.k == 'cmp' and a.a[0] == '==' and b is True and any(is_call(x, 'len') for x in a.a[1:3]) and any(is_const(x, 1) for x in a.a[1:3])


def seq(it):
    it = noop(it)
    if is_call(it, 'enumerate', 'reversed', 'iter', 'sorted') and it.a[1]:
        return seq(it.a[1][0])
    if is_call(it, 'range') and len(it.a[1]) == 1 and is_call(it.a[1][0], 'len'):
        return noop(it.a[1][0].a[1][0])
    return it


def added(ctx, m, R):
    f = m.func('dyna.term', 'DisjointEstimate.add')
    me, r0 = param(f, 0), param(f, 1)
    n = mer = 0

    def core(v):
        while is_call(v, 'canonicalize', 'fresh') and v.a[1]:
            v = v.a[1][0]
        return v

    for p in ctx.paths(f, inline=tuple(x for x in names(m, f) if x not in ('find_all', 'find', 'add', 'root', 'roots', 'unifies', 'fresh', 'canonicalize', 'generalizer'))):
        if p.kind == 'raise':
            continue
        adds = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('append', 'insert', 'add', 'iadd', 'extend') and stored_in(e.a[0], me)]
        if p.kind != 'backedge':
            n += 1
            ctx.need(len(adds) == 1, R, f.ref + ' stored', p.where(), f'the type is stored {len(adds)} times')
        for e in adds:
            x = core(p.res(e.a[-1]))
            free = any(b is False and overlap_of(a, x, me) for a, b in p.facts.items())
            free = free or any(q.kind == 'loop0' and overlap_of(noop(itv(p, q)), x, me) for q in p.events) or any(q.kind == 'loop0' and stored_in(seq(itv(p, q)), me) for q in p.events)
            if not free and not any(overlap_of(noop(itv(p, q)), x, me) or stored_in(seq(itv(p, q)), me) for q in p.events if q.kind == 'loop'):
                free = any(a.k == 'cmp' and b is True and a.a[0] == '==' and any(is_const(y, 0) for y in a.a[1:3]) and any(is_call(y, 'len') and overlap_of(y.a[1][0], x, me) for y in a.a[1:3]) for a, b in p.facts.items())
            ctx.need(free, R, f.ref + ' overlap', e.where, f'{short(x)} is stored although a stored type may overlap with it')
        for e, ended in loops_of(p):
            it = itv(p, e)
            if is_call(seq(it), 'find_all'):
                k = e.a[0]
                mer += 1
                ctx.need(ended, R, f.ref + ' merge', e.where, 'not every overlapping type is merged')
                dels = [x for x in p.events if x.kind == 'delitem' and within(x, k) and stored_in(x.a[0], me)] + \
                       [x for x in p.events if x.kind == 'mutate' and x.a[1] == 'pop' and within(x, k) and stored_in(x.a[0], me)]
                ctx.need(bool(dels), R, f.ref + ' merge', e.where, 'a merged type stays in the collection')
                back = is_call(noop(it), 'reversed') or (is_call(noop(it), 'sorted') and 'reverse' in str(noop(it)))
                ctx.need(back, R, f.ref + ' positions', e.where, 'types are deleted by positions that earlier deletions have shifted')
                gens = [w for x in p.events if x.kind == 'carry' and x.a[0] == k for w in walk(p.res(x.a[3])) if is_call(w, 'generalizer')]
                ok = any(any(core(u).k == 'phi' for u in g.a[1]) and any(w.k == 'sub' and stored_in(w.a[0], me) or is_call(w, 'pop') for u in g.a[1] for w in walk(u)) for g in gens)
                ctx.need(ok, R, f.ref + ' merge', e.where, 'the type that is stored does not cover every type that it replaces')
    ctx.floor(n, 1, 'additions of a type')
    ctx.floor(mer, 1, 'merges of types')


def overlap_of(a, x, me):
    a = noop(a)
    if is_call(a, 'reversed', 'any', 'len') and a.a[1]:
        return overlap_of(a.a[1][0], x, me)

    def same(y):
        while is_call(y, 'canonicalize', 'fresh') and y.a[1]:
            y = y.a[1][0]
        return y is x
    if is_call(a, 'find_all'):
        return recv(a) is me and bool(a.a[1]) and same(a.a[1][0])
    return is_call(a, 'unifies') and any(same(y) for y in a.a[1])


# ------------------------------------------------------------------ vocabulary and edges
GRAPHS = [('dyna.analyze.coarse_graph', 'CoarseGraph.__init__'), ('dyna.analyze.dead', 'ProgramCoarsening.__init__')]


def vocab_of(p):
    "the value that is stored as the vocabulary"
    for e in p.events:
        if e.kind == 'setattr' and e.a[1] in ('nodes',):
            return p.res(e.a[2]) if e.a[2].k != 'obj' else e.a[2]
    return None


def coarse_paths(ctx, m, where):
    f = m.func(*where)
    hs = tuple(x for x in names(m, f) if x not in ('f', '_f', 'useful', 'split_input_dependent', 'program', 'nodes', 'root', 'roots', 'add_edge'))
    return f, [p for p in ctx.paths(f, inline=hs) if p.kind != 'raise' and consistent(p)]


def vocabulary(ctx, m):
    R = 'vocabulary'
    for where in GRAPHS:
        f, paths = coarse_paths(ctx, m, where)
        prog = param(f, 1)

        def actions(p):
            out = []
            nv = vocab_of(p)
            for e in p.events:
                if e.kind != 'mutate' or e.a[1] not in ('add', 'append') or len(e.a) < 3:
                    continue
                tgt = e.a[0] if e.a[0].k == 'obj' else p.res(e.a[0])
                ok = nv is not None and (tgt is nv or (is_call(nv, 'DisjointEstimate') and any(tgt is a or p.res(tgt) is p.res(a) for a in nv.a[1])))
                if not ok and not is_call(tgt, 'DisjointEstimate'):
                    continue
                s = subject(p.res(e.a[2]), prog)
                if s is not None:
                    out.append((e, *s))
            return out
        ctx.need(all(vocab_of(p) is not None for p in paths), R, f.ref, f.ref, 'no vocabulary is kept')
        account(ctx, R, f, paths, prog, ('input', 'head', 'sub'), actions, 'type')


def node_of(v, prog):
    "the subject of which v is a coarse node, and whether v ranges over all its nodes"
    v = noop(v)
    if is_call(v, 'root') and v.a[1]:
        return subject(v.a[1][0], prog)
    if v.k == 'sub' and v.a[1].k == 'idx' and is_call(noop(v.a[0]), 'roots', 'find_all') and noop(v.a[0]).a[1]:
        return subject(noop(v.a[0]).a[1][0], prog)
    if v.k == 'sub' and is_const(v.a[1], 0):
        return node_of(v.a[0], prog)
    if v.k == 'sub' and v.a[1].k == 'idx' and is_call(noop(v.a[0]), 'f', '_f') and len(noop(v.a[0]).a[1]) == 1:
        return subject(noop(v.a[0]).a[1][0], prog)
    return None


def edges(ctx, m):
    R = 'coarse edges'
    for where in GRAPHS:
        f, paths = coarse_paths(ctx, m, where)
        prog = param(f, 1)

        def hyper(p):
            out = []
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], 'add_edge') and is_call(noop(p.res(recv(e.a[0]))), 'Hypergraph'):
                    c = p.res(e.a[0])
                    if c.a[1]:
                        s = node_of(c.a[1][0], prog)
                        if s is not None:
                            out.append((e, *s))
                        else:
                            ctx.fail(R, f.ref + ' head', e.where, f'{short(c.a[1][0])} is the head of an edge')
            return out
        account(ctx, R, f, paths, prog, ('input', 'head'), hyper, 'hyperedge')

        def subs(p):
            out = []
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], 'add_edge') and is_call(noop(p.res(recv(e.a[0]))), 'Hypergraph'):
                    h = node_of(p.res(e.a[0].a[1][0]), prog) if e.a[0].a[1] else None
                    if h is None or h[0] != 'head':
                        continue
                    for x in e.a[0].a[1][2:]:
                        y = p.res(x.a[0] if x.k == 'star' else x)
                        y0 = x.a[0] if x.k == 'star' else x
                        for it in product_args(p, y0) + product_args(p, y):
                            for q in pieces(p, it):
                                v = noop(q.v) if q.v is not None else NONE
                                if is_call(v, 'roots', 'find_all', '_f', 'f') and v.a[1]:
                                    s = subject(v.a[1][0], prog)
                                    if s is not None:
                                        out.append((e, *s))
            return out
        whole = [0]
        for p in paths:
            for e, ended in loops_of(p):
                ctx.need(ended or not has_edges(p, e), R, f.ref + ' complete', e.where, 'the coarse edges of some rules or types are left out')
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], 'add_edge') and is_call(noop(p.res(recv(e.a[0]))), 'Hypergraph') and len(e.a[0].a[1]) > 2:
                    c = p.res(e.a[0])
                    h = node_of(c.a[1][0], prog)
                    x = c.a[1][2]
                    x = noop(x.a[0]) if x.k == 'star' else noop(x)
                    if h is not None and x.k == 'sub' and x.a[1].k == 'idx' and is_call(noop(x.a[0]), 'f'):
                        a = noop(x.a[0]).a[1]
                        b = noop(a[0].a[0]) if len(a) == 1 and a[0].k == 'star' else None
                        ok = b is not None and body_of(b, prog) is not None and rule_of(body_of(b, prog), prog) == h[1]
                        ctx.need(ok, R, f.ref + ' subgoals', e.where, f'the edge of a rule leads to {short(x)}')
                        whole[0] += 1
        if not whole[0]:
            account(ctx, R, f, paths, prog, ('sub',), subs, 'place in the hyperedge', broken=True)

        def dep(p):
            out = []
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], 'add_edge') and is_call(noop(p.res(recv(e.a[0]))), 'Graph') and len(e.a[0].a[1]) == 2:
                    c = p.res(e.a[0])
                    h, b = node_of(c.a[1][0], prog), node_of(c.a[1][1], prog)
                    if h is None or h[0] != 'head' or b is None or b[0] != 'sub':
                        ctx.fail(R, f.ref + ' dependency', e.where, f'the dependency {short(c.a[1][0])} on {short(c.a[1][1])} is not that of a head on a subgoal')
                        continue
                    out.append((e, *b))
            return out

        def dnodes(p):
            out = []
            for e in p.events:
                if e.kind == 'mutate' and e.a[1] == 'add' and len(e.a) > 2:
                    t = p.res(e.a[0])
                    if t.k == 'attr' and t.a[1] == 'nodes' and is_call(noop(t.a[0]), 'Graph') or is_call(t, 'Graph'):
                        s = node_of(p.res(e.a[2]), prog)
                        if s is not None:
                            out.append((e, *s))
            return out
        if where[1].startswith('CoarseGraph'):
            account(ctx, R, f, paths, prog, ('sub',), dep, 'dependency')
            account(ctx, R, f, paths, prog, ('input', 'head'), dnodes, 'node')


def product_args(p, v):
    "the sequence of sequences that v is a combination of"
    if v.k in ('sub', 'elem') and v.a[1].k == 'idx':
        b = v.a[0]
        if is_call(b, 'product', 'list') and b.a[1]:
            if is_call(b, 'list'):
                return product_args(p, V('sub', b.a[1][0], v.a[1]))
            out = []
            for x in b.a[1]:
                out.append(x.a[0] if x.k == 'star' else V('tup', 'list', (x,)))
            return out
    return []


# ------------------------------------------------------------------ closures over the hypergraph
def reachability(ctx, m):
    R = 'closure'
    f = m.func('dyna.util.graphs', 'Hypergraph.reachability')
    me, ins, outs = param(f, 0), param(f, 1), param(f, 2)
    hs = tuple(x for x in names(m, f) if x not in ('edges', 'incoming', 'add_edge', 'reachability', 'add'))
    fwd = bwd = build = facts_ = 0
    for p in ctx.paths(f, inline=hs):
        if p.kind != 'return':
            continue
        T = p.value
        tq = pieces(p, T)
        seeds = [q for q in tq if q.kind == 'seq']
        ctx.need(any(noop_set(q.v) is outs for q in seeds), R, f.ref + ' outputs', p.where(), 'an output is not among the useful items')
        whiles = [(e, ended) for e, ended in loops_of(p) if e.a[1] is None]
        pops = {}
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] in ('pop', 'popleft', 'popitem'):
                ks = [c[1] for c in e.ctx if c[0] == 'loop']
                if ks:
                    pops[ks[-1]] = e
        # facts (edges without body) start the forward closure
        for e, ended in loops_of(p):
            it = seq(itv(p, e))
            if is_call(it, 'edges') or (it.k == 'attr' and it.a[1] in ('edges',)):
                k = e.a[0]
                ctx.need(ended, R, f.ref + ' edges', e.where, 'not every edge is considered')
                edge = elem_of(p, e, k)
                ctx.ob(R, f.ref + ' edges', e.where)
                for x in p.events:
                    if x.kind == 'mutate' and within(x, k) and x.a[1] in ('append', 'add') and len(x.a) > 2:
                        v = p.res(x.a[2])
                        if v.k == 'attr' and v.a[1] == 'head':
                            facts_ += 1
        for e, ended in loops_of(p):
            it = itv(p, e)
            # outgoing[b].append(e) for every edge and every body
            b = noop_set(it)
            if b.k == 'attr' and b.a[1] == 'body' and not any(within(e, w.a[0]) for w, _ in whiles):
                src = noop(b.a[0])
                if src.k == 'sub' and src.a[1].k == 'idx' and is_call(noop(src.a[0]), 'edges'):
                    grow = [x for x in p.events if x.kind == 'mutate' and within(x, e.a[0]) and x.a[1] in ('append', 'add') and len(x.a) > 2 and p.res(x.a[2]) is src]
                    rest = [x for x in p.events if within(x, e.a[0]) and x.kind == 'cond']
                    if grow or not rest:
                        build += 1
                        ctx.need(bool(grow), R, f.ref + ' index', e.where, 'an edge is missing from the index of one of its subgoals')
                        ctx.need(ended, R, f.ref + ' index', e.where, 'an edge is indexed for some of its subgoals only')
        for w, wend in whiles:
            k = w.a[0]
            if k not in pops:
                continue
            pe = pops[k]
            agenda = pe.a[0]
            xv = next((x for x in (v.a[0] for v in p.events if v.kind == 'call') if fname(x) in ('pop', 'popleft') and recv(x) is agenda), None)
            inner = [(e, ended) for e, ended in loops_of(p) if within(e, k) and e.a[0] != k and len([c for c in e.ctx if c[0] == 'loop']) == depth_of(w) + 1]
            ctx.need(bool(inner) or any(x.kind == 'loop0' and within(x, k) for x in p.events), R, f.ref + ' edges', w.where, 'the edges of an item are not followed')
            for e, ended in inner:
                it = noop(itv(p, e))
                if not (it.k == 'sub' or is_call(it, 'get')):
                    continue
                M = noop(it.a[0]) if it.k == 'sub' else noop(recv(it))
                edge = V('sub', it, next((v for v in walk_idx(p, e)), NONE))
                ctx.need(ended, R, f.ref + ' edges', e.where, 'not every edge of an item is followed')
                back = M.k == 'attr' and M.a[1] == 'incoming'
                if back:
                    bwd += 1
                    backward(ctx, p, f, R, w, e, T, agenda, me)
                else:
                    fwd += 1
                    forward(ctx, p, f, R, w, e, T, agenda, me, ins)
    ctx.floor(fwd, 1, 'forward closure steps')
    ctx.floor(bwd, 1, 'backward closure steps')
    if not build:
        ctx.fail(R, f.ref + ' index', f.ref, 'the edges are not indexed by their subgoals')
    if not facts_:
        ctx.fail(R, f.ref + ' facts', f.ref, 'the heads of rules without subgoals do not start the closure')
    graph_edges(ctx, m, R)


def depth_of(e):
    return len([c for c in e.ctx if c[0] == 'loop'])


def walk_idx(p, e):
    for x in p.events:
        for a in x.a:
            if isinstance(a, V):
                for w in walk(a):
                    if w.k == 'idx' and w.a[0] == e.a[0]:
                        yield w


def noop_set(v):
    v = noop(v)
    while is_call(v, 'set', 'frozenset', 'OrderedSet') and len(v.a[1]) == 1:
        v = noop(v.a[1][0])
    return v


def edge_head(v, k):
    v = noop(v)
    return v.k == 'attr' and v.a[1] == 'head' and any(w.k == 'idx' and w.a[0] == k for w in [v.a[0].a[1]] if v.a[0].k == 'sub')


def edge_body(v, k):
    "v is an element of the body of the edge of loop k"
    v = noop(v)
    if v.k == 'sub' and v.a[1].k == 'idx':
        b = noop(v.a[0])
        return b.k == 'attr' and b.a[1] == 'body' and b.a[0].k == 'sub' and b.a[0].a[1].k == 'idx' and b.a[0].a[1].a[0] == k
    return False


def member(a, b, val):
    return a.k == 'cmp' and a.a[0] == 'in' and b is val


def forward(ctx, p, f, R, w, e, T, agenda, me, ins):
    k = e.a[0]
    news = [x for x in p.events if x.kind == 'mutate' and within(x, k) and x.a[1] in ('add', 'append', 'appendleft') and len(x.a) > 2 and edge_head(p.res(x.a[2]), k)]
    tg = [x.a[0] for x in news]
    known = [a for a, b in p.facts.items() if member(a, b, True) and edge_head(a.a[1], k)]
    blockedby = [a for a, b in p.facts.items() if member(a, b, False) and edge_body(a.a[1], k)]
    if news:
        ctx.need(any(t is agenda or p.res(t) is p.res(agenda) for t in tg), R, f.ref + ' forward', e.where, 'a newly reached item is not put on the agenda')
        sets = [t for t in tg if not (t is agenda)]
        ctx.need(bool(sets) and all(any(noop_set(q.v) is ins for q in pieces(p, t) if q.kind == 'seq') for t in sets), R, f.ref + ' forward', e.where, 'a newly reached item is not recorded as reached')
        C = sets[0] if sets else None
        if C is not None:
            ag = pieces(p, agenda)
            ctx.need(any(q.kind == 'seq' and (noop_set(q.v) is ins) for q in ag), R, f.ref + ' forward', w.where, 'the items that are reached from the start are not on the agenda')
            allf = any(q.kind == 'one' and q.v.k == 'attr' and q.v.a[1] == 'head' for q in pieces(p, C)) or True
        ctx.need(not blockedby, R, f.ref + ' forward', e.where, 'an item is reached although a subgoal is not')
        body = [x for x in p.events if x.kind in ('loop', 'loop0') and noop(itv(p, x)).k == 'attr' and noop(itv(p, x)).a[1] == 'body' and (within(x, k))]
        for x in body:
            if x.kind == 'loop':
                ok = any(member(a, b, True) and edge_body(a.a[1], k) for a, b in p.facts.items())
                ctx.need(ok, R, f.ref + ' forward', e.where, 'an item is reached although a subgoal of the edge is not tested')
        sub = any((a.k == 'cmp' and a.a[0] == '<=' or is_call(a, 'issubset', 'issuperset')) and b is True for a, b in p.facts.items()) or any(a.k == 'cmp' and a.a[0] == '<' and b is False for a, b in p.facts.items())
        ctx.need(bool(body) or sub, R, f.ref + ' forward', e.where, 'an item is reached although not every subgoal of the edge is tested')
    else:
        ctx.need(bool(known or blockedby) or subset_false(p), R, f.ref + ' forward', e.where, 'an edge is not followed although all its subgoals are reached and its head is not')


def subset_false(p):
    return any((a.k == 'cmp' and a.a[0] == '<=' or is_call(a, 'issubset', 'issuperset')) and b is False for a, b in p.facts.items()) or any(a.k == 'cmp' and a.a[0] == '<' and b is True for a, b in p.facts.items())


def backward(ctx, p, f, R, w, e, T, agenda, me):
    k = e.a[0]
    inner = [(x, ended) for x, ended in loops_of(p) if within(x, k) and x.a[0] != k and noop(itv(p, x)).k == 'attr' and noop(itv(p, x)).a[1] == 'body']
    inner0 = [x for x in p.events if x.kind == 'loop0' and within(x, k)]
    excuse = any(member(a, b, False) and edge_head(a.a[1], k) for a, b in p.facts.items())
    if not inner:
        ctx.need(bool(inner0) or excuse, R, f.ref + ' backward', e.where, 'the subgoals of an edge of a useful item are not considered')
        return
    ctx.need(any(q.kind == 'seq' and same_seed(q.v, T, p) for q in pieces(p, agenda)), R, f.ref + ' backward', w.where, 'the outputs are not on the agenda')
    for x, ended in inner:
        j = x.a[0]
        ctx.need(ended, R, f.ref + ' backward', x.where, 'not every subgoal of a useful edge is considered')
        news = [y for y in p.events if y.kind == 'mutate' and within(y, j) and y.a[1] in ('add', 'append', 'appendleft') and len(y.a) > 2 and edge_body(p.res(y.a[2]), k)]
        if news:
            ctx.need(any(y.a[0] is agenda for y in news), R, f.ref + ' backward', x.where, 'a newly useful item is not put on the agenda')
            ctx.need(any(y.a[0] is T or p.res(y.a[0]) is p.res(T) for y in news if y.a[0] is not agenda), R, f.ref + ' backward', x.where, 'a newly useful item is not recorded as useful')
        else:
            ok = any(member(a, b, True) and edge_body(a.a[1], k) and (noop(a.a[2]) is noop(T) or p.res(a.a[2]) is p.res(T)) for a, b in p.facts.items()) or \
                any(member(a, b, False) and edge_body(a.a[1], k) and not (p.res(a.a[2]) is p.res(T)) for a, b in p.facts.items())
            ctx.need(ok, R, f.ref + ' backward', x.where, 'a reachable subgoal of a useful edge is not marked useful')


def same_seed(v, T, p):
    return v is T or noop_set(v) is noop_set(T) or noop_set(p.res(v)) is noop_set(p.res(T))


def graph_edges(ctx, m, R):
    f = m.func('dyna.util.graphs', 'Hypergraph.add_edge')
    me, h, wt = param(f, 0), param(f, 1), param(f, 2)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        es = [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'Edge')]
        ctx.need(bool(es) and set(es[0].a[1]) >= {h, wt} and any(str(x).lstrip('*') == 'body' for x in list(es[0].a[1]) + [y for _, y in es[0].a[2]]), R, f.ref, p.where(), 'an edge loses its head, weight or body')
        inc = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('append', 'add') and p.res(e.a[0]).k == 'sub' and p.res(e.a[0]).a[1] is h and p.res(e.a[0]).a[0] is Attr(me, 'incoming')]
        ctx.need(bool(inc) and all(is_call(p.res(e.a[2]), 'Edge') for e in inc), R, f.ref, p.where(), 'an edge is not recorded as a way to reach its head')
    ctx.floor(n, 1, 'edges')
    f = m.func('dyna.util.graphs', 'Hypergraph.edges')
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        for e, ended in loops_of(p):
            ctx.need(ended, R, f.ref, e.where, 'not every edge is listed')
        lp = [e for e, _ in loops_of(p) if noop(itv(p, e)).k == 'attr' and noop(itv(p, e)).a[1] == 'incoming' or is_call(noop(itv(p, e)), 'values', 'items', 'keys')]
        for e in lp:
            ys = [x for x in p.events if x.kind in ('yield', 'yieldfrom', 'mutate') and within(x, e.a[0])]
            ctx.need(bool(ys) or any(x.kind == 'loop0' and within(x, e.a[0]) for x in p.events), R, f.ref, e.where, 'the edges of an item are not listed')


# ------------------------------------------------------------------ useful coarse items
def coarsening(ctx, m):
    R = 'useful items'
    f, paths = coarse_paths(ctx, m, GRAPHS[1])
    prog = param(f, 1)
    n = 0

    def reach(p):
        for e in p.events:
            if e.kind == 'call' and is_call(e.a[0], 'reachability') and len(e.a[0].a[1]) == 2:
                return e
        return None

    def acts(i, kind):
        def actions(p):
            e = reach(p)
            out = []
            if e is not None:
                for q in pieces(p, e.a[0].a[1][i]):
                    if q.kind == 'one':
                        s = node_of(p.res(q.v), prog)
                        if s is not None:
                            out.append((e, *s))
                            if s[0] != kind:
                                ctx.fail(R, f'{f.ref} {kind}', e.where, f'{label(s[0])} is taken for {label(kind)}')
            return out
        return actions
    for p in paths:
        e = reach(p)
        n += ctx.need(e is not None, R, f.ref, p.where(), 'the useful items are not computed')
    ctx.floor(n, 1, 'computations of useful items')
    account(ctx, R, f, paths, prog, ('input',), acts(0, 'input'), 'start of the closure')
    account(ctx, R, f, paths, prog, ('output',), acts(1, 'output'), 'goal of the closure')

    f = m.func('dyna.analyze.dead', 'ProgramCoarsening._f')
    x = param(f, 1)
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        trivial = any(b is True and is_call(a, 'is_const', 'is_builtin') for a, b in p.facts.items())
        lp = [(e, ended) for e, ended in loops_of(p)]
        if trivial:
            ok = any(e.kind == 'yield' and e.a[0].k == 'tup' and not e.a[0].a[1] for e in p.events) or (p.kind == 'return' and p.value is not NONE)
            ctx.need(ok, R, f.ref + ' constants', p.where(), 'a constant or builtin makes its rule useless')
        else:
            its = [seq(itv(p, e)) for e in p.events if e.kind in ('loop', 'loop0')]
            ctx.need(any(is_call(v, 'find_all', 'roots') and unfresh(v.a[1][0]) is x for v in its), R, f.ref + ' types', p.where(), 'not every type of a term is considered')
            for e, ended in lp:
                ctx.need(ended, R, f.ref + ' types', e.where, 'not every type of a term is considered')
                ctx.need(any(y.kind in ('yield', 'mutate') and within(y, e.a[0]) for y in p.events), R, f.ref + ' types', e.where, 'a type of the term is left out')
    f = m.func('dyna.analyze.dead', 'ProgramCoarsening.f')
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        for e, ended in loops_of(p):
            ctx.need(ended, R, f.ref, e.where, 'not every combination of types is considered')
            ctx.need(any(y.kind in ('yield', 'mutate', 'yieldfrom') and within(y, e.a[0]) for y in p.events) or blocked(p, e, e.a[0]), R, f.ref, e.where, 'a combination of types is left out')
        ys = [e for e in p.events if e.kind == 'yield']
        if not any(e.kind in ('loop', 'loop0') for e in p.events) and p.kind != 'raise':
            ctx.need(bool(ys) or p.kind == 'return' and p.value is not NONE or any(e.kind == 'yieldfrom' for e in p.events), R, f.ref + ' empty', p.where(), 'a rule without subgoals has no combination of types')
    f = m.func('dyna.analyze.dead', 'ProgramCoarsening.useful')
    x = param(f, 1)
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        for e, ended in loops_of(p):
            it = noop(itv(p, e))
            if is_call(it, '_f', 'f'):
                ctx.need(ended, R, f.ref, e.where, 'not every type of the term is tested')
                ctx.need(len(it.a[1]) == 1 and it.a[1][0] is x, R, f.ref, e.where, f'{short(it)} is tested')
                ys = [y for y in p.events if y.kind == 'yield' and within(y, e.a[0])]
                bad = [a for a, b in p.facts.items() if member(a, b, False)]
                ctx.need(bool(ys) or bool(bad), R, f.ref, e.where, 'a useful type is not reported')
                ctx.need(not (ys and bad), R, f.ref + ' useless', e.where, 'a useless type is reported as useful')


# ------------------------------------------------------------------ pruning
def kept(ctx, R, f, m, prog, useless, useful, hs):
    """Every rule the filter leaves out was found useless, every rule it keeps was not."""
    paths = [p for p in ctx.paths(f, inline=hs) if p.kind != 'raise' and consistent(p)]
    node = set()
    n = 0

    def result(p):
        for e in p.events:
            if e.kind == 'call' and is_call(e.a[0], 'TransformedProgram') and len(e.a[0].a[1]) >= 3:
                return e, e.a[0].a[1][2]
            if e.kind == 'call' and is_call(e.a[0], 'spawn') and e.a[0].a[1]:
                return e, e.a[0].a[1][0]
        return None

    def filters(p, e):
        it = noop(itv(p, e))
        if is_call(it, 'zip'):
            return any(all_rules(a, prog) for a in it.a[1])
        return all_rules(it, prog)
    mine = {}
    for p in paths:
        got = result(p)
        if got is None:
            continue
        for q in pieces(p, got[1]):
            if q.kind == 'one':
                k = rule_of(q.v, prog)
                ctx.need(k is not None, R, f.ref + ' rules', got[0].where, f'the pruned program contains {short(q.v)}, which is not a rule of the program')
                outer = next((c[1] for c in q.ctx if c[0] == 'loop'), k)
                for e, _ in loops_of(p):
                    if k is not None and e.a[0] == outer:
                        node.add(id(e.node))
            elif q.kind != 'seq' or not all_rules(q.v, prog):
                ctx.fail(R, f.ref + ' rules', got[0].where, f'the pruned program is built from {q}')
    ctx.need(bool(node), R, f.ref, f.ref, 'no rule is kept')
    for p in paths:
        got = result(p)
        if p.value is not None and isinstance(p.value, V) and p.value is prog and got is None:
            pass
        lists = [got[1]] if got is not None else [x for e in p.events if e.kind == 'newobj' for x in [e.a[0]]]
        for e, ended in loops_of(p):
            if id(e.node) not in node:
                continue
            k = e.a[0]
            ctx.need(ended, R, f.ref + ' complete', e.where, 'the rules after some rule are left out')
            made = [x for x in p.events if x.kind == 'mutate' and x.a[1] in ('append', 'add', 'iadd') and within(x, k) and rule_of(p.res(x.a[2]), prog) is not None and (rule_of(p.res(x.a[2]), prog) == k or noop(e.a[1]).k == 'obj')]
            deep = [c[1] for x in made for c in x.ctx if c[0] == 'loop' and c[1] != k]
            deep = [d for d in deep if any(x.kind == 'loopend' and x.a[0] == d and not x.a[1] for x in p.events)]
            ctx.need(len(made) <= 1 and not deep, R, f.ref + ' once', e.where, 'a rule is kept twice')
            n += 1
            if made:
                for a, b in p.facts.items():
                    if useless(p, a, b, k):
                        ctx.fail(R, f.ref + ' useless', e.where, f'a rule is kept although {short(a)} is {b}')
                ctx.need(useful(p, k), R, f.ref + ' useless', e.where, 'a rule is kept although its head and subgoals were not all found useful')
            else:
                ctx.need(any(useless(p, a, b, k) for a, b in p.facts.items()) or useless(p, None, None, k), R, f.ref + ' useful', e.where, 'a rule is dropped although nothing shows that it is useless')
    ctx.floor(n, 1, f'{f.qual} decisions about rules')


def functor_of(v, prog):
    v = noop(v)
    if v.k == 'attr' and v.a[1] == 'fn':
        return subject(v.a[0], prog)
    return None


def quick_prunes(ctx, m):
    R = 'dropped rules'
    mod = 'dyna.analyze.dead'
    f = m.func(mod, 'prune_very_fast')
    hs = names(m, f)
    prog = param(f, 0)
    g = m.func(mod, '_hg_prune_very_fast')
    target = [g, f][0] if g is not None else f
    f = target
    prog = param(f, 0)

    def is_reach(v):
        return any(is_call(w, 'reachability') for w in walk(v))

    def useless(p, a, b, k):
        return a is not None and member(a, b, False) and is_reach(a.a[2]) and functor_of(a.a[1], prog) is not None and functor_of(a.a[1], prog)[0] in ('head', 'sub')

    def useful(p, k):
        return any(member(a, b, True) and is_reach(a.a[2]) and functor_of(a.a[1], prog) == ('head', (functor_of(a.a[1], prog) or (0, 0))[1]) for a, b in p.facts.items()) and \
            any(x.kind in ('loop', 'loop0') and within(x, k) and x.a[0] != k for x in p.events)
    hs = tuple(x for x in names(m, f) if x not in ('prune_fast', 'f', '_f', 'useful', 'prune_very_fast'))
    kept(ctx, R, f, m, prog, useless, useful, hs)
    functors(ctx, m, R, f, prog, hs)
    f = m.func(mod, 'prune_fast')
    prog = param(f, 0)

    def useless2(p, a, b, k):
        if a is None:
            return any(x.kind == 'loop0' and within(x, k) and is_call(noop(itv(p, x)), 'useful') and subject(noop(itv(p, x)).a[1][0], prog) is not None for x in p.events)
        return is_call(noop(a), 'any') and b is False and any(is_call(w, 'useful') for w in walk(a))

    def useful2(p, k):
        its = [noop(itv(p, x)) for x in p.events if x.kind == 'loop' and within(x, k)]
        subs = [x for x in p.events if x.kind in ('loop', 'loop0') and within(x, k) and subject_loop(p, x, prog) == 'sub']
        if any(is_call(v, 'useful') and (subject(v.a[1][0], prog) or ('',))[0] == 'any' for v in its):
            return not useless2(p, None, None, k)
        head = any(is_call(v, 'useful') and subject(v.a[1][0], prog) == ('head', k) for v in its)
        sub = all(x.kind == 'loop0' or any(is_call(v, 'useful') and subject(v.a[1][0], prog) == ('sub', x.a[0]) for v in its) for x in subs)
        none = useless2(p, None, None, k)
        return head and bool(subs) and sub and not none
    hs = tuple(x for x in names(m, f) if x not in ('prune_very_fast', 'f', '_f', 'useful', 'prune_fast'))
    kept(ctx, R, f, m, prog, useless2, useful2, hs)


def functors(ctx, m, R, f, prog, hs):
    "The graph over functors: inputs, outputs and one edge per rule."
    paths = [p for p in ctx.paths(f, inline=hs) if p.kind != 'raise' and consistent(p)]

    def starts(i, kind):
        def actions(p):
            out = []
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], 'reachability') and len(e.a[0].a[1]) == 2:
                    for q in pieces(p, e.a[0].a[1][i]):
                        if q.kind == 'one':
                            s = functor_of(p.res(q.v), prog)
                            if s is not None:
                                if s[0] != kind:
                                    ctx.fail(R, f'{f.ref} {kind}', e.where, f'{label(s[0])} is taken for {label(kind)}')
                                out.append((e, *s))
            return out
        return actions
    account(ctx, R, f, paths, prog, ('input',), starts(0, 'input'), 'start of the closure')
    account(ctx, R, f, paths, prog, ('output',), starts(1, 'output'), 'goal of the closure')
    n = 0
    for p in paths:
        for e in p.events:
            if e.kind == 'call' and is_call(e.a[0], 'add_edge') and e.a[0].a[1]:
                c = p.res(e.a[0])
                n += 1
                h = functor_of(c.a[1][0], prog)
                ctx.need(h is not None and h[0] == 'head', R, f.ref + ' edge', e.where, f'{short(c.a[1][0])} is the head of an edge')
                ctx.need(len(c.a[1]) > 2, R, f.ref + ' edge', e.where, 'the subgoals of a rule are not part of its edge')
    ctx.floor(n, 1, 'functor edges')
    nodes = {id(e.node) for p in paths for e, _ in loops_of(p) if has_edges(p, e)}
    for p in paths:
        for e, _ in loops_of(p):
            if id(e.node) in nodes:
                ctx.need(has_edges(p, e), R, f.ref + ' edges', e.where, 'a rule may be left without an edge')

    def body(p):
        out = []
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] in ('append', 'add') and len(e.a) > 2:
                s = functor_of(p.res(e.a[2]), prog)
                if s is not None and s[0] == 'sub':
                    out.append((e, *s))
        return out
    account(ctx, R, f, paths, prog, ('sub',), body, 'place in the edge')
    for p in paths:
        for e, ended in loops_of(p):
            it = itv(p, e)
            ctx.need(ended or subject_loop(p, e, prog) == 'sub' or not has_edges(p, e), R, f.ref + ' edges', e.where, 'not every rule has an edge')


def has_edges(p, e):
    return any(x.kind == 'call' and is_call(x.a[0], 'add_edge') and within(x, e.a[0]) for x in p.events)


def joins(v, prog, k, drivers):
    "v matches the head and every subgoal of the rule of loop k"
    v = noop(v)
    if not is_call(v, 'join') or not v.a[1]:
        return False
    if not drivers(recv(v)):
        return False
    if len(v.a[1]) == 1 and v.a[1][0].k == 'star':
        return rule_of(v.a[1][0].a[0], prog) == k
    if len(v.a[1]) != 2:
        return False
    h, x = v.a[1] if v.a[1][1].k == 'star' else v.a[1][::-1]
    s = subject(h, prog)
    return s == ('head', k) and x.k == 'star' and body_of(x.a[0], prog) is not None and rule_of(body_of(x.a[0], prog), prog) == k


def typed_prunes(ctx, m):
    R = 'dropped rules'
    mod = 'dyna.analyze.dead'
    f = m.func(mod, '_prune_dead')
    prog, an = param(f, 0), param(f, 1)

    def chart(v):
        v = noop(v)
        return v is an

    def useless(p, a, b, k):
        if a is None:
            return any(x.kind == 'loop0' and within(x, k) and joins(itv(p, x), prog, k, chart) for x in p.events)
        return is_call(noop(a), 'any') and b is False and any(joins(w, prog, k, chart) for w in walk(a))

    def useful(p, k):
        return any(x.kind == 'loop' and within(x, k) and joins(itv(p, x), prog, k, chart) for x in p.events)
    kept(ctx, R, f, m, prog, useless, useful, names_of(m, f))

    f = m.func(mod, '_prune_specialize')
    prog, an = param(f, 0), param(f, 1)
    R = 'specialised rules'
    n = 0
    for p in ctx.paths(f, inline=names_of(m, f)):
        if p.kind == 'raise':
            continue
        got = None
        for e in p.events:
            if e.kind == 'call' and is_call(e.a[0], 'TransformedProgram', 'spawn') and e.a[0].a[1]:
                got = e, e.a[0].a[1][-1]
        if got is None:
            ctx.fail(R, f.ref, p.where(), 'no specialised program is built')
            continue
        qs = pieces(p, got[1])
        for e, ended in loops_of(p):
            it = itv(p, e)
            k = e.a[0]
            if all_rules(it, prog):
                ctx.need(ended, R, f.ref + ' complete', e.where, 'the rules after some rule are left out')
                inner = [x for x in p.events if x.kind in ('loop', 'loop0') and within(x, k) and x.a[0] != k and is_call(noop(itv(p, x)), 'join')]
                ctx.need(bool(inner), R, f.ref + ' matches', e.where, 'the types of a rule are not looked up')
                for x in inner:
                    n += 1
                    v = noop(itv(p, x))
                    ctx.need(joins(v, prog, k, lambda d: disjoint_chart(p, d, an)), R, f.ref + ' matches', x.where, f'the copies of a rule come from {short(v)}')
                    if x.kind == 'loop':
                        end = [y for y in p.events if y.kind == 'loopend' and y.a[0] == x.a[0]]
                        ctx.need(bool(end) and not end[0].a[1], R, f.ref + ' matches', x.where, 'some ways to match a rule are left out')
                        mk = [y for y in p.events if y.kind == 'mutate' and y.a[1] in ('append', 'add') and within(y, x.a[0]) and rule_of(unfresh(p.res(y.a[2])), prog) == k]
                        ctx.need(len(mk) == 1, R, f.ref + ' copy', x.where, f'{len(mk)} copies of the rule for one way to match it')
                        for y in mk:
                            ctx.need(is_call(p.res(y.a[2]), 'fresh'), R, f.ref + ' copy', y.where, 'the copy of a rule is not renamed while the types that it matches are bound')
            elif seq(it) is an or (is_call(seq(it), 'just_heads') and recv(seq(it)) is an) or is_call(noop(it), 'DisjointEstimate'):
                ctx.need(ended, R, f.ref + ' types', e.where, 'not every useful type is considered')
                mk = [y for y in p.events if y.kind in ('mutate',) and y.a[1] in ('append', 'add') and within(y, k)]
                ctx.need(bool(mk), R, f.ref + ' types', e.where, 'a useful type is left out')
        if isinstance(p.value, V) and p.value is prog:
            same = any(a.k == 'cmp' and a.a[0] == '==' and b is True for a, b in p.facts.items())
            ctx.need(same, R, f.ref + ' unchanged', p.where(), 'the program is returned unspecialised although it is not known to be the same')
    ctx.floor(n, 1, 'specialised rules')


def names_of(m, f):
    return tuple(x for x in names(m, f) if x not in ('prune_fast', 'prune_very_fast', '_hg_prune_very_fast', 'f', '_f', 'useful', '_prune_dead', '_prune_specialize'))


def disjoint_chart(p, v, an):
    "a program with one fact per disjoint type of the analysis"
    v = noop(v)
    if is_call(v, 'to_program'):
        D = noop(recv(v))
        return is_call(D, 'DisjointEstimate')
    if not is_call(v, 'Program') or not v.a[1]:
        return False
    for e in p.events:
        if e.kind == 'call' and is_call(e.a[0], 'Program') and p.res(e.a[0]) is p.res(v):
            v = e.a[0]
    qs = pieces(p, v.a[1][0])
    ok = True
    for q in qs:
        if q.kind == 'one':
            rp = rule_parts(p, q.v)
            h = rp[0] if rp else None
            ok &= h is not None and not rp[1] and h.k == 'sub' and is_call(noop(h.a[0]), 'DisjointEstimate')
        else:
            ok = False
    return ok


# ------------------------------------------------------------------ input-independent rules, recursion
def reachset(v):
    "(closure value, node, reflexive) for T.outgoing[x]"
    v = noop(v)
    if v.k != 'sub':
        return None
    b = noop(v.a[0])
    if b.k == 'attr' and b.a[1] == 'outgoing':
        b = noop(b.a[0])
    if not is_call(b, 'transitive_closure'):
        return None
    r = dict(b.a[2]).get('reflexive', b.a[1][0] if b.a[1] else None)
    return b, v.a[1], (r is not None and is_const(r, True))


def self_prog(f):
    return Attr(param(f, 0), 'program')


def input_split(ctx, m):
    R = 'input-independent rules'
    f = m.func('dyna.analyze.coarse_graph', 'CoarseGraph.split_input_dependent')
    prog = self_prog(f)
    n = 0
    paths = [p for p in ctx.paths(f, inline=names_of(m, f)) if consistent(p)]
    for p in paths:
        if p.kind != 'return':
            continue
        v = p.value
        ok = v.k == 'tup' and len(v.a[1]) == 2
        if not ok:
            ctx.fail(R, f.ref, p.where(), f'{short(v)} is returned instead of two programs')
            continue
        parts = [x.a[1][0] if is_call(x, 'spawn', 'Program') and x.a[1] else x for x in v.a[1]]
        rs = [(e, ended) for e, ended in loops_of(p) if all_rules_any(itv(p, e), prog)]
        for e, ended in rs:
            k = e.a[0]
            ctx.need(ended, R, f.ref + ' complete', e.where, 'the rules after some rule are left out')
        for e, ended in rs[:1] if len(rs) == 1 else rs:
            k = e.a[0]
            hits = [[q for q in pieces(p, x) if q.kind == 'one' and rule_of(q.v, prog) == k] for x in parts]
            if len(rs) == 1:
                ctx.need(sum(len(h) for h in hits) == 1, R, f.ref + ' once', e.where, f'a rule is put into {sum(len(h) for h in hits)} parts')
            tests = [(a, b) for a, b in p.facts.items() if dependent(p, a, prog, k) is not None]
            vals = {bool(b) == dependent(p, a, prog, k) for a, b in tests}
            if not vals and any(x.kind == 'loop0' and within(x, k) and input_set(p, itv(p, x), prog) for x in p.events):
                vals = {False}
            if len(hits[0]) == 1:
                n += 1
                ctx.need(vals == {False}, R, f.ref + ' independent', e.where, 'a rule counts as input-independent although its head may depend on an input')
            if len(hits[1]) == 1:
                ctx.need(vals == {True} or not vals, R, f.ref + ' dependent', e.where, 'a rule counts as input-dependent although its head was found to depend on no input')
    ctx.floor(n, 1, 'input-independent rules')

    def actions(p):
        out = []
        sets = [x for a, _ in p.facts.items() for x in walk(a)]
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] in ('add', 'append') and len(e.a) > 2:
                s = node_of(p.res(e.a[2]), prog)
                if s is not None and s[0] == 'input':
                    out.append((e, *s))
        return out
    account(ctx, R, f, paths, prog, ('input',), actions, 'node')
    # solving ahead of time must keep the remaining rules
    f = m.func('dyna.analyze.coarse_graph', 'CoarseGraph.solve_input_independent')
    for p in ctx.paths(f, inline=names_of(m, f) and ()):
        if p.kind == 'return':
            v = p.value
            ok = v.k == 'bin' and v.a[0] == '+'
            sides = v.a[1:3] if ok else ()
            sol = [x for x in sides if is_call(x, 'sol', 'seminaive', 'agenda', 'solve') or x.k == 'call' and is_const(x.a[0], None)]
            src = [sub_index(x) for x in sides]
            good = ok and any(is_call(x, 'sol', 'seminaive', 'agenda') and sub_index(recv(x)) == 0 for x in sides) and any(sub_index(x) == 1 for x in sides)
            ctx.need(good, R, f.ref, p.where(), f'{short(v)} is returned: not the solution of the independent rules together with the others')


def sub_index(x):
    x = noop(x)
    if x.k == 'sub' and x.a[1].k == 'const' and is_call(x.a[0], 'split_input_dependent'):
        return x.a[1].a[0]
    return None


def dependent(p, a, prog, k):
    "True if the fact, when true, says that the head of rule k reaches an input; False for the negated form; None otherwise"
    if a.k == 'un' and a.a[0].strip() == 'not':
        d = dependent(p, a.a[1], prog, k)
        return None if d is None else not d
    if a.k == 'bin' and a.a[0] == '&':
        for x, y in (a.a[1:3], a.a[1:3][::-1]):
            t = reachset(x)
            if t is not None and t[2] and head_node(t[1], prog, k) and input_set(p, y, prog):
                return True
    if is_call(a, 'isdisjoint', 'intersection') and a.a[1]:
        for x, y in ((recv(a), a.a[1][0]), (a.a[1][0], recv(a))):
            t = reachset(x)
            if t is not None and t[2] and head_node(t[1], prog, k) and input_set(p, y, prog):
                return is_call(a, 'intersection')
    if a.k == 'cmp' and a.a[0] == 'in':
        t = reachset(a.a[2])
        s = node_of(a.a[1], prog)
        if t is not None and t[2] and head_node(t[1], prog, k) and s is not None and s[0] == 'input':
            return True
    return None


def head_node(v, prog, k):
    s = node_of(v, prog)
    return s is not None and s[0] == 'head' and s[1] == k


def input_set(p, v, prog):
    qs = pieces(p, v)
    if v.k == 'attr' or is_call(v, 'just_heads'):
        return False
    return all(q.kind == 'one' and (node_of(p.res(q.v), prog) or ('',))[0] == 'input' for q in qs if q.v is not None)


def cyclic(ctx, m):
    R = 'recursion'
    f = m.func('dyna.analyze.coarse_graph', 'CoarseGraph.possibly_cyclic')
    n = 0
    for p in ctx.paths(f, inline=names_of(m, f)):
        if p.kind != 'return' or is_const(p.value, True):
            continue
        for e in p.events:
            if e.kind in ('loop', 'loop0'):
                it = noop(itv(p, e))
                if it.k == 'attr' and it.a[1] in ('nodes', 'outgoing'):
                    it = noop(it.a[0])
                ok = is_call(it, 'transitive_closure') and refl(it) is not True or (it.k == 'attr' and it.a[1] == 'g')
                ctx.need(ok, R, f.ref + ' nodes', e.where, f'recursion is looked for in {short(it)}')
        for e, ended in loops_of(p):
            n += 1
            k = e.a[0]
            ctx.need(ended, R, f.ref, e.where, 'a program counts as acyclic before every type is tested')
            ok = any(member(a, b, False) and selfloop(a, k) for a, b in p.facts.items())
            ctx.need(ok, R, f.ref, e.where, 'a program counts as acyclic although a type may depend on itself')
        if not loops_of(p) and not any(e.kind == 'loop0' for e in p.events):
            ctx.fail(R, f.ref, p.where(), f'a program counts as acyclic if {short(p.value)}')
    ctx.floor(n, 1, 'acyclicity tests')


def refl(c):
    r = dict(c.a[2]).get('reflexive', c.a[1][0] if c.a[1] else None)
    return r is not None and is_const(r, True)


def selfloop(a, k):
    x = a.a[1]
    c = noop(a.a[2])
    if c.k != 'sub' or c.a[1] is not x:
        return False
    t = reachset(c)
    return t is not None and not t[2] and any(w.k == 'idx' and w.a[0] == k for w in walk(x))


def expansive(ctx, m):
    R = 'expansion'
    f = m.func('dyna.analyze.coarse_graph', 'CoarseGraph.possibly_expansive')
    prog = self_prog(f)
    n = 0
    for p in ctx.paths(f, inline=names_of(m, f)):
        if p.kind != 'return' or is_const(p.value, True):
            continue
        ls = [(e, ended) for e, ended in loops_of(p)]
        if not ls and not any(e.kind == 'loop0' for e in p.events):
            ctx.fail(R, f.ref, p.where(), f'a program counts as non-expansive if {short(p.value)}')
        for e, ended in ls:
            kind = subject_loop(p, e, prog)
            k = e.a[0]
            if kind is None:
                continue
            ctx.need(ended, R, f.ref, e.where, 'a program counts as non-expansive before every rule and subgoal is tested')
            if kind != 'sub' or solved_elsewhere(p, k, prog):
                continue
            n += 1
            cnt = [x for x in p.events if within(x, k) and x.kind in ('aug', 'carry', 'mutate', 'binop') and any(reaches(w, prog, k) for y in x.a if isinstance(y, V) for w in walk(p.res(y)))]
            miss = any(b is False and reaches(a, prog, k) for a, b in p.facts.items())
            ctx.need(bool(cnt) or miss or hit_counted(p, k, prog), R, f.ref, e.where, 'a subgoal that may lead back to the head is not counted')
            thr = [(a, b) for a, b in p.facts.items() if threshold(a) is not None]
            low = [b for a, b in thr if at_most_one(a, b)]
            ctx.need(bool(low) or miss, R, f.ref + ' threshold', e.where, 'a program counts as non-expansive although two subgoals of a rule may lead back to its head')
            start = [x for x in p.events if x.kind == 'carry' and x.a[0] == k]
    ctx.counts['expansion tests'] = n
    if not n:
        ctx.fail(R, f.ref, f.ref, 'the subgoals of a rule are not counted one by one')


def hit_counted(p, k, prog):
    hit = any(b is True and reaches(a, prog, k) for a, b in p.facts.items())
    return hit and any(x.kind in ('aug', 'mutate') and within(x, k) for x in p.events)


def reaches(a, prog, k):
    "head in closure[subgoal of loop k]"
    if not (a.k == 'cmp' and a.a[0] == 'in'):
        return False
    t = reachset(a.a[2])
    if t is None or not t[2]:
        return False
    h, s = node_of(a.a[1], prog), node_of(t[1], prog)
    return h is not None and h[0] == 'head' and s is not None and s == ('sub', k)


def threshold(a):
    if a.k != 'cmp' or a.a[0] not in ('<', '<=', '=='):
        return None
    for i in (1, 2):
        if a.a[i].k == 'const' and isinstance(a.a[i].a[0], int):
            return i, a.a[i].a[0]
    return None


def at_most_one(a, b):
    i, c = threshold(a)
    if a.a[0] == '<':
        return (i == 1 and c <= 1 and b is False) or (i == 2 and c <= 2 and b is True)
    if a.a[0] == '<=':
        return (i == 1 and c <= 2 and b is False) or (i == 2 and c <= 1 and b is True)
    return False
