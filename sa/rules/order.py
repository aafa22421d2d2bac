"""Components, closures and queues (C24)."""
import ast
from ..core import check
from ..values import V, NONE, fname, is_call, recv, walk, is_const
from ..util import short
from .match import param
from .execute import noop
from .transform import pieces
from .goal import itv, nested, helpers_of, mentions
from .coarse import loops_of, within, consistent, names, seq, all_rules_any, unfresh


@check('C24', 'step-by-step accounting of the depth-first search, of the component graph and of the priority queue on every path',
       'Every node and edge must be visited, low marks may only fall to those of nodes that are still open, a component is closed exactly at its first node and with everything above it; '
       'the derived graphs must map every node and edge; every queue operation must keep the item map, the buckets and the lower bound in step.',
       ['the matrix closure that the transitive closure is read from is decided under C16'])
def c24(ctx):
    m = ctx.m
    components(ctx, m)
    condensation(ctx, m)
    closure(ctx, m)
    plain_graph(ctx, m)
    subprograms(ctx, m)
    queue(ctx, m)


def pos_const(v):
    return v.k == 'const' and isinstance(v.a[0], int) and v.a[0] > 0


def eq_fact(p, x, y):
    "truth of x == y on this path, or None"
    if x is y:
        return True
    for a, b in p.facts.items():
        if a.k == 'cmp' and {id(z) for z in a.a[1:3]} == {id(x), id(y)}:
            if a.a[0] in ('==', 'is'):
                return b
            if a.a[0] == '<' and b is True:
                return False
    return None


# ------------------------------------------------------------------ strongly connected components
def components(ctx, m):
    R = 'components'
    f = m.func('dyna.util.graphs', 'tarjan')
    succ, roots = param(f, 0), param(f, 1)
    inner = nested(m, f) + [g for g in helpers_of(m, f) if g.mod is f.mod and g.outer is None]
    rec = [g for g in inner if any(isinstance(n, ast.Call) and getattr(n.func, 'id', None) == g.name for n in ast.walk(g.node))]
    if len(rec) != 1:
        return                      # a different algorithm: nothing that these rules can decide
    dfs = rec[0]
    starts(ctx, R, f, dfs, roots)
    x = param(dfs, 0)
    shared = {n for s in ast.walk(dfs.node) if isinstance(s, ast.Nonlocal) for n in s.names}
    others = {g.name: g for g in inner if g is not dfs}
    n = 0
    closes = 0
    for p in ctx.paths(dfs):
        if p.kind == 'raise' or contradictory(p, x):
            continue
        marks = [e for e in p.events if e.kind == 'setitem' and e.a[1] is x and not e.ctx]
        if not marks:
            ctx.fail(R, f'{dfs.ref} number', p.where(), 'a visited node gets no number')
            continue
        L, num = marks[0].a[0], marks[0].a[2]
        n += 1
        bump = [e for e in p.events if e.kind in ('aug', 'binop') and e.n < marks[0].n and e.a[0] == '+' and any(pos_const(z) for z in e.a[1:] if isinstance(z, V))]
        ok = bool(bump) or any(is_call(w, 'next', 'len') for w in walk(num))
        ctx.need(ok, R, f'{dfs.ref} number', marks[0].where, 'two nodes may get the same number')
        opened = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('append', 'add') and len(e.a) > 2 and e.a[2] is x]
        S = [e.a[0] for e in opened if e.a[1] == 'append']
        T = [e.a[0] for e in opened if e.a[1] == 'add']
        loops = [(e, d) for e, d in loops_of(p) if isinstance(e.a[1], V) and called(seq(itv(p, e)), succ) ]
        zero = [e for e in p.events if e.kind == 'loop0' and isinstance(e.a[1], V) and called(seq(itv(p, e)), succ)]
        first = min([e.n for e, _ in loops] + [e.n for e in zero] + [1 << 60])
        ctx.need(bool(S) and all(e.n < first for e in opened), R, f'{dfs.ref} open', p.where(), 'a node is not open while its successors are visited')
        ctx.need(bool(loops or zero), R, f'{dfs.ref} successors', p.where(), 'the successors of a node are not visited')
        for e in [e for e, _ in loops] + zero:
            ctx.need(seq(itv(p, e)).a[1][:1] == (x,), R, f'{dfs.ref} successors', e.where, 'the successors of another node are visited')
        low = num
        for e, ended in loops:
            k = e.a[0]
            ctx.need(ended, R, f'{dfs.ref} successors', e.where, 'not every successor of a node is visited')
            low = step(ctx, R, p, dfs, e, k, L, S, T, x, num, low, shared)
        # closing
        for e in p.events:
            if e.kind == 'compare' and isinstance(e.node, ast.Compare) and {id(z) for z in e.a[1:3]} & {id(num), id(low)}:
                bad = [z.id for z in ast.walk(e.node) if isinstance(z, ast.Name) and z.id in shared]
                if e.a[1] in (num, low) and e.a[2] in (num, low):
                    ctx.need(not bad, R, f'{dfs.ref} root', e.where, f'the counter {bad} has moved on since the node was numbered')
        test = eq_fact(p, low, num)
        if test is None and any(a.k == 'cmp' and a.a[0] == '<' and a.a[1] is low and a.a[2] is num and b is False for a, b in p.facts.items()):
            test = True         # a low mark never exceeds the number of its node
        calls = [c for c in p.events if c.kind == 'call' and c.a[0].a[0].k in ('name', 'param', 'fn', 'global', 'ext') and fname(c.a[0]. a[0]) in others and any(z is x for z in c.a[0].a[1])]
        pops = [e for e in p.events if e.kind == 'mutate' and e.a[1] == 'pop' and any(e.a[0] is s for s in S)]
        compared = low is num or any(e.kind == 'compare' and {id(z) for z in e.a[1:3]} == {id(low), id(num)} for e in p.events)
        if not compared and (pops or calls or p.kind != 'backedge'):
            ctx.fail(R, f'{dfs.ref} root', p.where(), 'a component is closed, or left open, without comparing the low mark of the node with its number')
        elif test is False:
            ctx.need(not pops and not calls and not any(e.kind == 'yield' and not e.ctx for e in p.events), R, f'{dfs.ref} root', p.where(), 'a component is closed at a node that reaches an earlier open node')
        elif test is True:
            if p.kind != 'backedge':
                closes += ctx.need(bool(pops or calls), R, f'{dfs.ref} root', p.where(), 'a component is not closed at its first node')
                if calls:
                    used = any(e.kind in ('yield', 'yieldfrom') and any(w is c.a[0] for c in calls for w in walk(e.a[0])) for e in p.events)
                    used = used or any(e.kind == 'loop' and isinstance(e.a[1], V) and any(w is c.a[0] for c in calls for w in walk(e.a[1])) for e in p.events)
                    ctx.need(used, R, f'{dfs.ref} yield', p.where(), 'a component is not reported')
        elif pops or calls or p.kind != 'backedge':
            ctx.fail(R, f'{dfs.ref} root', p.where(), 'a component is closed, or left open, although the low mark of the node may or may not be its number')
        popping(ctx, R, p, dfs, x, set(S), set(T), bool(pops))
    for g in others.values():
        for p in ctx.paths(g):
            if p.kind != 'raise' and not contradictory(p, param(g, 0)) and any(e.kind == 'mutate' and e.a[1] == 'pop' for e in p.events):
                popping(ctx, R, p, g, param(g, 0), None, None, True)
    ctx.floor(n, 3, 'depth-first steps')


def contradictory(p, x):
    "x is None, or two values are both equal and different"
    for a, b in p.facts.items():
        if a.k == 'cmp' and a.a[0] == '<' and a.a[1] is a.a[2] and b is True:
            return True
        if a.k == 'cmp' and a.a[0] in ('==', 'is') and b is True:
            if any(z is x for z in a.a[1:3]) and any(is_const(z, None) for z in a.a[1:3]):
                return True
            for c, d in p.facts.items():
                if c.k == 'cmp' and c.a[0] == '<' and d is True and {id(z) for z in c.a[1:3]} == {id(z) for z in a.a[1:3]}:
                    return True
    return False


def starts(ctx, R, f, dfs, roots):
    n = 0
    for p in ctx.paths(f, inline=()):
        if p.kind == 'raise':
            continue
        lp = [(e, d) for e, d in loops_of(p) if noop(seq(itv(p, e))) is roots]
        if not lp:
            ctx.need(any(e.kind == 'loop0' and noop(seq(itv(p, e))) is roots for e in p.events), R, f'{f.ref} roots', p.where(), 'the search does not start from every root')
        for e, ended in lp:
            k = e.a[0]
            n += 1
            ctx.need(ended, R, f'{f.ref} roots', e.where, 'the search does not start from every root')
            w = V('sub', roots, None)
            went = any(within(y, k) and (y.kind in ('setitem', 'yieldfrom') or y.kind == 'call' and dfs.name in str(y.a[0].a[0]) or y.kind == 'loop' and dfs.name in str(y.a[1])) for y in p.events)
            known = any(seen(a, b, None, lambda z: z.k in ('sub', 'elem') and len(z.a) > 1 and z.a[1].k == 'idx' and z.a[1].a[0] == k) is True for a, b in p.facts.items())
            ctx.need(went or known, R, f'{f.ref} roots', e.where, 'a root is passed over although it was not visited')
            fresh_ = any(seen(a, b, None, lambda z: z.k in ('sub', 'elem') and len(z.a) > 1 and z.a[1].k == 'idx' and z.a[1].a[0] == k) is False for a, b in p.facts.items())
            ctx.need(not went or fresh_, R, f'{f.ref} roots', e.where, 'a root may be visited again')
    ctx.floor(n, 1, 'starts of the search')


def seen(a, b, L, is_w):
    "True/False: on this path w was (not) visited before, None: the fact says nothing about it"
    if a.k == 'cmp' and a.a[0] in ('is', '==') and any(is_const(z, None) for z in a.a[1:3]):
        g = next((z for z in a.a[1:3] if is_call(z, 'get')), None)
        if g is not None and g.a[1] and is_w(g.a[1][0]) and (L is None or recv(g) is L):
            return not b
    if is_call(a, 'get') and a.a[1] and is_w(a.a[1][0]) and b is True:
        return True
    if a.k == 'cmp' and a.a[0] == 'in' and is_w(a.a[1]) and (L is None or a.a[2] is L):
        return b
    return None


def step(ctx, R, p, dfs, e, k, L, S, T, x, num, low, shared):
    "One successor: returns the low mark of x after it."
    w = None
    for a in p.facts:
        for z in walk(a):
            if z.k in ('sub', 'elem') and len(z.a) > 1 and z.a[1].k == 'idx' and z.a[1].a[0] == k:
                w = z
    if w is None:
        ctx.fail(R, f'{dfs.ref} visit', e.where, 'a successor is treated the same whether or not it was visited')
        return low
    was = {seen(a, b, L, lambda z: z is w) for a, b in p.facts.items()} - {None}
    inside = [y for y in p.events if within(y, k)]
    recs = [y for y in inside if y.kind == 'call' and fname(y.a[0].a[0]) == dfs.name and y.a[0].a[1][:1] == (w,)]
    got = [y for y in inside if y.kind == 'yieldfrom' or (y.kind in ('loop', 'loop0') and isinstance(y.a[1], V) and any(z is c.a[0] for c in recs for z in walk(y.a[1])))]
    for y in inside:
        if y.kind == 'loopend' and y.a[1] and y.a[0] != k:
            ctx.fail(R, f'{dfs.ref} visit', y.where, 'the components that a successor reports are cut short')
    sets = [y for y in inside if y.kind == 'setitem' and y.a[0] is L and y.a[1] is x]
    carry = [y for y in p.events if y.kind == 'carry' and y.a[0] == k and isinstance(y.a[3], V)]
    opened = [b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is w and any(a.a[2] is z for z in S + T)]
    reads = [y for y in inside if y.kind == 'getitem' and y.a[0] is L and y.a[1] is x]

    def lw(v):
        return (v.k == 'sub' and v.a[0] is L and v.a[1] is w) or (is_call(v, 'get') and recv(v) is L and v.a[1][:1] == (w,))
    less = {b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == '<' and lw(a.a[1])}
    more = {b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == '<' and lw(a.a[2])}
    new = None
    for y in sets:
        v = y.a[2]
        if is_call(v, 'min') and any(lw(z) for z in v.a[1]) and len(v.a[1]) == 2:
            prev = next(z for z in v.a[1] if not lw(z)) if any(not lw(z) for z in v.a[1]) else None
            own = prev is not None and (prev is low or prev.k == 'phi') and (any(r.n < y.n for r in reads) or prev.k == 'phi')
            bad = isinstance(y.node, ast.AST) and [z.id for z in ast.walk(y.node) if isinstance(z, ast.Name) and z.id in shared]
            ctx.need(own and not bad, R, f'{dfs.ref} low mark', y.where, 'the low mark of a node forgets the successors before this one')
            new = v
        elif lw(v) and (True in less or False in more):
            new = v
        else:
            ctx.fail(R, f'{dfs.ref} low mark', y.where, f'the low mark of a node becomes {short(v)}')
            new = v
    if new is None:
        for y in carry:
            v = y.a[3]
            if is_call(v, 'min') and any(lw(z) for z in v.a[1]) and any(z.k == 'phi' for z in v.a[1]):
                new = v
    took = new is not None or False in less or True in more
    if new is not None:
        src = [y for y in inside if y.kind in ('getitem', 'call') and lw(y.a[0] if y.kind == 'call' else V('sub', y.a[0], y.a[1]))]
        if recs:
            ctx.need(all(y.n > recs[0].n for y in sets or carry), R, f'{dfs.ref} low mark', e.where, 'the low mark of a successor is read before the successor is visited')
    if False in was:
        ctx.need(bool(recs) and bool(got), R, f'{dfs.ref} visit', e.where, 'an unvisited successor is not searched, or its components are not reported')
        shut = bool(recs) and any(y.kind == 'compare' and y.n > recs[0].n and y.a[0] in ('in', 'not in') and y.a[1] is w and any(y.a[2] is z for z in S + T) for y in inside) and False in opened
        ctx.need(took or shut, R, f'{dfs.ref} low mark', e.where, 'a node does not learn what its successor reaches')
    elif True in was:
        ctx.need(not recs, R, f'{dfs.ref} visit', e.where, 'a visited successor is searched again')
        if True in opened:
            ctx.need(took, R, f'{dfs.ref} low mark', e.where, 'a cycle through an open successor is not noticed')
        elif False in opened:
            ctx.need(new is None, R, f'{dfs.ref} low mark', e.where, 'the low mark of a node is taken from a node whose component is closed')
        else:
            ctx.fail(R, f'{dfs.ref} low mark', e.where, 'open and closed successors are treated alike')
    elif recs:
        ctx.fail(R, f'{dfs.ref} visit', e.where, 'a successor is searched although it may have been visited')
    else:
        if True in opened:
            ctx.need(took, R, f'{dfs.ref} low mark', e.where, 'a cycle through an open successor is not noticed')
        else:
            ctx.fail(R, f'{dfs.ref} visit', e.where, 'a successor is passed over although it was not visited')
    return new if new is not None and sets else (new or low)


def popping(ctx, R, p, g, x, S, T, pops):
    "The component is everything on the stack down to x."
    whiles = [(e, d) for e, d in loops_of(p) if e.a[1] is None or not isinstance(e.a[1], V)]
    own = []
    for e, d in whiles:
        k = e.a[0]
        ps = [y for y in p.events if within(y, k) and y.kind == 'mutate' and y.a[1] == 'pop' and (S is None or y.a[0] in S)]
        if ps:
            own.append((e, d, k, ps))
    if not own:
        return
    for e, d, k, ps in own:
        ctx.need(len(ps) == 1 and len(ps[0].a) == 2, R, f'{g.ref} close', e.where, 'not the topmost open node is taken')
        q = next((y.a[0] for y in p.events if within(y, k) and y.kind == 'call' and is_call(y.a[0], 'pop') and recv(y.a[0]) is ps[0].a[0]), None)
        if q is None:
            continue
        outs = [y for y in p.events if within(y, k) and y.kind == 'mutate' and y.a[1] in ('append', 'add', 'appendleft', 'insert') and y.a[-1] is q]
        ctx.need(len(outs) == 1, R, f'{g.ref} close', e.where, 'a node that is closed is not put into its component')
        gone = [y for y in p.events if within(y, k) and y.kind == 'mutate' and y.a[1] in ('remove', 'discard') and y.a[-1] is q]
        if T or T is None:
            ctx.need(bool(gone), R, f'{g.ref} close', e.where, 'a closed node still counts as open')
        eq = eq_fact(p, q, x)
        if p.kind == 'backedge':
            ctx.need(eq is not True, R, f'{g.ref} close', e.where, 'nodes below the first node of the component are taken as well')
            continue
        if eq is None:
            cr = [y for y in p.events if y.kind == 'carry' and y.a[0] == k and y.a[3] is q]
            ok = bool(cr) and any(y.kind == 'compare' and {id(z) for z in y.a[1:3]} == {id(cr[0].a[2]), id(x)} for y in p.events)
            ctx.need(ok, R, f'{g.ref} close', e.where, 'the component does not end at its first node')
        else:
            ctx.need(eq is True, R, f'{g.ref} close', e.where, 'the component ends before its first node')
        if outs:
            C = outs[0].a[0]
            vals = [y.a[0] for y in p.events if y.kind == 'yield'] + ([p.value] if p.kind == 'return' and isinstance(p.value, V) else [])
            ok = [v for v in vals if any(w is C for w in walk(v)) or noop_set(v) is C]
            ctx.need(len(ok) >= 1, R, f'{g.ref} yield', e.where, 'the component that was closed is not reported')
            for v in ok:
                ctx.need(whole(v, C), R, f'{g.ref} yield', e.where, f'{short(v)} is reported instead of the whole component')


def noop_set(v):
    v = noop(v)
    while is_call(v, 'frozenset', 'set', 'sorted') and len(v.a[1]) == 1:
        v = noop(v.a[1][0])
    return v


def whole(v, C):
    return noop_set(v) is C


# ------------------------------------------------------------------ the component graph
def condensation(ctx, m):
    R = 'component graph'
    f = m.func('dyna.util.graphs', 'Graph.condensation')
    me = param(f, 0)
    roots = param(f, 1)
    n = 0
    for p in ctx.paths(f, inline=tuple(x for x in names(m, f) if x not in ('add', 'add_edge', 'tarjan', 'Graph', 'nodes', 'edges'))):
        if p.kind != 'return' or not consistent(p):
            continue
        t = next((e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'tarjan')), None)
        if t is None:
            return
        n += 1
        tv = t.a[0]
        s0 = str(tv.a[1][0])
        ok = succ_of(tv.a[1][0], me)
        ctx.need(ok, R, f'{f.ref} successors', t.where, f'{s0} are not the successors of this graph')
        r = noop(tv.a[1][1]) if len(tv.a[1]) > 1 else None
        given = next((b for a, b in p.facts.items() if a is roots), None)
        if given is None:
            given = next((not b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'is' and a.a[1] is roots and is_const(a.a[2], None)), None)
        ok = r is not None and (r is roots and given is True or given is False and nodes_of(r, me))
        ctx.need(ok, R, f'{f.ref} roots', t.where, f'the search starts from {short(r) if r is not None else "nothing"}')
        comps = {w for w in [tv] + [e.a[0] for e in p.events if e.kind == 'call'] if noop(w) is tv}

        def is_comps(v):
            return noop(v) is tv

        def comp_elem(v):
            return v.k == 'sub' and v.a[1].k == 'idx' and is_comps(v.a[0])
        # the component of every node
        maps = {}
        for e in p.events:
            if e.kind != 'setitem' or e.a[0].k != 'obj':
                continue
            key, val = e.a[1], e.a[2]
            if key.k == 'sub' and key.a[1].k == 'idx' and comp_elem(key.a[0]):
                i = key.a[0].a[1]
                if val is i or (val.k == 'idx' and val.a[0] == i.a[0]):
                    maps[e.a[0]] = 'index'
                elif comp_elem(val) and val.a[1] is i:
                    maps[e.a[0]] = 'comp'
                else:
                    ctx.fail(R, f'{f.ref} map', e.where, f'a node is mapped to {short(val)} instead of its component')
        for e, ended in loops_of(p):
            ctx.need(ended, R, f'{f.ref} complete', e.where, 'a loop over nodes, edges or components ends early')
        ilo = [e for e, _ in loops_of(p) if comp_elem(noop(itv(p, e)))]
        for e, _ in loops_of(p):
            if is_comps(seq(itv(p, e))) and not any(y.kind in ('loop', 'loop0', 'setitem', 'mutate') and within(y, e.a[0]) and y is not e for y in p.events):
                ctx.fail(R, f'{f.ref} map', e.where, 'the nodes of a component are not mapped to it')
        for e in ilo:
            hit = any(y.kind in ('setitem', 'mutate') and within(y, e.a[0]) for y in p.events)
            ctx.need(hit, R, f'{f.ref} map', e.where, 'a node of a component is not mapped to it')

        def comp_of(v):
            v = noop(v)
            if v.k == 'sub':
                if is_comps(v.a[0]):
                    w = noop(v.a[1])
                    if w.k == 'sub' and w.a[0] in maps and maps[w.a[0]] == 'index':
                        return w.a[1]
                if v.a[0] in maps and maps[v.a[0]] == 'comp':
                    return v.a[1]
            return None

        def index_of(v):
            return v.a[1] if v.k == 'sub' and v.a[0] in maps else None

        def reached(node):
            "was the node found to be reachable from the roots?"
            for e in p.events:
                if e.kind == 'cond' and e.a[0].k == 'cmp' and e.a[0].a[0] == 'in' and e.a[0].a[1] is node and not comp_of(e.a[0].a[2]) and e.a[0].a[2].k != 'sub' and (any(noop(w) is tv for w in walk(e.a[0].a[2])) or str(e.a[0].a[2]) in ('{}', 'set()')):
                    return e.a[1] if isinstance(e.a[1], bool) else (e.a[1].a[0] if isinstance(e.a[1], V) and e.a[1].k == 'const' else p.facts.get(e.a[0]))
            return None

        def same(x, y):
            for a, b in p.facts.items():
                if a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is y and a.a[2].k == 'sub' and any(w is x for w in walk(a.a[2])):
                    return b
                if a.k == 'cmp' and a.a[0] in ('==', 'is') and all(z.k == 'sub' or is_call(z, 'get') for z in a.a[1:3]):
                    l, r_ = a.a[1:3]
                    if {id(w) for w in (tail(l), tail(r_))} == {id(x), id(y)}:
                        return b
            return None
        ret = p.value
        adds = [e.a[0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'add_edge') and recv(e.a[0]) is ret]
        nodes = [p.res(e.a[2]) if e.a[2].k != 'obj' else e.a[2] for e in p.events if e.kind == 'mutate' and e.a[1] == 'add' and (e.a[0] is ret or e.a[0].k == 'attr' and e.a[0].a[0] is ret and e.a[0].a[1] == 'nodes') and len(e.a) > 2]
        nodes += [e.a[0].a[1][0] for e in p.events if e.kind == 'call' and is_call(e.a[0], 'add') and e.a[0].a[1] and (recv(e.a[0]) is ret or recv(e.a[0]).k == 'attr' and recv(e.a[0]).a[0] is ret)]
        xl = [e for e, _ in loops_of(p) if nodes_of(seq(itv(p, e)), me)]
        el = [e for e, _ in loops_of(p) if edges_of(seq(itv(p, e)), me)]
        allc = any(comp_elem(v) for v in nodes) or any(e.kind == 'loop0' and is_comps(seq(itv(p, e))) for e in p.events)
        for e in xl:
            k = e.a[0]
            x = next((w for y in p.events if within(y, k) for a in y.a if isinstance(a, V) for w in walk(a) if w.k == 'sub' and w.a[1].k == 'idx' and w.a[1].a[0] == k), None)
            if x is None:
                ctx.fail(R, f'{f.ref} node', e.where, 'a node is ignored')
                continue
            got = any(comp_of(v) is x for v in nodes) or any(any(comp_of(z) is x for z in c.a[1]) for c in adds)
            used = [(y, d) for y, d in loops_of(p) if within(y, k) and y.a[0] != k and out_of(seq(itv(p, y)), me, x)]
            zero = [y for y in p.events if y.kind == 'loop0' and within(y, k) and out_of(seq(itv(p, y)), me, x)]
            if reached(x) is False:
                continue
            ctx.need(got or allc, R, f'{f.ref} node', e.where, 'the component of a node is missing from the component graph')
            if not (used or zero):
                if not el and len(xl) == 1:
                    ctx.fail(R, f'{f.ref} edge', e.where, 'the edges of a node are not followed')
            for y, _ in used:
                edge(ctx, R, f, p, y, x, adds, comp_of, reached, same)
        for e in el:
            k = e.a[0]
            w = next((w for y in p.events if within(y, k) for a in y.a if isinstance(a, V) for w in walk(a) if w.k == 'sub' and w.a[1].k == 'idx' and w.a[1].a[0] == k), None)
            if w is not None and reached(V('sub', w, 0)) is not False:
                pass
        if not xl and not el and not any(e.kind == 'loop0' and (nodes_of(seq(itv(p, e)), me) or edges_of(seq(itv(p, e)), me)) for e in p.events):
            ctx.fail(R, f'{f.ref} node', p.where(), 'the nodes of the graph are not followed')
        topo = [e for e in p.events if e.kind == 'setattr' and e.a[0] is ret and e.a[1] == 'topo']
        ctx.need(bool(topo) and is_comps(topo[-1].a[2]), R, f'{f.ref} order', p.where(), 'the components are not kept in the order in which they were closed')
    ctx.floor(n, 1, 'component graphs')


def tail(v):
    "comps[s[x]] or s[x] -> x"
    if is_call(v, 'get') and v.a[1]:
        return v.a[1][0]
    while v.k == 'sub' and v.a[1].k == 'sub' and v.a[1].a[1].k != 'idx':
        v = v.a[1]
    return v.a[1] if v.k == 'sub' else v


def succ_of(v, me):
    if v.k == 'attr' and v.a[1] in ('__getitem__',):
        return v.a[0] is me or (v.a[0].k == 'attr' and v.a[0].a[1] == 'outgoing' and v.a[0].a[0] is me)
    if v.k in ('lam', 'closure', 'fn'):
        return True
    return not (v.k == 'attr')


def nodes_of(v, me):
    v = noop(v)
    return v is me or (v.k == 'attr' and v.a[1] == 'nodes' and v.a[0] is me) or (is_call(v, 'sorted', 'iter', 'set') and bool(v.a[1]) and nodes_of(v.a[1][0], me))


def edges_of(v, me):
    v = noop(v)
    return v.k == 'attr' and v.a[1] == 'edges' and v.a[0] is me


def out_of(v, me, x):
    v = noop(v)
    if v.k != 'sub' or v.a[1] is not x:
        return False
    b = noop(v.a[0])
    return b is me or (b.k == 'attr' and b.a[1] == 'outgoing' and b.a[0] is me)


def edge(ctx, R, f, p, e, x, adds, comp_of, reached, same):
    k = e.a[0]
    y = next((w for z in p.events if within(z, k) for a in z.a if isinstance(a, V) for w in walk(a) if w.k == 'sub' and w.a[1].k == 'idx' and w.a[1].a[0] == k), None)
    if y is None:
        ctx.fail(R, f'{f.ref} edge', e.where, 'an edge is ignored')
        return
    ends = [tuple(comp_of(z) for z in c.a[1][:2]) for c in adds]
    mine = [c for c in ends if any(z is y for z in c)]
    if mine:
        ctx.need(all(len(c) == 2 and c[0] is x and c[1] is y for c in mine), R, f'{f.ref} edge', e.where, 'an edge is not turned into an edge from the component of its source to that of its target')
        ctx.need(same(x, y) is False, R, f'{f.ref} self', e.where, 'an edge inside a component becomes an edge of the component graph')
    else:
        ctx.need(same(x, y) is True or reached(y) is False, R, f'{f.ref} edge', e.where, 'an edge between two components is missing from the component graph')


# ------------------------------------------------------------------ transitive closure
def closure(ctx, m):
    R = 'transitive closure'
    f = m.func('dyna.util.graphs', 'Graph.transitive_closure')
    me = param(f, 0)
    refl = param(f, 1)
    n = 0
    for p in ctx.paths(f, inline=tuple(x for x in names(m, f) if x not in ('add', 'add_edge', 'kleene', 'Graph', 'nodes', 'edges'))):
        if p.kind != 'return' or not consistent(p):
            continue
        t = next((e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'kleene')), None)
        if t is None:
            return
        tv = t.a[0]
        n += 1
        E = tv.a[1][0]
        r = dict(tv.a[2]).get('reflexive', tv.a[1][2] if len(tv.a[1]) > 2 else None)
        ctx.need(r is refl, R, f'{f.ref} reflexive', t.where, f'{short(r) if r is not None else "the default"} decides whether a node reaches itself, not the caller')
        for e, ended in loops_of(p):
            ctx.need(ended, R, f'{f.ref} complete', e.where, 'not every node, edge or pair is considered')
            it = noop(itv(p, e))
            if is_call(it, 'range'):
                ctx.need(len(it.a[1]) == 1 and all_nodes(it.a[1][0], me, E), R, f'{f.ref} complete', e.where, f'{short(it)} does not range over all nodes')

        def index(v):
            "ix(x): the node"
            if v.k == 'call' and len(v.a[1]) == 1:
                return v.a[1][0]
            return v.a[1] if v.k == 'sub' else None
        ones = [e for e in p.events if e.kind == 'setitem' and e.n < t.n and same_v(p, e.a[0], E) and mentions_attr(e.a[2], 'one')]
        zeros = [e for e in p.events if e.kind == 'setitem' and e.n < t.n and same_v(p, e.a[0], E) and mentions_attr(e.a[2], 'zero')]
        orient = None
        for e in ones:
            ctx.need(e.a[1].k == 'tup' and len(e.a[1].a[1]) == 2, R, f'{f.ref} edge', e.where, 'an edge is stored at the wrong place')
            if e.a[1].k == 'tup' and len(e.a[1].a[1]) == 2:
                a, b = (index(z) for z in e.a[1].a[1])
                o = 'straight' if a is not None and b is not None and edge_pair(a, b, me) else 'swapped' if a is not None and b is not None and edge_pair(b, a, me) else None
                ctx.need(o is not None, R, f'{f.ref} edge', e.where, 'an edge is stored at the wrong place')
                orient = o or orient
        for z in zeros:
            ctx.need(not any(o.n < z.n for o in ones), R, f'{f.ref} edge', z.where, 'edges are erased again')
        for e, _ in loops_of(p):
            if e.n < t.n:
                it = seq(itv(p, e))
                k = e.a[0]
                if it.k == 'sub' and (noop(it.a[0]) is me or noop(it.a[0]).k == 'attr' and noop(it.a[0]).a[1] == 'outgoing') or edges_of(it, me):
                    ctx.need(any(within(o, k) for o in ones), R, f'{f.ref} edge', e.where, 'an edge is left out of the closure')
        lp = [e for e in p.events if e.kind in ('loop', 'loop0') and e.n < t.n and (edges_of(seq(itv(p, e)), me) or nodes_of(seq(itv(p, e)), me))]
        ctx.need(bool(lp), R, f'{f.ref} edge', p.where(), 'the edges of the graph are left out of the closure')
        ret = p.value
        kept = [e for e in p.events if e.n > t.n and e.kind in ('loop', 'loop0') and nodes_of(seq(itv(p, e)), me)]
        full = any(e.kind == 'loop0' or any(y.kind in ('mutate', 'call') and within(y, e.a[0]) and added_node(p, y, ret, e.a[0]) for y in p.events) for e in kept)
        full = full or any(e.kind == 'mutate' and e.a[1] in ('update', 'ior') and e.a[0].k == 'attr' and e.a[0].a[1] == 'nodes' and e.a[0].a[0] is ret and nodes_of(e.a[2], me) for e in p.events)
        full = full or any(e.kind == 'setattr' and e.a[0] is ret and e.a[1] == 'nodes' and mentions(e.a[2], str(me)) for e in p.events)
        ctx.need(full, R, f'{f.ref} node', p.where(), 'a node without edges is missing from the closure')
        adds = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'add_edge') and recv(e.a[0]) is ret]
        tests = [(a, b) for a, b in p.facts.items() if any(is_call(w, 'kleene') for w in walk(a))]
        for a, b in tests:
            d = a.a[0] if a.k == 'attr' and a.a[1] == 'score' else a
            if a.k == 'cmp' and a.a[0] == '==' and any(mentions_attr(z, 'zero') or is_const(z, False) for z in a.a[1:3]):
                d, b = next(z for z in a.a[1:3] if any(is_call(w, 'kleene') for w in walk(z))), not b
                d = d.a[0] if d.k == 'attr' and d.a[1] == 'score' else d
            if d.k != 'sub' or d.a[1].k != 'tup':
                continue
            i, j = d.a[1].a[1]
            if b:
                ok = any(len(e.a[0].a[1]) == 2 and back(e.a[0].a[1][0], i if orient != 'swapped' else j) and back(e.a[0].a[1][1], j if orient != 'swapped' else i) for e in adds)
                if orient is None and not ok:
                    ok = any(len(e.a[0].a[1]) == 2 and back(e.a[0].a[1][0], i) and back(e.a[0].a[1][1], j) for e in adds)
                ctx.need(ok, R, f'{f.ref} result', t.where, 'a path is not turned into an edge from its first to its last node')
            else:
                ctx.need(not adds, R, f'{f.ref} result', t.where, 'an edge is added although there is no path')
        inner = [e for e, _ in loops_of(p) if e.n > t.n and is_call(noop(itv(p, e)), 'range')]
        if len(inner) >= 2:
            ctx.need(bool(tests), R, f'{f.ref} result', t.where, 'edges are added without looking at the closure')
    ctx.floor(n, 1, 'transitive closures')


def back(v, i):
    "v is the node of index i"
    v = noop(v)
    return v.k in ('sub', 'call') and any(w is i for w in walk(v)) or v is i


def all_nodes(v, me, E):
    v = noop(v)
    if is_call(v, 'len') and v.a[1]:
        return True
    return v.k in ('sub', 'attr') or v.k == 'unpack'


def same_v(p, a, b):
    return a is b or p.res(a) is p.res(b)


def mentions_attr(v, name):
    return any(w.k == 'attr' and w.a[1] == name or w.k in ('ext', 'global', 'name') and str(w.a[-1]).endswith('.' + name) for w in walk(v))


def edge_pair(a, b, me):
    "b is a successor of the node a"
    if b.k == 'sub' and b.a[1].k == 'idx' and out_of(b.a[0], me, a):
        return nodes_of(a.a[0], me) if a.k == 'sub' else False
    if a.k == 'sub' and b.k == 'sub' and is_const(a.a[1], 0) and is_const(b.a[1], 1) and a.a[0] is b.a[0]:
        return a.a[0].k == 'sub' and edges_of(a.a[0].a[0], me)
    return False


def added_node(p, y, ret, k):
    if y.kind == 'mutate':
        return y.a[1] == 'add' and (y.a[0] is ret or y.a[0].k == 'attr' and y.a[0].a[0] is ret) and len(y.a) > 2 and any(w.k == 'idx' and w.a[0] == k for w in walk(y.a[2]))
    c = y.a[0]
    return is_call(c, 'add') and c.a[1] and any(w.k == 'idx' and w.a[0] == k for w in walk(c.a[1][0]))


def plain_graph(ctx, m):
    R = 'graph'
    f = m.func('dyna.util.graphs', 'Graph.add_edge')
    me, u, v = (param(f, i) for i in range(3))
    for p in ctx.paths(f, inline=('add',)):
        if p.kind != 'return':
            continue
        ns = [z for e in p.events if e.kind == 'mutate' and e.a[0].k == 'attr' and e.a[0].a[1] == 'nodes' for a in e.a[2:] if isinstance(a, V) for z in walk(p.res(a))]
        ns += [z for e in p.events if e.kind == 'call' and is_call(e.a[0], 'add') and recv(e.a[0]) is me for z in e.a[0].a[1]]
        for z in (u, v):
            ctx.need(any(w is z for w in ns), R, f'{f.ref} node', p.where(), f'the end {short(z)} of an edge is not a node')
        es = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('add', 'update') and e.a[0].k in ('sub', 'call') and any(w is u for w in walk(e.a[0])) and e.a[-1] is v]
        ctx.need(bool(es), R, f'{f.ref} edge', p.where(), 'an edge does not lead from its first to its second end')
    f = m.func('dyna.util.graphs', 'Graph.__getitem__')
    for p in ctx.paths(f):
        if p.kind == 'return':
            ctx.need(any(w.k == 'attr' and w.a[1] == 'outgoing' for w in walk(p.value)) and any(w is param(f, 1) for w in walk(p.value)), R, f.ref, p.where(), 'the successors of a node are not returned')


# ------------------------------------------------------------------ one program per component
def subprograms(ctx, m):
    R = 'component programs'
    f = m.func('dyna.analyze.coarse_graph', 'CoarseGraph.scc_decomposition')
    me = param(f, 0)
    prog = V('attr', me, 'program')
    n = 0
    for p in ctx.paths(f, inline=tuple(x for x in names(m, f) if x not in ('condensation', 'spawn', 'append', 'unifies', 'unify', 'Program', 'Rule', 'program', 'fresh', 'nodes'))):
        if p.kind == 'raise' or not consistent(p):
            continue
        c = next((e for e in p.events if e.kind == 'call' and is_call(e.a[0], 'condensation')), None)
        if c is None:
            return
        cv = c.a[0]
        rt = dict(cv.a[2]).get('roots', cv.a[1][0] if cv.a[1] else None)
        qs = pieces(p, rt) if rt is not None else []
        for e, ended in loops_of(p):
            ctx.need(ended or brk_ok(p, e), R, f'{f.ref} complete', e.where, 'a loop over types, components or rules ends early')
        tests = [(a, b) for a, b in p.facts.items() if is_call(a, 'is_output')]
        gl = [e for e, _ in loops_of(p) if noop(seq(itv(p, e))).k == 'attr' and noop(seq(itv(p, e))).a[1] == 'nodes' and e.n < c.n]
        for e in gl:
            hit = [q for q in qs if q.kind == 'one' and any(w.k == 'idx' and w.a[0] == e.a[0] for w in walk(q.v))]
            out = any(b for a, b in tests)
            if hit:
                ctx.need(out, R, f'{f.ref} roots', e.where, 'the search starts from types that are not outputs')
            else:
                ctx.need(bool(tests) and not out, R, f'{f.ref} roots', e.where, 'an output type is left out')
        ctx.need(bool(gl) or any(e.kind == 'loop0' and e.n < c.n for e in p.events), R, f'{f.ref} roots', c.where, 'the search does not start from the output types')
        for e, _ in loops_of(p):
            it = noop(itv(p, e))
            raw = noop(it.a[1][0]) if is_call(it, 'enumerate', 'iter') and it.a[1] else it
            if not (raw.k == 'attr' and raw.a[1] == 'topo'):
                if any(w.k == 'attr' and w.a[1] == 'topo' for w in [raw] + list(raw.a[1] if raw.k == 'call' else raw.a[:1] if raw.k == 'sub' and raw.a[1].k == 'slice' else ())):
                    n += 1
                    ctx.fail(R, f'{f.ref} order', e.where, f'the components are visited in the order of {short(it)}')
                continue
            k = e.a[0]
            xs = V('sub', raw, None)

            def is_xs(v):
                v = noop(v)
                return v.k == 'sub' and v.a[1].k == 'idx' and v.a[1].a[0] == k and noop(v.a[0]).k == 'attr' and noop(v.a[0]).a[1] == 'topo'
            n += 1
            outs = [y for y in p.events if y.kind in ('yield', 'mutate') and within(y, k) and isinstance(y.a[-1], V) and y.a[-1].k == 'tup' and len(y.a[-1].a[1]) == 2 and len([z for z in y.ctx if z[0] == 'loop']) == len([z for z in e.ctx if z[0] == 'loop'])]
            ctx.need(len(outs) == 1, R, f'{f.ref} program', e.where, 'a component has no program of its own')
            if not outs:
                continue
            a, q = outs[0].a[-1].a[1]
            ctx.need(is_xs(a), R, f'{f.ref} program', outs[0].where, f'{short(a)} is reported instead of the types of the component')
            q0 = q
            # rules
            rl = [(y, d) for y, d in loops_of(p) if within(y, k) and all_rules_any(itv(p, y), prog) or within(y, k) and noop(seq(itv(p, y))) is prog]
            rl0 = [y for y in p.events if y.kind == 'loop0' and within(y, k) and (noop(seq(itv(p, y))).k == 'attr' and noop(seq(itv(p, y))).a[1] in ('program', 'rules'))]
            ctx.need(bool(rl or rl0), R, f'{f.ref} rules', e.where, 'the rules of a component are not collected')
            for y, _ in rl:
                j = y.a[0]
                got = [z for z in pieces(p, q0) if z.kind == 'one' and any(w.k == 'idx' and w.a[0] == j for w in walk(z.v))]
                ok = [b for u, b in p.facts.items() if is_call(u, 'unifies') and any(unfresh(z).k == 'attr' and unfresh(z).a[1] == 'head' for z in u.a[1]) and any(typ(unfresh(z), is_xs) for z in u.a[1])]
                ok += [True for z in p.events if z.kind == 'loop' and within(z, j) and is_call(noop(itv(p, z)), 'unify')]
                ok += [False for z in p.events if z.kind == 'loop0' and within(z, j) and is_call(noop(itv(p, z)), 'unify')]
                root = [b for u, b in p.facts.items() if u.k == 'cmp' and u.a[0] == 'in' and is_call(u.a[1], 'root') and is_xs(u.a[2])]
                ok += root
                none = any(z.kind == 'loop0' and within(z, j) and is_xs(seq(itv(p, z))) for z in p.events)
                if got:
                    ctx.need(True in ok, R, f'{f.ref} rules', y.where, 'a rule is put into a component whose types its head does not match')
                    ctx.need(all(noop(z.v).k == 'sub' for z in got), R, f'{f.ref} rules', y.where, 'a rule is changed')
                else:
                    ctx.need(none or False in ok and True not in ok, R, f'{f.ref} rules', y.where, 'a rule whose head matches a type of the component is left out')
            # declarations
            for nm, what in (('set_input_types', 'inputs'), ('set_output_types', 'outputs')):
                ds = [y.a[0] for y in p.events if y.kind == 'call' and within(y, k) and is_call(y.a[0], nm)]
                if not ds:
                    continue
                v = ds[-1].a[1][0]
                v = v.a[1][0] if is_call(v, 'Program') and v.a[1] else v
                got = pieces(p, v)
                for y, _ in loops_of(p):
                    if not within(y, k):
                        continue
                    it = seq(itv(p, y))
                    src = it.k == 'sub' and it.a[1].k == 'idx' and noop(it.a[0]).k == 'sub' and noop(noop(it.a[0]).a[0]).k == 'attr' and noop(noop(it.a[0]).a[0]).a[1] == 'outgoing' and is_xs(noop(it.a[0]).a[1])
                    if what == 'inputs' and src or what == 'outputs' and is_xs(it) and own_loop(p, y):
                        ctx.need(any(w.k == 'idx' and w.a[0] == y.a[0] for z in got for w in walk(z.v)), R, f'{f.ref} {what}', y.where, f'a type is missing from the {what} of its component')
                ok = [z for z in got if z.kind == 'one']
                for z in ok:
                    ts = [w for w in walk(z.v) if w.k == 'sub' and w.a[1].k == 'idx']
                    good = any(what == 'outputs' and is_xs(w.a[0]) or what == 'inputs' and any(u.k == 'attr' and u.a[1] == 'outgoing' for u in walk(w.a[0])) for w in ts)
                    ctx.need(good, R, f'{f.ref} {what}', e.where, f'{short(z.v)} is declared among the {what} of a component')
    ctx.floor(n, 1, 'component programs')


def own_loop(p, y):
    "the loop builds rules out of its elements"
    return any(within(z, y.a[0]) and z.kind == 'call' and is_call(z.a[0], 'Rule') for z in p.events)


def brk_ok(p, e):
    "Leaving the search for a matching type once it is found."
    k = e.a[0]
    return any(y.kind in ('cond', 'call') and within(y, k) and any(is_call(w, 'unifies', 'unify') for a in y.a if isinstance(a, V) for w in walk(a)) for y in p.events) and \
        any(is_call(a, 'unifies') and b is True and any(w.k == 'idx' and w.a[0] == k for w in walk(a)) for a, b in p.facts.items()) and not any(
            y.kind == 'loop' and within(y, k) and y.a[0] != k for y in p.events)


def typ(v, is_xs):
    v = noop(v)
    return v.k == 'sub' and v.a[1].k == 'idx' and is_xs(v.a[0])


# ------------------------------------------------------------------ bucket queue
def queue(ctx, m):
    R = 'queue'
    Q = 'BucketQueue.'
    mod = 'dyna.util.bucket_queue'
    f = m.func(mod, Q + '__setitem__')
    me, item, pr = (param(f, i) for i in range(3))
    hs = tuple(x for x in names(m, f))
    D = B = N = None
    paths = [p for p in ctx.paths(f, inline=hs) if p.kind == 'return']
    for p in paths:
        for e in p.events:
            if e.kind == 'setitem' and e.a[1] is item and e.a[2] is pr and e.a[0].k == 'attr':
                D = e.a[0]
            if e.kind == 'setattr' and e.a[0] is me and (e.a[2] is pr or is_call(e.a[2], 'min')):
                N = V_attr(me, e.a[1])
            if e.kind == 'mutate' and e.a[1] in ('add', 'append') and e.a[-1] is item:
                for w in walk(e.a[0]):
                    if w.k == 'attr' and w.a[0] is me:
                        B = w
            if e.kind == 'setitem' and e.a[1] is pr and e.a[0].k == 'attr':
                B = e.a[0]
    for v, what in ((D, 'the priority of an item is not recorded'), (B, 'an item is not put into a bucket'), (N, 'the smallest priority is not updated')):
        if v is None:
            ctx.fail(R, f'{f.ref}', f.ref, what)
    if D is None or B is None or N is None:
        return
    for p in paths:
        sd = [e for e in p.events if e.kind == 'setitem' and e.a[0] is D and e.a[1] is item]
        ctx.need(len(sd) == 1 and sd[0].a[2] is pr, R, f'{f.ref} item', p.where(), 'the priority of an item is not recorded')
        inD = fact_in(p, item, D)
        rem = [e for e in p.events if removal(p, e, me, item, D, B)]
        if inD is not False and sd:
            ctx.need(bool(rem) and all(e.n < sd[0].n for e in rem), R, f'{f.ref} again', p.where(), 'an item that is queued again stays in its old bucket')
        nonempty = next((b for a, b in p.facts.items() if a is B or is_call(a, 'len') and a.a[1][:1] == (B,)), None)
        below = next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == '<' and a.a[1] is pr and a.a[2] is N), None)
        if below is None:
            below = next((not b if b is False else None for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == '<' and a.a[2] is pr and a.a[1] is N and b is False), None)
        if below is None and any(a.k == 'cmp' and a.a[0] == '<' and a.a[1] is N and a.a[2] is pr and b is True for a, b in p.facts.items()):
            below = False
        sn = [e for e in p.events if e.kind == 'setattr' and e.a[0] is me and e.a[1] == N.a[1]]
        none = any(a.k == 'cmp' and a.a[0] == 'is' and a.a[1] is N and b is True for a, b in p.facts.items())
        if nonempty is False or below is True or none:
            ctx.need(bool(sn) and (sn[-1].a[2] is pr or is_call(sn[-1].a[2], 'min')), R, f'{f.ref} bound', p.where(), 'an item is queued below the smallest priority that is looked at')
        elif below is False:
            ctx.need(not sn, R, f'{f.ref} bound', p.where(), 'the smallest priority is raised although items may be queued below')
        else:
            ctx.need(bool(sn) and is_call(sn[-1].a[2], 'min') and any(z is pr for z in sn[-1].a[2].a[1]) and any(z is N for z in sn[-1].a[2].a[1]), R, f'{f.ref} bound', p.where(), 'the smallest priority is not kept')
        put = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('add', 'append') and e.a[-1] is item]
        new = [e for e in p.events if e.kind == 'setitem' and e.a[0] is B]
        ctx.need(bool(put) or any(e.a[2].k in ('tup', 'obj') and any(w is item for w in walk(p.res(e.a[2]))) for e in new), R, f'{f.ref} bucket', p.where(), 'an item is not put into the bucket of its priority')
        for e in put:
            where = e.a[0]
            ok = where.k == 'obj' and any(x.a[2] is where and x.a[1] is pr for x in new) or any(w is pr for w in walk(where)) and any(w is B for w in walk(where))
            ctx.need(ok, R, f'{f.ref} bucket', e.where, 'an item is put into the bucket of another priority')
        for e in new:
            ctx.need(e.a[1] is pr and fact_in(p, pr, B) is False, R, f'{f.ref} bucket', e.where, 'a bucket that may hold other items is replaced')
    # removal
    f = m.func(mod, Q + '__delitem__')
    item = param(f, 1)
    me = param(f, 0)
    D, B, N = (V_attr(me, z.a[1]) for z in (D, B, N))
    for p in ctx.paths(f, inline=tuple(names(m, f))):
        if p.kind != 'return':
            continue
        d = [e for e in p.events if (e.kind == 'delitem' and e.a[0] is D and e.a[1] is item) or (e.kind == 'mutate' and e.a[0] is D and e.a[1] == 'pop' and e.a[2] is item)]
        ctx.need(bool(d), R, f'{f.ref} item', p.where(), 'a removed item still has a priority')
        b = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('remove', 'discard') and e.a[-1] is item]
        ctx.need(bool(b) and all(old_bucket(p.res(e.a[0]), D, B, item) for e in b), R, f'{f.ref} bucket', p.where(), 'a removed item stays in its bucket')
        gone = [e for e in p.events if (e.kind == 'delitem' and e.a[0] is B) or (e.kind == 'mutate' and e.a[0] is B and e.a[1] == 'pop')]
        empty = next((not v for a, v in p.facts.items() if old_bucket(a, D, B, item)), None)
        if empty is None:
            empty = next((v for a, v in p.facts.items() if a.k == 'cmp' and a.a[0] == '==' and any(is_call(z, 'len') for z in a.a[1:3]) and any(is_const(z, 0) for z in a.a[1:3])), None)
        if empty is None:
            ctx.fail(R, f'{f.ref} empty', p.where(), 'an empty bucket is kept, or a bucket is dropped that may hold items')
        else:
            ctx.need(bool(gone) == empty, R, f'{f.ref} empty', p.where(), 'an empty bucket is kept' if empty else 'a bucket is dropped that holds items')
            if b and empty is not None:
                at = [e for e in p.events if e.kind in ('cond', 'compare') and any(isinstance(a, V) and any(w is B for w in walk(a)) for a in e.a)]
                ctx.need(not at or all(e.n > b[0].n for e in at), R, f'{f.ref} empty', p.where(), 'whether a bucket is empty is decided before the item is removed')
    # taking items
    n = 0
    for nm in ('__iter__', 'popitem', 'items'):
        f = m.func(mod, Q + nm)
        me = param(f, 0)
        D, B, N = (V_attr(me, z.a[1]) for z in (D, B, N))
        for p in ctx.paths(f, inline=tuple(x for x in names(m, f) if x not in ('__iter__', 'popitem', 'items'))):
            if p.kind == 'raise':
                continue
            for e, ended in loops_of(p):
                if nm != 'popitem' and not any(c.kind == 'yield' and False for c in p.events):
                    ctx.need(ended or p.kind == 'backedge', R, f'{f.ref} all', e.where, 'items that are still queued are not returned')
            for e in p.events:
                if e.kind == 'setattr' and e.a[0] is me and e.a[1] == N.a[1]:
                    v = e.a[2]
                    ok = v.k == 'bin' and v.a[0] == '+' and any(is_const(z, 1) for z in v.a[1:3]) and any(z is N or z.k == 'phi' or z.k == 'bin' for z in v.a[1:3])
                    ok = ok and (any(a.k == 'cmp' and a.a[0] == 'in' and a.a[2] is B and b is False for a, b in p.facts.items()) or any(c[0] == 'loop' for c in e.ctx) and any(y.kind == 'compare' and y.a[0] in ('in', 'not in') and y.a[2] is B for y in p.events))
                    ok = ok or (is_call(v, 'min') and any(w is B for w in walk(v)))
                    ctx.need(ok, R, f'{f.ref} order', e.where, f'the smallest priority becomes {short(v)} although items may be queued below')
            outs = [e for e in p.events if e.kind in ('yield', 'yieldfrom')] + ([None] if p.kind == 'return' and nm == 'popitem' and p.value is not NONE else [])
            for e in outs:
                n += 1
                v = e.a[0] if e is not None else p.value
                w = e.where if e is not None else p.where()
                it, prio = (v, None)
                if nm in ('popitem', 'items') and not is_call(v, 'popitem'):
                    if v.k != 'tup' or len(v.a[1]) != 2:
                        if is_call(v, 'next') or v.k == 'sub':
                            continue
                        ctx.fail(R, f'{f.ref} pair', w, f'{short(v)} is returned instead of an item with its priority')
                        continue
                    it, prio = v.a[1]
                deleg = it.k == 'sub' and it.a[1].k == 'idx' and (noop(it.a[0]) is me or is_call(noop(it.a[0]), 'items', '__iter__')) or any(is_call(z, 'popitem', 'items') for z in walk(it))
                if deleg:
                    if prio is not None and not any(is_call(z, 'popitem', 'items') for z in walk(prio)):
                        ctx.need(prio is N, R, f'{f.ref} pair', w, f'{short(prio)} is not the priority of the item')
                    continue
                bs = [z for z in walk(it) if z.k == 'sub' and z.a[0] is B]
                cur = bs[0].a[1] if bs else None
                ctx.need(cur is not None, R, f'{f.ref} order', w, f'{short(it)} is not taken from the bucket of the smallest priority')
                if cur is None:
                    continue
                at = [y for y in p.events if y.kind == 'setattr' and y.a[0] is me and y.a[1] == N.a[1] and (e is None or y.n < e.n)]
                now = at[-1].a[2] if at else N
                ctx.need(cur is now or cur is N and not at, R, f'{f.ref} order', w, f'the item is taken from the bucket of {short(cur)}')
                sure = any(a.k == 'cmp' and a.a[0] == 'in' and a.a[2] is B and a.a[1] is cur and b is True for a, b in p.facts.items()) or \
                    any(y.kind == 'loop' and not isinstance(y.a[1], V) and any(z.kind == 'setattr' and within(z, y.a[0]) for z in p.events) for y in p.events) or is_call(now, 'min')
                ctx.need(sure, R, f'{f.ref} order', w, 'the bucket of the smallest priority is not looked for')
                gone = [y for y in p.events if removal(p, y, me, it, D, B) and (e is None or y.n < e.n)]
                ctx.need(bool(gone), R, f'{f.ref} once', w, 'an item stays in the queue when it is returned')
                if prio is not None:
                    ctx.need(prio is now or prio is cur, R, f'{f.ref} pair', w, f'{short(prio)} is not the priority of the item')
            if p.kind == 'return' and not outs:
                empty = any(a is B and b is False or is_call(a, 'len') and b is False for a, b in p.facts.items()) or any(y.kind == 'loop0' and isinstance(y.a[1], V) and noop(itv(p, y)) is me for y in p.events)
                ctx.need(empty, R, f'{f.ref} all', p.where(), 'nothing is returned although items are queued')
            if nm == 'popitem' and p.kind == 'return' and p.value is NONE:
                empty = any(a is B and b is False or is_call(a, 'len') and b is False or a is D and b is False for a, b in p.facts.items()) or any(y.kind == 'loop0' and isinstance(y.a[1], V) and noop(itv(p, y)) is me for y in p.events)
                ctx.need(empty, R, f'{f.ref} all', p.where(), 'nothing is returned although items are queued')
    ctx.floor(n, 2, 'items taken from the queue')
    for nm, ok in (('__getitem__', lambda v, i, D: v.k == 'sub' and v.a[0] is D and v.a[1] is i), ('__contains__', lambda v, i, D: v.k == 'cmp' and v.a[0] == 'in' and v.a[1] is i and v.a[2] is D),
                   ('__len__', lambda v, i, D: is_call(v, 'len') and v.a[1][:1] == (D,) or is_call(v, 'sum'))):
        f = m.func(mod, Q + nm)
        D = V_attr(param(f, 0), D.a[1])
        for p in ctx.paths(f):
            if p.kind == 'return':
                ctx.need(ok(p.value, param(f, 1) if nm != '__len__' else None, D), R, f.ref, p.where(), f'{short(p.value)} is answered')


def V_attr(me, name):
    from ..values import Attr
    return Attr(me, name)


def fact_in(p, x, D):
    return next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is x and (a.a[2] is D or a.a[2] is D.a[0])), None)


def old_bucket(v, D, B, item):
    "B[D[item]]"
    if v.k != 'sub' or v.a[0] is not B:
        return False
    z = v.a[1]
    return z.k == 'sub' and z.a[0] is D and z.a[1] is item or is_call(z, 'pop', 'get') and recv(z) is D


def removal(p, e, me, item, D, B):
    if e.kind == 'delitem':
        return e.a[0] is me and e.a[1] is item
    if e.kind == 'call':
        return is_call(e.a[0], '__delitem__') and e.a[0].a[1][:1] == (item,)
    return e.kind == 'mutate' and e.a[1] in ('remove', 'discard', 'pop') and e.a[-1] is item and any(w is B for w in walk(e.a[0]))


def called(v, fn):
    "v is a call of the parameter fn of the enclosing function"
    return v.k == 'call' and (v.a[0] is fn or fname(v.a[0]) == pname(fn))


def pname(x):
    return next((str(a) for a in x.a if isinstance(a, str) and not a.startswith('dyna')), None)
