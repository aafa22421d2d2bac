"""Program transformations: unfolding and elimination (C17), folding (C18), ..."""
import ast
from ..core import check
from ..values import (V, Const, NONE, TRUE, FALSE, fname, is_call, recv, walk, contains, is_const, strip_phi, Attr, Sub, carg)
from ..util import short, calls_in, calls_name, analysis_roots, is_fresh
from ..model import AnalysisError
from .match import param, fact
from .execute import (noop, flat, idx, body_part, loops, all_rules, all_positions, chain_of, early_exit, is_infmul, unfresh)


# ------------------------------------------------------------------ containers
ADDERS = {'append': 'one', 'add': 'one', 'appendleft': 'one', 'insert': 'one', 'extend': 'seq', 'update': 'seq', 'iadd': 'seq'}
REMOVERS = ('remove', 'pop', 'discard', 'clear', 'popitem')


class Piece:
    """One contribution to a container: kind is 'seq' (all elements of v), 'one' (the element v),
    'del' (an element v, or index i, taken away), 'set' (element i replaced by v)."""

    def __init__(self, kind, v, e=None, i=None):
        self.kind, self.v, self.e, self.i = kind, v, e, i

    @property
    def ctx(self):
        return [c for c in self.e.ctx if c[0] in ('loop', 'unroll')] if self.e is not None else []

    def __repr__(self):
        return f'{self.kind}({short(self.v) if isinstance(self.v, V) else self.v})'


def in_loop(q, k):
    "The contribution is made by (or taken from) an element of loop k."
    return any(c[1] == k for c in q.ctx) or (q.v is not None and any(w.k == 'idx' and w.a[0] == k for w in walk(q.v)))


def container(v):
    return v.k == 'obj' or (v.k == 'tup' and v.a[0] in ('list', 'set')) or is_call(v, 'list', 'set', 'OrderedSet', 'deque', 'spawn', 'copy', 'dict')


def same_obj(p, x, v):
    return x is v or (x.k != 'obj' and v.k != 'obj' and p.res(x) is v)


def pieces(p, v, depth=0):
    "What a sequence-valued expression holds at the end of this path, in order of construction."
    if v.k == 'phi' and isinstance(v.a[2], V):
        v = v.a[2]
    if v.k != 'obj':
        v = p.res(v)
    out = []
    if depth > 8:
        return [Piece('seq', v)]
    if v.k == 'star':
        return pieces(p, v.a[0], depth + 1)
    if v.k == 'tup':
        for x in v.a[1]:
            out += pieces(p, x.a[0], depth + 1) if x.k == 'star' else [Piece('one', x)]
    elif v.k == 'bin' and v.a[0] in ('+', '*', '|') and not (v.a[0] == '*' and v.a[2].k == 'const'):
        out += pieces(p, v.a[1], depth + 1) + pieces(p, v.a[2], depth + 1)
    elif is_call(v, 'list', 'tuple', 'set', 'frozenset', 'Product', 'deque', 'OrderedSet', 'chain', 'sorted') and not v.a[2]:
        if len(v.a[1]) == 1:
            out += pieces(p, v.a[1][0], depth + 1)
        elif is_call(v, 'chain'):
            for x in v.a[1]:
                out += pieces(p, x, depth + 1)
        elif v.a[1]:
            return [Piece('seq', v)]
    elif is_call(v, 'spawn'):
        for x in v.a[1]:
            out += pieces(p, x, depth + 1)
    elif is_call(v, 'copy') and recv(v) is not None and not v.a[1]:
        out += pieces(p, recv(v), depth + 1)
    elif v.k == 'obj':
        e = next((e for e in p.events if e.kind == 'newobj' and e.a[0] is v), None)
        kind, items = e.contents[v] if e is not None else ('', ())
        for x in items if kind != 'dict' else ():
            out += [Piece(q.kind, q.v, q.e or e, q.i) for q in pieces(p, x.a[0], depth + 1)] if x.k == 'star' else [Piece('one', x if x.k == 'obj' else p.res(x), e)]
    else:
        out.append(Piece('seq', v))
    if v.k not in ('param', 'const', 'attr'):
        for e in p.events:
            if e.kind == 'mutate' and same_obj(p, e.a[0], v):
                n = e.a[1]
                args = [p.res(x) for x in e.a[2:]]
                if n in ADDERS:
                    if ADDERS[n] == 'one':
                        out.append(Piece('one', args[-1] if args else v, e))
                    else:
                        for q in pieces(p, args[0], depth + 1) if args else []:
                            out.append(Piece(q.kind, q.v, q.e or e, q.i))
                elif n == 'remove' or n == 'discard':
                    out.append(Piece('del', args[0] if args else v, e))
                elif n in REMOVERS:
                    out.append(Piece('del', None, e, args[0] if args else Const(-1)))
                elif n in ('sort', 'reverse'):
                    pass
                else:
                    out.append(Piece('other', v, e))
            elif e.kind == 'setitem' and same_obj(p, e.a[0], v):
                out.append(Piece('set', p.res(e.a[2]), e, p.res(e.a[1])))
            elif e.kind == 'delitem' and same_obj(p, e.a[0], v):
                out.append(Piece('del', None, e, p.res(e.a[1])))
    return out


def rule_parts(p, v):
    "(head, [pieces of the body]) of a Rule(...) value, or None."
    v = unfresh(v)
    if not is_call(v, 'Rule') or not v.a[1]:
        return None
    body = []
    for x in v.a[1][1:]:
        for q in pieces(p, x.a[0]) if x.k == 'star' else [Piece('one', x)]:
            b = noop(q.v) if isinstance(q.v, V) else q.v
            if q.kind == 'seq' and b.k == 'attr' and b.a[1] == 'body' and is_call(unfresh(b.a[0]), 'Rule'):
                body += rule_parts(p, b.a[0])[1]
            else:
                body.append(q)
    head = v.a[1][0]
    if head.k == 'attr' and head.a[1] == 'head' and is_call(unfresh(head.a[0]), 'Rule'):
        head = rule_parts(p, head.a[0])[0]
    return head, body


def parent_rule(v, prog):
    "index value i if `v` denotes prog.rules[i], else None."
    v = noop(v)
    if v.k in ('sub', 'elem'):
        b = noop(v.a[0])
        if b.k == 'attr' and b.a[1] == 'rules':
            b = noop(b.a[0])
        if b is prog and v.k == 'sub':
            return v.a[1]
        if is_call(b, 'enumerate') and v.k == 'sub':
            return None
    return None


def super_init(p):
    "The arguments of the constructor call that gives this transformed program its rules: (event, name, parent, rules)."
    for e in p.events:
        if e.kind == 'call':
            c = e.a[0]
            if is_call(c, '__init__'):
                a = list(c.a[1])
                r = recv(c)
                if r is not None and not is_call(r, 'super') and a:
                    a = a[1:]
                kw = dict(c.a[2])
                vals = [a[i] if i < len(a) else kw.get(n) for i, n in enumerate(('name', 'parent', 'program'))]
                if vals[1] is not None and vals[2] is not None:
                    return (e, *vals)
    return None


def removed_index(ctx_ob, p, pcs, prog, i):
    """The pieces hold every rule of `prog` except the one at index `i`, exactly once.
    Returns (ok, why, remaining pieces)."""
    target = {Sub(Attr(prog, 'rules'), i)}
    base, gone, rest = 0, 0, []
    cut = {'lo': 0, 'hi': 0}
    for q in pcs:
        if q.kind == 'seq':
            v = noop(q.v)
            if all_rules(v, prog) and not is_call(v, 'enumerate', 'range'):
                base += 1
                continue
            if v.k == 'bin' and v.a[0] == '-' and noop(v.a[1]) is prog and v.a[2].k == 'tup' and list(v.a[2].a[1]) == [i]:
                base += 1
                gone += 1
                continue
            if v.k == 'attr' and v.a[1] == 'rules':
                w = v.a[0]
                if w.k == 'bin' and w.a[0] == '-' and noop(w.a[1]) is prog and w.a[2].k == 'tup' and list(w.a[2].a[1]) == [i]:
                    base += 1
                    gone += 1
                    continue
            bp = body_part(v, {Attr(prog, 'rules'), prog})
            if bp is not None and len(bp) == 2:
                if bp == ((None, 0), (i, 0)):
                    cut['lo'] += 1
                    continue
                if bp == ((i, 1), None):
                    cut['hi'] += 1
                    continue
            rest.append(q)
        elif q.kind == 'del':
            if (q.v is not None and q.v in target) or (q.v is None and q.i is i):
                gone += 1
            else:
                rest.append(q)
        else:
            rest.append(q)
    # a comprehension or loop that copies all rules but one
    lps = {}
    for q in list(rest):
        if q.kind == 'one' and q.ctx and all_rules(q.ctx[-1][2], prog):
            n = q.ctx[-1][1]
            el = noop(q.v)
            if any(w.k == 'idx' and w.a[0] == n for w in walk(el)) or el.k == 'elem':
                lps[n] = q
                rest.remove(q)
    if cut['lo'] or cut['hi']:
        ok = cut == {'lo': 1, 'hi': 1} and not base and not gone
        return ok, 'the other rules are not all copied exactly once', rest
    if base:
        return base == 1 and gone == 1, ('the replaced rule is kept' if gone == 0 else 'the other rules are not copied exactly once'), rest
    return None, lps, rest


def copy_loop(p, prog, i):
    "Loops of this path over the rules of `prog`, with whether this iteration is known (not) to be rule `i`."
    out = []
    for e in p.events:
        if e.kind in ('loop', 'loop0') and all_rules(p.res(e.a[1]), prog):
            n = e.a[0]
            same = None
            for a, b in p.facts.items():
                if a.k == 'cmp' and a.a[0] in ('==', 'is'):
                    l, r = noop(a.a[1]), noop(a.a[2])
                    for x, y in ((l, r), (r, l)):
                        if (x.k == 'idx' and x.a[0] == n and y is i) or (is_item_of(x, n) and parent_rule(y, prog) is i and a.a[0] == 'is'):
                            if same is not None and same is not b:
                                return None      # infeasible: the same rule and not the same rule
                            same = b
            out.append((e, n, same))
    return out


def is_item_of(v, n):
    v = noop(v)
    return v.k in ('sub', 'elem') and any(w.k == 'idx' and w.a[0] == n for w in walk(v))


# ------------------------------------------------------------------ C17
@check('C17', 'symbolic accounting of every rule and subgoal through unfolding and rule elimination (which parent rules are kept, which are replaced, by what), with guard dominance for the refusals',
       'On every path of the unfolding and elimination constructors the rule list handed to the new program is decomposed into its contributions: every parent rule except the replaced one exactly once, '
       'and one rule per definition (or per unifying subgoal) whose body is the parent body with the definition body in place of the subgoal, in order. The loops that enumerate the definitions, rules '
       'and positions must not skip or end early, and a returning path must have established the refusal conditions (definition complete in the program, head not an output, at most one matching subgoal).',
       ['a lookup enumerates exactly the matching rules (C05, C08)', 'infinite multiplicities of lost variables are decided by C15'])
def c17(ctx):
    m = ctx.m
    unfold_site(ctx, m)
    elim_site(ctx, m)
    elim_entry(ctx, m)
    safe_inline(ctx, m)


def unfold_site(ctx, m):
    f = m.func('dyna.transform.unfold', 'Unfold.__init__')
    prog, i, j, defs = (param(f, k) for k in (1, 2, 3, 4))
    r = Sub(Attr(prog, 'rules'), i)
    bodies = {Attr(r, 'body')}
    goal = Sub(Attr(r, 'body'), j)
    R = 'unfold'
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise' or copy_loop(p, prog, i) is None:
            continue
        D = prog if any(b is True and a.k == 'cmp' and a.a[0] == 'is' and {a.a[1], a.a[2]} == {defs, NONE} for a, b in p.facts.items()) else defs
        si = super_init(p)
        if si is None:
            ctx.fail(R, f.ref + ' result', p.where(), 'no rules are handed to the new program')
            continue
        e0, _, par, rules = si
        ctx.need(noop(par) is prog, R, f.ref + ' parent', e0.where, f'the parent is {short(par)}')
        ok, why, rest = removed_index(ctx, p, pieces(p, rules), prog, i)
        if ok is None:
            for e, k, same in copy_loop(p, prog, i) or ():
                if e.kind == 'loop':
                    got = k in why
                    ctx.need(same is not None and got is (not same), R, f.ref + ' kept', e.where, 'the rules that are not unfolded are not all kept (or the unfolded one is)')
            if not copy_loop(p, prog, i):
                ctx.fail(R, f.ref + ' kept', e0.where, 'the other rules of the program are lost')
        else:
            ctx.need(ok, R, f.ref + ' kept', e0.where, why if isinstance(why, str) else '')
        # refusal
        safe = [a for a, b in p.facts.items() if b is True and is_call(a, 'safe_inline')]
        parts_ok = any(recv(a) is D and noop(a.a[1][0]) is goal for a in safe)
        if not parts_ok:
            neg = [a for a, b in p.facts.items() if b is False and is_call(a, 'is_input') and recv(a) is D and noop(a.a[1][0]) is goal]
            con = [a for a, b in p.facts.items() if b is False and is_call(a, 'is_const') and noop(a.a[1][-1]) is goal]
            parts_ok = bool(neg and con)
        ctx.need(parts_ok, R, f.ref + ' refusal', p.where(), 'a subgoal is unfolded without checking that its definition is entirely in the program')
        # the definitions
        lk = [e for e in p.events if e.kind in ('loop', 'loop0') and is_call(noop(p.res(e.a[1])), 'lookup', 'enumerate') and lookup_of(p.res(e.a[1])) is not None]
        if not lk:
            ctx.fail(R, f.ref + ' definitions', p.where(), 'the definitions of the subgoal are not enumerated')
            continue
        for e in lk:
            c = lookup_of(p.res(e.a[1]))
            ctx.need(recv(c) is D and len(c.a[1]) == 1 and noop(c.a[1][0]) is goal, R, f.ref + ' definitions', e.where, f'{short(c)} does not enumerate the definitions of the unfolded subgoal')
        cut = early_exit(p, [c[3] for e in lk if e.kind == 'loop' for c in e.ctx if c[0] == 'loop' and c[1] == e.a[0]])
        ctx.need(not cut, R, f.ref + ' all definitions', p.where(), 'the enumeration of the definitions ends early')
        ids = {e.a[0] for e in lk if e.kind == 'loop'}
        adds = [q for q in rest if q.kind == 'one']
        ctx.need(len(adds) == len(rest), R, f.ref + ' only additions', e0.where, f'the new program also gets {[q for q in rest if q.kind != "one"]}')
        inl = [q for q in adds if any(c[1] in ids for c in q.ctx)]
        ctx.need(len(inl) == len(adds), R, f.ref + ' only definitions', e0.where, 'a rule is added that does not come from a definition')
        if ids:
            n += 1
            ctx.need(len(inl) == len(ids), R, f.ref + ' one rule per definition', p.where(), f'{len(inl)} rules are added for one definition')
        for q in inl:
            s = next((c for c in q.ctx if c[1] in ids), None)
            rp = rule_parts(p, q.v)
            if rp is None:
                ctx.fail(R, f.ref + ' rule', q.e.where, f'{short(q.v)} is not a rule')
                continue
            head, body = rp
            ctx.need(noop(head) is Attr(r, 'head'), R, f.ref + ' head', q.e.where, f'the new head is {short(head)}')
            lay = []
            for b in body:
                v = noop(b.v)
                bp = body_part(v, bodies)
                if b.kind == 'seq' and bp == ((None, 0), (j, 0)):
                    lay.append('L')
                elif b.kind == 'seq' and bp == ((j, 1), None):
                    lay.append('R')
                elif b.kind == 'seq' and v.k == 'attr' and v.a[1] == 'body' and is_def(v.a[0], s[1]):
                    lay.append('S')
                elif b.kind == 'one' and is_infmul(v):
                    lay.append('M')
                else:
                    lay.append('?')
            ctx.need([x for x in lay if x != 'M'] == ['L', 'S', 'R'], R, f.ref + ' body', q.e.where,
                     f'the new body is {[short(b.v, 40) for b in body]}: not the subgoals before, the body of the definition, the subgoals after')
    ctx.floor(n, 1, 'unfolded definitions')


def lookup_of(v):
    v = noop(v)
    if is_call(v, 'enumerate', 'sorted', 'iter') and v.a[1]:
        return lookup_of(v.a[1][0])
    return v if is_call(v, 'lookup') else None


def is_def(v, n):
    "`v` is the definition of iteration n of the lookup loop."
    v = unfresh(noop(v))
    return v.k in ('sub', 'elem') and lookup_of(v.a[0]) is not None and any(w.k == 'idx' and w.a[0] == n for w in walk(v))


def elim_site(ctx, m):
    f = m.func('dyna.transform.rule_elimination', 'LinearRuleElimination.__init__')
    prog, i = param(f, 1), param(f, 2)
    s = Sub(Attr(prog, 'rules'), i)
    R = 'eliminate'
    n = hits = 0
    for p in ctx.paths(f):
        if p.kind == 'raise' or copy_loop(p, prog, i) is None:
            continue
        # refuse outputs
        ok = any((b is True and a.k == 'cmp' and a.a[0] == 'is' and {a.a[1], a.a[2]} == {Attr(prog, 'outputs'), NONE})
                 or (b is False and is_call(a, 'is_output') and recv(a) is prog and noop(a.a[1][0]) is Attr(s, 'head')) for a, b in p.facts.items())
        ctx.need(ok, R, f.ref + ' outputs', p.where(), 'a rule that defines an output may be eliminated')
        si = super_init(p)
        if si is None:
            ctx.fail(R, f.ref + ' result', p.where(), 'no rules are handed to the new program')
            continue
        e0, _, par, rules = si
        ctx.need(noop(par) is prog, R, f.ref + ' parent', e0.where, f'the parent is {short(par)}')
        pcs = pieces(p, rules)
        outer = [(e, k, same) for e, k, same in copy_loop(p, prog, i)]
        cut = early_exit(p, [c[3] for e, k, _ in outer for c in e.ctx if c[0] == 'loop' and c[1] == k])
        ctx.need(not cut, R, f.ref + ' all rules', p.where(), 'the enumeration of the rules ends early')
        # kept rules
        keep = [q for q in pcs if q.kind == 'one' and unrule(q.v, prog) is not None]
        made = [q for q in pcs if q not in keep]
        ok, why, rest = removed_index(ctx, p, [q for q in pcs if q.kind != 'set'], prog, i)
        if ok is not None:
            ctx.need(ok, R, f.ref + ' kept', e0.where, why)
            made = [q for q in made if q in rest or q.kind == 'set']
        else:
            if not outer:
                ctx.fail(R, f.ref + ' kept', e0.where, 'the other rules of the program are lost')
            for e, k, same in outer:
                if e.kind == 'loop' and len({x[1] for x in outer if x[0].kind == 'loop'}) == 1:
                    got = [q for q in keep if any(c[1] == k for c in q.ctx)]
                    inner = [c for q in got for c in q.ctx if c[1] != k]
                    ctx.need(same is not None and len(got) == (0 if same else 1) and not inner, R, f.ref + ' kept', e.where,
                             'a rule other than the eliminated one is not kept exactly once, or the eliminated one is kept')
        # replaced uses
        uses = []
        for q in made:
            if q.kind == 'set':
                head, fs = q.i, [x for x in flat(q.v)]
                uses.append((q, head, fs, True))
            elif q.kind == 'one':
                rp = rule_parts(p, q.v)
                if rp is None:
                    ctx.fail(R, f.ref + ' rule', q.e.where if q.e else e0.where, f'{short(q.v)} is not a rule')
                    continue
                uses.append((q, rp[0], rp[1], False))
            else:
                ctx.fail(R, f.ref + ' extra', e0.where, f'the new program also gets {q}')
        # every unification of a subgoal with the head of the eliminated rule yields exactly one use
        for e in p.events:
            if e.kind == 'loop':
                u = p.res(e.a[1])
                if is_call(u, 'unify') and any(noop(x) is Attr(s, 'head') for x in u.a[1]):
                    hits += 1
                    other = [noop(x) for x in u.a[1] if noop(x) is not Attr(s, 'head')]
                    rr = None
                    for x in other:
                        if x.k in ('sub', 'elem') and noop(x.a[0]).k == 'attr' and noop(x.a[0]).a[1] == 'body':
                            rr = noop(x.a[0]).a[0]
                            kb = x.a[1] if x.k == 'sub' else None
                    if rr is None or parent_of(rr, prog) is None:
                        ctx.fail(R, f.ref + ' uses', e.where, f'{short(u)} does not match a subgoal of a rule of the program with the eliminated head')
                        continue
                    same = next((t for _, k, t in outer if any(w.k == 'idx' and w.a[0] == k for w in walk(rr))), None)
                    ctx.need(is_fresh(rr) or same is False, R, f.ref + ' renamed', e.where, 'the eliminated rule is matched with itself without renaming it')
                    bodies = {Attr(rr, 'body'), noop(Attr(rr, 'body'))}
                    posn = [c for c in loops(e) if isinstance(c[2], V) and all_positions(p.res(c[2]), bodies)]
                    ctx.need(bool(posn), R, f.ref + ' positions', e.where, 'not every subgoal of the rule is tried')
                    cut = early_exit(p, [c[3] for c in posn if len(c) > 3])
                    ctx.need(not cut, R, f.ref + ' all positions', e.where, 'the enumeration of the subgoals ends early')
                    mine = [x for x in uses if any(c[1] == e.a[0] for c in x[0].ctx)]
                    ctx.need(len(mine) == 1, R, f.ref + ' one rule per use', e.where, f'{len(mine)} rules are added for one matching subgoal')
                    for q, head, fs, stream in mine:
                        n += 1
                        ctx.need(noop(head) is Attr(rr, 'head'), R, f.ref + ' head', q.e.where, f'the new head is {short(head)}')
                        lay = elim_layout(p, fs, stream, bodies, kb, s, u)
                        ctx.need(lay in (['L', 'I', 'S', 'R'], ['L', 'S', 'I', 'R'], ['I', 'L', 'S', 'R'], ['L', 'S', 'R', 'I']), R, f.ref + ' body', q.e.where,
                                 f'the new body is made of {lay}: not the subgoals before, the eliminated body (with the variables of the match), the subgoals after')
                    single(ctx, f, p, e, R)
        strays = [x for x in uses if not any(c[0] == 'loop' and is_call(p.res(c[2]), 'unify') for c in x[0].ctx)]
        ctx.need(not strays, R, f.ref + ' extra', e0.where, 'a rule is added that does not come from a matching subgoal')
    ctx.floor(hits, 1, 'matches of the eliminated head')
    # the position loop is reached for every rule
    for p in ctx.paths(f):
        if p.kind == 'raise' or copy_loop(p, prog, i) is None:
            continue
        for e, k, same in copy_loop(p, prog, i):
            if e.kind != 'loop' or len([1 for x in copy_loop(p, prog, i) if x[0].kind == 'loop']) != 1:
                continue
            inner = [x for x in p.events if x.kind in ('loop', 'loop0') and body_loop(p.res(x.a[1])) and any(c[1] == k for c in x.ctx)]
            ctx.need(bool(inner), R, f.ref + ' every rule', p.where(), 'the subgoals of some rule are not tried')
            for x in inner:
                if x.kind == 'loop':
                    us = [y for y in p.events if y.kind in ('loop', 'loop0') and is_call(p.res(y.a[1]), 'unify') and any(c[1] == x.a[0] for c in y.ctx)]
                    ctx.need(bool(us), R, f.ref + ' every subgoal', p.where(), 'some subgoal is not matched with the eliminated head')


def body_loop(v):
    v = noop(v)
    if is_call(v, 'enumerate', 'reversed') and v.a[1]:
        return body_loop(v.a[1][0])
    if is_call(v, 'range') and len(v.a[1]) == 1 and is_call(v.a[1][0], 'len'):
        return body_loop(v.a[1][0].a[1][0])
    return v.k == 'attr' and v.a[1] == 'body'


def unrule(v, prog):
    v = unfresh(noop(v))
    if v.k in ('sub', 'elem'):
        b = noop(v.a[0])
        if b.k == 'attr' and b.a[1] == 'rules':
            b = noop(b.a[0])
        if b is prog:
            return v
    return None


def parent_of(v, prog):
    return unrule(v, prog)


def elim_layout(p, fs, stream, bodies, kb, s, u):
    lay = []
    names = {noop(x) for x in u.a[1]}
    for x in fs:
        if stream:
            v = x
            if is_call(v, 'I'):
                ok = len(v.a[1]) == 3 and {noop(v.a[1][0]), noop(v.a[1][1])} == names and v.a[1][2].k == 'attr' and v.a[1][2].a[1] == 'one'
                lay.append('I' if ok else '?')
                continue
            if not is_call(v, 'Constant') or not v.a[1]:
                lay.append('?')
                continue
            v = noop(v.a[1][0])
        else:
            v = noop(x.v)
            if x.kind == 'one':
                lay.append('I' if is_infmul(v) else '?')
                continue
        bp = body_part(v, bodies)
        if kb is not None and bp == ((None, 0), (kb, 0)):
            lay.append('L')
        elif kb is not None and bp == ((kb, 1), None):
            lay.append('R')
        elif v is Attr(s, 'body'):
            lay.append('S')
        else:
            lay.append('?')
    return lay


def single(ctx, f, p, e, R):
    "A returning path knows that at most one subgoal of this rule matched."
    uid = e.a[0]
    outer = [c[1] for c in e.ctx if c[0] == 'loop' and c[1] != uid]
    ok = False
    for a, b in p.facts.items():
        if a.k != 'cmp' or a.a[0] not in ('<', '<='):
            continue
        l, r = a.a[1], a.a[2]
        bound = None
        if a.a[0] == '<' and b is False and is_const(l, 1):
            bound = r           # not 1 < x
        elif a.a[0] == '<=' and b is True and is_const(r, 1):
            bound = l
        elif a.a[0] == '<' and b is True and is_const(r, 2):
            bound = l
        elif a.a[0] == '<=' and b is False and is_const(l, 2):
            bound = r
        if bound is None:
            continue
        bound = p.res(bound)
        if is_call(bound, 'len') and bound.a[1]:
            X = p.res(bound.a[1][0])
            if any(q.kind == 'mutate' and q.a[1] in ADDERS and p.res(q.a[0]) is X and (any(c[1] == uid for c in q.ctx)) for q in p.events):
                ok = True
        if bound.k == 'bin' and bound.a[0] == '+' and {1} == {x.a[0] for x in bound.a[1:] if x.k == 'const'}:
            ph = next((x for x in bound.a[1:] if x.k == 'phi'), None)
            chain = []
            while ph is not None and ph.k == 'phi':
                chain.append(ph.a[0])
                nxt = ph.a[2]
                if isinstance(nxt, V) and nxt.k != 'phi':
                    if is_const(nxt, 0) and uid in chain and outer and outer[-1] in chain:
                        ok = True
                    break
                ph = nxt if isinstance(nxt, V) else None
    ctx.need(ok, R, f.ref + ' linear', e.where, 'a rule with two matching subgoals is not refused (the combination of two eliminated uses is lost)')


def yes_paths(ctx, f, **kw):
    "The paths on which a predicate answers yes, with everything that is then known."
    for p in ctx.paths(f, **kw):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        facts = dict(p.facts)
        t = True
        while v.k == 'un' and v.a[0].strip() == 'not':
            v, t = v.a[1], not t
        if v.k == 'const':
            if bool(v.a[0]) is t:
                yield p, facts
            continue
        if facts.get(v, t) is t:
            facts[v] = t
            yield p, facts


def elim_entry(ctx, m):
    "elim: linearise with respect to the head of the eliminated rule, then eliminate that rule."
    f = m.func('dyna.program', 'Program.elim')
    me, s = param(f, 0), param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        ok = is_call(v, 'linear_rule_elimination', 'LinearRuleElimination')
        if ok:
            a = list(v.a[1])
            src = recv(v) if recv(v) is not None and fname(v.a[0]) == 'linear_rule_elimination' else (a.pop(0) if a else None)
            ok = bool(a) and a[0] is s and src is not None and (src is me or (is_call(src, 'linearize') and recv(src) is me))
            if ok and is_call(src, 'linearize'):
                d = carg(src, 0, 'driver')
                ok = d is None or is_const(d, None) or d is Attr(Sub(Attr(me, 'rules'), s), 'head')
        ctx.need(ok, 'eliminate', f.ref, p.where(), f'{short(v)} does not eliminate the given rule of the linearised program')


def safe_inline(ctx, m):
    f = m.func('dyna.program', 'Program.safe_inline')
    me, x = param(f, 0), param(f, 1)
    n = 0
    for p, facts in yes_paths(ctx, f):
        n += 1
        neg = {fname(a.a[0]) for a, b in facts.items() if b is False and is_call(a, 'is_input', 'is_const', 'is_exogenous') and noop(a.a[1][-1]) is x}
        ctx.need({'is_input', 'is_const'} <= neg or 'is_exogenous' in neg, 'unfold', f.ref, p.where(),
                 'an input or a constant counts as safe to inline although its definition is not in the program')
    ctx.floor(n, 1, 'ways to be safe to inline')


# ------------------------------------------------------------------ set algebra
def set_eval(p, v, atoms, env):
    """Membership of an arbitrary variable in a set expression over term_vars(...) atoms; None if unknown.
    atoms: list of (predicate on the argument of term_vars, name or function of env)."""
    while is_call(v, 'set', 'frozenset', 'OrderedSet', 'list', 'sorted', 'tuple') and len(v.a[1]) == 1:
        v = v.a[1][0]
    if is_call(v, 'set', 'frozenset', 'OrderedSet') and not v.a[1]:
        return False
    if is_call(v, 'term_vars', 'vars') and v.a[1]:
        x = v.a[1][0]
        r = set_atom(p, x, atoms, env)
        if r is not None:
            return r
        if x.k == 'obj':
            e = next((e for e in p.events if e.kind == 'newobj' and e.a[0] is x), None)
            x = V('tup', 'list', tuple(y if y.k == 'obj' else p.res(y) for y in e.contents[x][1])) if e is not None and x.a[0] != 'dict' and not any(z.kind == 'mutate' and z.a[0] is x for z in p.events) else p.res(x)
        if x.k == 'tup':
            out = False
            for y in x.a[1]:
                r = set_atom(p, y.a[0] if y.k == 'star' else y, atoms, env)
                if r is None:
                    return None
                out = out or r
            return out
        return set_atom(p, x, atoms, env)
    if v.k == 'bin' and v.a[0] in ('-', '|', '&', '^', '+'):
        a, b = set_eval(p, v.a[1], atoms, env), set_eval(p, v.a[2], atoms, env)
        if a is None or b is None:
            return None
        return {'-': a and not b, '|': a or b, '+': a or b, '&': a and b, '^': a != b}[v.a[0]]
    if is_call(v, 'union', 'intersection', 'difference') and recv(v) is not None:
        a = set_eval(p, recv(v), atoms, env)
        for x in v.a[1]:
            b = set_eval(p, x, atoms, env)
            if a is None or b is None:
                return None
            a = {'union': a or b, 'intersection': a and b, 'difference': a and not b}[fname(v.a[0])]
        return a
    if v.k == 'obj':
        # a comprehension that filters variables of another set is not decomposed here
        return None
    return None


def set_atom(p, x, atoms, env):
    for pred, val in atoms:
        if pred(x) or pred(p.res(x)):
            return val(env) if callable(val) else env[val]
    return None


def set_agree(p, v, atoms, names, want, feasible=lambda env: True):
    "The set expression denotes `want` for every membership combination."
    from itertools import product
    for bits in product((False, True), repeat=len(names)):
        env = dict(zip(names, bits))
        if not feasible(env):
            continue
        r = set_eval(p, v, atoms, env)
        if r is None or r != want(env):
            return False
    return True


# ------------------------------------------------------------------ C18
GATES = [('dyna.program', 'Program.partial_megafolds', ('partially_safe',)),
         ('dyna.program', 'Program.megafolds', ('safe_by_smt',)),
         ('dyna.program', 'Program.megafolds_unit', ('safe_by_unit',)),
         ('dyna.program', 'Program.basic_fold', ('safe_by_rev',)),
         ('dyna.program', 'Program.reversible_megafolds', ('safe_by_rev',)),
         ('dyna.transform.fold', 'fold_r_S', ('safe_by_rev',))]


@check('C18', 'guard dominance for every fold that is offered, symbolic accounting of the replaced rules, and boolean evaluation of the variable-set expressions over all membership combinations',
       'Every value yielded or returned by the fold enumerations and checked folds must be dominated by the safety test that its name promises (or come from an enumeration that is). The tests themselves must '
       'compare the parent program with the unfolding of exactly the subgoal that was folded, against the definitions (or the result itself). The new program must hold the folded rule and every parent rule '
       'except the replaced ones exactly once. The variable-locality test and the interface of hook definitions are set expressions over the variables of head, matched and remaining subgoals: they are evaluated '
       'for every combination of memberships and compared with their meaning.',
       ['program equality is a one-to-one alignment of rules (C06)', 'unfolding is exact (C17)'])
def c18(ctx):
    m = ctx.m
    for mod, q, attrs in GATES:
        gate_site(ctx, m, mod, q, attrs)
    fold_tests(ctx, m)
    fold_init(ctx, m)
    sub_site(ctx, m)
    prog_folds_by(ctx, m)
    rule_folds_by(ctx, m)
    absorption(ctx, m)
    hook_site(ctx, m)
    folded_copies(ctx, m)


def holds_attr(p, v, attrs):
    return any(b is True and a.k == 'attr' and a.a[1] in attrs and (a.a[0] is v or p.res(a.a[0]) is p.res(v)) for a, b in p.facts.items())


def lam_tests(p, lam, attrs):
    "The predicate is `lambda x: x.<attr>` (possibly with further conjuncts) or attrgetter('<attr>')."
    if is_call(lam, 'attrgetter') and lam.a[1]:
        return is_const(lam.a[1][0], *attrs)
    ent = p.flow.lams.get(lam) if lam.k == 'lam' else None
    if ent is None:
        return False
    node = ent[0]
    args = node.args.args
    if not args:
        return False
    body = node.body if isinstance(node, ast.Lambda) else (node.body[-1].value if len(node.body) == 1 and isinstance(node.body[-1], ast.Return) else None)

    def ok(x):
        if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.And):
            return any(ok(y) for y in x.values)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'bool' and x.args:
            return ok(x.args[0])
        return isinstance(x, ast.Attribute) and x.attr in attrs and isinstance(x.value, ast.Name) and x.value.id == args[0].arg
    return body is not None and ok(body)


def gated_coll(p, v, attrs, names):
    "Every element of the collection `v` satisfies one of the attributes."
    v0 = v
    if v.k != 'obj':
        v = p.res(v)
    if is_call(v, 'filter'):
        if recv(v) is not None and len(v.a[1]) == 1:
            return lam_tests(p, v.a[1][0], attrs) or gated_coll(p, recv(v), attrs, names)
        if len(v.a[1]) == 2:
            return lam_tests(p, v.a[1][0], attrs) or gated_coll(p, v.a[1][1], attrs, names)
        return False
    if is_call(v, 'ProgramCollection', 'list', 'tuple', 'set', 'iter', 'to_collection', 'dedup') and (v.a[1] or recv(v) is not None):
        return gated_coll(p, v.a[1][0] if v.a[1] else recv(v), attrs, names)
    if is_call(v) and fname(v.a[0]) in names:
        return True
    if v0.k == 'obj' or v.k == 'tup':
        return all(q.kind == 'one' and gated_one(p, q.v, attrs, names) for q in pieces(p, v0))
    return False


def gated_one(p, v, attrs, names):
    if v.k in ('sub', 'elem') and gated_coll(p, v.a[0], attrs, names):
        return True
    if is_call(v) and v.a[0].k == 'lam':        # the result of a nested enumeration that is judged itself
        return True
    if v.k in ('sub', 'elem') and is_call(v.a[0]) and v.a[0].a[0].k == 'lam':
        return True
    return holds_attr(p, v, attrs)


def gate_site(ctx, m, mod, q, attrs):
    f = m.func(mod, q)
    names = {x.rsplit('.', 1)[-1] for _, x, a in GATES if a == attrs}
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'yield':
                n += 1
                ctx.need(gated_one(p, e.a[0], attrs, names), 'gate', f.ref, e.where, f'a fold is offered without checking {" or ".join(attrs)}')
            elif e.kind == 'yieldfrom':
                n += 1
                ctx.need(gated_coll(p, e.a[0], attrs, names), 'gate', f.ref, e.where, f'folds are offered without checking {" or ".join(attrs)}')
        if p.kind == 'return' and p.value is not None and not is_const(p.value, None):
            n += 1
            ctx.need(gated_coll(p, p.value, attrs, names) or gated_one(p, p.value, attrs, names), 'gate', f.ref, p.where(), f'a fold is returned without checking {" or ".join(attrs)}')
    ctx.need(n > 0, 'gate', f.ref + ' present', f.ref, 'no fold is offered or returned')


def unfold_call(v, me):
    "(i, j, defs) of me.unfold(...)."
    if not is_call(v, 'unfold', 'Unfold'):
        return None
    a = list(v.a[1])
    r = recv(v) if fname(v.a[0]) == 'unfold' else (a.pop(0) if a else None)
    if r is not me:
        return None
    kw = dict(v.a[2])
    return tuple(a[k] if k < len(a) else kw.get(n, NONE) for k, n in enumerate(('i', 'j', 'defs')))


def fold_tests(ctx, m):
    R = 'reversible'
    mod = 'dyna.transform.fold'
    me = None
    exp = {'u': ('defs',), 'rev': (None,)}

    def is_back(v, which, me):
        v = noop(v)
        if v is Attr(me, which):
            return True
        return unfold_ok(unfold_call(v, me), which, me)

    def unfold_ok(u, which, me):
        return u is not None and u[0] is Attr(me, 'i') and u[1] is Attr(me, 'j') and (u[2] is Attr(me, 'defs') if which == 'u' else (is_const(u[2], None) or u[2] is me))
    for which in ('u', 'rev'):
        f = m.func(mod, 'Fold.' + which)
        me = param(f, 0)
        for p in ctx.paths(f):
            if p.kind == 'return':
                ctx.need(unfold_ok(unfold_call(p.res(p.value), me), which, me), R, f.ref, p.where(), f'{short(p.value)} is not the unfolding of the folded subgoal ' + ('against the definitions' if which == 'u' else 'against the new program itself'))
    for q, which in (('partially_safe', 'u'), ('safe_by_rev', 'rev')):
        f = m.func(mod, 'Fold.' + q)
        me = param(f, 0)
        n = 0
        for p, facts in yes_paths(ctx, f):
            n += 1
            ok = any(b is True and a.k == 'cmp' and a.a[0] == '==' and
                     any(noop(x) is Attr(me, 'parent') and is_back(y, which, me) for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1]))) for a, b in facts.items())
            ctx.need(ok, R, f.ref, p.where(), 'a fold passes although its unfolding was not found equal to the parent program')
        ctx.floor(n, 1, f'accepting paths of {q}')
    f = m.func(mod, 'Fold.undo')
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind == 'return':
            v = noop(p.res(p.value))
            part = p.facts.get(Attr(me, 'partially_safe'))
            ctx.need(v is Attr(me, 'u') if part else (v is Attr(me, 'rev') and part is False), R, f.ref, p.where(), f'{short(v)} is used as the inverse of the fold when partially_safe is {part}')


def minus(v, prog, S):
    "prog - S"
    v = noop(v)
    if v.k == 'attr' and v.a[1] == 'rules':
        v = noop(v.a[0])
    return v.k == 'bin' and v.a[0] == '-' and noop(v.a[1]) is prog and v.a[2] is S


def kwparam(f, name):
    for i, a in enumerate(f.node.args.args):
        if a.arg == name:
            return param(f, i)
    return None


def named(p, f, name):
    "The value of a (possibly keyword-only) parameter."
    a = f.node.args
    allp = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for e in p.events:
        for v in e.a:
            if isinstance(v, V):
                for w in walk(v):
                    if w.k == 'param' and w.a[1] == name:
                        return w
    return None


def fold_init(ctx, m):
    f = m.func('dyna.transform.fold', 'Fold.__init__')
    R = 'replace'
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        par, r, S, defs, j = (named(p, f, x) for x in ('parent', 'r', 'S', 'defs', 'j'))
        si = super_init(p)
        if si is None or None in (par, r, S):
            ctx.fail(R, f.ref + ' result', p.where(), 'no rules are handed to the new program')
            continue
        n += 1
        e0, _, pv, rules = si
        ctx.need(noop(pv) is par, R, f.ref + ' parent', e0.where, f'the parent is {short(pv)}')
        pcs = pieces(p, rules)
        news = [k for k, q in enumerate(pcs) if q.kind == 'one' and noop(q.v) is r and not q.ctx]
        base = [q for q in pcs if q.kind == 'seq' and minus(q.v, par, S)]
        rest = [q for k, q in enumerate(pcs) if k not in news and q not in base]
        ctx.need(len(news) == 1, R, f.ref + ' new rule', e0.where, f'the folded rule is added {len(news)} times')
        if base:
            ctx.need(len(base) == 1 and not rest, R, f.ref + ' kept', e0.where, 'the rules that are not folded are not kept exactly once')
        else:
            lps = [(e, e.a[0]) for e in p.events if e.kind in ('loop', 'loop0') and all_rules(p.res(e.a[1]), par)]
            ok = bool(lps) and all(q.kind == 'one' and unrule(q.v, par) is not None and any(in_loop(q, k) for _, k in lps) for q in rest)
            for e, k in lps:
                if e.kind == 'loop':
                    inS = next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and a.a[1].k == 'idx' and a.a[1].a[0] == k and a.a[2] is S), None)
                    got = [q for q in rest if in_loop(q, k)]
                    ok = ok and inS is not None and len(got) == (0 if inS else 1)
            ctx.need(ok, R, f.ref + ' kept', e0.where, 'the rules that are not folded are not kept exactly once')
        st = {e.a[1]: p.res(e.a[2]) for e in p.events if e.kind == 'setattr'}
        iv = st.get('i')
        if news:
            ctx.need((iv is not None and is_const(iv, news[0]) and all(q.kind == 'one' for q in pcs[:news[0]])) or
                     any(b is True and a.k == 'cmp' and a.a[0] == '==' and contains(a, r) and any(w.k == 'sub' and w.a[0].k == 'attr' and w.a[0].a[1] == 'rules' for w in walk(a)) and not is_const(iv) for a, b in p.facts.items()),
                     R, f.ref + ' index', e0.where, f'the folded rule is recorded at index {short(iv) if iv is not None else None}')
        ctx.need(st.get('j') is j and st.get('S') is S, R, f.ref + ' record', e0.where, 'the subgoal index or the set of replaced rules is not recorded as given')
        dn = next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'is' and {a.a[1], a.a[2]} == {defs, NONE}), None)
        ctx.need(st.get('defs') is (par if dn else defs), R, f.ref + ' definitions', e0.where, 'the definitions are not recorded as given')
    ctx.floor(n, 1, 'fold constructions')


def sub_site(ctx, m):
    f = m.func('dyna.program', 'Program.__sub__')
    me, rs = param(f, 0), param(f, 1)
    R = 'remove'
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.value if p.value.k == 'obj' else p.res(p.value)
        ctx.need(is_call(v, 'spawn') and recv(v) is me and len(v.a[1]) == 1, R, f.ref + ' result', p.where(), f'{short(v)} is returned')
        if not is_call(v, 'spawn') or not v.a[1]:
            continue
        one = any(b is True and is_call(a, 'isinstance') and a.a[1][0] is rs for a, b in p.facts.items())

        def is_rs(x):
            x = x if x.k == 'obj' else p.res(x)
            while is_call(x, 'set', 'list', 'frozenset', 'sorted', 'tuple') and x.a[1]:
                x = x.a[1][0]
            if x is rs:
                return True
            return one and [q.v for q in pieces(p, x)] == [rs]
        pcs = pieces(p, v.a[1][0])
        base = [q for q in pcs if q.kind == 'seq' and all_rules(q.v, me)]
        if base:
            ctx.need(len(base) == 1 and all(q.kind == 'del' for q in pcs if q not in base), R, f.ref + ' kept', p.where(), 'the remaining rules are not kept exactly once')
            for q in pcs:
                if q.kind != 'del':
                    continue
                n += 1
                if not q.ctx:
                    ctx.need(one and q.i is rs, R, f.ref + ' index', q.e.where, 'something else than the given rules is removed')
                    continue
                c = q.ctx[-1]
                it = c[2]
                desc = (is_call(it, 'reversed') and is_call(it.a[1][0], 'sorted') and not it.a[1][0].a[2] and is_rs(it.a[1][0].a[1][0])) or \
                       (is_call(it, 'sorted') and any(k == 'reverse' and is_const(x, True) for k, x in it.a[2]) and is_rs(it.a[1][0])) or \
                       (it.k == 'sub' and it.a[1].k == 'slice' and is_const(it.a[1].a[2], -1) and is_call(it.a[0], 'sorted') and not it.a[0].a[2] and is_rs(it.a[0].a[1][0]))
                ctx.need(desc, R, f.ref + ' order', q.e.where, f'indices are removed one by one in the order of {short(it)}: each removal shifts the rules behind it, so this must go from the last to the first')
                el = q.i
                ctx.need(q.v is None and el is not None and el.k in ('elem', 'sub') and not any(w.k == 'bin' for w in walk(el)), R, f.ref + ' index', q.e.where, 'something else than the given rules is removed')
        else:
            lps = [e for e in p.events if e.kind in ('loop', 'loop0') and all_rules(p.res(e.a[1]), me)]
            ok = bool(lps)
            for e in lps:
                if e.kind == 'loop':
                    n += 1
                    inS = next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and a.a[1].k == 'idx' and a.a[1].a[0] == e.a[0] and is_rs(a.a[2])), None)
                    if inS is None and one:
                        inS = next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == '==' and any(x.k == 'idx' for x in a.a[1:]) and rs in a.a[1:]), None)
                    got = [q for q in pcs if q.kind == 'one' and in_loop(q, e.a[0])]
                    ok = ok and inS is not None and len(got) == (0 if inS else 1)
            ctx.need(ok, R, f.ref + ' kept', p.where(), 'the remaining rules are not kept exactly once')
    ctx.floor(n, 1, 'removals of rules')


def prog_folds_by(ctx, m):
    f = m.func('dyna.program', 'Program.folds_by')
    me, r, js, defs = (param(f, k) for k in range(4))
    R = 'candidates'
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind != 'yield':
                continue
            v = e.a[0]
            if not is_call(v, 'Fold'):
                ctx.fail(R, f.ref, e.where, f'{short(v)} is offered')
                continue
            n += 1
            kw = dict(v.a[2])
            P, rr, S, D, j = (kw.get(k) for k in ('parent', 'r', 'S', 'defs', 'j'))
            if None in (P, rr, S, j):
                ctx.fail(R, f.ref, e.where, f'{short(v)} is incomplete')
                continue
            al = [c for c in calls_in_events(p, 'align') if recv(c) is me and c.a[1]]
            ok = False
            for a in al:
                u = p.res(a.a[1][0])
                if is_call(u, 'unfold'):
                    uj = u.a[1][0] if u.a[1] else dict(u.a[2]).get('j')
                    ud = carg(u, 1, 'defs')
                    if recv(u) is rr and uj is j and ud is not None and (D is None or ud is D):
                        ok = a
            ctx.need(bool(ok), R, f.ref + ' alignment', e.where, 'the replaced rules are not those that the unfolding of the new rule is aligned with')
            ctx.need(P is me, R, f.ref + ' parent', e.where, f'the parent is {short(P)}')
            sv = S if S.k == 'obj' else S.a[1][0] if is_call(S, 'frozenset', 'set') and S.a[1] else S
            ps = pieces(p, sv)
            good = all(q.kind == 'one' and q.v.k == 'sub' and is_const(q.v.a[1], 0) and contains(q.v, ok) for q in ps) if ok else False
            ctx.need(good, R, f.ref + ' replaced', e.where, 'the set of replaced rules holds something else than the aligned rules of the program')
            # unmatched rules of the unfolding must rule out the fold
            noloop = [z for z in p.events if z.kind in ('loop', 'loop0') and p.res(z.a[1]) is p.res(S) and z.n < e.n]
            guard = bool(noloop) and all(z.kind == 'loop0' or any(b is False and a.k == 'cmp' and a.a[0] == 'is' and NONE in a.a[1:] and any(w.k == 'idx' and w.a[0] == z.a[0] for w in walk(a)) for a, b in p.facts.items()) for z in noloop) or \
                any((b is False and a.k == 'cmp' and a.a[0] == 'in' and is_const(a.a[1], None)) or
                        (b is True and is_call(a, 'all')) or (b is False and is_call(a, 'any')) for a, b in p.facts.items())
            ctx.need(guard, R, f.ref + ' unmatched', e.where, 'a fold is offered although the unfolding of the new rule has a rule that is not in the program')
            # a rule of the program without partner is not replaced
            for q in ps:
                second = Sub(q.v.a[0], Const(1)) if q.v.k == 'sub' else None
                fs = [b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] in ('is', '==') and second in (a.a[1], a.a[2]) and NONE in (a.a[1], a.a[2])]
                ctx.need(fs == [False], R, f.ref + ' partner', e.where, 'a rule is replaced although the unfolding of the new rule does not contain it')
    ctx.need(n > 0, R, f.ref + ' present', f.ref, 'no candidate is offered')


def calls_in_events(p, *names):
    out = []
    for e in p.events:
        if e.kind == 'call' and is_call(e.a[0], *names):
            out.append(e.a[0])
    return out


def rule_folds_by(ctx, m):
    f = m.func('dyna.rule', 'Rule.folds_by')
    me, r = param(f, 0), param(f, 1)
    R = 'locality'
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        for q in pieces(p, p.value):
            if q.kind != 'one':
                ctx.fail(R, f.ref, p.where(), f'{q} is returned')
                continue
            t = q.v
            if not is_call(t, 'FoldedRule'):
                ctx.fail(R, f.ref, p.where(), f'{short(t)} is returned')
                continue
            n += 1
            ev = q.e
            kw = dict(t.a[2])
            kw.update({nm: x for nm, x in zip(('head', 'left', 'subgoal', 'right', 'folded', 'folder', 'subst', 'align', 'remaining'), t.a[1])})
            where = ev.where if ev is not None else p.where()
            lp = [c for c in q.ctx if is_call(c[2], 'covers')]
            ok = bool(lp) and recv(lp[-1][2]) is Attr(r, 'body') and lp[-1][2].a[1][0] is Attr(me, 'body')
            ctx.need(ok, R, f.ref + ' match', where, 'the body of the definition is not matched into the body of the rule')
            if not ok:
                continue
            L = lp[-1]
            ctx.need(kw.get('head') is Attr(me, 'head'), R, f.ref + ' head', where, f'the head is {short(kw.get("head"))}')
            sg = kw.get('subgoal')
            Rv = sg.a[0] if sg is not None and sg.k == 'attr' and sg.a[1] == 'head' else None
            inst = Rv
            while inst is not None and is_call(inst) and is_call(inst.a[0], 'Subst') and inst.a[1]:
                inst = inst.a[1][0]
            sub_ok = inst is not None and is_call(inst) and inst.a[1] and inst.a[1][0] is r and elem_of_loop(inst.a[0], L, 0)
            ctx.need(sub_ok, R, f.ref + ' subgoal', where, f'the new subgoal is {short(sg) if sg is not None else None}: not the head of the matched definition')
            rest = []
            for side in ('left', 'right'):
                rest += pieces(p, kw[side]) if kw.get(side) is not None else []
            rl = [e for e in p.events if e.kind in ('loop', 'loop0') and elem_of_loop(p.res(e.a[1]), L, 2, sorted_ok=True) and any(c[1] == L[1] for c in e.ctx)]
            want_rest = [e for e in rl if e.kind == 'loop']
            direct = [x for x in rest if x.kind == 'seq']
            if direct:
                ok = len(rest) == 1 and direct[0].v.k == 'sub' and direct[0].v.a[0] is Attr(me, 'body') and elem_of_loop(direct[0].v.a[1], L, 2, sorted_ok=True)
            else:
                ok = bool(rl) and all(x.kind == 'one' and x.v.k == 'sub' and x.v.a[0] is Attr(me, 'body') for x in rest) and len(rest) >= (1 if want_rest else 0)
                ok = ok and (not rest or bool(want_rest))
            ctx.need(ok, R, f.ref + ' remaining', where, 'the subgoals that are not matched are not all kept')
            # locality
            restobjs = {kw.get('right'), kw.get('left')} - {None}
            atoms = [(lambda x: x is Attr(Rv, 'body'), 'Rb'), (lambda x: x is Attr(Rv, 'head'), 'Rh'), (lambda x: x is Attr(me, 'head'), 'sh'),
                     (lambda x: x in restobjs or any(x is y.a[1][0] for y in restobjs if is_call(y, 'Product') and y.a[1]), 'rest'),
                     (lambda x: x is Rv, lambda en: en['Rb'] or en['Rh']), (lambda x: x is me, lambda en: en['Rb'] or en['sh'] or en['rest'])]
            ok = False
            for a, b in p.facts.items():
                A = B = None
                if is_call(a, 'isdisjoint') and b is True:
                    A, B = recv(a), a.a[1][0]
                    X = V('bin', '&', A, B)
                elif a.k == 'bin' and a.a[0] == '&' and b is False:
                    X = a
                elif is_call(a, 'intersection') and b is False:
                    X = a
                elif a.k == 'cmp' and a.a[0] == '==' and b is True and is_call(a.a[1], 'len') and is_const(a.a[2], 0):
                    X = a.a[1].a[1][0]
                elif a.k == 'cmp' and a.a[0] == '==' and b is True and is_call(a.a[2], 'len') and is_const(a.a[1], 0):
                    X = a.a[2].a[1][0]
                else:
                    continue
                if set_agree(p, X, atoms, ('Rb', 'Rh', 'sh', 'rest'), lambda en: en['Rb'] and not en['Rh'] and (en['sh'] or en['rest'])):
                    ok = True
            ctx.need(ok, R, f.ref + ' variables', where, 'a fold is proposed that hides a variable which also occurs in the head or in the remaining subgoals')
    ctx.floor(n, 1, 'proposed folds')
    f = m.func('dyna.rule', 'FoldedRule.__init__')
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind == 'raise':
            continue
        st = {e.a[1]: e.a[2] for e in p.events if e.kind == 'setattr'}
        c = next((c for c in calls_in_events(p, '__init__')), None)
        names = {a.arg: param(f, i) for i, a in enumerate(f.node.args.args)}
        if c is None:
            ctx.fail(R, f.ref, p.where(), 'the rule is not initialised')
            continue
        a = [x for x in c.a[1]]
        if a and a[0] is me:
            a = a[1:]
        body = []
        for x in a[1:]:
            body += pieces(p, x.a[0]) if x.k == 'star' else [Piece('one', x)]
        lay = [(q.kind, q.v) for q in body]
        ok = a and a[0] is names['head'] and lay == [('seq', names['left']), ('one', names['subgoal']), ('seq', names['right'])]
        ctx.need(ok, R, f.ref + ' body', p.where(), 'the body is not left, new subgoal, right')
        jv = st.get('j')
        ctx.need(jv is not None and is_call(jv, 'len') and jv.a[1][0] is names['left'], R, f.ref + ' position', p.where(), 'the position of the new subgoal is recorded wrongly')


def elem_of_loop(v, L, k, sorted_ok=False):
    "Component k of the element of loop context L."
    v = noop(v)
    if sorted_ok:
        while is_call(v, 'sorted', 'list', 'tuple') and v.a[1]:
            v = v.a[1][0]
    if v.k != 'sub' or not is_const(v.a[1], k):
        return False
    b = v.a[0]
    return b.k in ('sub', 'elem') and b.a[0] is L[2]


def absorption(ctx, m):
    f = m.func('dyna.program', 'Program._loop_absorption')
    me, i, js, name = (param(f, k) for k in range(4))
    r = Sub(Attr(me, 'rules'), i)
    R = 'hook'
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        # unresolved view keeps the lists apart
        c = next((x for x in calls_in_events(p, 'Rule')), None)
        t = next((x for x in calls_in_events(p, 'Term')), None)
        if c is None or t is None:
            ctx.fail(R, f.ref, p.where(), f'{short(p.value)} is returned')
            continue
        ctx.need(t.a[1] and t.a[1][0] is name and len(t.a[1]) == 2 and t.a[1][1].k == 'star', R, f.ref + ' name', p.where(), 'the definition does not get the new name')
        if len(t.a[1]) != 2 or t.a[1][1].k != 'star':
            continue
        lists = {e.a[0]: e for e in p.events if e.kind == 'mutate' and e.a[1] == 'append'}
        tmp, rest = [], []
        for e in p.events:
            if e.kind == 'newobj' or e.kind == 'mutate':
                pass
        objs = {w for x in p.events for y in x.a if isinstance(y, V) for w in walk(y) if w.k == 'obj' and w.a[0] == 'list'}

        def kind_of(o):
            out = set()
            for q in pieces(p, o):
                if q.kind == 'one' and q.v.k in ('sub',) and q.v.a[0] is Attr(r, 'body'):
                    ix = q.v.a[1]
                    if ix.k in ('sub', 'elem') and ix.a[0] is js:
                        out.add('tmp')
                    elif ix.k == 'idx':
                        inJ = next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is ix and a.a[2] is js), None)
                        out.add('tmp' if inJ else 'rest' if inJ is False else '?')
                    else:
                        out.add('?')
                else:
                    out.add('?')
            return out
        # classify list objects by where they are created: by position of the loops that fill them
        role = {}
        for o in objs:
            k = kind_of(o)
            role[o] = k.pop() if len(k) == 1 else None if not k else '?'
        p._absorb = role
        srcs = list_roles(ctx, f, p, js, r)
        at = [(lambda x: srcs.get(x) == 'tmp', 'tmp'), (lambda x: srcs.get(x) == 'rest', 'rest'), (lambda x: x is Attr(r, 'head'), 'head'),
              (lambda x: x is Attr(r, 'body'), lambda en: en['tmp'] or en['rest']), (lambda x: x is r, lambda en: en['tmp'] or en['rest'] or en['head']),
              (lambda x: body_sel(x, r, js), 'tmp')]
        ok = set_agree(p, t.a[1][1].a[0], at, ('tmp', 'rest', 'head'), lambda en: en['tmp'] and (en['rest'] or en['head']))
        ctx.need(ok, R, f.ref + ' interface', p.where(), 'the definition does not expose exactly the variables of its subgoals that are used in the head or in the other subgoals')
        # its body: the chosen subgoals
        bd = c.a[1][1:]
        pb = []
        for x in bd:
            pb += pieces(p, x.a[0]) if x.k == 'star' else [Piece('one', x)]
        ok = all(q.kind == 'one' and q.v.k == 'sub' and q.v.a[0] is Attr(r, 'body') or body_sel(q.v, r, js) for q in pb)
        entered = [e for e in p.events if e.kind == 'loop' and (p.res(e.a[1]) is js)]
        if not any(q.kind == 'seq' for q in pb):
            ok = ok and len(pb) == len(entered[:1])
        ctx.need(ok, R, f.ref + ' body', p.where(), 'the body of the definition is not the chosen subgoals')
    ctx.floor(n, 1, 'hook definitions')


def body_sel(x, r, js):
    "r.body[js]"
    while is_call(x, 'Product', 'list', 'tuple') and len(x.a[1]) == 1:
        x = x.a[1][0]
    return x.k == 'sub' and x.a[0] is Attr(r, 'body') and (x.a[1] is js or (is_call(x.a[1], 'list', 'tuple', 'sorted') and x.a[1].a[1][0] is js))


def list_roles(ctx, f, p, js, r):
    """Which list collects the chosen subgoals and which the others, decided over all paths of the function
    (on a path that skips the loop the list is empty and says nothing)."""
    key = ('_roles', f.ref)
    cache = ctx.__dict__.setdefault('_rolecache', {})
    if key not in cache:
        acc = {}
        for q in ctx.paths(f):
            for o, k in getattr_roles(q, js, r).items():
                acc.setdefault(o, set()).add(k)
        cache[key] = {o: next(iter(k)) if len(k) == 1 else '?' for o, k in acc.items()}
    return cache[key]


def getattr_roles(q, js, r):
    out = {}
    for e in q.events:
        if e.kind == 'mutate' and e.a[1] == 'append':
            v = e.a[2]
            k = '?'
            if v.k == 'sub' and v.a[0] is Attr(r, 'body'):
                ix = v.a[1]
                if ix.k in ('sub', 'elem') and ix.a[0] is js:
                    k = 'tmp'
                elif ix.k == 'idx':
                    inJ = next((b for a, b in q.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is ix and a.a[2] is js), None)
                    k = 'tmp' if inJ else 'rest' if inJ is False else '?'
            out[e.a[0]] = k if out.get(e.a[0], k) == k else '?'
    return out


def hook_site(ctx, m):
    f = m.func('dyna.program', 'Program.hook')
    me, i, js = (param(f, k) for k in range(3))
    r = Sub(Attr(me, 'rules'), i)
    R = 'hook'
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        if not is_call(v, 'basic_fold') or recv(v) is None or not is_call(recv(v), 'define') or recv(recv(v)) is not me:
            ctx.fail(R, f.ref + ' fold', p.where(), f'{short(v)} is returned: not the checked fold of the rule by its new definition')
            continue
        d = [q.v for q in pieces(p, recv(v).a[1][0])] if recv(v).a[1] else []
        df = d[0] if len(d) == 1 else None
        ok = df is not None and is_call(df, 'loop_absorption', '_loop_absorption') and recv(df) is me and df.a[1][:2] == (i, js)
        ctx.need(ok, R, f.ref + ' definition', p.where(), 'the definition that is added is not the one built for the chosen subgoals')
        nr, j, S = (carg(v, k, x) for k, x in enumerate(('r', 'j', 'S')))
        if nr is None or not is_call(nr, 'Rule') or len(nr.a[1]) < 1 or df is None:
            ctx.fail(R, f.ref + ' rule', p.where(), f'{short(nr) if nr is not None else None} is folded')
            continue
        body = []
        for x in nr.a[1][1:]:
            body += pieces(p, x.a[0]) if x.k == 'star' else [Piece('one', x)]
        pos = [k for k, q in enumerate(body) if q.kind == 'one' and noop(q.v) is Attr(df, 'head')]
        rest = [q for q in body if not (q.kind == 'one' and noop(q.v) is Attr(df, 'head'))]
        ctx.need(noop(nr.a[1][0]) is Attr(r, 'head') and len(pos) == 1, R, f.ref + ' rule', p.where(), 'the folded rule does not have the head of the rule and exactly one call of the definition')
        if len(pos) == 1:
            ctx.need(is_const(j, pos[0]) and all(q.kind == 'one' and not q.ctx for q in body[:pos[0]]), R, f.ref + ' position', p.where(), f'the call of the definition is at position {pos[0]}, but {short(j) if j is not None else None} is unfolded to check the fold')
        lps = [e for e in p.events if e.kind in ('loop', 'loop0') and all_positions(p.res(e.a[1]), (Attr(r, 'body'),))]
        ok = bool(lps)
        for e in lps:
            if e.kind == 'loop':
                inJ = next((b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'in' and a.a[1].k == 'idx' and a.a[1].a[0] == e.a[0] and a.a[2] is js), None)
                ok = ok and inJ is not None and len(rest) == (0 if inJ else 1) and all(q.v.k == 'sub' and q.v.a[0] is Attr(r, 'body') and q.v.a[1].k == 'idx' for q in rest)
        ctx.need(ok, R, f.ref + ' remaining', p.where(), 'the subgoals that are not moved into the definition are not all kept')
        sv = S if S is None or S.k == 'obj' else S
        ctx.need(sv is not None and [(q.kind, q.v) for q in pieces(p, sv)] == [('one', i)], R, f.ref + ' replaced', p.where(), 'the rule that is replaced is not the given one')
    ctx.floor(n, 1, 'hooks')


def folded_copies(ctx, m):
    "Renaming or instantiating a folded rule keeps the place of the new subgoal."
    R = 'locality'
    for nm in ('fresh', 'sub'):
        f = m.func('dyna.rule', 'FoldedRule.' + nm)
        me = param(f, 0)
        s = param(f, 1)
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            v = p.res(p.value)
            if not is_call(v, 'FoldedRule'):
                ctx.fail(R, f.ref + ' copy', p.where(), f'{short(v)} is returned')
                continue
            kw = dict(v.a[2])
            kw.update(zip(('head', 'left', 'subgoal', 'right'), v.a[1]))

            def img(x, a):
                return x is not None and is_call(x) and x.a[0] is s and x.a[1] == (Attr(me, a),)
            ctx.need(all(img(kw.get(a), a) for a in ('head', 'left', 'subgoal', 'right')), R, f.ref + ' copy', p.where(), 'the copy mixes up or drops head, left, new subgoal or right')
