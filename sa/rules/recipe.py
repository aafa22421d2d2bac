"""Rewrites that build a program rule by rule from a recipe: slash and left-corner (C20)."""
import ast
from ..core import check
from ..values import (V, Const, NONE, TRUE, FALSE, fname, is_call, recv, walk, contains, is_const, Attr, Sub, carg)
from ..util import short
from .match import param
from .execute import noop, idx, body_part, all_rules, unfresh
from .transform import pieces, rule_parts, super_init, in_loop


@check('C20', 'symbolic decomposition of the constructed rule list: for every case (position chosen or not, item useful or not, subgoal matching or not) the rules that each loop contributes are compared with the recipe',
       'On every path of the slash and left-corner constructors the rules handed to the new program are decomposed into head and body contributions and attributed to the loop that adds them. For each '
       'combination of the case conditions the contributions must be exactly those of the recipe (slashed rule with every other subgoal once and in order, marked rule exactly when the chosen subgoal cannot '
       'match, one reconstruction rule per node and matching node). The marking method, the usefulness test and the set of nodes are checked at their own definitions.',
       ['the nodes of the coarse graph cover every item of the program', 'fresh names do not clash (checked by C21)'])
def c20(ctx):
    m = ctx.m
    for mod, c, kind in (('dyna.transform.slash', 'Slash', 'slash'), ('dyna.transform.lct', 'LCT', 'lct')):
        Recipe(ctx, m, m.cls(mod, c), kind).run()


def conflict(facts):
    return False


class Recipe:
    def __init__(self, ctx, m, cls, kind):
        self.ctx, self.m, self.cls, self.kind = ctx, m, cls, kind
        self.f = cls.methods['__init__']
        self.prog = param(self.f, 1)
        self.R = f'{kind} recipe'
        self.positions = next((param(self.f, i) for i, a in enumerate(self.f.node.args.args) if a.arg == 'positions'), None)
        self.slashers, self.markers, self.useful = {}, {}, set()
        self.makers()

    # -------------------------------------------------------------- the maker methods
    def makers(self):
        ctx = self.ctx
        self.slash_attr = self.mark_attr = None
        for name, f in self.cls.methods.items():
            if name.startswith('__') or len(f.node.args.args) not in (2, 3):
                continue
            ps = [p for p in ctx.paths(f) if p.kind == 'return']
            vals = [p.res(p.value) if p.value is not None else NONE for p in ps]
            ar = len(f.node.args.args) - 1
            xs = [param(f, i + 1) for i in range(ar)]
            terms = [v for v in vals if is_call(v, 'Term') and v.a[1] and v.a[1][0].k == 'attr']
            if not terms:
                continue
            if ar == 2 and len(terms) == len(vals):
                ok = all(list(v.a[1][1:]) == xs for v in terms)
                self.slashers[name] = terms[0].a[1][0].a[1]
                self.slash_attr = terms[0].a[1][0].a[1]
                ctx.need(ok, self.R, f.ref, f'{f.file}:{f.node.lineno}' if hasattr(f, 'file') else f.ref, 'a slashed item does not hold the item and what is taken out of it')
            elif ar == 1 and all(v in terms or v is xs[0] for v in vals):
                self.markers[name] = f
                self.mark_attr = terms[0].a[1][0].a[1]
        for name, f in self.markers.items():
            x = param(f, 1)
            for p in ctx.paths(f):
                if p.kind != 'return':
                    continue
                v = p.res(p.value)
                exo = self.known(p, lambda a: is_call(a, 'is_exogenous') and list(a.a[1]) == [x] and recv(a) is not None and recv(a).k == 'attr' and recv(a).a[1] == 'parent')
                pred = [(a, b) for a, b in p.facts.items() if is_call(a) and recv(a) is not None and recv(a).k == 'param' and list(a.a[1]) == [x]]
                use = pred[0][1] if pred else None
                for a, b in pred:
                    self.useful.add(fname(a.a[0]))
                if v is x:
                    ctx.need(exo is True or use is False, self.R, f.ref + ' unmarked', p.where(), 'an item is left unmarked that is neither defined elsewhere nor useless')
                else:
                    ctx.need(exo is False, self.R, f.ref + ' marked', p.where(), 'an item that is defined elsewhere is marked')
                    ctx.need(list(v.a[1][1:]) == [x], self.R, f.ref + ' marked item', p.where(), 'the marker does not hold the item')
        self.useful_attr = None
        for name in sorted(self.useful):
            f = self.m.method(self.cls, name) if hasattr(self.m, 'method') else self.cls.methods.get(name)
            if f is None:
                continue
            x = param(f, 1)
            for p in ctx.paths(f):
                if p.kind != 'return':
                    continue
                v = p.res(p.value)
                hit = [a for a, b in list(p.facts.items()) + [(v, True)] if b is True and is_call(a, 'unifies') and x in a.a[1]]
                for a in hit:
                    o = [y for y in a.a[1] if y is not x]
                    if o and o[0].k in ('sub', 'elem') and o[0].a[0].k == 'attr':
                        self.useful_attr = o[0].a[0].a[1]
                if is_const(v, False):
                    broke = any(e.kind == 'loopend' and e.a[1] for e in p.events)
                    opened = {e.a[0] for e in p.events if e.kind in ('loop', 'loop0')}
                    closed = {e.a[0] for e in p.events if e.kind == 'loopend'} | {e.a[0] for e in p.events if e.kind == 'loop0'}
                    ctx.need(not broke and not (opened - closed) and opened, self.R, f.ref + ' no', p.where(), 'an item is called useless before it was compared with every useful one')
                    ctx.need(not hit, self.R, f.ref + ' match', p.where(), 'an item is called useless although it unifies with a useful one')
                elif is_const(v, True):
                    ctx.need(True, self.R, f.ref + ' yes', p.where(), '')
        ctx.need(self.slash_attr is not None, self.R, self.cls.name + ' slashed items', self.f.ref, 'no method builds the slashed items')
        ctx.need(self.mark_attr is not None and self.mark_attr != self.slash_attr, self.R, self.cls.name + ' marked items', self.f.ref, 'no method builds the marked items, or they share the name of the slashed ones')

    @staticmethod
    def known(p, test):
        for a, b in p.facts.items():
            if test(a):
                return b
        return None

    # -------------------------------------------------------------- classification
    def attr_value(self, p, name):
        for e in p.events:
            if e.kind == 'setattr' and e.a[1] == name and e.a[0].k == 'param':
                return e.a[2] if e.a[2].k == 'obj' else p.res(e.a[2])
        return None

    def is_x(self, p, v):
        v = unfresh(v)
        if v.k == 'attr' and v.a[1] == 'x' and v.a[0].k == 'param':
            return True
        w = self.xval.get(id(p))
        return w is not None and v is w

    def item(self, p, v):
        "('slash', a, b), ('mark', a) or ('plain', v)."
        if is_call(v) and recv(v) is not None and recv(v).k == 'param' and not v.a[2]:
            n = fname(v.a[0])
            if n in self.slashers and len(v.a[1]) == 2:
                return ('slash', *v.a[1])
            if n in self.markers and len(v.a[1]) == 1:
                if self.use(p, v.a[1][0]) is False:
                    return ('plain', v.a[1][0])
                return ('mark', v.a[1][0])
        if is_call(v, 'Term') and v.a[1]:
            fn = v.a[1][0]
            for name, tag in ((self.slash_attr, 'slash'), (self.mark_attr, 'mark')):
                if (fn.k == 'attr' and fn.a[1] == name) or fn is self.attr_value(p, name):
                    return (tag, *v.a[1][1:])
        return ('plain', v)

    def use(self, p, v):
        return self.known(p, lambda a: is_call(a) and fname(a.a[0]) in self.useful and recv(a) is not None and recv(a).k == 'param' and a.a[1] and unfresh(a.a[1][0]) is unfresh(v))

    def rule_of(self, v):
        "index of the parent rule that `v` denotes"
        v = unfresh(noop(v))
        if v.k in ('sub', 'elem') and len(v.a) > 1:
            b = noop(v.a[0])
            if b.k == 'attr' and b.a[1] == 'rules':
                b = noop(b.a[0])
            if b is self.prog:
                return v.a[1]
        return None

    def is_pos(self, v, i):
        v = noop(v)
        P = lambda w: w is self.positions or (w.k == 'attr' and w.a[1] == 'positions')
        if is_call(v, 'get') and P(recv(v)) and v.a[1] and v.a[1][0] is i and (len(v.a[1]) == 1 or is_const(v.a[1][1], None)):
            return True
        return v.k == 'sub' and P(v.a[0]) and v.a[1] is i

    def chosen(self, v):
        "index of the rule whose chosen subgoal `v` is"
        v = noop(v)
        if v.k == 'sub':
            b = noop(v.a[0])
            if b.k == 'attr' and b.a[1] == 'body':
                i = self.rule_of(b.a[0])
                if i is not None and self.is_pos(v.a[1], i):
                    return i
        return None

    def has_pos(self, p, i):
        for a, b in p.facts.items():
            if a.k == 'cmp' and a.a[0] in ('is', '==') and is_const(a.a[2], None) and self.is_pos(a.a[1], i):
                return not b
            if a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is i and (a.a[2] is self.positions or (a.a[2].k == 'attr' and a.a[2].a[1] == 'positions')):
                return b
        return None

    def layout(self, p, q):
        "A canonical form of one contributed rule, relative to its parent rule."
        rp = rule_parts(p, q.v)
        if rp is None:
            return None
        head, body = rp
        tmp = {}

        def name(v):
            v0 = v
            v = noop(v)
            if v.k == 'attr' and v.a[1] == 'head' and self.rule_of(v.a[0]) is not None:
                return 'h'
            if self.chosen(v) is not None:
                return 'b'
            if self.is_x(p, v):
                w = self.attr_value(p, 'x')
                return 'x' if w is None or v is w or not is_call(v, 'fresh') else 'x*'
            if is_call(unfresh(v), 'Var'):
                return 'Y' + str(tmp.setdefault(v, len(tmp)))
            return None
        out = []

        def put(v):
            it = self.item(p, v)
            ns = [name(x) for x in it[1:]]
            out.append((it[0], *[n if n is not None else '?' + short(x, 40) for n, x in zip(ns, it[1:])]))
        put(head)
        for b in body:
            v = noop(b.v)
            if b.kind == 'one':
                put(v)
                continue
            if b.kind == 'seq':
                if v.k == 'attr' and v.a[1] == 'body' and self.rule_of(v.a[0]) is not None:
                    out.append('B')
                    continue
                if v.k == 'sub' and noop(v.a[0]).k == 'attr' and noop(v.a[0]).a[1] == 'body':
                    i = self.rule_of(noop(v.a[0]).a[0])
                    bp = body_part(v, {v.a[0]})
                    if i is not None and bp is not None and len(bp) == 2:
                        lo, hi = bp
                        if lo == (None, 0) and hi is not None and hi[1] == 0 and hi[0] is not None and self.is_pos(hi[0], i):
                            out.append('L')
                            continue
                        if hi is None and lo[1] == 1 and lo[0] is not None and self.is_pos(lo[0], i):
                            out.append('R')
                            continue
            out.append('?' + short(v, 40))
        return tuple(out)

    # -------------------------------------------------------------- the constructor
    def run(self):
        ctx, f, R = self.ctx, self.f, self.R
        self.xval, self.alias = {}, {}
        want = {
            ('none', True): [(('mark', 'h'), 'B')],
            ('none', False): [(('plain', 'h'), 'B')],
        }
        if self.kind == 'slash':
            ss = (('slash', 'h', 'x'), 'L', ('slash', 'b', 'x'), 'R')
        else:
            ss = (('slash', 'Y0', 'b'), 'L', 'R', ('slash', 'Y0', 'h'))
        want['pos', True] = [ss]
        want['pos', False] = [ss, (('mark', 'h'), 'L', ('mark', 'b'), 'R')]
        rules, coll = {}, {}         # (loop node, case) -> set of layouts
        where = {}
        nruns = 0
        nodes_seen = set()
        deferred = []
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            nruns += 1
            self.xval[id(p)] = unfresh(self.attr_value(p, 'x')) if self.attr_value(p, 'x') is not None else None
            si = super_init(p)
            if si is None:
                ctx.fail(R, f.ref + ' result', p.where(), 'no rules are handed to the new program')
                continue
            e0, _, par, rs = si
            ctx.need(noop(par) is self.prog, R, f.ref + ' parent', e0.where, f'the parent is {short(par)}')
            pcs = pieces(p, rs)
            base, inloop = [], {}
            for q in pcs:
                if q.kind != 'one':
                    ctx.fail(R, f.ref + ' contributions', q.e.where if q.e else e0.where, f'the new program also gets {q}')
                elif not q.ctx:
                    base.append(q)
                else:
                    inloop.setdefault(q.ctx[0][1], []).append(q)
            self.base(p, base, e0)
            bad = sorted(e.line for e in p.events if e.kind == 'loopend' and e.a[1])
            ctx.need(not bad, R, f.ref + ' loops', p.where(), f'a loop ends before every rule and node was treated (line {bad[0] if bad else 0})')
            self.names(p)
            self.collect(p, coll, where)
            for e in p.events:
                if e.kind != 'loop' or any(c[0] in ('loop', 'unroll') and c[1] != e.a[0] for c in e.ctx):
                    continue
                it = p.res(e.a[1]) if e.a[1].k != 'obj' else e.a[1]
                qs = inloop.pop(e.a[0], [])
                node = e.node
                if all_rules(it, self.prog):
                    i = V('idx', e.a[0], e.a[1]) if False else self.loop_index(p, e, qs)
                    self.rule_case(p, e, i, qs, rules, where)
                elif self.over_positions(it):
                    if qs:
                        i = self.loop_index(p, e, qs)
                        self.rule_case(p, e, i, qs, rules, where, pos=True)
                elif self.is_nodes(p, e.a[1]):
                    inner = [x for x in p.events if x.kind in ('loop', 'loop0') and x is not e and any(c[0] == 'loop' and c[1] == e.a[0] for c in x.ctx)]
                    if qs or inner:
                        nodes_seen.add(node)
                    deferred.append((node, p, e, qs, inner))
                elif qs and not (noop(e.a[1]).k == 'obj' and not pieces(p, noop(e.a[1]))):     # (the elements of a list that this path leaves empty are judged elsewhere)
                    ctx.fail(R, f.ref + ' contributions', qs[0].e.where, f'rules are added for each of {short(it)}')
            for k, qs in inloop.items():
                ctx.fail(R, f.ref + ' contributions', qs[0].e.where, 'rules are added in an unknown loop')
        for node, p, e, qs, inner in deferred:
            if node in nodes_seen:
                self.node_case(p, e, qs, inner)
        ctx.floor(nruns, 4, f'{self.kind} constructor paths')
        for case, w in want.items():
            got, amb = [], None
            for (node, c), variants in sorted(rules.items(), key=lambda t: t[0][0].lineno):
                if c == case:
                    if len(variants) > 1:
                        amb = variants
                    got += list(next(iter(variants)))
            txt = {('none', True): 'a rule without chosen position whose head may be needed marked', ('none', False): 'a rule without chosen position',
                   ('pos', True): 'a rule whose chosen subgoal may match', ('pos', False): 'a rule whose chosen subgoal cannot match'}[case]
            ok = amb is None and sorted(map(str, got)) == sorted(map(str, w))
            why = f'{txt} is turned into {got}, the recipe is {w}' if amb is None else f'{txt} is treated differently from case to case: {[list(v) for v in amb]}'
            ctx.need(ok, R, f'{f.ref} {case}', where.get(case, f.ref), why)
        ctx.need(bool(nodes_seen), R, f.ref + ' nodes', f.ref, 'nothing rebuilds the items of the program from the marked and slashed ones')
        for case, w in {('pos', 'const'): ('node',), ('pos', 'item'): ('useful',), ('none', None): ()}.items():
            got = set()
            for (node, c), variants in coll.items():
                if c == case:
                    for v in variants:
                        got |= set(v)
                    if len(variants) > 1:
                        got.add('sometimes')
            if case == ('pos', 'const'):
                got.discard('useful')
            txt = {('pos', 'const'): 'a chosen constant or builtin', ('pos', 'item'): 'a chosen subgoal', ('none', None): 'a rule without chosen position'}[case]
            ctx.need(got == set(w), R, f'{f.ref} collect {case}', where.get(('collect', case), f.ref), f'{txt} is recorded as {sorted(got)}, expected {list(w)}')

    def loop_index(self, p, e, qs):
        for e2 in p.events:
            for v in e2.a:
                if isinstance(v, V):
                    for w in walk(v):
                        if w.k == 'idx' and w.a[0] == e.a[0]:
                            return w
                        if w.k == 'key' and self.over_positions(w.a[0]) and self.over_positions(e.a[1]) and (len(w.a) < 2 or not isinstance(w.a[1], (int, str)) or w.a[1] == e.a[0]):
                            return w
        return None

    def over_positions(self, it):
        it = noop(it)
        if is_call(it, 'items', 'keys', 'sorted', 'iter') and (recv(it) is not None or it.a[1]):
            return self.over_positions(recv(it) if recv(it) is not None else it.a[1][0])
        return it is self.positions or (it.k == 'attr' and it.a[1] == 'positions')

    def base(self, p, base, e0):
        ctx, f, R = self.ctx, self.f, self.R
        if len(base) != 1:
            ctx.fail(R, f.ref + ' starting rule', base[1].e.where if len(base) > 1 else e0.where, f'{len(base)} starting rules')
            return
        q = base[0]
        lay = self.layout(p, q)
        w = (('slash', 'x', 'x'),) if self.kind == 'slash' else (('slash', 'Y0', 'Y0'),)
        ctx.need(lay == w, R, f.ref + ' starting rule', q.e.where, f'the starting rule is {lay}, the recipe is {w}')

    def names(self, p):
        "Both names are new to the program."
        vals = []
        for n in (self.slash_attr, self.mark_attr):
            v = self.attr_value(p, n)
            ok = v is not None and is_call(v, '_gen_functor', 'gen_functor') and (recv(v) is self.prog or recv(v) is None)
            self.ctx.need(ok, self.R, f'{self.f.ref} {n}', p.where(), f'the name {short(v) if v is not None else None} may already be in use')
            vals.append(v)
        self.ctx.need(vals[0] is not vals[1], self.R, f'{self.f.ref} distinct names', p.where(), 'slashed and marked items share a name')

    def rule_case(self, p, e, i, qs, rules, where, pos=None):
        ctx, f, R = self.ctx, self.f, self.R
        if i is None:
            hp = None
        else:
            hp = self.has_pos(p, i) if pos is None else pos
        use = un = cov = None
        guard = False
        for a, b in p.facts.items():
            if is_call(a) and fname(a.a[0]) in self.useful and a.a[1]:
                h = a.a[1][0]
                if h.k == 'attr' and h.a[1] == 'head' and self.rule_of(h.a[0]) is i:
                    use = b
            if is_call(a, 'unifies') and len(a.a[1]) == 2:
                if any(self.is_x(p, x) and self.chosen(y) is i for x, y in (a.a[1], a.a[1][::-1])) and i is not None:
                    if un is not None and un is not b:
                        return          # the same question answered both ways: not a real path
                    un = b
            if is_call(a, 'covers') and len(a.a[1]) == 2 and i is not None and self.is_x(p, a.a[1][0]) and self.chosen(a.a[1][1]) is i:
                guard = guard or b is True
                cov = b
        if un is False and cov is True:
            return                              # what is covered unifies: not a real path
        if cov is False and un is True:
            un = None if guard else False       # (only behind the refusal, which leaves no such subgoal)
        un = cov if un is None else un            # (a subgoal that may match is covered: see 'covered' below)
        lay = tuple(sorted((self.layout(p, q) for q in qs), key=str))
        # an item that is not useful is its own marked form
        for case in (('none', True), ('none', False), ('pos', True), ('pos', False)):
            if hp is not None and (case[0] == 'pos') is not hp:
                continue
            if case[0] == 'none' and use is not None and use is not case[1]:
                continue
            if case[0] == 'pos' and un is not None and un is not case[1]:
                continue
            l2 = lay
            if case == ('none', False):
                l2 = tuple(tuple(('plain', 'h') if x == ('mark', 'h') else x for x in r) if r else r for r in lay)
            rules.setdefault((e.node, case), set()).add(l2)
            if qs:
                where[case] = qs[0].e.where
        if hp is True and qs:
            ctx.need(un is False or guard, R, f.ref + ' covered', qs[0].e.where, 'a subgoal is slashed that matches the slashed item only partly')

    # -------------------------------------------------------------- reconstruction rules
    def is_nodes(self, p, v, depth=0):
        if depth > 3:
            return False
        w = noop(v)
        if w.k == 'obj':
            return any(self.is_nodes(p, q.v, depth + 1) if q.kind == 'seq' else False for q in pieces(p, w)) or self.comp_source(p, w, depth) is not None
        w = noop(p.res(w))
        if is_call(w, 'set', 'OrderedSet', 'sorted', 'frozenset', 'copy', 'iter', 'union'):
            return any(self.is_nodes(p, x, depth + 1) for x in ([recv(w)] if recv(w) is not None else []) + list(w.a[1]))
        if w.k == 'bin' and w.a[0] == '|':
            return self.is_nodes(p, w.a[1], depth + 1) or self.is_nodes(p, w.a[2], depth + 1)
        if w.k == 'attr' and w.a[1] == 'nodes':
            w = w.a[0]
            return is_call(w, '_coarse_graph', 'CoarseGraph') and (recv(w) is self.prog or self.prog in w.a[1])
        if w.k == 'attr' and w.a[0].k == 'param' and w.a[0] is not self.prog:
            x = self.attr_value(p, w.a[1])
            return x is not None and x is not w and self.is_nodes(p, x, depth + 1)
        return is_call(w, 'coarse_nodes') and recv(w) is self.prog

    def comp_source(self, p, w, depth=0):
        "the loop over the nodes whose elements the list `w` holds"
        e = next((e for e in p.events if e.kind == 'newobj' and e.a[0] is w), None)
        for q in pieces(p, w):
            v = unfresh(q.v) if q.v is not None else None
            if q.kind == 'one' and v is not None and v.k in ('sub', 'elem') and len(v.a) > 1 and v.a[1].k == 'idx' and self.is_nodes(p, v.a[0], depth + 1):
                return v.a[1].a[0]
        return None

    def element(self, p, v, k):
        "`v` is (a renamed copy of) the element of loop k"
        v = unfresh(v)
        return v.k in ('sub', 'elem') and len(v.a) > 1 and v.a[1].k == 'idx' and v.a[1].a[0] in (k, self.alias.get((id(p), k), k))

    def node_case(self, p, e, qs, inner):
        ctx, f, R = self.ctx, self.f, self.R
        k = e.a[0]
        if noop(e.a[1]).k == 'obj':
            self.alias[id(p), k] = self.comp_source(p, noop(e.a[1]))
        exo = self.known(p, lambda a: is_call(a, 'is_exogenous') and recv(a) is self.prog and a.a[1] and self.element(p, a.a[1][0], k))
        if exo is None:
            parts = [self.known(p, lambda a, n=n: is_call(a, n) and a.a[1] and self.element(p, a.a[1][-1], k)) for n in ('is_const', 'is_builtin', 'is_input')]
            exo = True if True in parts else (False if parts == [False] * 3 else None)
        use = None
        for a, b in p.facts.items():
            if is_call(a) and fname(a.a[0]) in self.useful and a.a[1] and self.element(p, a.a[1][0], k):
                use = b
        if exo is True:
            ctx.need(not qs, R, f.ref + ' exogenous', qs[0].e.where if qs else e.where, 'rules are added for an item that is defined elsewhere')
            return
        if exo is None:
            # a loop over the nodes that adds nothing is not ours
            if qs or inner:
                ctx.need(not qs, R, f.ref + ' exogenous', e.where, 'rules are added for items without asking whether they are defined elsewhere')
            return
        nm = [x for x in inner if is_call(p.res(x.a[1]), 'not_matches3')]
        ns = [x for x in inner if self.is_nodes(p, x.a[1])]
        us = [x for x in inner if is_call(p.res(x.a[1]), 'unify')]
        # marked -> item
        if use is None:
            ctx.need(not nm, R, f.ref + ' unmark useless', e.where, 'items are rebuilt from their marked form without asking whether they are ever marked')
        if use is not False:
            ctx.need(len(nm) == 1, R, f.ref + ' unmark', e.where, 'an item is not rebuilt from its marked form (under the condition that it does not match)')
        else:
            ctx.need(not [x for x in nm if x.kind == 'loop' and any(in_loop(q, x.a[0]) for q in qs)], R, f.ref + ' unmark useless', e.where, 'an item that is never marked is rebuilt from itself')
        rest = list(qs)
        for x in nm:
            c = p.res(x.a[1])
            a, b = (list(c.a[1]) + [NONE, NONE])[:2]
            ctx.need(self.is_x(p, a) and self.element(p, b, k), R, f.ref + ' unmark condition', x.where, f'{short(c)} is not the condition that the item does not match')
            if x.kind != 'loop':
                continue
            mine = [q for q in rest if any(cc[1] == x.a[0] for cc in q.ctx)]
            rest = [q for q in rest if q not in mine]
            ctx.need(len(mine) == 1, R, f.ref + ' unmark', x.where, f'{len(mine)} rules rebuild an item from its marked form')
            for q in mine:
                rp = rule_parts(p, q.v)
                good = rp is not None and self.element(p, rp[0], k) and rp[0] is b and len(rp[1]) == 2
                if good:
                    o, s = rp[1]
                    good = o.kind == 'one' and self.item(p, o.v) == ('mark', rp[0]) and s.kind == 'seq' and self.element(p, s.v, x.a[0])
                ctx.need(good, R, f.ref + ' unmark rule', q.e.where, 'the item is not rebuilt from its own marked form and the non-matching condition')
        # slashed -> item
        ctx.need(len(ns) == 1, R, f.ref + ' unslash', e.where, 'an item is not rebuilt from its slashed forms')
        for x in ns:
            if x.kind != 'loop':
                continue
            mine_u = [u for u in us if any(c[0] == 'loop' and c[1] == x.a[0] for c in u.ctx)]
            ctx.need(len(mine_u) == 1, R, f.ref + ' unslash match', x.where, 'a node is not matched against the slashed item')
            for u in mine_u:
                c = p.res(u.a[1])
                ab = list(c.a[1])
                xs = [y for y in ab if not self.is_x(p, y)]
                ok = len(ab) == 2 and len(xs) == 1 and self.element(p, xs[0], x.a[0])
                ctx.need(ok, R, f.ref + ' unslash match', u.where, f'{short(c)} does not match the node against the slashed item')
                if u.kind != 'loop' or not ok:
                    continue
                mine = [q for q in rest if any(cc[1] == u.a[0] for cc in q.ctx)]
                rest = [q for q in rest if q not in mine]
                ctx.need(len(mine) == 1, R, f.ref + ' unslash', u.where, f'{len(mine)} rules rebuild an item from a slashed form')
                for q in mine:
                    rp = rule_parts(p, q.v)
                    good = rp is not None and self.element(p, rp[0], k) and len(rp[1]) == 2 and all(b.kind == 'one' for b in rp[1])
                    if good:
                        i0, i1 = self.item(p, rp[1][0].v), self.item(p, rp[1][1].v)
                        good = i0 == ('mark', xs[0]) and i1 == ('slash', rp[0], xs[0])
                        ctx.need(is_call(rp[0], 'fresh') or is_call(xs[0], 'fresh'), R, f.ref + ' unslash variables', q.e.where, 'the item and what is taken out of it share variables')
                    ctx.need(good, R, f.ref + ' unslash rule', q.e.where, 'the item is not rebuilt from the slashed form and the (marked) item that was taken out')
        ctx.need(not rest, R, f.ref + ' contributions', rest[0].e.where if rest else e.where, 'another rule is added for a node')

    # -------------------------------------------------------------- useful items and extra nodes
    def collect(self, p, coll, where):
        ctx, f, R = self.ctx, self.f, self.R
        U = self.attr_value(p, self.useful_attr) if self.useful_attr else None
        if U is None:
            ctx.fail(R, f.ref + ' useful items', p.where(), 'the useful items are not recorded')
            return
        up = pieces(p, U)
        ctx.need(any(q.kind == 'one' and not q.ctx and self.is_x(p, q.v) for q in up), R, f.ref + ' useful items', p.where(), 'the slashed item is not recorded as useful')
        ctx.need(all(q.kind in ('one', 'seq') for q in up), R, f.ref + ' useful items kept', p.where(), 'a useful item is taken away again')
        adds = [('useful', q) for q in up if q.ctx]
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] in ('add', 'append', 'update', 'insert', 'extend') and self.is_nodes(p, e.a[0]):
                from .transform import Piece
                adds.append(('node', Piece('one', p.res(e.a[-1]), e)))
            elif e.kind == 'mutate' and self.is_nodes(p, e.a[0]) and e.a[1] in ('remove', 'discard', 'pop', 'clear', 'difference_update'):
                ctx.fail(R, f.ref + ' nodes kept', e.where, 'a node is taken away')
        for e in p.events:
            if e.kind != 'loop' or any(c[0] in ('loop', 'unroll') and c[1] != e.a[0] for c in e.ctx):
                continue
            it = p.res(e.a[1])
            if not (all_rules(it, self.prog) or self.over_positions(it)):
                continue
            i = self.loop_index(p, e, [])
            mine = [(t, q) for t, q in adds if in_loop(q, e.a[0]) or any(c[1] == e.a[0] for c in q.ctx)]
            hp = True if self.over_positions(it) else (self.has_pos(p, i) if i is not None else None)
            const = self.constness(p, i)
            res = []
            for t, q in mine:
                res.append(t if self.chosen(q.v) is not None and self.chosen(q.v) is i else t + '?' + short(q.v, 40))
            if hp is not False:
                for c, val in (('const', True), ('item', False)):
                    if const is None or const is val:
                        coll.setdefault((e.node, ('pos', c)), set()).add(tuple(sorted(res)))
                        if mine:
                            where['collect', ('pos', c)] = mine[0][1].e.where
            if hp is not True:
                coll.setdefault((e.node, ('none', None)), set()).add(tuple(sorted(res)))

    def constness(self, p, i):
        got = {}
        for a, b in p.facts.items():
            if is_call(a, 'is_const', 'is_builtin') and a.a[1] and self.chosen(a.a[1][-1]) is i and i is not None:
                got[fname(a.a[0])] = b
        if True in got.values():
            return True
        if got.get('is_const') is False and got.get('is_builtin') is False:
            return False
        return None
