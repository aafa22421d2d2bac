"""Builtin relations: classification (C09), forward evaluation (C10), inverse modes (C11), groundness (C12)."""
import ast
from fractions import Fraction
from ..core import check
from ..values import (V, Const, NONE, TRUE, FALSE, fname, is_call, recv, walk, contains, is_const, strip_phi, Attr, Sub)
from ..util import short, calls_in, calls_name, analysis_roots, is_fresh
from ..model import AnalysisError
from .match import param, fact
from .terms import isinst_names

NUM = {'isnum', 'isint'}
SEM = {'<': ('<', 'YZ'), '>': ('<', 'ZY'), '==': ('==', 'YZ'), '!=': ('!=', 'YZ'), '<=': ('<=', 'YZ'), '>=': ('<=', 'ZY')}


# ------------------------------------------------------------------ constant tables
def module_value(m, modname, name):
    "Evaluate a module-level table made of literals, unions and the keys of other tables."
    mod = m.modules[modname]
    val = None
    for n in mod.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            val = n.value
    if val is None:
        raise AnalysisError(f'table {name} not found in {modname}')

    def ev(n, env):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, (ast.Set, ast.List)):
            return {ev(x, env) for x in n.elts}
        if isinstance(n, ast.Tuple):
            return tuple(ev(x, env) for x in n.elts)
        if isinstance(n, ast.Dict):
            return {ev(k, env): v for k, v in zip(n.keys, n.values)}
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.Sub)):
            a, b = set(ev(n.left, env)), set(ev(n.right, env))
            return a | b if isinstance(n.op, ast.BitOr) else a - b
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('set', 'frozenset', 'tuple', 'list') and len(n.args) <= 1:
            return set(ev(n.args[0], env)) if n.args else set()
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('keys', 'union'):
            s = set(ev(n.func.value, env))
            for a in n.args:
                s |= set(ev(a, env))
            return s
        if isinstance(n, ast.Name):
            return env[n.id] if n.id in env else module_value(m, modname, n.id)
        if isinstance(n, (ast.SetComp, ast.GeneratorExp, ast.ListComp)) and len(n.generators) == 1:
            g = n.generators[0]
            out = set()
            for x in ev(g.iter, env):
                if isinstance(g.target, ast.Name) and not g.ifs:
                    out.add(ev(n.elt, {**env, g.target.id: x}))
                else:
                    raise AnalysisError(f'table {name}: comprehension not understood')
            return out
        raise AnalysisError(f'table {name}: {ast.dump(n)[:80]} not understood')
    return ev(val, {})


# ------------------------------------------------------------------ a small algebra
def padd(a, b, k=1):
    r = dict(a)
    for m_, c in b.items():
        r[m_] = r.get(m_, 0) + k * c
        if r[m_] == 0:
            del r[m_]
    return r


def mmul(x, y, k=1):
    d = dict(x)
    for a, e in y:
        d[a] = d.get(a, 0) + k * e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=repr))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            r = padd(r, {mmul(m1, m2): c1 * c2})
    return r


def poly(v, env):
    "Laurent polynomial over opaque atoms, or None."
    if v in env:
        return env[v]
    if is_call(v, 'snap', 'deref') and len(v.a[1]) == 1:
        return poly(v.a[1][0], env)
    if v.k == 'const' and isinstance(v.a[0], (int, float)) and not isinstance(v.a[0], bool):
        return {(): Fraction(v.a[0])} if v.a[0] else {}
    if v.k == 'un':
        p = poly(v.a[1], env)
        return None if p is None else (padd({}, p, -1) if v.a[0] in ('-', 'USub') else p if v.a[0] in ('+', 'UAdd') else None)
    if v.k == 'bin':
        a, b = poly(v.a[1], env), poly(v.a[2], env)
        if a is None or b is None:
            return None
        if v.a[0] == '+':
            return padd(a, b)
        if v.a[0] == '-':
            return padd(a, b, -1)
        if v.a[0] == '*':
            return pmul(a, b)
        if v.a[0] == '/' and len(b) == 1:
            (m_, c), = b.items()
            inv = {mmul((), m_, -1): Fraction(1) / c}
            return pmul(a, inv)
        return None
    return {((v, 1),): Fraction(1)}


def atom(n):
    return {((n, 1),): Fraction(1)}


class Dispatch:
    "Roles of the values on a path through the evaluator of `is`."

    def __init__(self, f):
        self.q = param(f, 1 if f.cls is not None and not f.is_static else 0)

    def role(self, v):
        v = strip_phi(v)
        while is_call(v, 'snap', 'deref') and v.a[1]:
            v = v.a[1][0]
        if v is self.q:
            return 'q'
        if v.k in ('sub',):
            b, i = v.a
            n = i.a[0] if i.k == 'const' else None
            r = self.role(b) if b.k != 'attr' else None
            if r == 'q':
                return {0: 's', 1: 'X', 2: 'K'}.get(n)
            if r == 'K':
                return {0: 'fn', 1: 'Y', 2: 'Z', 3: 'W'}.get(n)
            if b.k == 'attr' and b.a[1] in ('args', 'fargs'):
                k = (n + 1 if b.a[1] == 'args' else n) if n is not None else None
                r = self.role(b.a[0])
                if r == 'q':
                    return {0: 's', 1: 'X', 2: 'K'}.get(k)
                if r == 'K':
                    return {0: 'fn', 1: 'Y', 2: 'Z', 3: 'W'}.get(k)
        if v.k == 'attr' and v.a[1] == 'fn':
            return {'q': 's', 'K': 'fn'}.get(self.role(v.a[0]))
        if v.k == 'attr' and v.a[1] == 'arity':
            return {'q': 'qarity', 'K': 'arity'}.get(self.role(v.a[0]))
        if is_call(v, 'len') and v.a[1] and v.a[1][0].k == 'attr' and v.a[1][0].a[1] == 'args':
            return {'K': 'arity'}.get(self.role(v.a[1][0].a[0]))
        return None

    def op(self, facts):
        "(operator, arity) the path has committed to; the operator is '<cmp>' when the comparison table is consulted."
        op = ar = None
        for a, b in facts.items():
            if b is True and a.k == 'cmp' and a.a[0] == '==':
                for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                    if y.k == 'const':
                        if self.role(x) == 'fn':
                            op = y.a[0]
                        elif self.role(x) == 'arity':
                            ar = y.a[0]
            if b is True and a.k == 'cmp' and a.a[0] == 'in' and self.role(a.a[1]) == 'fn' and self.table(a.a[2]) == 'cmps':
                op = op or '<cmp>'
        return op, ar

    @staticmethod
    def table(v):
        while is_call(v, 'set', 'frozenset', 'list') and v.a[1]:
            v = v.a[1][0]
        if is_call(v, 'keys'):
            v = recv(v)
        return fname(v)

    def is_(self, facts, role, *preds):
        "The path knows (True/False) or does not know (None) that one of the type tests holds of the role."
        r = None
        for a, b in facts.items():
            if is_call(a, *preds) and len(a.a[1]) == 1 and self.role(a.a[1][0]) == role:
                if b:
                    return True
                r = False
            if is_call(a, 'isinstance') and preds and self.role(a.a[1][0]) == role:
                names = isinst_names(a)
                if ('isstr' in preds and names == {'str'}) or ('isnum' in preds and names <= {'int', 'float', 'bool'}) or ('isbool' in preds and names == {'bool'}):
                    if b:
                        return True
                    r = False
        return r

    def notvar(self, facts, role):
        return self.is_(facts, role, 'isvar', 'is_var') is False or self.known(facts, role)

    def known(self, facts, role):
        "Known to be a ground value."
        return bool(self.is_(facts, role, 'isnum', 'isint', 'isstr', 'isbool', 'is_ground'))

    def num(self, facts, role):
        return bool(self.is_(facts, role, 'isnum', 'isint', 'isbool'))

    def impossible(self, facts):
        "The path takes one argument for a string and for a number."
        eq, _, _ = self.eqs(facts)
        for r in ('X', 'Y', 'Z'):
            st = self.is_(facts, r, 'isstr')
            if st is True and (self.num(facts, r) or any(isinstance(c, (int, float)) for c in eq.get(r, []))):
                return True
        return False

    def eqs(self, facts):
        "role -> constant for the equalities and disequalities known on the path."
        eq, ne, rel = {}, {}, {}
        for a, b in facts.items():
            if a.k != 'cmp':
                continue
            for x, y, sw in ((a.a[1], a.a[2], False), (a.a[2], a.a[1], True)):
                r = self.role(x)
                if r in ('X', 'Y', 'Z') and y.k == 'const':
                    if a.a[0] == '==':
                        (eq if b else ne).setdefault(r, []).append(y.a[0])
                    elif a.a[0] in ('<', '<='):
                        # x < c is b     or   c < x is b
                        s = a.a[0] if not sw else {'<': '>', '<=': '>='}[a.a[0]]
                        if not b:
                            s = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[s]
                        rel.setdefault(r, []).append((s, y.a[0]))
            if is_call(a) and a.k == 'call':
                pass
        # truth of a number: `if Y:` / `if not Y:`
        for a, b in facts.items():
            r = self.role(a)
            if r in ('X', 'Y', 'Z') and self.is_(facts, r, 'isstr') is not True:
                (ne if b else eq).setdefault(r, []).append(0)
        return eq, ne, rel


def solutions(p):
    "Every `unify(target, value)` whose stream the path yields, and every recursive `is` it delegates to."
    out = []
    for e in p.events:
        if e.kind == 'call' and is_call(e.a[0], 'unify') and len(e.a[0].a[1]) == 2:
            out.append((e, p.res(e.a[0].a[1][0]), p.res(e.a[0].a[1][1])))
    return out


def delegations(p):
    for e in p.events:
        if e.kind == 'call' and e.a[0].k == 'call':
            v = p.res(e.a[0])
            if len(v.a[1]) == 1 and is_call(v.a[1][0], 'Term') and v.a[1][0].a[1] and is_const(v.a[1][0].a[1][0], 'is') and (
                    v.a[0].k == 'param' or fname(v.a[0]) in ('__call__', '_dispatch')):
                yield e, v.a[1][0].a[1]


def binsem(op, Y, Z):
    if op == '+':
        return padd(Y, Z)
    if op == '-':
        return padd(Y, Z, -1)
    if op == '*':
        return pmul(Y, Z)
    if op == '/':
        if len(Z) == 1:
            (m_, c), = Z.items()
            return pmul(Y, {mmul((), m_, -1): Fraction(1) / c})
    return None


def dispatchers(ctx):
    f = ctx.m.func('dyna.builtin', 'Builtins._dispatch')
    return f, Dispatch(f), ctx.paths(f)


def env_of(d, p, v):
    env = {}
    for w in walk(v):
        r = d.role(w)
        if r in ('X', 'Y', 'Z', 'W'):
            env[w] = atom(r)
    return env


def the_ops(d, paths, arity=None):
    ops = set()
    for p in paths:
        o, ar = d.op(p.facts)
        if o is not None and (arity is None or ar in (None, arity)):
            ops.add((o, ar))
    return ops


# ------------------------------------------------------------------ C10
def cmp_of(v):
    "A comparison value as (op, left, right), negations folded."
    neg = False
    while v.k == 'un' and v.a[0].strip() == 'not':
        neg = not neg
        v = v.a[1]
    if v.k == 'cmp':
        op, a, b = v.a[:3]
        if op not in SEM:
            return None
    elif is_call(v) and len(v.a[1]) == 2 and fname(v.a[0]) in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and (v.a[0].k in ('ext', 'attr', 'name')):
        op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}[fname(v.a[0])]
        a, b = v.a[1]
    else:
        return None
    if op == '>':
        op, a, b = '<', b, a
    if op == '>=':
        op, a, b = '<=', b, a
    if neg:
        op, a, b = {'<': ('<=', b, a), '<=': ('<', b, a), '==': ('!=', a, b), '!=': ('==', a, b)}[op]
    return op, a, b


OPNAME = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}


def table_entry(n, mod):
    "(op, left param index, right param index) of a comparison table entry."
    if isinstance(n, ast.Attribute) and n.attr in OPNAME and isinstance(n.value, ast.Name):
        return norm_cmp(OPNAME[n.attr], 0, 1)
    if isinstance(n, ast.Name) and n.id in OPNAME and n.id not in mod.funcs:
        return norm_cmp(OPNAME[n.id], 0, 1)
    if isinstance(n, ast.Name) and n.id in mod.funcs:
        fn = mod.funcs[n.id].node
        body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return):
            return expr_cmp(body[0].value, [a.arg for a in fn.args.args])
    if isinstance(n, ast.Lambda):
        return expr_cmp(n.body, [a.arg for a in n.args.args])
    return None


def norm_cmp(op, i, j):
    if op in ('>', '>='):
        return {'>': '<', '>=': '<='}[op], j, i
    if op in ('==', '!='):
        return op, min(i, j), max(i, j)
    return op, i, j


def expr_cmp(e, ps):
    neg = False
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        neg = not neg
        e = e.operand
    if isinstance(e, ast.Call) and len(e.args) == 2 and isinstance(e.func, ast.Attribute) and e.func.attr in OPNAME:
        l, r, op = e.args[0], e.args[1], OPNAME[e.func.attr]
    elif isinstance(e, ast.Compare) and len(e.ops) == 1:
        l, r = e.left, e.comparators[0]
        op = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}.get(type(e.ops[0]))
    else:
        return None
    if op is None or not isinstance(l, ast.Name) or not isinstance(r, ast.Name) or l.id not in ps or r.id not in ps:
        return None
    i, j = ps.index(l.id), ps.index(r.id)
    if neg:
        op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
    return norm_cmp(op, i, j)


@check('C10', 'case analysis of the builtin evaluator: the value unified with the result is compared, as an algebraic normal form, with the denotation of the operator the path has committed to',
       'The comparison table is read entry by entry (symbol, operator, argument order). Every path of the evaluator of `is` that unifies the '
       'result is classified by the operator and arity it has committed to and by what it knows about the arguments; the expression it unifies '
       'is normalised (sums, products, comparisons, minimum/maximum, type tests, negation, integer ranges) and compared with what the operator '
       'denotes. Every use of the comparison table passes the two arguments of the subgoal in order.',
       ['Python\'s arithmetic and ordering operators are the intended denotation of the operator symbols'])
def c10(ctx):
    m = ctx.m
    mod = m.modules['dyna.builtin']
    tab = module_value(m, 'dyna.builtin', 'cmps')
    for sym, node in tab.items():
        got = table_entry(node, mod)
        ctx.need(sym in SEM and got == norm_cmp(sym, 0, 1), 'comparison', f'cmps[{sym!r}]', f'{mod.path}:{node.lineno}', f'the entry for {sym!r} computes {got}')
    ctx.floor(len(tab), 6, 'comparison operators')
    # uses of the table
    k = 0
    for f in analysis_roots(m, lambda f: any(isinstance(n, ast.Name) and n.id == 'cmps' for n in ast.walk(f.node))):
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'call' and e.a[0].k == 'call' and e.a[0].a[0].k in ('sub',) and fname(e.a[0].a[0].a[0]) == 'cmps':
                    v = p.res(e.a[0])
                    k += 1
                    key = v.a[0].a[1]
                    q = key.a[0] if key.k == 'attr' and key.a[1] == 'fn' else None
                    xs = [x for x in v.a[1]]
                    ok = q is not None and len(xs) == 2 and all(arg_of(x, q) == i for i, x in enumerate(xs))
                    ctx.need(ok, 'comparison-use', e.func.ref, e.where, f'{short(v)}: the arguments of the comparison are not the two arguments of the subgoal, in order')
                    # the outcome decides: success only when true
    ctx.floor(k, 3, 'uses of the comparison table')
    f, d, paths = dispatchers(ctx)
    done = set()
    for p in paths:
        op, ar = d.op(p.facts)
        F = p.facts
        if d.impossible(F):
            continue
        for e, t, v in solutions(p):
            if d.role(t) != 'X' and d.role(v) == 'X' and d.role(t) is None:
                t, v = v, t
            if op is None:
                continue
            if d.role(t) != 'X':
                # range: the last argument is drawn from the interval
                if op == 'range':
                    ok = interval(d, p, e, v) and truth_result(d, F)
                    done.add('range')
                    ctx.need(ok, 'operator', f'{f.ref} range', e.where, f'range yields {short(v)}')
                continue
            if any(d.role(w) == 'X' for w in walk(v)):
                continue
            where = e.where
            c = f'{f.ref} {op}/{ar}'
            if ar == 1 and op in ('-', '+', 'abs'):
                want = {'-': padd({}, atom('Y'), -1), '+': atom('Y')}.get(op)
                if op == 'abs':
                    ok = (is_call(v, 'abs', 'fabs') and d.role(v.a[1][0]) == 'Y') or abs_by_cases(d, p, v)
                else:
                    ok = poly(v, env_of(d, p, v)) == want
                done.add(op + '1')
                ctx.need(ok and d.num(F, 'Y'), 'operator', c, where, f'{op}Y is evaluated as {short(v)}')
            elif ar == 1 and op in ('str', 'int'):
                ok = is_call(v, 'isstr' if op == 'str' else 'isint') and d.role(v.a[1][0]) == 'Y' or (
                    is_call(v, 'isinstance') and d.role(v.a[1][0]) == 'Y' and op in isinst_names(v))
                done.add(op)
                ctx.need(ok, 'operator', c, where, f'the type test {op} is evaluated as {short(v)}')
            elif ar == 1 and op == '!':
                ok = v.k == 'un' and v.a[0].strip() == 'not' and (d.role(v.a[1]) == 'Y' or (is_call(v.a[1], 'assert_type') and d.role(v.a[1].a[1][0]) == 'Y'))
                done.add('!')
                ctx.need(ok, 'operator', c, where, f'!Y is evaluated as {short(v)}')
            elif ar == 2 and (op in SEM or op == '<cmp>'):
                if v.k == 'call' and v.a[0].k == 'sub' and fname(v.a[0].a[0]) == 'cmps':
                    ok = d.role(v.a[0].a[1]) == 'fn' and len(v.a[1]) == 2 and [d.role(x) for x in v.a[1]] == ['Y', 'Z']
                    done |= set(SEM) if op == '<cmp>' else {op}
                elif op == '<cmp>':
                    ok = False
                else:
                    got = cmp_of(v)
                    ok = False
                    if got is not None:
                        o, a, b = got
                        so, order = SEM[op]
                        rs = d.role(a), d.role(b)
                        ok = o == so and (rs == tuple(order) or (o in ('==', '!=') and set(rs) == {'Y', 'Z'}))
                    done.add(op)
                ctx.need(ok, 'operator', c, where, f'Y {op} Z is evaluated as {short(v)}')
            elif ar == 2 and op in ('min', 'max'):
                ok = is_call(v, op) and len(v.a[1]) == 2 and {d.role(x) for x in v.a[1]} == {'Y', 'Z'} and not v.a[2] or extremum_by_cases(d, F, v, op)
                done.add(op)
                ctx.need(ok, 'operator', c, where, f'{op}(Y, Z) is evaluated as {short(v)}')
            elif ar == 2 and op in ('+', '-', '*', '/'):
                eq, ne, rel = d.eqs(F)
                string = d.is_(F, 'Y', 'isstr') or d.is_(F, 'Z', 'isstr')
                if string and v.k == 'bin':
                    ok = v.k == 'bin' and v.a[0] == op and (d.role(v.a[1]), d.role(v.a[2])) == ('Y', 'Z')
                else:
                    env = env_of(d, p, v)
                    Y, Z = ({(): Fraction(eq[r][0])} if r in eq and eq[r][0] else {} if r in eq else atom(r) for r in 'YZ')
                    for w in list(env):
                        if d.role(w) in eq:
                            env[w] = {(): Fraction(eq[d.role(w)][0])} if eq[d.role(w)][0] else {}
                    got = poly(v, env)
                    both = all(d.num(F, r) or r in eq for r in 'YZ')
                    ok = got is not None and got == binsem(op, Y, Z) and (both or v.k != 'bin')
                done.add(op)
                ctx.need(ok, 'operator', c, where, f'Y {op} Z is evaluated as {short(v)}')
        for e, args in delegations(p):
            done.add(op)
    want = set(SEM) | {'-1', '+1', 'abs1', 'str', 'int', '!', '*', '+', '-', '/', 'min', 'max', 'range'}
    for o in sorted(want):
        ctx.need(o in done, 'operator-evaluated', f'{f.ref} {o}', f.where, f'the operator {o} is never evaluated from its arguments')


def abs_by_cases(d, p, v):
    rel = d.eqs(p.facts)[2].get('Y', [])
    g = poly(v, env_of(d, p, v))
    if g == atom('Y'):
        return any(s in ('>', '>=') and c == 0 for s, c in rel)
    return g == padd({}, atom('Y'), -1) and any(s in ('<', '<=') and c == 0 for s, c in rel)


def extremum_by_cases(d, F, v, op):
    r = d.role(v)
    if r not in ('Y', 'Z'):
        return False
    o = 'Z' if r == 'Y' else 'Y'
    for a, b in F.items():
        c = cmp_of(a if b else V('un', 'not ', a))
        if c is not None and c[0] in ('<', '<='):
            lo, hi = d.role(c[1]), d.role(c[2])
            if (lo, hi) == ((r, o) if op == 'min' else (o, r)):
                return True
    return False


def arg_of(x, q):
    "Index i when the value is the i-th argument of the term q, dereferenced."
    while is_call(x, 'snap', 'deref') and x.a[1]:
        x = x.a[1][0]
    if x.k == 'sub' and x.a[1].k == 'const' and x.a[0].k == 'attr' and x.a[0].a[0] is q:
        return x.a[1].a[0] if x.a[0].a[1] == 'args' else x.a[1].a[0] - 1 if x.a[0].a[1] == 'fargs' else None
    if x.k == 'sub' and x.a[1].k == 'const' and x.a[0] is q:
        return x.a[1].a[0] - 1
    return None


def interval(d, p, e, v):
    for c in e.ctx:
        if c[0] == 'loop' and c[2] is not None:
            it = p.res(c[2])
            if is_call(it, 'range') and len(it.a[1]) == 2 and [d.role(x) for x in it.a[1]] == ['Z', 'W']:
                return v.k in ('idx', 'elem') or (v.k == 'sub' and v.a[0] is it) or v.k == 'idx'
    return False


def truth_result(d, F):
    return any(b and (a.k == 'cmp' and a.a[0] in ('==', 'is') and any(d.role(x) == 'X' for x in a.a[1:]) and any(is_const(x, True) for x in a.a[1:])) or
               (b and d.role(a) == 'X') for a, b in F.items())


# ------------------------------------------------------------------ C11
@check('C11', 'algebraic check of the inverse modes: the solved argument, substituted into the equation of the committed operator, must make it an identity under the path\'s side conditions',
       'Every path of the evaluator of `is` that unifies an argument (not the result) is taken with the operator it committed to and the facts it knows. '
       'The solved value is substituted into result = Y op Z and both sides are compared as Laurent polynomials; the inputs must be known numbers, a divisor '
       'must be known to be non-zero, a square-like inverse must offer every root and require a non-negative result, string splitting must enumerate every '
       'cut exactly once, and a path that answers "no" must have established that the equation has no solution. Rewriting to another operator is checked the same way.',
       ['floating-point rounding is not modelled'])
def c11(ctx):
    f, d, paths = dispatchers(ctx)
    seen = set()
    roots = set()
    for p in paths:
        F = p.facts
        op, ar = d.op(F)
        if op is None or d.impossible(F):
            continue
        eq, ne, rel = d.eqs(F)
        sols = solutions(p)
        dels = list(delegations(p))
        for e, t, v in sols:
            r = d.role(t)
            c = f'{f.ref} {op}/{ar}'
            if r not in ('X', 'Y', 'Z') and d.role(v) in ('Y', 'Z'):
                r, t, v = d.role(v), v, t
            if t.k in ('tup', 'obj') and op == '+':
                ctx.need(split_ok(d, p, e, t, v), 'split', c + ' strings', e.where, f'a string is split as {short(v)}: not every cut is tried exactly once')
                seen.add('split')
                continue
            if r not in ('Y', 'Z') or op == 'range':
                continue
            if ar == 1 and op == 'int':
                continue
            if ar == 1 and op == '!':
                ok = v.k == 'un' and v.a[0].strip() == 'not' and any(d.role(w) == 'X' for w in walk(v)) and not any(d.role(w) == 'Y' for w in walk(v))
                ctx.need(ok, 'inverse', c, e.where, f'!Y = X is solved by {short(v)}')
                continue
            env = env_of(d, p, v)
            got = poly(v, env)
            if ar == 1 and op in ('-', '+'):
                ok = got == (padd({}, atom('X'), -1) if op == '-' else atom('X')) and d.num(F, 'X')
                seen.add(op + '1')
                ctx.need(ok, 'inverse', c, e.where, f'X = {op}Y is solved by Y = {short(v)}')
            elif ar == 1 and op == 'abs':
                cands = [v]
                if v.k in ('elem', 'sub', 'key') and v.a[0].k in ('tup', 'obj'):
                    lit = v.a[0]
                    cands = list(lit.a[1]) if lit.k == 'tup' else list(set_elements(p, lit))
                for w in cands:
                    g = poly(w, env_of(d, p, w))
                    roots.add('+' if g == atom('X') else '-' if g == padd({}, atom('X'), -1) else short(w))
                pos = any(s in ('>=', '>') and k == 0 for s, k in rel.get('X', []))
                neg_ok = any(s == '<' and k == 0 for s, k in rel.get('X', []))
                seen.add('abs')
                ctx.need(pos and not neg_ok and d.num(F, 'X'), 'inverse', c + ' sign', e.where, 'X = abs(Y) is solved without knowing that X is not negative')
            elif ar == 2 and op in ('+', '-', '*', '/'):
                other = 'Z' if r == 'Y' else 'Y'
                vals = {q_: ({(): Fraction(eq[q_][0])} if eq[q_][0] else {}) if q_ in eq else atom(q_) for q_ in 'XYZ'}
                for w in list(env):
                    env[w] = vals[d.role(w)] if d.role(w) in vals else env[w]
                got = poly(v, env)
                if got is not None:
                    vals[r] = got
                ok = got is not None and not mentions_atom(got, r) and binsem(op, vals['Y'], vals['Z']) == vals['X']
                div = divisors(v)
                nz = all(d.role(x) in ne and 0 in ne[d.role(x)] for x in div)
                known = d.num(F, 'X') and (d.num(F, other) or other in eq)
                seen.add((op, r))
                ctx.need(ok and known, 'inverse', c + f' solve {r}', e.where, f'X = Y {op} Z is solved by {r} = {short(v)}' + ('' if ok else ', which does not satisfy the equation') + ('' if known else ' although an input is not known to be a number'))
                ctx.need(nz, 'inverse', c + f' solve {r} divisor', e.where, f'{short(v)} may divide by zero')
        for e, args in dels:
            # X is Y op Z   delegates to   T is (A op2 B)
            if op not in ('/', '-', '+', '*') or ar != 2 or len(args) != 3:
                continue
            t, k = args[1], args[2]
            if not is_call(k, 'Term') or k.a[1][0].k != 'const' or len(k.a[1]) != 3:
                continue
            op2, A, B = k.a[1][0].a[0], k.a[1][1], k.a[1][2]
            vals = {q_: atom(q_) for q_ in 'XYZ'}
            rhs = binsem(op2, *(vals.get(d.role(w), {}) for w in (A, B)))
            tr = d.role(t)
            ok = tr in vals and rhs is not None and None not in (d.role(A), d.role(B))
            if ok:
                vals[tr] = rhs
                ok = binsem(op, vals['Y'], vals['Z']) == vals['X']
            seen.add(('rewrite', op))
            ctx.need(ok, 'rewrite', f'{f.ref} {op}/{ar}', e.where, f'X is Y {op} Z is rewritten to {short(t, 30)} is {short(A, 30)} {op2} {short(B, 30)}')
            if op == '/':
                # a zero divisor never divides
                guard = any(w.kind in ('yield',) for w in p.events) or any(w.kind == 'yieldfrom' for w in p.events)
                zk = any(r_ == 'Z' and 0 in ks for r_, ks in ne.items()) or any(w.kind == 'yield' and zero_excluded(d, w.facts) for w in p.events) or not guard
                ctx.need(zk, 'rewrite', f'{f.ref} {op}/{ar} divisor', e.where, 'a quotient with a zero divisor has a value')
        # answering "no"
        if p.kind == 'return' and not sols and not dels and not any(e.kind in ('yield', 'yieldfrom', 'loop0', 'loop') for e in p.events):
            why = False
            if op == '*' and ar == 2:
                zero = [r for r in ('Y', 'Z') if 0 in eq.get(r, [])]
                why = bool(zero) and 0 in ne.get('X', []) and d.num(F, 'X')
            if op == 'abs':
                why = any(s == '<' and k == 0 for s, k in rel.get('X', []))
            if op == '/' and ar == 2:
                why = 0 in eq.get('Z', [])
            if op in ('<cmp>',) or op in SEM:
                why = False
            ctx.need(why, 'no-solution', f'{f.ref} {op}/{ar}', p.where(), f'{op} answers "no" although nothing shows that the equation has no solution')
        if ar == 1 and op == 'abs' and p.kind in ('return', 'end', 'next') and any(d.role(t) == 'Y' for e, t, v in sols):
            gs = [(poly(v, env_of(d, p, v)), e) for e, t, v in sols if d.role(t) == 'Y']
            fam = [e for g, e in gs if g is None or not set(mono_atoms(g)) <= {'X'}]
            if not fam:
                signs = sorted('+' if g == atom('X') else '-' if g == padd({}, atom('X'), -1) else '?' for g, _ in gs)
                zero = 0 in eq.get('X', [])
                nonzero = 0 in ne.get('X', []) or any(s_ == '>' and k == 0 for s_, k in rel.get('X', []))
                dup = len(gs) > 1 and not nonzero and not from_set([e for _, e in gs])
                ctx.need(signs == ['+', '-'] or (zero and len(gs) == 1) and '?' not in signs, 'inverse', c0(f, op, ar) + ' roots', p.where(), f'X = abs(Y) is solved by the roots {signs}')
                ctx.need(not dup, 'inverse', c0(f, op, ar) + ' roots once', p.where(), 'the roots of X = abs(Y) are offered twice when X is zero')
        if ar == 1 and op == 'int' and sols and any(d.role(t) == 'Y' for e, t, v in sols):
            enumeration(ctx, f, d, p, [(e, v) for e, t, v in sols if d.role(t) == 'Y'])
            seen.add('int')
        # more than one result for a functional mode
        if op in ('+', '-', '*', '/') and ar == 2 and len([1 for e, t, v in sols if d.role(t) in ('X', 'Y', 'Z')]) > 1:
            ctx.fail('inverse', f'{f.ref} {op}/{ar} twice', p.where(), 'one equation is solved twice on the same path: solutions are repeated')
    for p in paths:
        if p.kind != 'raise' or d.impossible(p.facts):
            continue
        op, ar = d.op(p.facts)
        v = p.res(p.value)
        if op is None or not is_call(v, 'InstFault', 'NotBuiltin'):
            continue
        for mode in MODES.get((op, ar), MODES['cmp'] if ar == 2 and (op in SEM or op in ('<cmp>', 'min', 'max')) else ()):
            ctx.need(excluded(d, p.facts, mode), 'mode', f'{f.ref} {op}/{ar} {" ".join(r + ":" + t for r, t in mode)}', p.where(),
                     f'{op} is delayed although {" and ".join(r + " is " + WORD[t] for r, t in mode)}, so that its solutions are determined')
    for k in (('+', 'Y'), ('+', 'Z'), ('*', 'Y'), ('*', 'Z'), '-1', '+1', 'abs', 'split', 'int'):
        ctx.need(k in seen, 'inverse-mode', f'{f.ref} {k}', f.where, f'the inverse mode {k} is not solved any more')
    for o in ('/', '-'):
        direct = any((o, r) in seen for r in 'YZ')
        ctx.need(('rewrite', o) in seen or direct, 'inverse-mode', f'{f.ref} {o}', f.where, f'the inverse mode of {o} is not solved any more')


WORD = {'num': 'a number', 'str': 'a string', 'ground': 'ground', 'bound': 'bound', 'int': 'an integer', 'nonzero': 'not zero', 'true': 'true'}
MODES = {
    ('+', 2): [(('Y', 'num'), ('Z', 'num')), (('X', 'num'), ('Y', 'num')), (('X', 'num'), ('Z', 'num')), (('X', 'str'),), (('Y', 'str'), ('Z', 'str'))],
    ('*', 2): [(('Y', 'num'), ('Z', 'num')), (('X', 'num'), ('Y', 'num'), ('Y', 'nonzero')), (('X', 'num'), ('Z', 'num'), ('Z', 'nonzero'))],
    ('-', 1): [(('Y', 'num'),), (('X', 'num'),)],
    ('+', 1): [(('Y', 'num'),), (('X', 'num'),)],
    ('abs', 1): [(('Y', 'num'),), (('X', 'num'),)],
    ('!', 1): [(('Y', 'bound'),), (('X', 'bound'),)],
    ('str', 1): [(('Y', 'bound'),)],
    ('int', 1): [(('Y', 'bound'),)],
    'cmp': [(('Y', 'ground'), ('Z', 'ground'))],
}


def excluded(d, F, mode):
    "The facts of the path rule out the mode."
    eq, ne, rel = d.eqs(F)
    for r, t in mode:
        if t == 'num' and (d.is_(F, r, 'isnum') is False or d.is_(F, r, 'isstr') is True):
            return True
        if t == 'str' and (d.is_(F, r, 'isstr') is False or d.num(F, r)):
            return True
        if t == 'ground' and d.is_(F, r, 'is_ground') is False:
            return True
        if t == 'ground':
            # one test for both arguments, all(...) over them
            if any(is_call(a, 'is_ground', 'all') and b is False for a, b in F.items()):
                return True
        if t == 'bound' and d.is_(F, r, 'isvar', 'is_var') is True:
            return True
        if t == 'nonzero' and 0 in eq.get(r, []):
            return True
    return False


def c0(f, op, ar):
    return f'{f.ref} {op}/{ar}'


def mono_atoms(g):
    return [a for m_ in g for a, _ in m_]


def from_set(es):
    "All the solutions come from one literal set: equal ones are offered once."
    ids = set()
    for e in es:
        u = [c for c in e.ctx if c[0] in ('unroll', 'loop')]
        if not u or not isinstance(u[-1][2], V) or u[-1][2].k not in ('obj', 'tup', 'call') or (
                u[-1][2].a[0] != 'set' if u[-1][2].k != 'call' else not is_call(u[-1][2], 'set', 'frozenset')):
            return False
        ids.add(u[-1][1])
    return len(ids) == 1


def enumeration(ctx, f, d, p, sols):
    "`true is int(Y)` offers zero once, and then n and -n for n = 1, 2, ..."
    out = [v for e, v in sols if not any(c[0] == 'loop' for c in e.ctx)]
    inn = [(e, v) for e, v in sols if any(c[0] == 'loop' for c in e.ctx)]
    c = c0(f, 'int', 1)
    if not inn:
        return
    ctx.need([is_const(v, 0) for v in out] == [True], 'enumerate', c + ' zero', inn[0][0].where, f'zero is offered {len(out)} time(s) before the other integers')
    gs = [poly(v, {}) for _, v in inn]
    ok = len(gs) == 2 and None not in gs and gs[0] == padd({}, gs[1], -1)
    ctx.need(ok, 'enumerate', c + ' both signs', inn[0][0].where, f'each round offers {[short(v) for _, v in inn]}: not a number and its negation')
    steps = []
    for e in p.events:
        if e.kind == 'carry':
            old, new = poly(e.a[2], {}), poly(e.a[3], {})
            if old is not None and new is not None and any(a in [x for g in gs if g for x in mono_atoms(g)] for a in mono_atoms(old)):
                steps.append(padd(new, old, -1))
    if steps:
        ctx.need(all(x in ({(): Fraction(1)}, {(): Fraction(-1)}) for x in steps), 'enumerate', c + ' step', inn[0][0].where, 'the enumeration of the integers does not advance by one')


def zero_excluded(d, F):
    for a, b in F.items():
        if a.k == 'cmp' and a.a[0] == '==' and b is False and any(is_const(x) and x.a[0] == 0 for x in a.a[1:]) and any(d.role(x) == 'Z' for x in a.a[1:]):
            return True
        if d.role(a) == 'Z' and b is True:
            return True
    return False


def mentions_atom(p, r):
    return any(a == r for m_ in p for a, _ in m_)


def divisors(v):
    return [w.a[2] for w in walk(v) if w.k == 'bin' and w.a[0] in ('/', '//', '%')]


def set_elements(p, obj):
    for e in p.events:
        if e.kind == 'newobj' and len(e.a) > 1 and e.a[0] is obj and isinstance(e.a[1], V) and e.a[1].k == 'tup':
            return e.a[1].a[1]
    v = p.res(obj)
    return v.a[1] if v.k == 'tup' else ()


def split_ok(d, p, e, t, v):
    t, v = p.res(t), p.res(v)
    if t.k != 'tup' or v.k != 'tup' or len(t.a[1]) != 2 or len(v.a[1]) != 2:
        return False
    if [d.role(x) for x in t.a[1]] != ['Y', 'Z']:
        return False
    a, b = v.a[1]
    if not (a.k == 'sub' and b.k == 'sub' and a.a[1].k == 'slice' and b.a[1].k == 'slice' and d.role(a.a[0]) == 'X' and d.role(b.a[0]) == 'X'):
        return False
    (s0, e0, p0), (s1, e1, p1) = a.a[1].a[:3], b.a[1].a[:3]
    if not ((is_const(s0, None) or is_const(s0, 0)) and is_const(e1, None) and e0 is s1 and is_const(p0, None) and is_const(p1, None)):
        return False
    for c in e.ctx:
        if c[0] == 'loop' and c[2] is not None:
            it = p.res(c[2])
            if is_call(it, 'range'):
                hi = it.a[1][-1]
                lo = is_const(it.a[1][0], 0) if len(it.a[1]) == 2 else len(it.a[1]) == 1
                n = hi.k == 'bin' and hi.a[0] == '+' and {is_call(w, 'len') and d.role(w.a[1][0]) == 'X' or is_const(w, 1) for w in hi.a[1:]} == {True} and any(is_call(w, 'len') for w in hi.a[1:])
                return bool(lo and n)
    return False


# ------------------------------------------------------------------ C09
EVALUATORS = (('dyna.program', 'Program.lookup'), ('dyna.execute.solver', 'Solver.lookup_vals'), ('dyna.execute.solver2', 'Solver.lookup_vals'))


def qrole(v, q):
    "fn/arity/q of the queried subgoal."
    while is_call(v, 'snap', 'deref') and v.a[1]:
        v = v.a[1][0]
    if v is q:
        return 'q'
    if v.k == 'attr' and v.a[1] in ('fn', 'arity', 'signature'):
        return v.a[1] if qrole(v.a[0], q) == 'q' else None
    if v.k == 'sub' and v.a[1].k == 'const' and v.a[1].a[0] == 0 and (qrole(v.a[0], q) == 'q' or (v.a[0].k == 'attr' and v.a[0].a[1] == 'fargs' and qrole(v.a[0].a[0], q) == 'q')):
        return 'fn'
    return None


def sel(p, q, upto=None):
    "(fn the path commits to, excluded fns, comparison table membership, arity facts)"
    yes, no, incmp, arity = None, set(), None, {}
    for a, b in p.facts.items() if upto is None else upto.items():
        if a.k != 'cmp':
            continue
        x, y = a.a[1], a.a[2]
        if a.a[0] == '==':
            for s, t in ((x, y), (y, x)):
                if t.k == 'const' and qrole(s, q) == 'fn':
                    if b:
                        yes = t.a[0]
                    else:
                        no.add(t.a[0])
                if t.k == 'const' and qrole(s, q) == 'arity':
                    arity[t.a[0]] = b
        if a.a[0] == 'in' and qrole(x, q) == 'fn' and Dispatch.table(y) == 'cmps':
            incmp = b
        if a.a[0] == 'in' and qrole(x, q) == 'fn' and y.k == 'tup':
            if b is False:
                no |= {w.a[0] for w in y.a[1] if w.k == 'const'}
    return yes, no, incmp, arity


@check('C09', 'set comparison of the classification table with the dispatch cases of every evaluator, read from the source',
       'The table of builtin signatures and the table of `is` operators are evaluated from their literals. For each of the three evaluators, every path that '
       'reaches the rules or the chart must have excluded every runnable builtin relation, and every builtin case a path commits to must be in the table. '
       'The operators that the `is` evaluator compares against must be exactly the table of recognised operators; its fall-through must raise an '
       'instantiation fault for those and the not-a-builtin signal for the others, which only the indirect evaluation consumes.',
       ['the two type-analysis markers $free and $bound are builtins that no evaluator runs'])
def c09(ctx):
    m = ctx.m
    sigs = module_value(m, 'dyna.builtin', 'BUILTIN_SIGS')
    cm = set(module_value(m, 'dyna.builtin', 'cmps'))
    mod = m.modules['dyna.builtin']
    ctx.floor(len(sigs), 8, 'builtin signatures')
    run = {s for s in sigs if s[0] not in ('$free', '$bound')}
    for s in sorted(run):
        ctx.ob('signature', str(s), mod.path)
    ctx.need({('$free', 1), ('$bound', 1)} <= sigs, 'signature', 'type markers', mod.path, 'the type-analysis markers are not classified as builtins')
    for c in cm:
        ctx.need((c, 2) in sigs, 'signature', f'{c}/2', mod.path, f'the comparison {c} is evaluated but classified as a user item')
    # is_builtin
    f = m.func('dyna.builtin', 'is_builtin')
    x = param(f, 0)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        conds = [(a, b) for a, b in p.facts.items()]
        isv = fact(p, lambda a: (is_call(a, 'is_var') or (is_call(a, 'isinstance') and 'Var' in isinst_names(a))))
        isc = fact(p, lambda a: is_call(a, 'isinstance') and 'BuiltinConstraint' in isinst_names(a))
        tst = [w for w in list(walk(v)) + [a for a, b in conds] if w.k == 'cmp' and w.a[0] == 'in' and fname(w.a[2]) == 'BUILTIN_SIGS']
        okey = all(key_ok(w.a[1]) for w in tst)
        if isv or isc:
            ok = is_const(v, True)
        elif is_const(v, True):
            ok = any(b is True and a in tst for a, b in conds) and okey
        elif is_const(v, False):
            ok = any(b is False and (a in tst or (is_call(a, 'isinstance') and 'Term' in isinst_names(a))) for a, b in conds) and isv is False and isc is False
        else:
            ok = bool(tst) and okey and isv is False and isc is False
        ctx.need(ok, 'is-builtin', f.ref, p.where(), f'{short(v)} is answered for {[(short(a, 40), b) for a, b in conds]}')
    # the evaluators
    for modname, q_ in EVALUATORS:
        f = m.func(modname, q_)
        q = param(f, 1)
        handled = set()
        nd = 0
        for p in ctx.paths(f):
            yes, no, incmp, arity = sel(p, q)
            if incmp and arity.get(2) is not False:
                handled |= {(c, 2) for c in cm}
            if yes is not None and ('$' not in yes or yes in ('$not_matches',)):
                handled.add((yes, 2))
            hb = fact(p, lambda a: a.k == 'attr' and a.a[1] == 'has_builtins')
            if hb is False:
                continue
            ev = reaches_items(p, q)
            if ev is None:
                continue
            y, n, ic, ar = sel(p, q, ev.facts)
            if fact(p, lambda a: is_call(a, 'isinstance') and 'Var' in isinst_names(a)) is True:
                continue
            nd += 1
            for s in sorted(run):
                if s[0] in cm:
                    ex = ic is False or s[0] in n or ar.get(2) is False or (y is not None and y != s[0])
                else:
                    ex = s[0] in n or (y is not None and y != s[0]) or (y == s[0] and ar.get(2) is False)
                ctx.need(ex, 'evaluator', f'{f.ref} {s[0]}/{s[1]}', ev.where, f'{s[0]}/{s[1]} is classified as a builtin, but here it is answered from the rules or the chart')
            isc = fact(p, lambda a: is_call(a, 'isinstance') and 'BuiltinConstraint' in isinst_names(a))
            ctx.need(isc is False, 'evaluator', f'{f.ref} constraint', ev.where, 'a constraint object is answered from the rules or the chart')
        ctx.floor(nd, 1, f'paths of {f.ref} that reach the items')
        for s in sorted(handled):
            ctx.need(s in sigs, 'evaluator', f'{f.ref} runs {s[0]}/{s[1]}', f.where, f'{s[0]}/{s[1]} is run as a builtin but classified as a user item')
        for s in sorted(run):
            ctx.need(s in handled, 'evaluator', f'{f.ref} handles {s[0]}/{s[1]}', f.where, f'{s[0]}/{s[1]} is never run by this evaluator')
    # operators of `is`
    ops = module_value(m, 'dyna.builtin', 'IS_RHS_OPS')
    f, d, paths = dispatchers(ctx)
    compared = set()
    for p in paths:
        for a in p.facts:
            if a.k == 'cmp' and a.a[0] == '==':
                for s, t in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                    if t.k == 'const' and d.role(s) == 'fn':
                        compared.add(t.a[0])
            if a.k == 'cmp' and a.a[0] == 'in' and d.role(a.a[1]) == 'fn':
                if Dispatch.table(a.a[2]) == 'cmps':
                    compared |= cm
                elif a.a[2].k == 'tup':
                    compared |= {w.a[0] for w in a.a[2].a[1] if w.k == 'const'}
    for o in sorted(compared - ops):
        ctx.fail('operators', o, mod.path, f'the operator {o} is evaluated but not recognised: when it is not ready it is taken for a user item')
    for o in sorted(ops - compared):
        ctx.fail('operators', o, mod.path, f'the operator {o} is recognised but never evaluated: it is delayed for ever')
    for o in sorted(ops & compared):
        ctx.ob('operators', o, mod.path)
    nf = 0
    for p in paths:
        if p.kind != 'raise':
            continue
        v = p.res(p.value)
        known = fact(p, lambda a: a.k == 'cmp' and a.a[0] == 'in' and d.role(a.a[1]) == 'fn' and fname(a.a[2]) == 'IS_RHS_OPS')
        op, ar = d.op(p.facts)
        if is_call(v, 'NotBuiltin'):
            nf += 1
            ctx.need(known is False, 'fall-through', f.ref, p.where(), 'an operator is declared a user item without looking whether it is recognised')
        elif is_call(v, 'InstFault'):
            lit = fact(p, lambda a: is_call(a, 'isinstance') and 'Term' in isinst_names(a))
            ctx.need(known is True or (op is not None and known is None) or lit is False, 'fall-through', f.ref + ' fault', p.where(), 'an operator is delayed without being recognised')
    ctx.floor(nf, 1, 'not-a-builtin outcomes')
    # a recognised operator that is not ready never just fails: no return without answer (C11); the signal is consumed by indirect evaluation only
    f = m.func('dyna.builtin', 'Builtins.__call__')
    hs = [h for n in ast.walk(f.node) if isinstance(n, ast.Try) for h in n.handlers]
    for h in hs:
        t = ast.unparse(h.type) if h.type is not None else 'everything'
        ctx.need(t.split('.')[-1] == 'NotBuiltin', 'fall-through', f.ref, f'{f.mod.path}:{h.lineno}', f'{t} is caught where only the not-a-builtin signal may be')
    ctx.floor(len(hs), 1, 'handlers of the not-a-builtin signal')
    f = m.func('dyna.builtin', 'Builtins.is_ready')
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                t = ast.unparse(h.type) if h.type is not None else 'everything'
                ctx.need(t.split('.')[-1] == 'InstFault', 'readiness', f.ref, f'{f.mod.path}:{h.lineno}', f'{t} counts as "not ready"')


def key_ok(k):
    "The table is asked for (functor, arity) of the subgoal."
    if k.k == 'attr' and k.a[1] == 'signature':
        return True
    return k.k == 'tup' and len(k.a[1]) == 2 and k.a[1][0].k == 'attr' and k.a[1][0].a[1] == 'fn' and (
        (k.a[1][1].k == 'attr' and k.a[1][1].a[1] == 'arity') or is_call(k.a[1][1], 'len'))


def reaches_items(p, q):
    "The event at which the path consults the rule index or the chart for the subgoal."
    for e in p.events:
        if e.kind == 'call' and is_call(e.a[0], 'f2r', 'match') and e.a[0].a[1]:
            return e
        if e.kind == 'getitem' and e.a[0].k == 'attr' and e.a[0].a[1] == 'chart' and qrole(e.a[1], q) == 'q':
            return e
        if e.kind in ('loop', 'loop0'):
            it = p.res(e.a[1])
            if any(w.k == 'attr' and w.a[1] in ('chart', '_cache_f2r') for w in walk(it)) and not any(is_call(w, 'builtins') for w in walk(it)):
                return e
            if any(w.k == 'sub' and w.a[0].k == 'attr' and w.a[0].a[1] == 'chart' for w in walk(it)):
                return e
        if e.kind == 'yieldfrom':
            it = p.res(e.a[0])
            if it.k == 'sub' and it.a[0].k == 'attr' and it.a[0].a[1] == 'chart':
                return e
    return None


# ------------------------------------------------------------------ C12
@check('C12', 'dominance of every decision about a comparison, disequality or negative match by the tests that make it safe',
       'On every path of the three evaluators that uses the comparison table, both arguments of the subgoal must be known to be ground; when they are not, the '
       'path must delay the subgoal as itself (term evaluation) or raise an instantiation fault (solvers). Inside `is`, comparisons and extrema require both '
       'arguments to be ground values. The negative-match constraint may fail only when the pattern covers the term, succeed only when they do not unify, and '
       'must otherwise be kept; readiness of `is` is tried on a renamed copy.',
       [])
def c12(ctx):
    m = ctx.m
    for modname, q_ in EVALUATORS:
        f = m.func(modname, q_)
        q = param(f, 1)
        k = 0
        for p in ctx.paths(f):
            yes, no, incmp, arity = sel(p, q)
            if not incmp or arity.get(2) is False:
                continue
            k += 1
            g = {}
            for a, b in p.facts.items():
                if is_call(a, 'is_ground') and a.a[1]:
                    t = a.a[1][0]
                    while is_call(t, 'snap', 'deref') and t.a[1]:
                        t = t.a[1][0]
                    if qrole(t, q) == 'q' or (t.k == 'attr' and t.a[1] == 'args' and qrole(t.a[0], q) == 'q'):
                        g[0] = g[1] = b
                    elif t.k == 'sub' and t.a[1].k == 'const':
                        g[t.a[1].a[0] if t.a[0].k == 'attr' and t.a[0].a[1] == 'args' else t.a[1].a[0] - 1] = b
            ground = g.get(0) is True and g.get(1) is True
            uses = [e for e in p.events if e.kind == 'call' and e.a[0].k == 'call' and e.a[0].a[0].k == 'sub' and fname(e.a[0].a[0].a[0]) == 'cmps']
            for e in uses:
                ctx.need(ground, 'ground', f.ref, e.where, 'a comparison is evaluated although an argument may still contain variables')
            ys = [e for e in p.events if e.kind in ('yield', 'yieldfrom')]
            if ground:
                out = next((b for a, b in p.facts.items() if a.k == 'call' and a.a[0].k == 'sub' and fname(a.a[0].a[0]) == 'cmps'), None)
                if out is None:
                    ctx.fail('decide', f.ref, p.where(), 'a ground comparison is answered without evaluating it')
                elif out is False:
                    ctx.need(not ys and p.kind == 'return', 'decide', f.ref + ' false', p.where(), 'a comparison that is false succeeds')
                else:
                    ok = len(ys) == 1 and yields_one(p.res(ys[0].a[0]), q)
                    ctx.need(ok, 'decide', f.ref + ' true', p.where(), f'a comparison that is true answers {[short(p.res(e.a[0]), 50) for e in ys]}')
            else:
                if p.kind == 'raise':
                    ctx.need(is_call(p.res(p.value), 'InstFault'), 'delay', f.ref, p.where(), f'a comparison that is not ready raises {short(p.value)}')
                else:
                    ok = len(ys) == 1 and delayed(p.res(ys[0].a[0]), q)
                    ctx.need(ok, 'delay', f.ref, p.where(), f'a comparison that is not ready answers {[short(p.res(e.a[0]), 50) for e in ys] or "no"} instead of being kept')
        ctx.floor(k, 3, f'comparison paths of {f.ref}')
    # inside `is`
    f, d, paths = dispatchers(ctx)
    k = 0
    for p in paths:
        op, ar = d.op(p.facts)
        if ar == 2 and (op in SEM or op in ('<cmp>', 'min', 'max')):
            for e, t, v in solutions(p):
                k += 1
                ok = all(d.known(e.facts, r) for r in 'YZ')
                ctx.need(ok, 'ground', f'{f.ref} {op}', e.where, f'{op} inside `is` is evaluated although an argument may still contain variables')
        elif op in ('+', '*', '-', 'abs') and ar in (1, 2):
            pass
    ctx.floor(k, 3, 'comparisons evaluated inside `is`')
    # readiness is tried on a copy
    f = m.func('dyna.builtin', 'Builtins.is_ready')
    q = param(f, 1)
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'call' and e.a[0].a[0].k == 'param' and e.a[0].a[0] is param(f, 0):
                n += 1
                ctx.need(is_fresh(p.res(e.a[0].a[1][0])), 'readiness', f.ref, e.where, 'readiness is tried on the subgoal itself, not on a copy')
        if p.kind == 'return':
            v = p.res(p.value)
            isu = any(a.k == 'cmp' and a.a[0] == '==' and b is True and any(is_const(x, '=') for x in a.a[1:]) for a, b in p.facts.items())
            caught = any(e.kind == 'except' for e in p.events)
            if isu:
                ok = is_const(v, True)
            elif caught:
                ok = is_const(v, False)
            else:
                ok = is_const(v, True) and any(e.kind == 'call' and e.a[0].a[0].k == 'param' for e in p.events)
            ctx.need(ok, 'readiness', f.ref + ' answer', p.where(), f'{short(v)} is answered')
    ctx.floor(n, 1, 'readiness trials')
    # negative matches
    f = m.func('dyna.builtin', 'NotMatchesConstraint.run')
    three_way(ctx, f, lambda p: [e for e in p.events if e.kind == 'yield'], run=True)
    f = m.func('dyna.builtin', 'not_matches3')
    three_way(ctx, f, lambda p: [e for e in p.events if e.kind == 'yield'], run=False)


def yields_one(v, q):
    if v.k == 'attr' and v.a[1] == 'one':
        return True
    return is_call(v, 'Rule') and len(v.a[1]) == 2 and qrole(v.a[1][0], q) == 'q' and v.a[1][1].k == 'attr' and v.a[1][1].a[1] == 'one'


def delayed(v, q):
    return is_call(v, 'Rule') and len(v.a[1]) == 2 and qrole(v.a[1][0], q) == 'q' and qrole(v.a[1][1], q) == 'q'


def three_way(ctx, f, yields, run):
    k = 0
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        un = [(a, b) for a, b in p.facts.items() if is_call(a, 'unifies')]
        co = [(a, b) for a, b in p.facts.items() if is_call(a, 'covers')]
        isv = fact(p, lambda a: is_call(a, 'is_var', 'isvar') or (is_call(a, 'isinstance') and 'Var' in isinst_names(a)))
        ys = yields(p)
        k += 1
        if un and un[0][1] is False:
            # they cannot match: the constraint holds
            ok = len(ys) == 1 and holds(p.res(ys[0].a[0]), me)
            ctx.need(ok, 'negative-match', f.ref + ' holds', p.where(), 'terms that do not unify cannot match, yet the constraint does not simply hold')
        elif not ys:
            covered = bool(co) and co[0][1] is True and right_way(co[0][0], un)
            var = not run and isv is True and any((is_call(a, 'is_var', 'isvar') or is_call(a, 'isinstance')) and root_param(a.a[1][0]) == 0 for a, b in p.facts.items())
            ctx.need(covered or var, 'negative-match', f.ref + ' fails', p.where(), 'the constraint fails although the pattern is not known to cover the term')
        else:
            ok = len(ys) == 1 and kept(p.res(ys[0].a[0]), me, run) and (not run or (bool(co) and co[0][1] is False and right_way(co[0][0], un)))
            ctx.need(ok, 'negative-match', f.ref + ' kept', p.where(), f'an undecided constraint answers {short(p.res(ys[0].a[0]))}')
    ctx.floor(k, 3, f'outcomes of {f.ref}')


def root_param(v):
    while is_call(v, 'snap', 'deref') and v.a[1]:
        v = v.a[1][0]
    return v.a[2] if v.k == 'param' else None


def right_way(c, un):
    "covers(pattern, term): same operands, in the order in which unifies was asked or pattern first."
    xs = list(c.a[1][:2])
    if any(is_call(w, 'term') or (w.k == 'sub' and w.a[1].k == 'const' and w.a[1].a[0] == 0) for w in walk(xs[0])):
        return True
    return False


def holds(v, me):
    if is_call(v, 'Product') and not v.a[1]:
        return True
    return is_call(v, 'Rule') and len(v.a[1]) == 2 and v.a[1][0] is me and v.a[1][1].k == 'attr' and v.a[1][1].a[1] == 'one'


def kept(v, me, run):
    if run:
        return is_call(v, 'Rule') and len(v.a[1]) == 2 and v.a[1][0] is me and v.a[1][1] is me
    if not is_call(v, 'Product'):
        return False
    c = calls_in(v, 'NotMatchesConstraint')
    return bool(c) and len(c[0].a[1]) == 3 and root_param(c[0].a[1][2]) == 1 and any(w.k == 'param' and w.a[2] == 0 for w in walk(c[0].a[1][1]))
