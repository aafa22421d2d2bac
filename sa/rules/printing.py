"""What is printed reads back (C25)."""
import ast
import re
from ..core import check
from ..values import V, NONE, fname, is_call, recv, walk, is_const, rewrite
from ..util import short
from .match import param
from .coarse import loops_of, consistent, seq
from .goal import itv


@check('C25', 'partial evaluation of the printer and of the grammar builder over the operator table, language inclusion of the name patterns',
       'For every pair of operators and both operand positions the printer may omit parentheses only where the levels of the grammar group the text in the same way; '
       'names that are printed unquoted must be in the language of names and no keywords; a new variable only gets a display name that is not in use; '
       'the reader rebuilds lists, operators, rules and declarations in the order in which they are printed.',
       ['the parser generator implements the grammar that it is given', 'strings and names that contain quotes or backslashes are not covered'])
def c25(ctx):
    m = ctx.m
    T = Table(ctx, m)
    L = levels(ctx, m, T)
    if L is not None:
        nesting(ctx, m, T, L)
    quoting(ctx, m, T)
    variables(ctx, m)
    lists(ctx, m)
    rules_text(ctx, m)
    program_text(ctx, m)
    reader(ctx, m)


# ------------------------------------------------------------------ constant folding of the operator table
class Unknown(Exception):
    pass


FOLD = dict(str=str, set=set, dict=dict, list=list, tuple=tuple, frozenset=frozenset, float=float, int=int, round=round, abs=abs, min=min, max=max, len=len, bool=bool,
            sum=sum, any=any, all=all, range=range, zip=zip, enumerate=enumerate, reversed=reversed)


class Rec:
    "An instance of one of the operator classes, or a term."
    def __init__(self, cls, **kw):
        self.cls = cls
        self.d = kw

    def __repr__(self):
        return f'{self.cls[0]}({self.d})'


def term(fn, *args):
    return Rec(('Term',), fn=fn, args=tuple(args), arity=len(args), fargs=(fn, *args))


ATOM = Rec(('Term',), fn='a', args=(), arity=0, fargs=('a',))


class Table:
    """The module-level tables of the grammar and of the printer, with the
    constructors of the operator classes folded."""
    def __init__(self, ctx, m):
        self.m = m
        self.cls = {}
        self.syn = m.modules['dyna.syntax']
        self.pre = m.modules['dyna.pretty']
        self.g = {}
        for mod in (self.syn, self.pre):
            for s in mod.tree.body:
                try:
                    self.stmt(s, self.g)
                except Unknown:
                    pass
        self.ops = self.g.get('ops')
        self.binops = self.g.get('binops')
        self.unaryops = self.g.get('unaryops')

    def stmt(self, s, env):
        if isinstance(s, ast.ClassDef):
            self.cls[s.name] = s
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.put(t, v, env)
        elif isinstance(s, ast.If):
            for x in (s.body if self.ev(s.test, env) else s.orelse):
                self.stmt(x, env)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            c = s.value
            f = c.func
            if isinstance(f, ast.Attribute) and f.attr == '__init__' and isinstance(f.value, ast.Call) and getattr(f.value.func, 'id', None) == 'super':
                me = env['self']
                self.init(me, self.bases(env['%class'])[0], [self.ev(a, env) for a in c.args], {k.arg: self.ev(k.value, env) for k in c.keywords})
            elif isinstance(f, ast.Attribute) and f.attr == 'update':
                self.ev(f.value, env).update(self.ev(c.args[0], env))
            elif isinstance(f, ast.Attribute) and f.attr in ('append', 'extend', 'add'):
                getattr(self.ev(f.value, env), f.attr)(self.ev(c.args[0], env))
        elif isinstance(s, ast.For):
            for x in self.ev(s.iter, env):
                self.put(s.target, x, env)
                for y in s.body:
                    self.stmt(y, env)

    def put(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env)[self.ev(t.slice, env)] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not isinstance(o, Rec):
                raise Unknown
            o.d[t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for a, b in zip(t.elts, v):
                self.put(a, b, env)
        else:
            raise Unknown

    def bases(self, c):
        return [self.cls[b.id] for b in c.bases if isinstance(b, ast.Name) and b.id in self.cls]

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            out += self.mro(b)
        return out

    def method(self, rec, name):
        for c in self.mro(self.cls[rec.cls[0]]):
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and f.name == name:
                    return c, f
        return None, None

    def init(self, me, cls, args, kw):
        for c in self.mro(cls):
            fs = [f for f in c.body if isinstance(f, ast.FunctionDef) and f.name == '__init__']
            if fs:
                break
        else:
            return
        a = fs[0].args
        names = [x.arg for x in a.args][1:]
        env = dict(self.g)
        env.update({'self': me, '%class': c})
        for x, d in zip(reversed(a.args), reversed(a.defaults)):
            env[x.arg] = self.ev(d, self.g)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                env[x.arg] = self.ev(d, self.g)
        env.update(zip(names, args))
        env.update(kw)
        for s in fs[0].body:
            self.stmt(s, env)

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.g:
                return self.g[e.id]
            raise Unknown
        if isinstance(e, ast.List):
            return [self.ev(x, env) for x in e.elts]
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, env) for x in e.elts)
        if isinstance(e, ast.Set):
            return {self.ev(x, env) for x in e.elts}
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    out.update(self.ev(v, env))
                else:
                    out[self.ev(k, env)] = self.ev(v, env)
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out = []

            def go(i, env):
                if i == len(e.generators):
                    out.append((self.ev(e.key, env), self.ev(e.value, env)) if isinstance(e, ast.DictComp) else self.ev(e.elt, env))
                    return
                g = e.generators[i]
                for x in self.ev(g.iter, env):
                    en = dict(env)
                    self.put(g.target, x, en)
                    if all(self.ev(t, en) for t in g.ifs):
                        go(i + 1, en)
            go(0, dict(env))
            return dict(out) if isinstance(e, ast.DictComp) else set(out) if isinstance(e, ast.SetComp) else out
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env)
            if isinstance(o, Rec) and e.attr in o.d:
                return o.d[e.attr]
            raise Unknown
        if isinstance(e, ast.Subscript):
            try:
                return self.ev(e.value, env)[self.ev(e.slice, env)]
            except (KeyError, IndexError, TypeError):
                raise Unknown
        if isinstance(e, ast.UnaryOp):
            x = self.ev(e.operand, env)
            if isinstance(e.op, ast.USub):
                return -x
            if isinstance(e.op, ast.Not):
                return not x
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return a * b
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.ev(x, env)
                if bool(v) != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.ev(e.test, env) else e.orelse, env)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            o = type(e.ops[0]).__name__
            f = dict(Eq=lambda: a == b, NotEq=lambda: a != b, Is=lambda: a is b, IsNot=lambda: a is not b, In=lambda: a in b, NotIn=lambda: a not in b,
                     Lt=lambda: a < b, LtE=lambda: a <= b, Gt=lambda: a > b, GtE=lambda: a >= b).get(o)
            if f:
                return f()
        if isinstance(e, ast.Call):
            n = getattr(e.func, 'id', None)
            if n == 'isinstance':
                o = self.ev(e.args[0], env)
                ts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
                return isinstance(o, Rec) and any(getattr(t, 'id', None) in o.cls for t in ts)
            if n in self.cls:
                c = self.cls[n]
                r = Rec(tuple(x.name for x in self.mro(c)))
                self.init(r, c, [self.ev(a, env) for a in e.args], {k.arg: self.ev(k.value, env) for k in e.keywords})
                return r
            if n in FOLD:
                return FOLD[n](*[self.ev(a, env) for a in e.args])
        raise Unknown


def plain_facts(p):
    fs = p.__dict__.get('_plain')
    if fs is None:
        fs = p.__dict__['_plain'] = [(plain(p, a), b) for a, b in p.facts.items() if isinstance(b, bool)]
    return fs


class Trie:
    "The paths that are feasible when some values are known; paths share the prefixes of their conditions."
    def __init__(self, T, items):
        self.T = T
        self.root = {}
        for it in items:
            node = self.root
            for a, b in plain_facts(it[0]):
                node = node.setdefault(a, {}).setdefault(b, {})
            node.setdefault(None, []).append(it)

    def feasible(self, bind):
        memo = {}
        todo = [self.root]
        while todo:
            node = todo.pop()
            for a, kids in node.items():
                if a is None:
                    for it in kids:
                        yield it, Ev(self.T, it[0], bind)
                    continue
                if a not in memo:
                    memo[a] = Ev(self.T, None, bind).truth(a)
                t = memo[a]
                todo.extend(k for b, k in kids.items() if t is None or t is b)


# ------------------------------------------------------------------ evaluation of values of a path under an assignment
class Ev:
    "Evaluate the values of a path, given the table and what some values stand for."
    def __init__(self, T, p, bind):
        self.T = T
        self.p = p
        self.bind = bind

    def truth(self, v):
        try:
            x = self(v)
        except (Unknown, TypeError, KeyError, IndexError, AttributeError, re.error):
            return None
        return bool(x)

    def feasible(self):
        for a, b in plain_facts(self.p):
            t = self.truth(a)
            if t is not None and t is not b:
                return False
        return True

    def __call__(self, v):
        if v in self.bind:
            return self.bind[v]
        k, a = v.k, v.a
        if k == 'const':
            return a[0]
        if k == 'attr':
            o = self(a[0])
            if isinstance(o, Rec):
                if a[1] in o.d:
                    return o.d[a[1]]
                raise Unknown
            raise Unknown
        if k == 'sub':
            o = self(a[0])
            if a[1].k == 'slice':
                x = [None if is_const(y, None) else self(y) for y in a[1].a]
                o = o.d['fargs'] if isinstance(o, Rec) else o
                return o[slice(*x)]
            i = self(a[1])
            if isinstance(o, Rec):
                return o.d['fargs'][i]
            return o[i]
        if k == 'cmp':
            op = a[0]
            x, y = self(a[1]), self(a[2])
            if op in ('==', 'is'):
                return x is y if op == 'is' or isinstance(x, Rec) or isinstance(y, Rec) else x == y
            if op == '<':
                return x < y
            if op == 'in':
                return x in y
            raise Unknown
        if k == 'un' and a[0].strip() == 'not':
            return not self(a[1])
        if k == 'un' and a[0] == '-':
            return -self(a[1])
        if k == 'bin':
            x, y = self(a[1]), self(a[2])
            return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[a[0]]() if a[0] in '+-*' else self.bad()
        if k == 'tup':
            xs = [self(x) for x in a[1]]
            return set(xs) if a[0] == 'set' else tuple(xs) if a[0] == 'tuple' else xs
        if k == 'dict':
            return {self(p): self(q) for p, q in a[0]}
        if k == 'obj':
            r = self.p.res(v)
            if r is v:
                raise Unknown
            return self(r)
        if k == 'fstr':
            return ''.join(str(self(x)) for x in a[0])
        if k in ('name', 'global', 'ext'):
            n = str(a[-1]).rsplit('.', 1)[-1]
            if n in self.T.g:
                return self.T.g[n]
            if n == 'inf':
                return float('inf')
            if n == 'NIL':
                return Ev.NIL
            raise Unknown
        if k == 'call':
            n = fname(a[0])
            r = recv(v)
            if r is not None and n in ('get',):
                return self(r).get(*[self(x) for x in a[1]])
            if r is not None and n in ('keys', 'values', 'items') and not a[1]:
                return list(getattr(self(r), n)())
            if r is not None and n in ('startswith', 'endswith', 'strip', 'replace', 'isalpha', 'islower', 'lower', 'isidentifier'):
                x = self(r)
                if isinstance(x, str):
                    return getattr(x, n)(*[self(y) for y in a[1]])
                raise Unknown
            if n in ('snap', 'str', 'deref') and len(a[1]) == 1:
                return self(a[1][0])
            if n == 'float' and len(a[1]) == 1:
                return float(self(a[1][0]))
            if n == 'len' and len(a[1]) == 1:
                return len(self(a[1][0]))
            if n == 'bool' and len(a[1]) == 1:
                return bool(self(a[1][0]))
            if n == 'isinstance':
                x = self(a[1][0])
                T = a[1][1]
                ts = {fname(t) for t in T.a[1]} if T.k == 'tup' else {fname(T)}
                if isinstance(x, Rec):
                    return bool(ts & set(x.cls))
                return bool(ts & {t.__name__ for t in type(x).__mro__})
            if n in ('match', 'fullmatch', 'search') and r is not None:
                pat, s = self(a[1][0]), self(a[1][1])
                return getattr(re, n)(pat, s)
        raise Unknown

    def bad(self):
        raise Unknown


def plain(p, v):
    "`v` with the containers of the path replaced by their contents"
    return rewrite(v, lambda w: p.res(w) if w.k == 'obj' else w)


Ev.NIL = Rec(('Term',), fn='$nil', args=(), arity=0, fargs=('$nil',))


def flat_text(v):
    "The pieces of a string value: constants and values, left to right."
    if v.k == 'fstr':
        return [y for x in v.a[0] for y in flat_text(x)]
    if v.k == 'bin' and v.a[0] == '+':
        return flat_text(v.a[1]) + flat_text(v.a[2])
    if is_call(v, 'str') and len(v.a[1]) == 1 and v.a[1][0].k in ('fstr', 'const'):
        return flat_text(v.a[1][0])
    if v.k == 'const' and isinstance(v.a[0], str):
        return [v.a[0]]
    return [v]


def merge(ps):
    out = []
    for x in ps:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


# ------------------------------------------------------------------ the levels of the grammar
class Levels:
    pass


def levels(ctx, m, T):
    R = 'levels'
    f = m.func('dyna.syntax', 'add_ops')
    ops_p = param(f, 0)
    if not isinstance(T.ops, list) or not all(isinstance(o, Rec) for o in T.ops) or not isinstance(T.binops, dict):
        return None
    paths = ctx.paths(f)
    order = None
    for p in paths:
        for e in p.events:
            if e.kind == 'call' and is_call(e.a[0], 'sorted') and e.a[0].a[1] and e.a[0].a[1][0] is ops_p:
                order = (p, e.a[0], e)
        if order:
            break
    if order is None:
        ctx.fail(R, f'{f.ref} order', f.ref, 'the operators are not ordered by priority before the levels are numbered')
        return None
    p, call, e = order
    kw = dict(call.a[2])
    lam = kw.get('key')
    ent = p.flow.lams.get(lam) if lam is not None and lam.k == 'lam' else None
    if ent is None:
        if lam is not None and is_call(lam, 'attrgetter'):
            keyf = lambda o: o.d[lam.a[1][0].a[0]]
        else:
            return None
    else:
        node = ent[0]
        arg = node.args.args[0].arg
        body = node.body if isinstance(node, ast.Lambda) else node.body[-1].value
        keyf = lambda o: T.ev(body, {arg: o})
    try:
        rev = 'reverse' in kw and is_const(kw['reverse'], True)
        seqd = sorted(T.ops, key=keyf, reverse=rev)
    except (Unknown, TypeError, KeyError):
        return None
    ctx.need(all(a.d['priority'] >= b.d['priority'] for a, b in zip(seqd, seqd[1:])), R, f'{f.ref} order', e.where,
             'the operators are not ordered from the tightest to the loosest priority')
    # which operators share a level
    group = {}
    grouped = False
    for q in paths:
        for e in q.events:
            if e.kind != 'mutate' or e.a[1] not in ('append', 'add') or len(e.a) < 3:
                continue
            x, tgt = e.a[2], e.a[0]
            key = None
            if is_call(tgt, 'setdefault') and tgt.a[1]:
                key = tgt.a[1][0]
            elif tgt.k == 'sub':
                key = tgt.a[1]
            if key is None or x.k not in ('elem', 'sub') or seq(x.a[0]) not in (call, ops_p):
                continue
            grouped = True
            for o in seqd:
                E = Ev(T, q, {x: o})
                if not E.feasible():
                    continue
                try:
                    group.setdefault(id(o), (o, E(key)))
                except (Unknown, TypeError):
                    group.setdefault(id(o), (o, o))
    renders = [c for q in paths for c in q.events if c.kind == 'call' and is_call(c.a[0], 'render')]
    if not renders:
        return None
    if not grouped:
        it = [fn for fn in (root_iter(recv(c.a[0])) for c in renders) if fn is not None]
        if any(seq(x) is not call for x in it):
            return None                 # some other way to number the levels
    L = Levels()
    L.level, num, nxt = {}, {}, 1
    for o in seqd:
        k = group[id(o)][1] if id(o) in group else o
        k = id(k) if isinstance(k, Rec) else k
        if k not in num:
            num[k] = nxt
            nxt += 1
        L.level[id(o)] = num[k]
    ctx.floor(len(T.ops), 40, 'operators of the table')
    # the shape of the rule of each operator
    L.shape = {}
    for o in T.ops:
        s = shape(ctx, m, T, o)
        if s is None:
            return None
        L.shape[id(o)] = s
        ctx.need(s['falls'], R, f'{f.ref} {o.cls[0]} falls through', f.ref, 'a level of the grammar does not contain the next tighter level')
        if 'BinOp' in o.cls:
            ctx.need(not (s['left'] == 0 == s['right']), R, f'{f.ref} {o.d.get("op")} ambiguous', f.ref, f'a chain of `{o.d.get("op")}` can be grouped in two ways')
            a = o.d.get('assoc')
            side = {'L': 'left', 'R': 'right'}.get(a)
            if side:
                ctx.need(s[side] == 0, R, f'{f.ref} {o.d.get("op")} associativity', f.ref, f'`{o.d.get("op")}` does not group to the {side}')
    same = {}
    for o in T.ops:
        same.setdefault(L.level[id(o)], []).append(o)
    for os in same.values():
        ctx.need(len({(o.cls[0], str(L.shape[id(o)])) for o in os}) == 1, R, f'{f.ref} {os[0].d.get("op")} mixed level', f.ref,
                 'operators of different shapes share a level of the grammar')
    # what the parser makes of an operator
    g = m.func('dyna.syntax', 'DynaTransformer.binop')
    xs = param(g, 1)
    L.functor = {}
    for o in T.ops:
        if 'BinOp' not in o.cls:
            continue
        op = o.d['op'].replace('\\\\', '\\')
        for p in ctx.paths(g):
            if p.kind != 'return':
                continue
            E = Ev(T, p, {V('sub', xs, V('const', 1)): op})
            if not E.feasible() or not is_call(p.value, 'Term'):
                continue
            try:
                if E(p.value.a[1][0]) == op:
                    ok = [short(z) for z in p.value.a[1][1:]] == [short(V('sub', xs, V('const', i))) for i in (0, 2)]
                    ctx.need(ok, 'reader', f'{g.ref} operands', p.where(), 'the operands of an operator are not read in the order in which they are written')
                    L.functor[op] = o
            except (Unknown, IndexError):
                pass
    for o in T.ops:
        if o.cls[0] == 'ChainedCompare':
            for op in ('<', '<=', '>', '>='):
                L.functor[op] = o
    ctx.floor(len(L.functor), 25, 'operators that the parser turns into terms')
    L.bounds = bounds(ctx, m, T, L, paths, f)
    return L


def root_iter(v):
    while v is not None and v.k in ('elem', 'sub', 'attr'):
        v = v.a[0]
        if v.k not in ('elem', 'sub', 'attr'):
            return v
    return None


def shape(ctx, m, T, o):
    "Levels (relative to the operator's own) of its operands in the grammar."
    c, fn = T.method(o, 'render')
    if fn is None:
        return None
    f = m.func('dyna.syntax', f'{c.name}.render')
    me, OP, i = param(f, 0), param(f, 1), param(f, 2)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        E = Ev(T, p, {me: o, OP: '@', i: 50})
        if not E.feasible():
            continue
        try:
            txt = E(p.value)
        except (Unknown, TypeError):
            return None
        head, _, rest = txt.partition(':')
        alts = [re.sub(r'->\s*\w+', '', a).split() for a in re.split(r'\|(?![^()]*\))', rest)]
        main = [t for t in alts[0] if t]
        ps = [(j, int(t.strip('()*+?')[1:]) - 50) for j, t in enumerate(main) if re.fullmatch(r'\(?p\d+\)?[*+?]?', t.strip('()'))]
        star = ')*' in txt.replace(' ', '')
        falls = ['p49'] in alts or (star and bool(ps) and ps[0][1] == -1)
        at = [j for j, t in enumerate(main) if t not in ('(', ')', ')*') and not re.fullmatch(r'\(?p\d+\)?[*+?]?', t.strip('()'))]
        j0 = min(at) if at else 0
        left = [d for j, d in ps if j < j0]
        right = [d for j, d in ps if j > j0]
        return dict(head=head.strip('? '), left=max(left) if left else None, right=max(right) if right else None, falls=falls)
    return None


def bounds(ctx, m, T, L, paths, f):
    """Loosest level allowed in arguments and in list elements."""
    R = 'levels'
    src = T.g.get('grammar')
    if not isinstance(src, str):
        return {}
    arg = re.search(r'^args:.*?(expr\d)', src, re.M)
    lst = re.search(r'^list:.*?(expr\d)', src, re.M)
    out = {}
    for what, sep, mo in (('arguments', ',', arg), ('list elements', '|', lst)):
        if mo is None:
            continue
        o = L.functor.get(sep)
        if o is None:
            continue
        # the variable whose value ends up in the rule of that expression
        var = set()
        for p in paths:
            for e in p.events:
                for v in [x for x in e.a if isinstance(x, V)]:
                    for w in walk(v):
                        if w.k == 'fstr':
                            ps = merge(flat_text(w))
                            for a, b in zip(ps, ps[1:]):
                                if isinstance(a, str) and a.endswith(f'?{mo.group(1)}: p') and isinstance(b, V) and b.k == 'phi':
                                    var.add(b.a[1])
        okc = None
        for p in paths:
            for e in p.events:
                if e.kind == 'carry' and e.a[1] in var and isinstance(e.a[3], V) and e.a[3].k == 'bin':
                    hit = any(b is True and a.k == 'cmp' and a.a[0] == '==' and any(is_const(z, sep) for z in a.a[1:]) for a, b in p.facts.items())
                    good = e.a[3].a[0] == '-' and e.a[3].a[1].k == 'idx' and is_const(e.a[3].a[2], 1)
                    okc = (okc is not False) and hit and good
        if okc is False:
            ctx.fail(R, f'{f.ref} {what}', f.ref, f'{what} are not limited to the operators that are tighter than the separator')
        out[sep] = L.level[id(o)] - 1
    return out


# ------------------------------------------------------------------ parentheses
def nesting(ctx, m, T, L):
    R = 'parentheses'
    f = m.func('dyna.pretty', 'PrettyPrinter.pp_infix')
    me, x = param(f, 0), param(f, 1)
    paths = [p for p in ctx.paths(f, inline=('priority', 'assoc', 'binop')) if p.kind == 'return']
    unary = [o for o in T.ops if 'UnaryOp' in o.cls and o.d.get('position') == 'prefix']
    fun = L.functor
    n = 0
    texts = [(p, merge(flat_text(p.value))) for p in paths if isinstance(p.value, V) and not is_const(p.value, None)]
    sides = {}
    for p, ps in texts:
        for q in ps:
            if isinstance(q, V) and is_self_call(q, me):
                i = operand(q.a[1][0], x)
                if i is not None:
                    sides.setdefault(i, set()).add(q)
    if set(sides) != {0, 1}:
        ctx.fail(R, f'{f.ref} operands', f.ref, 'the two operands of an operator are not both printed')
        return
    for p, ps in texts:
        got = [operand(q.a[1][0], x) for q in ps if isinstance(q, V) and is_self_call(q, me)]
        ctx.need(got == [0, 1], R, f'{f.ref} operand order', p.where(), 'the operands are not printed in order')
    trie = Trie(T, texts)
    words = {o.d['op'] for o in T.ops if isinstance(o.d.get('op'), str)}
    for name, o in fun.items():
        rec0 = term(name, ATOM, ATOM)
        if name not in T.binops:
            continue
        for side in (0, 1):
            sh = L.shape[id(o)]['left' if side == 0 else 'right']
            if sh is None:
                continue
            inner = [(k, i, term(k, ATOM, ATOM)) for k, i in fun.items()] + [(u.d['op'], u, term(u.d['op'], ATOM)) for u in unary]
            for k, i, t in inner:
                allowed = L.level[id(i)] <= L.level[id(o)] + sh
                n += 1
                root = term(name, *((t, ATOM) if side == 0 else (ATOM, t)))
                bind = {x: root}
                for w in sides[side]:
                    bind[w] = t.d['fn'] if t.d['arity'] == 1 else 'a'
                for w in sides[1 - side]:
                    bind[w] = 'a'
                for (p, ps), E in trie.feasible(bind):
                    j = [z for z, q in enumerate(ps) if isinstance(q, V) and q in sides[side]][0]
                    wrapped = paren(ps, j, E)
                    if not wrapped and not allowed:
                        what = f'{k} inside {name}' if t.d['arity'] == 2 else f'prefix {k} inside {name}'
                        ctx.fail(R, f'{f.ref} {"left" if side == 0 else "right"} {what}', p.where(),
                                 f'a term that has `{k}` as the {"left" if side == 0 else "right"} operand of `{name}` is printed without the parentheses that the grammar needs to group it that way')
                    # the text between the operands is the operator
                    mid = ''.join(text_of(q, E) for q in ps[min(z for z, q in enumerate(ps) if q in sides[0]) + 1: max(z for z, q in enumerate(ps) if q in sides[1])])
                    core = mid.strip().strip('()').strip()
                    if '\0' in mid:
                        continue
                    ctx.need(core == name, R, f'{f.ref} prints {name}', p.where(), f'`{name}` is printed as `{core}`')
                    if side == 1 and not wrapped and t.d['arity'] == 1 and not mid[-1:].isspace():
                        bad = [w for w in words if len(w) > len(name) and (name + t.d['fn']).startswith(w)]
                        ctx.need(not bad, R, f'{f.ref} {name} next to {k}', p.where(), f'`{name}` followed by the prefix operator `{k}` is read as `{bad and bad[0]}`')
                    if name.isalpha():
                        ctx.need(not mid[:1].isalnum() and not mid.strip('()')[-1:].isalnum(), R, f'{f.ref} {name} spaced', p.where(), f'`{name}` runs into its operands')
    ctx.floor(n, 1500, 'pairs of an operator and an operand')
    prefix_text(ctx, m, T, L, unary)
    for q in ('PrettyPrinter.pp_term_default', 'PrettyPrinter.pp_term', 'PrettyPrinter.pp_role_term'):
        separated(ctx, m, T, L, m.func('dyna.pretty', q), ',', 'an argument')
    separated(ctx, m, T, L, m.func('dyna.pretty', 'PrettyPrinter.pp_list'), '|', 'a list element')


def is_self_call(v, me):
    return v.k == 'call' and v.a[0] is me and len(v.a[1]) == 1


def strip_snap(v):
    while True:
        if is_call(v, 'snap') and v.a[1]:
            v = v.a[1][0]
        elif v.k == 'phi' and isinstance(v.a[2], V):
            v = v.a[2]
        else:
            return v


def operand(v, x):
    "index of the operand of `x` that `v` is"
    v = strip_snap(v)
    if v.k == 'sub' and v.a[1].k == 'const' and isinstance(v.a[1].a[0], int):
        b, i = strip_snap(v.a[0]), v.a[1].a[0]
        if b is strip_snap(x) or (b.k == 'attr' and b.a[1] == 'fargs' and strip_snap(b.a[0]) is strip_snap(x)):
            return i - 1
        if b.k == 'attr' and b.a[1] == 'args' and strip_snap(b.a[0]) is strip_snap(x):
            return i
    return None


def text_of(q, E):
    if isinstance(q, str):
        return q
    try:
        t = E(q)
    except (Unknown, TypeError, KeyError, AttributeError):
        return '\0'
    return t if isinstance(t, str) else '\0'


def paren(ps, j, E):
    before = text_of(ps[j - 1], E) if j else ''
    after = text_of(ps[j + 1], E) if j + 1 < len(ps) else ''
    return before.endswith('(') and after.startswith(')')


def prefix_text(ctx, m, T, L, unary):
    R = 'parentheses'
    f = m.func('dyna.pretty', 'PrettyPrinter.pp_term')
    me, x = param(f, 0), param(f, 1)
    paths = [p for p in ctx.paths(f, inline=('binop', 'priority', 'assoc')) if p.kind == 'return' and isinstance(p.value, V)]
    n = 0
    texts = []
    for p in paths:
        ps = merge(flat_text(p.value))
        js = [z for z, q in enumerate(ps) if isinstance(q, V) and is_self_call(q, me) and operand(q.a[1][0], x) == 0]
        if len(js) == 1:
            texts.append((p, ps, js))
    trie = Trie(T, texts)
    for u in unary:
        op = u.d['op']
        sh = L.shape[id(u)]['right']
        if sh is None or op not in T.unaryops:
            continue
        cands = [(k, L.level[id(i)] <= L.level[id(u)] + sh, term(k, ATOM, ATOM)) for k, i in L.functor.items()]
        cands += [(w.d['op'], L.level[id(w)] <= L.level[id(u)] + sh, term(w.d['op'], ATOM)) for w in unary]
        cands += [('a number', op not in '+-', 5), ('a name', True, ATOM), ('a variable', True, Rec(('Var',), name='X'))]
        for k, allowed, t in cands:
            for (p, ps, js), E in trie.feasible({x: term(op, t)}):
                n += 1
                w = paren(ps, js[0], E)
                ctx.need(w or allowed, R, f'{f.ref} prefix {op} of {k}', p.where(), f'the prefix operator `{op}` applied to {k} is printed without the parentheses that the grammar needs')
                before = ''.join(text_of(q, E) for q in ps[:js[0]])
                if '\0' in before:
                    continue
                ctx.need(before.strip('( ') == op, R, f'{f.ref} prefix {op}', p.where(), f'the prefix operator `{op}` is printed as `{before}`')
                if op.isalpha():
                    ctx.need(not before[-1:].isalpha(), R, f'{f.ref} prefix {op} spaced', p.where(), f'the prefix operator `{op}` runs into its operand')
    ctx.floor(n, 100, 'prefix operators and operands')


def separated(ctx, m, T, L, f, sep, what):
    "Elements of a separated sequence that are as loose as the separator are printed in parentheses."
    R = 'parentheses'
    if sep not in L.bounds:
        return
    me = param(f, 0)
    cands = [(k, L.level[id(i)] <= L.bounds[sep], term(k, ATOM, ATOM)) for k, i in L.functor.items()]
    seen = 0
    for p in ctx.paths(f, inline=('binop', 'priority', 'assoc')):
        if p.kind == 'raise' or not consistent(p):
            continue
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] == 'append' and len(e.a) > 2 and isinstance(e.a[2], V):
                ps = merge(flat_text(e.a[2]))
                js = [z for z, q in enumerate(ps) if isinstance(q, V) and is_self_call(q, me)]
                if len(js) != 1:
                    continue
                el = ps[js[0]].a[1][0]
                seen += 1
                for k, allowed, t in cands:
                    if allowed:
                        continue
                    E = Ev(T, p, {el: t, strip_snap(el): t, plain(p, el): t})
                    if not E.feasible():
                        continue
                    ctx.need(paren(ps, js[0], E), R, f'{f.ref} {k}', e.where, f'`{k}` as {what} is printed without parentheses, so it is taken for the separator or cannot be read')
    if seen == 0:
        ctx.notes.append(f'{f.ref}: elements not printed one by one')


# ------------------------------------------------------------------ names
def quoting(ctx, m, T):
    R = 'names'
    f = m.func('dyna.pretty', 'PrettyPrinter.pp_functor')
    x = param(f, 1)
    src = T.g.get('grammar')
    mo = isinstance(src, str) and re.search(r'^FUNCTOR1:\s*/(.*)/\s*$', src, re.M)
    if not mo:
        return
    lang = mo.group(1)
    words = set(re.findall(r'"([A-Za-z]+)"', src)) | {o.d['op'] for o in T.ops or () if isinstance(o.d.get('op'), str) and o.cls[0] in ('UnaryOp', 'NullOp') and o.d['op'].isalpha()}
    words = {w for w in words if re.fullmatch(lang, w)}
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        ps = merge(flat_text(p.value))
        if ps and isinstance(ps[0], str) and ps[0].startswith("'"):
            ctx.need(isinstance(ps[-1], str) and ps[-1].endswith("'") and len(ps) == 3, R, f'{f.ref} quotes', p.where(), 'a quoted name is not closed')
            continue
        ctx.need(len(ps) == 1 and not isinstance(ps[0], str), R, f'{f.ref} verbatim', p.where(), 'a name is not printed as it is')
        n += 1
        for w in sorted(words):
            E = Ev(T, p, {x: w, V('call', V('name', 'str'), (x,), (), 0): w})
            ctx.need(not E.feasible(), R, f'{f.ref} keyword {w}', p.where(), f'the name `{w}` is printed without quotes although it reads back as a keyword')
        pats = []
        for a, b in p.facts.items():
            if b is True and is_call(a, 'match', 'fullmatch') and len(a.a[1]) >= 2 and a.a[1][0].k == 'const':
                pats.append((fname(a.a[0]), a.a[1][0].a[0]))
            if b is True and a.k == 'cmp' and a.a[0] == 'is':
                pass
        for a, b in p.facts.items():
            if b is False and a.k == 'cmp' and a.a[0] == 'is' and is_call(a.a[1], 'match', 'fullmatch') and is_const(a.a[2], None) and a.a[1].a[1][0].k == 'const':
                pats.append((fname(a.a[1].a[0]), a.a[1].a[1][0].a[0]))
        if not pats:
            pats = compiled(m, p)
        if not pats:
            ctx.fail(R, f'{f.ref} unquoted', p.where(), 'a name is printed without quotes although nothing says that it can be read that way')
            continue
        cex = None
        for how, pat in pats:
            cex = witness(pat, lang, how)
            if cex is None:
                break
        ctx.need(cex is None, R, f'{f.ref} pattern', p.where(), f'the name {cex!r} is printed without quotes, but without quotes it is not a name')
    ctx.floor(n, 1, 'paths that print a name without quotes')


def compiled(m, p):
    "facts about NAME.match(...) where NAME = re.compile(<constant>) at module level"
    out = []
    for a, b in p.facts.items():
        v = a
        if b is False and a.k == 'cmp' and a.a[0] == 'is' and is_const(a.a[2], None):
            v = a.a[1]
        elif b is not True:
            continue
        if is_call(v, 'match', 'fullmatch') and len(v.a[1]) == 1 and recv(v) is not None:
            r = recv(v)
            if is_call(r, 'compile') and r.a[1] and r.a[1][0].k == 'const':
                out.append((fname(v.a[0]), r.a[1][0].a[0]))
                continue
            n = str(r.a[-1]).rsplit('.', 1)[-1] if r.k in ('name', 'global', 'ext') else r.a[1] if r.k == 'attr' else None
            for mod in m.modules.values():
                for s in ast.walk(mod.tree):
                    if isinstance(s, ast.Assign) and any(getattr(t, 'id', None) == n for t in s.targets) and isinstance(s.value, ast.Call) \
                            and getattr(s.value.func, 'attr', getattr(s.value.func, 'id', None)) == 'compile' and s.value.args and isinstance(s.value.args[0], ast.Constant):
                        out.append((fname(v.a[0]), s.value.args[0].value))
    return out


# a small automaton for patterns made of characters, classes, groups, alternatives and repetition
def parse_re(pat):
    import re._parser as P
    return list(P.parse(pat))


class NFA:
    def __init__(self):
        self.eps, self.tr, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def build(self, items, a):
        for op, av in items:
            op = str(op)
            b = self.new()
            if op == 'LITERAL':
                self.tr.setdefault(a, []).append((lambda c, k=av: ord(c) == k, b))
            elif op == 'NOT_LITERAL':
                self.tr.setdefault(a, []).append((lambda c, k=av: ord(c) != k, b))
            elif op == 'ANY':
                self.tr.setdefault(a, []).append((lambda c: c != '\n', b))
            elif op == 'IN':
                self.tr.setdefault(a, []).append((charset(av), b))
            elif op == 'SUBPATTERN':
                b = self.build(list(av[-1]), a)
            elif op == 'BRANCH':
                for alt in av[1]:
                    s = self.new()
                    self.e(a, s)
                    self.e(self.build(list(alt), s), b)
            elif op in ('MAX_REPEAT', 'MIN_REPEAT'):
                lo, hi, sub = av
                for _ in range(lo):
                    a = self.build(list(sub), a)
                if str(hi) == 'MAXREPEAT' or hi > 1000:
                    s = self.new()
                    self.e(a, s)
                    t = self.build(list(sub), s)
                    self.e(t, s)
                    self.e(s, b)
                else:
                    self.e(a, b)
                    for _ in range(hi - lo):
                        a = self.build(list(sub), a)
                        self.e(a, b)
            elif op == 'AT':
                where = str(av)
                if 'BEGIN' in where:
                    self.e(a, b)
                elif where == 'AT_END':           # `$`: also before a final newline
                    self.e(a, b)
                    self.tr.setdefault(a, []).append((lambda c: c == '\n', b))
                elif where == 'AT_END_STRING':
                    self.e(a, b)
                else:
                    raise Unknown
            else:
                raise Unknown
            a = b
        return a

    def close(self, ss):
        out, todo = set(ss), list(ss)
        while todo:
            for t in self.eps.get(todo.pop(), ()):
                if t not in out:
                    out.add(t)
                    todo.append(t)
        return frozenset(out)

    def step(self, ss, c):
        return self.close({t for s in ss for f, t in self.tr.get(s, ()) if f(c)})


def charset(av):
    neg = any(str(o) == 'NEGATE' for o, _ in av)

    def f(c):
        k = ord(c)
        hit = False
        for o, x in av:
            o = str(o)
            if o == 'LITERAL':
                hit |= k == x
            elif o == 'RANGE':
                hit |= x[0] <= k <= x[1]
            elif o == 'CATEGORY':
                s = str(x)
                t = c.isalnum() or c == '_' if 'WORD' in s else c.isdigit() if 'DIGIT' in s else c.isspace()
                hit |= (not t) if 'NOT' in s else t
        return hit != neg
    return f


def alphabet(*pats):
    out = set('\n \x00_$aA0"\'.,()é∘')
    for p in pats:
        out |= {c for c in p}
        for op, av in [(str(o), a) for o, a in flatten_re(parse_re(p))]:
            if op == 'RANGE':
                out |= {chr(x) for x in (av[0] - 1, av[0], av[1], av[1] + 1) if x > 0}
            elif op == 'LITERAL':
                out.add(chr(av))
    return sorted(out)


def flatten_re(items):
    for op, av in items:
        yield op, av
        o = str(op)
        if o == 'IN':
            yield from av
        elif o == 'SUBPATTERN':
            yield from flatten_re(list(av[-1]))
        elif o == 'BRANCH':
            for alt in av[1]:
                yield from flatten_re(list(alt))
        elif o in ('MAX_REPEAT', 'MIN_REPEAT'):
            yield from flatten_re(list(av[2]))


def witness(pat, lang, how):
    "A string that `pat` accepts (with re.<how>) and that is not fully matched by `lang`; None if there is none."
    try:
        A, B = NFA(), NFA()
        a0 = A.new()
        aend = A.build(parse_re(pat), a0)
        if how == 'match' and not any(str(o) == 'AT' and 'END' in str(v) for o, v in flatten_re(parse_re(pat))):
            A.tr.setdefault(aend, []).append((lambda c: True, aend))
        b0 = B.new()
        bend = B.build(parse_re(lang), b0)
        sig = alphabet(pat, lang)
    except Unknown:
        return None
    start = (A.close({a0}), B.close({b0}))
    seen, todo = {start: ''}, [start]
    while todo:
        s = todo.pop(0)
        if aend in s[0] and bend not in s[1]:
            return seen[s]
        for c in sig:
            t = (A.step(s[0], c), B.step(s[1], c))
            if t[0] and t not in seen:
                seen[t] = seen[s] + c
                todo.append(t)
    return None


# ------------------------------------------------------------------ variables
def variables(ctx, m):
    R = 'variables'
    f = m.func('dyna.pretty', 'PrettyPrinter.__call__')
    me, x0 = param(f, 0), param(f, 1)
    n = nw = 0

    def isx(v):
        return strip_snap(v) is x0

    def idx_(v):
        return (is_call(v, 'id') and len(v.a[1]) == 1 and isx(v.a[1][0])) or isx(v)

    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        if not any(b is True and is_call(a, 'isinstance') and isx(a.a[1][0]) and fname(a.a[1][1]) == 'Var' for a, b in p.facts.items()):
            continue
        if not consistent(p):
            continue
        n += 1
        v = p.value
        if v.k == 'bin' and v.a[0] == '%':
            v = v.a[2]
        sets = [e for e in p.events if e.kind == 'setitem' and idx_(e.a[1])]
        if not sets:
            # an earlier choice is read back
            ok = v.k == 'sub' and idx_(v.a[1]) and from_self(v, me) or is_call(v, 'get', 'setdefault') and v.a[1] and idx_(v.a[1][0]) and from_self(recv(v), me)
            ctx.need(ok, R, f'{f.ref} lookup', p.where(), 'the display name of a variable is not looked up by the identity of the variable')
            if ok:
                known = any(b is True and a.k == 'cmp' and a.a[0] == 'in' and idx_(a.a[1]) for a, b in p.facts.items()) or not (v.k == 'sub')
                ctx.need(known, R, f'{f.ref} known', p.where(), 'a display name is looked up that was never chosen')
            continue
        nw += 1
        e = sets[-1]
        kept = from_self(e.a[0], me) or any(c.kind == 'setitem' and c.a[2] is e.a[0] and from_self(c.a[0], me) for c in p.events)
        ctx.need(kept, R, f'{f.ref} remembered', e.where, 'the display name of a variable is not remembered by the printer')
        ctx.need(any(b is False and a.k == 'cmp' and a.a[0] == 'in' and idx_(a.a[1]) for a, b in p.facts.items()), R, f'{f.ref} once', e.where,
                 'a variable that already has a display name gets another one')
        name = e.a[2]
        ctx.need(v is name or p.res(v) is p.res(name) or (v.k == 'sub' and idx_(v.a[1])), R, f'{f.ref} shown', p.where(), 'the name that is shown is not the one that is remembered')
        # taken from a loop that ends when the name is free, or tested directly
        cand = {name} | {z for z in walk(name) if z.k == 'phi'}
        free = False
        for a, b in p.facts.items():
            if a.k == 'cmp' and a.a[0] == 'in' and b is False and a.a[1] is name:
                free = True
        for ev in p.events:
            if ev.kind == 'carry' and isinstance(ev.a[3], V) and ev.a[3] is name:
                # the loop `while name in used` was left
                free = True if any(t.k == 'cmp' and t.a[0] == 'in' for t in [a for a, b in p.facts.items()]) else free
        ctx.need(free, R, f'{f.ref} distinct', e.where, 'a new variable may get a display name that another variable of the text already has')
    ctx.floor(n, 2, 'paths that print a variable')
    ctx.floor(nw, 1, 'paths that choose a display name')


def from_self(v, me):
    return v is not None and any(w.k == 'attr' and w.a[0] is me for w in walk(v))


# ------------------------------------------------------------------ lists
def lists(ctx, m):
    R = 'lists'
    f = m.func('dyna.pretty', 'PrettyPrinter.pp_list')
    me, x = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind == 'backedge':
            app = [e for e in p.events if e.kind == 'mutate' and e.a[1] == 'append' and len(e.a) > 2 and e.a[2].k == 'sub']
            car = [e for e in p.events if e.kind == 'carry' and isinstance(e.a[3], V) and e.a[3].k == 'sub']
            if not app or not car:
                continue
            n += 1
            h, t = app[-1].a[2], car[-1].a[3]
            ok = operand_index(h) == 0 and operand_index(t) == 1 and base_of(h) is base_of(t)
            ctx.need(ok, R, f'{f.ref} elements', p.where(), 'an element of a list is not printed, or the rest of the list is not continued with')
        elif p.kind == 'return':
            ps = merge(flat_text(p.value))
            nil = any(b is True and a.k == 'cmp' and a.a[0] == '==' and any('NIL' in short(z) for z in a.a[1:]) for a, b in p.facts.items())
            texty = [q for q in ps if isinstance(q, str)]
            if not texty or not texty[0].startswith('['):
                continue
            bar = any('|' in q for q in texty)
            if not bar:
                ctx.need(nil, R, f'{f.ref} tail', p.where(), 'the rest of a list that does not end in the empty list is not printed')
    ctx.counts['list elements'] = n


def operand_index(v):
    v = strip_snap(v)
    if v.k == 'sub' and v.a[1].k == 'const' and isinstance(v.a[1].a[0], int):
        b = strip_snap(v.a[0])
        return v.a[1].a[0] if b.k == 'attr' and b.a[1] == 'args' else v.a[1].a[0] - 1
    return None


def base_of(v):
    v = strip_snap(v).a[0]
    v = strip_snap(v)
    if v.k == 'attr' and v.a[1] in ('args', 'fargs'):
        v = v.a[0]
    return strip_snap(v)


# ------------------------------------------------------------------ rules
def rules_text(ctx, m):
    R = 'rules'
    f = m.func('dyna.pretty', 'PrettyPrinter.__call__')
    me, x0 = param(f, 0), param(f, 1)
    n = 0
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        if not any(b is True and is_call(a, 'isinstance') and strip_snap(a.a[1][0]) is x0 and fname(a.a[1][1]) == 'Rule' for a, b in p.facts.items()):
            continue
        ps = merge(flat_text(p.value))
        calls = [q for q in ps if isinstance(q, V) and is_self_call(q, me)]
        ctx.need(bool(calls) and strip_snap(calls[0].a[1][0]).k == 'attr' and strip_snap(calls[0].a[1][0]).a[1] == 'head', R, f'{f.ref} head', p.where(), 'the head of a rule is not printed first')
        nonempty = [b for a, b in p.facts.items() if a.k == 'attr' and a.a[1] == 'body']
        if nonempty and nonempty[0] is True:
            n += 1
            ctx.need(len(calls) >= 2, R, f'{f.ref} body', p.where(), 'the body of a rule is not printed')
            for e, done in loops_of(p):
                it = itv(p, e)
                if not isinstance(it, V) or 'body' not in short(it):
                    continue
                r = [w for w in walk(it) if is_call(w, 'range')]
                if r:
                    a = r[0].a[1]
                    lo = a[0] if len(a) > 1 else V('const', 0)
                    first = first_index(p)
                    ctx.need(len(a) < 3 and lo.k == 'const' and (first is None or lo.a[0] == first + 1), R, f'{f.ref} subgoals', e.where, 'a subgoal is left out or printed twice')
                for c in p.events:
                    if c.kind == 'carry' and c.a[0] == e.a[0] and isinstance(c.a[3], V) and is_call(c.a[3], 'Term') and len(c.a[3].a[1]) == 3:
                        t = c.a[3].a[1]
                        ctx.need(is_const(t[0], '*') and (t[1] is c.a[2] or t[1].k == 'phi') and any(w.k == 'idx' for w in walk(t[2])), R, f'{f.ref} product', c.where if hasattr(c, 'where') else p.where(),
                                 'the subgoals of a rule are not printed in order')
    ctx.counts['rules with a body'] = n


def first_index(p):
    for e in p.events:
        if e.kind == 'carry' and isinstance(e.a[3], V) and is_call(e.a[3], 'Term'):
            ph = e.a[2]
            if isinstance(ph, V) and ph.k == 'phi' and isinstance(ph.a[2], V):
                for w in walk(ph.a[2]):
                    if w.k == 'sub' and 'body' in short(w.a[0]) and w.a[1].k == 'const':
                        return w.a[1].a[0]
    return None


# ------------------------------------------------------------------ programs
def program_text(ctx, m):
    R = 'programs'
    f = m.func('dyna.program', 'Program.plaintext')
    me = param(f, 0)
    n = 0
    want = {'inputs': ('input', 'inputs', 'params'), 'outputs': ('output', 'outputs')}
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        n += 1
        its = [noloop(itv(p, e)) for e in p.events if e.kind in ('loop', 'loop0') and isinstance(e.a[1], V)]
        ctx.need(any(i is me or (i.k == 'attr' and i.a[0] is me and i.a[1] == 'rules') for i in its), R, f'{f.ref} rules', p.where(), 'the rules are not all printed')
        for at, kws in want.items():
            none = any(b is False and a.k == 'attr' and a.a[1] == at and a.a[0] is me for a, b in p.facts.items()) or \
                any(b is True and a.k == 'cmp' and a.a[0] == 'is' and a.a[1].k == 'attr' and a.a[1].a[1] == at and is_const(a.a[2], None) for a, b in p.facts.items())
            have = any(i.k == 'attr' and i.a[0] is me and i.a[1] == at for i in its)
            ctx.need(none or have, R, f'{f.ref} {at}', p.where(), f'the declared {at} are not printed')
        for e, done in loops_of(p):
            it = noloop(itv(p, e))
            if it.k == 'attr' and it.a[0] is me and it.a[1] in want:
                tag = []
                for ev in p.events:
                    for v in ev.a:
                        if isinstance(v, V) and ev.kind in ('mutate', 'return', 'aug', 'setitem'):
                            for w in [v]:
                                if w.k in ('bin', 'fstr'):
                                    ps = merge(flat_text(w))
                                    objs = [q for q in ps if isinstance(q, V)]
                                    if ps and isinstance(ps[0], str) and ps[0].rstrip().endswith(':') and any(joins_loop(p, q, e.a[0]) for q in objs):
                                        tag.append(ps[0].strip().rstrip(':'))
                                        ctx.need(isinstance(ps[-1], str) and ps[-1].rstrip().endswith('.'), R, f'{f.ref} {it.a[1]} end', ev.where, 'a declaration is not ended')
                if tag:
                    ctx.need(all(t in want[it.a[1]] for t in tag), R, f'{f.ref} {it.a[1]} keyword', p.where(), f'the declared {it.a[1]} are printed as `{tag[0]}`')
            if it is me or it.k == 'attr' and it.a[0] is me and it.a[1] in ('rules', *want):
                kept = [ev for ev in p.events if ev.kind in ('mutate', 'aug', 'yield', 'carry') and (any(c[0] == 'loop' and c[1] == e.a[0] for c in ev.ctx) or ev.kind == 'carry' and ev.a[0] == e.a[0])]
                ctx.need(bool(kept), R, f'{f.ref} {"rules" if it is me else it.a[1]} kept', p.where(), 'a rule or a declaration is left out')
            for ev in p.events:
                if ev.kind == 'mutate' and ev.a[1] == 'append' and any(c[0] == 'loop' and c[1] == e.a[0] for c in ev.ctx) and len(ev.a) > 2 and it is me:
                    ps = merge(flat_text(ev.a[2]))
                    ctx.need(isinstance(ps[-1], str) and ps[-1].rstrip().endswith('.'), R, f'{f.ref} rule end', ev.where, 'a rule is not ended')
    ctx.floor(n, 1, 'ways to print a program')


def noloop(v):
    v = seq(v)
    return v


def joins_loop(p, v, k):
    if not is_call(v, 'join') or not v.a[1]:
        return False
    o = v.a[1][0]
    return any(e.kind == 'mutate' and e.a[0] is o and any(c[0] == 'loop' and c[1] == k for c in e.ctx) for e in p.events)


# ------------------------------------------------------------------ the reader
def reader(ctx, m):
    R = 'reader'
    D = 'DynaTransformer.'
    n = 0
    # lists are built from the back
    for q, rest in (('list_pattern', False), ('list_pattern_rest', True)):
        f = m.func('dyna.syntax', D + q)
        xs = param(f, 1)
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            n += 1
            for e, done in loops_of(p):
                it = e.a[1]
                back = is_call(it, 'reversed') or (it.k == 'sub' and it.a[1].k == 'slice' and is_const(it.a[1].a[2], -1)) or (is_call(it, 'range') and len(it.a[1]) == 3)
                src = it.a[1][0] if is_call(it, 'reversed') else it.a[0] if it.k == 'sub' else None
                for c in p.events:
                    if c.kind == 'carry' and c.a[0] == e.a[0] and isinstance(c.a[3], V) and is_call(c.a[3], 'Term'):
                        t = c.a[3].a[1]
                        ok = len(t) == 3 and is_const(t[0], '$cons') and t[1].k in ('sub', 'elem') and t[2] is c.a[2] or t[2].k == 'phi'
                        ctx.need(back and ok, R, f'{f.ref} order', e.where, 'the elements of a list are not read in the order in which they are written')
                        if rest and src is not None:
                            ctx.need(src.k == 'sub' and src.a[0] is xs and src.a[1].k == 'slice' and is_const(src.a[1].a[1], -1) and is_const(src.a[1].a[0], None, 0), R, f'{f.ref} elements', e.where,
                                     'an element of a list is left out, or its rest is taken for an element')
                        if not rest and src is not None:
                            ctx.need(src is xs, R, f'{f.ref} elements', e.where, 'an element of a list is left out')
                        init = c.a[2].a[2] if c.a[2].k == 'phi' and isinstance(c.a[2].a[2], V) else None
                        if init is not None:
                            good = init.k == 'sub' and init.a[0] is xs and is_const(init.a[1], -1) if rest else is_call(init, 'Term') and is_const(init.a[1][0], '$nil') and len(init.a[1]) == 1
                            ctx.need(good, R, f'{f.ref} rest', e.where, 'a list is not read with the right rest')
    # a chain of comparisons is the conjunction of the adjacent ones
    f = m.func('dyna.syntax', D + 'chained_compare')
    xs = param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return' or not consistent(p):
            continue
        ls = loops_of(p)
        if not ls:
            continue
        e = ls[0][0]
        it = e.a[1]
        cmps = [w for ev in p.events if ev.kind == 'call' for w in [ev.a[0]] if is_call(w, 'Term') and len(w.a[1]) == 3 and not is_const(w.a[1][0], ',')]
        step2 = is_call(it, 'range') and len(it.a[1]) == 3 and is_const(it.a[1][2], 2)
        odd = any(a.k == 'cmp' and a.a[0] == '==' and a.a[1].k == 'bin' and a.a[1].a[0] == '%' and is_const(a.a[1].a[2], 2) for a in p.facts) or any(a.k == 'bin' and a.a[0] == '%' and is_const(a.a[2], 2) for a in p.facts)
        if not is_call(it, 'range'):
            continue
        lo = it.a[1][0] if len(it.a[1]) > 1 else V('const', 0)
        ctx.need(is_const(lo, 0), R, f'{f.ref} first', e.where, 'the first comparison of a chain is dropped')
        hi = it.a[1][1] if len(it.a[1]) > 1 else it.a[1][0]
        ctx.need(hi.k == 'bin' and hi.a[0] == '-' and hi.a[2].k == 'const' and hi.a[2].a[0] in (1, 2) and is_call(hi.a[1], 'len'), R, f'{f.ref} last', e.where, 'the last comparison of a chain is dropped')
        ctx.need(step2 or odd, R, f'{f.ref} step', e.where, 'operators and operands of a chain of comparisons are confused')
        for w in cmps:
            offs = [offset(z) for z in w.a[1]]
            n += 1
            if None not in offs:
                ctx.need(offs == [1, 0, 2], R, f'{f.ref} operands', p.where(), 'a comparison of a chain does not compare adjacent operands in order')
        for c in p.events:
            if cmps and c.kind == 'carry' and c.a[0] == e.a[0] and isinstance(c.a[2], V) and is_const(c.a[2].a[2], None) and c.a[3] in cmps:
                first = any(b is False and a.k == 'cmp' and a.a[0] == '<' and is_const(a.a[1], 0) and a.a[2].k == 'idx' for a, b in p.facts.items()) or \
                    any(b is True and a.k == 'cmp' and a.a[0] == '==' and any(is_const(z, 0) for z in a.a[1:]) and any(z.k == 'idx' for z in a.a[1:]) for a, b in p.facts.items()) or \
                    any(b is False and a.k == 'idx' for a, b in p.facts.items()) or \
                    any(b is True and a.k == 'cmp' and a.a[0] == 'is' and a.a[1] is c.a[2] and is_const(a.a[2], None) for a, b in p.facts.items()) or any(b is False and a is c.a[2] for a, b in p.facts.items())
                ctx.need(first, R, f'{f.ref} kept', p.where(), 'the comparisons of a chain are not all kept')
        if cmps and is_call(p.value, 'Term') and is_const(p.value.a[1][0], ','):
            t = p.value.a[1]
            ctx.need(len(t) == 3 and t[1].k == 'phi' and t[2] in cmps, R, f'{f.ref} conjunction', p.where(), 'the comparisons of a chain are not all kept')
    # rules are read with their own variables, the head first and the subgoals in order
    f = m.func('dyna.syntax', D + 'rule')
    xs = param(f, 1)
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        ctx.need(is_call(v, 'fresh') or is_call(v, 'fresh') and recv(v) is not None, R, f'{f.ref} renamed', p.where(), 'two rules of a program share their variables')
        if is_call(v, 'fresh') and v.a[1] and is_call(v.a[1][0], 'Rule'):
            r = v.a[1][0]
            agg = any(b is True and a.k == 'cmp' and a.a[0] == 'in' for a, b in p.facts.items())
            h = r.a[1][0] if r.a[1] else NONE
            ctx.need((operand_index(h) == 0) if agg else h.k == 'sub' and h.a[0] is xs and is_const(h.a[1], 0), R, f'{f.ref} head', p.where(), 'the head of a rule is not what is written before the aggregator')
            for e in p.events:
                if e.kind == 'loop' and is_call(e.a[1], 'flatten'):
                    ctx.need(operand_index(e.a[1].a[1][0]) == 1, R, f'{f.ref} body', e.where, 'the body of a rule is not what is written after the aggregator')
    # quoted names lose exactly their quotes
    f = m.func('dyna.syntax', D + 'single_quote_functor')
    for p in ctx.paths(f):
        if p.kind == 'return' and p.value.k == 'sub' and p.value.a[1].k == 'slice':
            n += 1
            s = p.value.a[1].a
            ctx.need(is_const(s[0], 1) and is_const(s[1], -1), R, f'{f.ref} quotes', p.where(), 'a quoted name is not read without its quotes')
    # every anonymous variable is a new one
    f = m.func('dyna.syntax', D + 'anon_var')
    me = param(f, 0)
    for p in ctx.paths(f):
        if p.kind == 'return':
            n += 1
            sets = [e for e in p.events if e.kind in ('setattr', 'aug')]
            fresh_ = is_call(p.value, 'Var') and not p.value.a[1] or any(is_call(w, 'gen') for w in walk(p.value))
            inc = [w for w in walk(p.value) if w.k == 'bin' and w.a[0] == '+' and any(z.k == 'attr' and z.a[0] is me for z in w.a[1:] if isinstance(z, V))]
            ctx.need(fresh_ or (bool(inc) and bool(sets)), R, f'{f.ref} new', p.where(), 'two anonymous variables may be the same variable')
    # declarations
    f = m.func('dyna.program', '_parse')
    roles = {'input': 1, 'inputs': 1, 'params': 1, 'output': 2, 'outputs': 2}
    for p in ctx.paths(f):
        if p.kind != 'return' or not isinstance(p.value, V):
            continue
        c = p.st.contents
        parts = parts_of(p, p.value)
        if parts is None or len(parts) != 3:
            continue
        decl = any(a.k == 'cmp' and a.a[0] == '==' and any(is_const(z, '$declare') for z in a.a[1:]) and b is True for a, b in p.facts.items())
        plain_ = any(a.k == 'cmp' and a.a[0] == '==' and any(is_const(z, '$declare') for z in a.a[1:]) and b is False for a, b in p.facts.items())
        if not decl and not plain_:
            continue
        kinds = {a.a[1] for a in p.facts if a.k == 'cmp' and a.a[0] in ('in', '==') and a.a[1].k == 'attr' and a.a[1].a[1] == 'fn' and not any(is_const(z, '$declare') for z in a.a[1:])}
        adds = [ev for ev in p.events if ev.kind == 'mutate' and ev.a[1] in ('extend', 'append', 'iadd') and any(z[0] == 'loop' for z in ev.ctx)]
        tgts = {ev.a[0]: ev for ev in adds}
        tgts = {o: ev for o, ev in tgts.items() if any(reaches(p, z, o) for z in parts) or not any(reaches(p, ev2.a[2], o) for ev2 in adds if ev2.a[0] is not o and len(ev2.a) > 2)}
        if plain_ and not decl:
            n += 1
            if not tgts or not loops_of(p):
                continue
            ctx.need(all(reaches(p, parts[0], o) for o in tgts), R, f'{f.ref} rule kept', p.where(), 'a rule of the text is not a rule of the program')
            continue
        if len(kinds) != 1:
            continue
        kv = next(iter(kinds))
        for w, slot in roles.items():
            if not Ev(Dummy, p, {kv: w}).feasible():
                continue
            for o, ev in tgts.items():
                n += 1
                given = [b for a, b in p.facts.items() if a.k == 'cmp' and a.a[0] == 'is' and a.a[1] is param(f, slot) and is_const(a.a[2], None)]
                got = [k for k in (0, 1, 2) if reaches(p, parts[k], o)]
                empty = any(b is False and (a is o) for a, b in p.facts.items())
                side = 'inputs' if slot == 1 else 'outputs'
                if given and given[0] is True and not empty:
                    ctx.need(slot in got, R, f'{f.ref} {w}', ev.where, f'a declaration `{w}:` does not become one of the declared {side}')
                ctx.need(not (set(got) - {slot}), R, f'{f.ref} {w} only', ev.where, f'a declaration `{w}:` becomes something else than one of the declared {side}')
    ctx.floor(n, 12, 'callbacks of the reader')


class Dummy:
    g = {}


def offset(v):
    "position in a chain, relative to the loop index, of the element that `v` is"
    while True:
        if is_call(v, 'str') and v.a[1]:
            v = v.a[1][0]
        elif v.k == 'attr' and v.a[1] == 'value':
            v = v.a[0]
        else:
            break
    if v.k != 'sub':
        return None
    b, i = v.a
    base = 0
    if b.k == 'sub' and b.a[1].k == 'slice':
        lo = b.a[1].a[0]
        if i.k != 'const':
            return None
        return (lin(lo) or 0) + i.a[0] if lin(lo) is not None else None
    return lin(i)


def lin(v):
    if v.k == 'idx':
        return 0
    if v.k == 'bin' and v.a[0] == '+' and v.a[1].k == 'idx' and v.a[2].k == 'const':
        return v.a[2].a[0]
    return None


def parts_of(p, v):
    if v.k == 'tup':
        return v.a[1]
    if v.k == 'obj' and v in p.st.contents and p.st.contents[v][0] in ('list', 'tuple'):
        return p.st.contents[v][1]
    return None


def reaches(p, v, obj, depth=0):
    for w in walk(v):
        if w is obj:
            return True
        if w.k == 'obj' and w in p.st.contents and depth < 4 and any(isinstance(z, V) and reaches(p, z, obj, depth + 1) for z in p.st.contents[w][1]):
            return True
    return False
