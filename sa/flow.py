"""Path-sensitive value-flow analysis of one function at a time.

Enumerates the acyclic control-flow paths of a function (every loop body taken
zero times and once, with loop-carried variables widened to an opaque `phi`),
substituting definitions into uses so that each event on a path is described by
*values*, not by the spelling of temporaries.  Helper functions that the frozen
base inventory does not know (i.e. freshly extracted ones), nested functions,
and the helpers a rule asks for, are inlined, including generator helpers (their
consumer's loop body is spliced in at each `yield`) and context managers (the
`with` body is spliced in at the `yield`).

There is no solver: branch facts prune a path only when the very same atom was
already decided, or when an equality with a different constant was.
"""
import ast
import json
import os

from .model import Func, Class, Module, AnalysisError, _dotted
from .values import (V, Const, NONE, TRUE, FALSE, Call, Attr, Sub, Tup, is_const, fname,
                     walk, rewrite, is_call, carg, recv, show)

HERE = os.path.dirname(os.path.abspath(__file__))

_base = None


def base_names():
    "Names of functions that exist in the inventoried tree (module:qualname)."
    global _base
    if _base is None:
        with open(os.path.join(HERE, 'base_names.json')) as fh:
            _base = set(json.load(fh))
    return _base


class Event:
    __slots__ = ('kind', 'a', 'node', 'func', 'ctx', 'facts', 'prev', 'n', 'contents')

    def __init__(self, kind, a, node, func, ctx, facts, prev, contents):
        self.kind = kind
        self.a = a
        self.node = node
        self.func = func
        self.ctx = ctx
        self.facts = facts
        self.prev = prev
        self.contents = contents
        self.n = 0 if prev is None else prev.n + 1

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    @property
    def where(self):
        return f'{self.func.mod.relpath}:{self.line}'

    def res(self, v):
        return resolve(v, self.contents)

    def loops(self):
        return [c for c in self.ctx if c[0] == 'loop']

    def __repr__(self):
        return f'{self.kind}{tuple(self.a)}@{self.line}'


class St:
    __slots__ = ('frames', 'frame', 'func', 'heap', 'contents', 'facts', 'ev', 'ctx', 'yh', 'stack', 'ids', 'cls', 'pend')

    def copy(self, **kw):
        s = St.__new__(St)
        for k in St.__slots__:
            setattr(s, k, getattr(self, k))
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def get(self, name):
        f = self.frame
        while f is not None:
            env, parent = self.frames[f]
            if name in env:
                return env[name]
            f = parent
        return None

    def set(self, name, v, frame=None):
        f = self.frame if frame is None else frame
        env, parent = self.frames[f]
        env = dict(env)
        env[name] = v
        frames = dict(self.frames)
        frames[f] = (env, parent)
        return self.copy(frames=frames)

    def set_nonlocal(self, name, v):
        f = self.frames[self.frame][1]
        while f is not None:
            env, parent = self.frames[f]
            if name in env:
                return self.set(name, v, f)
            f = parent
        return self

    def fact(self, atom, val):
        facts = dict(self.facts)
        facts[atom] = val
        return self.copy(facts=facts)

    def emit(self, kind, a, node):
        e = Event(kind, a, node, self.func, self.ctx, self.facts, self.ev, self.contents)
        return self.copy(ev=e)

    def fresh(self):
        return self.ids, self.copy(ids=self.ids + 1)


class Path:
    def __init__(self, out, st, fn):
        self.out = out
        self.st = st
        self.fn = fn
        ev = []
        e = st.ev
        while e is not None:
            ev.append(e)
            e = e.prev
        ev.reverse()
        self.events = ev
        self.facts = st.facts

    @property
    def kind(self):
        return self.out[0]

    @property
    def value(self):
        return self.out[1] if len(self.out) > 1 else None

    def res(self, v):
        return resolve(v, self.st.contents)

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and (not names or fname(e.a[0].a[0]) in names)]

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def where(self):
        return ' -> '.join(f'{e.line}' for e in self.events if e.kind == 'cond') or f'{self.fn.node.lineno}'

    def __repr__(self):
        return f'Path({self.out}, {self.events})'


def resolve(v, contents, depth=0):
    if depth > 8 or not any(x.k == 'obj' for x in walk(v)):
        return v

    def f(x):
        if x.k == 'obj' and x in contents:
            kind, items = contents[x]
            if kind == 'dict':
                return V('dict', tuple((resolve(p, {k: c for k, c in contents.items() if k is not x}, depth + 1) if p is not None else None,
                                        resolve(q, {k: c for k, c in contents.items() if k is not x}, depth + 1)) for p, q in items))
            rest = {k: c for k, c in contents.items() if k is not x}
            return Tup(kind, [resolve(i, rest, depth + 1) for i in items])
        return x
    return rewrite(v, f)


PURE_DISTINCT = {'gen_functor', 'gen', 'fresh', 'Var', 'next', 'pop', 'gensym', 'object', 'time',
                 'defaultdict', 'Counter', 'OrderedDict', 'deque'}

CONSUMERS = {'list': 'list', 'tuple': 'tuple', 'set': 'set', 'frozenset': 'set', 'sorted': 'list',
             'OrderedSet': 'set', 'Product': 'tuple', 'FrozenBag': 'tuple'}

EXCL = [{'Var', 'Term'}, {'Var', 'tuple'}, {'Var', 'list'}, {'Var', 'str'}, {'Var', 'int'}, {'Term', 'str'},
        {'Term', 'int'}, {'Term', 'list'}, {'Term', 'tuple'}, {'Var', 'Rule'}, {'Var', 'Program'}, {'Var', 'bool'},
        {'int', 'Program'}, {'int', 'Rule'}, {'Var', 'Product'}, {'Term', 'Product'}, {'Var', 'Subst'}, {'Var', 'Stream'}]
SUBS = {('Rule', 'Term'), ('Product', 'tuple'), ('bool', 'int'), ('FoldedRule', 'Term'), ('FoldedRule', 'Rule')}


NEVER_NONE = {'len', 'list', 'tuple', 'set', 'dict', 'sorted', 'str', 'repr', 'int', 'float', 'range', 'enumerate', 'zip', 'frozenset', 'abs', 'isinstance'}
FRESH_CONTAINERS = {'defaultdict', 'dict', 'list', 'set', 'Counter', 'OrderedDict', 'deque', 'bytearray'}


class Limit(Exception):
    pass


class Flow:
    """Analyse `func`.

    inline: set of refs / names of base functions to inline in addition to new ones.
    opaque: names never inlined.
    """

    def __init__(self, model, inline=(), opaque=(), max_paths=60000, max_depth=12, cls=None,
                 loop2=False, implicit_exc=True, presume=None, no_phi=False, inline_all_private=False):
        self.m = model
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.force_cls = cls
        self.implicit_exc = implicit_exc
        self.presume = presume      # callable(atom, st) -> True/False/None : environment assumptions
        self.no_phi = no_phi
        self.inline_all_private = inline_all_private
        self.lams = {}
        self.npaths = 0
        self.steps = 0
        self.inlined = set()
        self._callcount = {}

    # ------------------------------------------------------------------ driver
    def paths(self, func, args=None, facts=None, frame_env=None):
        node = func.node
        st = St.__new__(St)
        st.frames = {0: ({}, None)}
        st.frame = 0
        st.func = func
        st.heap = {}
        st.contents = {}
        st.facts = dict(facts or {})
        st.ev = None
        st.ctx = ()
        st.yh = ()
        st.stack = (func.node,)
        st.ids = 1
        st.cls = self.force_cls or func.cls
        st.pend = ()
        env = dict(frame_env or {})
        a = node.args
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            if x.arg not in env:
                env[x.arg] = V('param', func.ref, x.arg, i)
        if a.vararg:
            env[a.vararg.arg] = V('param', func.ref, '*' + a.vararg.arg, -1)
        if a.kwarg:
            env[a.kwarg.arg] = V('param', func.ref, '**' + a.kwarg.arg, -2)
        if args:
            env.update(args)
        st.frames = {0: (env, None)}
        out = []
        for o, s in self.block(node.body, st):
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Limit(f'{func.ref}: more than {self.max_paths} paths')
            if o[0] == 'next':
                o = ('return', NONE)
            out.append(Path(o, s, func))
        return out

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        if not stmts:
            yield ('next',), st
            return
        for o, s in self.stmt(stmts[0], st):
            if o[0] == 'next':
                if len(stmts) == 1:
                    yield o, s
                else:
                    yield from self.block(stmts[1:], s)
            else:
                yield o, s

    def stmt(self, n, st):
        self.steps += 1
        if self.steps > 3000000:
            raise Limit(f'{st.func.ref}: step budget exhausted')
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            yield ('next',), st
            return
        yield from m(n, st)

    def s_Pass(self, n, st):
        yield ('next',), st

    s_Global = s_Import = s_ImportFrom = s_Pass

    def s_Nonlocal(self, n, st):
        env, parent = st.frames[st.frame]
        nl = env.get('$nonlocal', ())
        yield ('next',), st.set('$nonlocal', nl + tuple(n.names))

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            yield ('next',), st
            return
        for v, s in self.expr(n.value, st):
            if isinstance(v, tuple):      # exceptional outcome
                yield v, s
            else:
                yield ('next',), s

    def pointwise(self, n):
        "`a, b = (e for x in xs)` / `map(f, xs)`  ==>  x0, x1 = xs; a = e[x0]; b = e[x1]."
        if len(n.targets) != 1 or not isinstance(n.targets[0], (ast.Tuple, ast.List)):
            return None
        elts = n.targets[0].elts
        if any(isinstance(e, ast.Starred) for e in elts):
            return None
        v = n.value
        while isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'tuple') and len(v.args) == 1 and not v.keywords:
            v = v.args[0]
        if isinstance(v, (ast.GeneratorExp, ast.ListComp)) and len(v.generators) == 1:
            g = v.generators[0]
            if g.ifs or g.is_async or not isinstance(g.target, ast.Name):
                return None
            it = g.iter
            mk = lambda x: ast.Call(func=ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=v.elt), args=[x], keywords=[])
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'map' and len(v.args) == 2 and not v.keywords and isinstance(v.args[0], (ast.Name, ast.Attribute)):
            it = v.args[1]
            fn = v.args[0]
            mk = lambda x: ast.Call(func=fn, args=[x], keywords=[])
        else:
            return None
        if isinstance(it, (ast.Tuple, ast.List, ast.GeneratorExp, ast.ListComp)):
            if isinstance(it, (ast.GeneratorExp, ast.ListComp)) or len(it.elts) != len(elts):
                return None
        names = [f'$pw{n.lineno}_{k}' for k in range(len(elts))]
        out = [ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())], value=it)]
        out += [ast.Assign(targets=[t], value=mk(ast.Name(id=x, ctx=ast.Load()))) for t, x in zip(elts, names)]
        for a in out:
            for w in ast.walk(a):
                if not hasattr(w, 'lineno'):
                    ast.copy_location(w, n)
        return out

    def s_Assign(self, n, st):
        pw = getattr(n, '_pointwise', 0)
        if pw == 0:
            pw = n._pointwise = self.pointwise(n)
        if pw is not None:
            yield from self.block(pw, st)
            return
        for v, s in self.expr(n.value, st):
            if isinstance(v, tuple):
                yield v, s
                continue
            outs = [s]
            for t in n.targets:
                outs = [s3 for s2 in outs for s3 in self.assign(t, v, s2, n)]
            for s2 in outs:
                yield ('next',), s2

    def s_AnnAssign(self, n, st):
        if n.value is None:
            yield ('next',), st
            return
        for v, s in self.expr(n.value, st):
            if isinstance(v, tuple):
                yield v, s
                continue
            for s2 in self.assign(n.target, v, s, n):
                yield ('next',), s2

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}

    def s_AugAssign(self, n, st):
        load = ast.copy_location({ast.Name: lambda t: ast.Name(id=t.id, ctx=ast.Load()),
                                  ast.Attribute: lambda t: ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()),
                                  ast.Subscript: lambda t: ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())}[type(n.target)](n.target), n.target)
        for (cur, rhs), s in self.exprs([load, n.value], st):
            if cur is None:
                yield rhs, s
                continue
            op = self.OPS[type(n.op)]
            if cur.k == 'obj' and cur in s.contents and op in ('+', '|'):
                items = self._items(rhs, s)
                kind, c = s.contents[cur]
                s = self._setc(s, cur, (kind, c + tuple(items)))
                s = s.emit('mutate', (cur, 'iadd', rhs), n)
                for s2 in self.assign(n.target, cur, s, n):
                    yield ('next',), s2
                continue
            v = self.binop(op, cur, rhs)
            s = s.emit('aug', (op, cur, rhs), n)
            for s2 in self.assign(n.target, v, s, n):
                yield ('next',), s2

    def _items(self, v, st):
        if v.k == 'obj' and v in st.contents:
            return st.contents[v][1]
        if v.k == 'tup':
            return v.a[1]
        return (V('star', v),)

    def _setc(self, st, obj, c):
        d = dict(st.contents)
        d[obj] = c
        return st.copy(contents=d)

    def s_Return(self, n, st):
        if n.value is None:
            yield ('return', NONE), st.emit('return', (NONE,), n)
            return
        for v, s in self.expr(n.value, st):
            if isinstance(v, tuple):
                yield v, s
            else:
                yield ('return', v), s.emit('return', (v,), n)

    def s_Raise(self, n, st):
        if n.exc is None:
            yield ('raise', V('name', '$reraise')), st.emit('raise', (V('name', '$reraise'),), n)
            return
        for v, s in self.expr(n.exc, st):
            if isinstance(v, tuple):
                yield v, s
            else:
                yield ('raise', v), s.emit('raise', (v,), n)

    def s_Assert(self, n, st):
        for b, s in self.branch(n.test, st):
            if isinstance(b, tuple):
                yield b, s
            elif b:
                yield ('next',), s.emit('assert', (True,), n)
            else:
                v = Call(V('name', 'AssertionError'), ())
                yield ('raise', v), s.emit('raise', (v,), n)

    def s_Break(self, n, st):
        yield ('break',), st

    def s_Continue(self, n, st):
        yield ('continue',), st

    def s_Delete(self, n, st):
        outs = [st]
        for t in n.targets:
            nxt = []
            for s in outs:
                if isinstance(t, ast.Name):
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for b, s2 in self.expr(t.value, s):
                        if not isinstance(b, tuple):
                            nxt.append(s2.emit('delattr', (b, t.attr), n))
                elif isinstance(t, ast.Subscript):
                    for (b, i), s2 in self.exprs([t.value, t.slice], s):
                        if b is not None:
                            nxt.append(s2.emit('delitem', (b, i), n))
            outs = nxt
        for s in outs:
            yield ('next',), s

    def s_If(self, n, st):
        for b, s in self.branch(n.test, st):
            if isinstance(b, tuple):
                yield b, s
            else:
                yield from self.block(n.body if b else n.orelse, s)

    def s_FunctionDef(self, n, st):
        i, st = st.fresh()
        lam = V('lam', n.name, i)
        self.lams[lam] = (n, st.frame, st.func, st.cls)
        yield ('next',), st.set(n.name, lam)

    def s_ClassDef(self, n, st):
        yield ('next',), st.set(n.name, V('name', n.name))

    # -- loops
    def assigned(self, stmts):
        names, attrs = set(), set()

        def tgt(t):
            if isinstance(t, ast.Name):
                names.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    tgt(e)
            elif isinstance(t, ast.Starred):
                tgt(t.value)
            elif isinstance(t, ast.Attribute):
                attrs.add(t.attr)
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        tgt(t)
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                    tgt(x.target)
                elif isinstance(x, ast.For):
                    tgt(x.target)
                elif isinstance(x, ast.NamedExpr):
                    tgt(x.target)
                elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                    tgt(x.optional_vars)
        return names, attrs

    def widen(self, st, stmts, loopid):
        if self.no_phi:
            return st
        names, attrs = self.assigned(stmts)
        env, parent = st.frames[st.frame]
        env = dict(env)
        for x in sorted(names):
            if x in env:
                v = env[x]
                if v.k == 'obj' and v in st.contents:
                    continue
                env[x] = V('phi', loopid, x, v)
        frames = dict(st.frames)
        frames[st.frame] = (env, parent)
        heap = {k: v for k, v in st.heap.items() if k[1] not in attrs}
        return st.copy(frames=frames, heap=heap)

    def grow(self, st, stmts):
        "Local collections that the loop changes no longer have the elements of their display."
        env = st.frames[st.frame][0]
        more = {}
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.attr in ('append', 'add', 'extend', 'update', 'insert', 'pop', 'remove', 'clear', 'discard', 'setdefault', 'appendleft'):
                    n = x.value.id
                elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and not isinstance(x.ctx, ast.Load):
                    n = x.value.id
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    n = x.target.id
                else:
                    continue
                v = env.get(n)
                if isinstance(v, V) and v.k == 'obj' and v in st.contents:
                    more[V('grown', v)] = True
        return st.copy(contents={**st.contents, **more}) if more else st

    def carries(self, pre, st, i, node):
        "Record what an iteration hands on to the next one in each re-assigned local."
        frame = pre.frame
        env = st.frames[frame][0]
        for x, ph in sorted(pre.frames[frame][0].items()):
            if isinstance(ph, V) and ph.k == 'phi' and ph.a[0] == i and x in env and env[x] is not ph:
                st = st.emit('carry', (i, x, ph, env[x]), node)
        return st

    def s_For(self, n, st):
        for itv, s in self.expr(n.iter, st, lazy=True):
            if isinstance(itv, tuple):
                yield itv, s
                continue
            yield from self.for_over(itv, s, n, n.target, n.body, n.orelse)

    def for_over(self, itv, st, node, target, body, orelse):
        def handler(v, s):
            for s2 in self.assign(target, v, s, node):
                yield from self.block(body, s2)
        yield from self.consume(itv, st, node, handler, body, orelse)

    def consume(self, itv, st, node, handler, body=(), orelse=(), ret=False):
        """Drive `handler(value, st)` over the elements of `itv`."""
        frame, func, yh, stack, cls = st.frame, st.func, st.yh, st.stack, st.cls
        i, st = st.fresh()

        def finish(s, broke=False):
            s = s.copy(frame=frame, func=func, yh=yh, stack=stack, cls=cls)
            s = s.emit('loopend', (i, broke), node)
            if not broke and orelse:
                yield from self.block(list(orelse), s)
            else:
                yield ('next',), s

        # literal iterables are unrolled
        lit = self.literal_items(itv, st)
        if lit is not None and len(lit) <= 16:
            def unroll(k, s):
                if k == len(lit):
                    yield from finish(s)
                    return
                s0 = s.copy(ctx=s.ctx + (('unroll', i, itv),))
                for o, s2 in handler(lit[k], s0):
                    s2 = s2.copy(ctx=s2.ctx[:-1])
                    if o[0] in ('next', 'continue'):
                        yield from unroll(k + 1, s2)
                    elif o[0] == 'break':
                        yield from finish(s2, True)
                    else:
                        yield o, s2
            yield from unroll(0, st)
            return

        # inlinable generator call / generator expression
        gen = self.inlinable_gen(itv, st)
        if gen is not None:
            def gh(v, s):
                s0 = s.copy(frame=frame, func=func, yh=yh, stack=stack, cls=cls)
                save = (s.frame, s.func, s.yh, s.stack, s.cls)
                s0 = self.widen(s0, body, i)
                s0 = s0.copy(ctx=s0.ctx + (('loop', i, itv, node),))
                s0 = s0.emit('loop', (i, itv), node)
                for o, s2 in handler(v, s0):
                    s2 = s2.copy(ctx=s.ctx)
                    if o[0] in ('next', 'continue'):
                        s2 = self.carries(s0, s2, i, node)
                        yield ('next',), s2.copy(frame=save[0], func=save[1], yh=save[2], stack=save[3], cls=save[4])
                    else:
                        yield ('close', i, o), s2.copy(frame=save[0], func=save[1], yh=save[2], stack=save[3], cls=save[4])
            ctx0 = st.ctx
            for o, s in gen(gh, st):
                s = s.copy(ctx=ctx0)
                if ret and o[0] == 'return' and len(o) > 1 and isinstance(o[1], V):
                    for o2, s2 in finish(s):
                        yield (('value', o[1]) if o2[0] == 'next' else o2), s2
                elif o[0] in ('next', 'return'):
                    yield from finish(s)
                elif o[0] == 'close' and o[1] == i:
                    if o[2][0] == 'break':
                        yield from finish(s, True)
                    else:
                        yield o[2], s.copy(frame=frame, func=func, yh=yh, stack=stack, cls=cls)
                else:
                    yield o, s.copy(frame=frame, func=func, yh=yh, stack=stack, cls=cls)
            return

        # ordinary iterable: zero iterations, then one
        yield from finish(st.emit('loop0', (i, itv), node))
        s = self.widen(st, body, i)
        elt = self.element(itv, i, s)
        s = s.copy(ctx=s.ctx + (('loop', i, itv, node),))
        s = s.emit('loop', (i, itv), node)
        for o, s2 in handler(elt, s):
            s2 = s2.copy(ctx=st.ctx)
            if o[0] in ('next', 'continue'):
                s2 = self.carries(s, s2, i, node)
                yield from finish(s2)
            elif o[0] == 'break':
                yield from finish(s2, True)
            else:
                yield o, s2

    def literal_items(self, v, st):
        if v.k == 'tup' and not any(x.k == 'star' for x in v.a[1]):
            return list(v.a[1])
        if v.k == 'obj' and v in st.contents and V('grown', v) not in st.contents:
            kind, items = st.contents[v]
            if kind == 'dict':
                if all(p is not None for p, _ in items) and not v.a[0].startswith('comp'):
                    return [p for p, _ in items]
                return None
            if len(v.a) > 2 and v.a[2] == 'lit' and not any(x.k == 'star' for x in items) and st.contents[v] == v.a[3]:
                return list(items)
        if is_call(v, 'reversed') and len(v.a[1]) == 1:
            r = self.literal_items(v.a[1][0], st)
            return None if r is None else list(reversed(r))
        if is_call(v, 'range') and all(x.k == 'const' and isinstance(x.a[0], int) for x in v.a[1]):
            try:
                return [Const(x) for x in range(*[x.a[0] for x in v.a[1]])][:17]
            except (TypeError, ValueError):
                return None
        if is_call(v, 'enumerate') and len(v.a[1]) == 1:
            r = self.literal_items(v.a[1][0], st)
            return None if r is None else [Tup('tuple', [Const(i), x]) for i, x in enumerate(r)]
        return None

    def element(self, it, i, st):
        if it.k == 'call':
            f = fname(it.a[0])
            xs = it.a[1]
            if f == 'enumerate' and xs and it.a[0].k == 'name':
                base = xs[0]
                return Tup('tuple', [V('idx', i, base), self.element_at(base, i, st)])
            if f == 'zip' and it.a[0].k == 'name' and not any(x.k == 'star' for x in xs):
                return Tup('tuple', [self.element_at(x, i, st) for x in xs])
            if f == 'range' and it.a[0].k == 'name':
                if len(xs) == 1 and is_call(xs[0], 'len') and len(xs[0].a[1]) == 1:
                    return V('idx', i, xs[0].a[1][0])
                return V('idx', i, it)
            if f == 'items' and it.a[0].k == 'attr' and not xs:
                d = it.a[0].a[0]
                k = V('key', d, i)
                return Tup('tuple', [k, Sub(d, k)])
            if f == 'values' and it.a[0].k == 'attr' and not xs:
                d = it.a[0].a[0]
                return Sub(d, V('key', d, i))
            if f == 'keys' and it.a[0].k == 'attr' and not xs:
                return V('key', it.a[0].a[0], i)
            if f == 'map' and it.a[0].k == 'name' and len(xs) == 2:
                pass
            if f in ('list', 'tuple', 'iter') and it.a[0].k == 'name' and len(xs) == 1:
                return self.element(xs[0], i, st)
            if f == 'reversed' and it.a[0].k == 'name' and len(xs) == 1:
                e = self.element(xs[0], i, st)
                return e
        return self.element_at(it, i, st)

    def element_at(self, it, i, st):
        if it.k == 'obj' and it in st.contents:
            kind, items = st.contents[it]
            if kind == 'dict':
                if len(items) == 1 and items[0][0] is not None:
                    return items[0][0]
            elif len(items) == 1 and items[0].k != 'star':
                return items[0]
        if it.k == 'call' and fname(it.a[0]) in ('reversed', 'sorted', 'list', 'tuple', 'iter') and it.a[0].k == 'name' and len(it.a[1]) >= 1 and it.a[1][0].k != 'star':
            return self.element(it.a[1][0], i, st) if fname(it.a[0]) != 'sorted' else V('elem', it, i)
        return Sub(it, V('idx', i, it))

    def s_While(self, n, st):
        frame_ctx = st.ctx
        i, st = st.fresh()
        for b, s in self.branch(n.test, st):
            if isinstance(b, tuple):
                yield b, s
            elif not b:
                s = s.emit('loop0', (i, None), n).emit('loopend', (i, False), n)
                yield from (self.block(n.orelse, s) if n.orelse else [(('next',), s)])
        s0 = self.grow(self.widen(st, n.body, i), n.body)
        for b, s in self.branch(n.test, s0):
            if isinstance(b, tuple):
                continue
            if not b:
                continue
            s = s.copy(ctx=frame_ctx + (('loop', i, None, n),))
            s = s.emit('loop', (i, None), n)
            for o, s2 in self.block(n.body, s):
                s2 = s2.copy(ctx=frame_ctx)
                if o[0] in ('next', 'continue'):
                    s2 = self.carries(s, s2, i, n)
                    if isinstance(n.test, ast.Constant) and n.test.value:
                        yield ('backedge',), s2
                        continue
                    # leave the loop: the test has become false (facts about phi
                    # values of the test are not re-decided here)
                    s2 = self._drop_test(s2, n.test)
                    s2 = s2.emit('loopend', (i, False), n)
                    yield from (self.block(n.orelse, s2) if n.orelse else [(('next',), s2)])
                elif o[0] == 'break':
                    yield ('next',), s2.emit('loopend', (i, True), n)
                else:
                    yield o, s2

    def _drop_test(self, st, test):
        return st

    # -- with / try
    def s_With(self, n, st):
        yield from self.with_items(n.items, n, st)

    def with_items(self, items, n, st):
        if not items:
            yield from self.block(n.body, st)
            return
        it = items[0]
        for v, s in self.expr(it.context_expr, st, lazy=True):
            if isinstance(v, tuple):
                yield v, s
                continue
            cm = self.inlinable_cm(v, s)
            if cm is not None:
                i, s = s.fresh()
                frame, func, yh, stack, cls = s.frame, s.func, s.yh, s.stack, s.cls
                ctx0 = s.ctx

                def handler(val, s1, save_i=i):
                    save = (s1.frame, s1.func, s1.yh, s1.stack, s1.cls)
                    s2 = s1.copy(frame=frame, func=func, yh=yh, stack=stack, cls=cls)
                    outs = [s2] if it.optional_vars is None else list(self.assign(it.optional_vars, val, s2, n))
                    for s3 in outs:
                        for o, s4 in self.with_items(items[1:], n, s3):
                            s4 = s4.copy(ctx=s1.ctx)
                            back = dict(frame=save[0], func=save[1], yh=save[2], stack=save[3], cls=save[4])
                            if o[0] == 'raise':
                                yield o, s4.copy(**back)
                            else:
                                s4 = s4.copy(pend=s4.pend + ((save_i, o),), **back)
                                yield ('next',), s4
                for o, s1 in cm(handler, s):
                    s1 = s1.copy(frame=frame, func=func, yh=yh, stack=stack, cls=cls, ctx=ctx0)
                    if o[0] in ('next', 'return'):
                        p = [q for q in s1.pend if q[0] == i]
                        if p:
                            s1 = s1.copy(pend=tuple(q for q in s1.pend if q[0] != i))
                            yield p[-1][1], s1
                        else:
                            yield ('next',), s1      # suppressed exception
                    else:
                        yield o, s1
                continue
            s = s.emit('with', (v,), n)
            ctx0 = s.ctx
            s = s.copy(ctx=ctx0 + (('with', v, n),))
            val = V('enter', v)
            outs = [s] if it.optional_vars is None else list(self.assign(it.optional_vars, val, s, n))
            for s2 in outs:
                for o, s3 in self.with_items(items[1:], n, s2):
                    s3 = s3.copy(ctx=ctx0).emit('withend', (v, o[0]), n)
                    yield o, s3

    def s_Try(self, n, st):
        ctx0 = st.ctx
        hids = tuple(_dotted(t) for h in n.handlers for t in
                     ((h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if h.type is not None else [])) \
            + (('*',) if any(h.type is None for h in n.handlers) else ())
        inner = ctx0 + (('try', n, hids),)

        def fin(o, s):
            s = s.copy(ctx=ctx0)
            if not n.finalbody:
                yield o, s
                return
            s = s.copy(ctx=ctx0 + (('finally', n),))
            for o2, s2 in self.block(n.finalbody, s):
                s2 = s2.copy(ctx=ctx0)
                yield (o if o2[0] == 'next' else o2), s2

        def handlers(s, exc):
            "Run the matching handlers for exception value `exc` (None: unknown)."
            matched_all = False
            for h in n.handlers:
                if matched_all:
                    break
                m = self.exc_match(h.type, exc, s)
                if m is False:
                    continue
                s1 = s.copy(ctx=ctx0 + (('except', n, h),) if not n.finalbody else ctx0 + (('try', n, ()), ('except', n, h)))
                s1 = s1.emit('except', (V('name', ast.unparse(h.type) if h.type else '*'),), h)
                if h.name:
                    s1 = s1.set(h.name, exc if exc is not None else V('unk', 'exc', id(h)))
                for o, s2 in self.block(h.body, s1):
                    if o[0] == 'raise' and is_reraise(o[1]):
                        o = ('raise', exc if exc is not None else V('name', '$reraise'))
                    yield from fin(o, s2)
                if m is True:
                    matched_all = True
            if not matched_all and exc is not None:
                yield from fin(('raise', exc), s)

        # normal / explicit outcomes
        for o, s in self.block(n.body, st.copy(ctx=inner)):
            if o[0] == 'raise' and n.handlers:
                yield from handlers(s.copy(ctx=ctx0), o[1])
            elif o[0] == 'next' and n.orelse:
                for o2, s2 in self.block(n.orelse, s.copy(ctx=inner)):
                    yield from fin(o2, s2)
            else:
                yield from fin(o, s)
        # implicit exceptions: raised by some statement of the body
        if n.handlers and self.implicit_exc:
            for k in range(len(n.body)):
                if not any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Yield, ast.YieldFrom, ast.For, ast.Compare, ast.Assign))
                           for x in ast.walk(n.body[k])):
                    continue
                for o, s in self.block(n.body[:k], st.copy(ctx=inner)):
                    if o[0] == 'next':
                        s = s.emit('implicit', (k,), n.body[k])
                        yield from handlers(s.copy(ctx=ctx0), None)

    s_TryStar = s_Try

    def exc_match(self, type_node, exc, st):
        "True: certainly handled; False: certainly not; None: maybe."
        if type_node is None:
            return True
        if exc is None:
            return None
        n = fname(exc.a[0]) if exc.k == 'call' else fname(exc)
        names = [_dotted(t) for t in (type_node.elts if isinstance(type_node, ast.Tuple) else [type_node])]
        names = [x.rsplit('.', 1)[-1] if x else None for x in names]
        if n is None or n.startswith('$'):
            return None
        if n in names or 'BaseException' in names:
            return True
        if 'Exception' in names and n not in ('KeyboardInterrupt', 'GeneratorExit', 'SystemExit'):
            return True
        r = self.m.resolve(st.func.mod, n)
        if isinstance(r, Class):
            anc = set()
            for c in self.m.mro(r):
                anc.add(c.name)
                anc.update(b.rsplit('.', 1)[-1] for b in c.bases if b)
            if anc & set(names):
                return True
        return False

    def s_Match(self, n, st):
        # `match` statement: treat every case as a possible branch
        for v, s in self.expr(n.subject, st):
            if isinstance(v, tuple):
                yield v, s
                continue
            for c in n.cases:
                s2 = s
                if isinstance(c.pattern, ast.MatchValue):
                    for (cv,), s3 in self.exprs([c.pattern.value], s):
                        atom, pol = self.norm_cmp('==', v, cv)
                        if self.decide(atom, s3) in (None, pol):
                            yield from self.block(c.body, s3.fact(atom, pol))
                            s = s.fact(atom, not pol)
                else:
                    yield from self.block(c.body, s2)

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            env, _ = st.frames[st.frame]
            if t.id in env.get('$nonlocal', ()):
                yield st.set_nonlocal(t.id, v)
            else:
                yield st.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            stars = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
            vals = None
            rv = v
            if rv.k == 'obj' and rv in st.contents and st.contents[rv][0] != 'dict' and not any(x.k == 'star' for x in st.contents[rv][1]) and len(rv.a) > 2:
                items = list(st.contents[rv][1])
            elif rv.k == 'tup' and not any(x.k == 'star' for x in rv.a[1]):
                items = list(rv.a[1])
            else:
                items = None
            if items is not None:
                if not stars and len(items) == len(elts):
                    vals = items
                elif stars and len(items) >= len(elts) - 1:
                    k = stars[0]
                    r = len(elts) - k - 1
                    vals = items[:k] + [Tup('list', items[k:len(items) - r])] + items[len(items) - r:]
            if vals is None:
                vals = []
                for k, e in enumerate(elts):
                    if isinstance(e, ast.Starred):
                        hi = len(elts) - k - 1
                        vals.append(Sub(v, V('slice', Const(k) if k else NONE, Const(-hi) if hi else NONE, NONE)))
                    elif stars and k > stars[0]:
                        vals.append(Sub(v, Const(k - len(elts))))
                    else:
                        vals.append(Sub(v, Const(k)))
                st = st.emit('unpack', (v, len(elts)), node)
            outs = [st]
            for e, x in zip(elts, vals):
                outs = [s2 for s in outs for s2 in self.assign(e.value if isinstance(e, ast.Starred) else e, x, s, node)]
            yield from outs
        elif isinstance(t, ast.Attribute):
            for b, s in self.expr(t.value, st):
                if isinstance(b, tuple):
                    continue
                s = s.emit('setattr', (b, t.attr, v), node)
                heap = dict(s.heap)
                heap[(b, t.attr)] = v
                yield s.copy(heap=heap)
        elif isinstance(t, ast.Subscript):
            for (b, i), s in self.exprs([t.value, t.slice], st):
                if b is None:
                    continue
                s = s.emit('setitem', (b, i, v), node)
                if b.k == 'obj' and b in s.contents and s.contents[b][0] == 'dict':
                    s = self._setc(s, b, ('dict', s.contents[b][1] + ((i, v),)))
                heap = dict(s.heap)
                heap[(b, i)] = v
                yield s.copy(heap=heap)
        elif isinstance(t, ast.Starred):
            yield from self.assign(t.value, v, st, node)
        else:
            yield st

    # ------------------------------------------------------------------ conditions
    def branch(self, n, st):
        "Yield (bool, st) for each feasible truth value of expression `n`."
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)

            def go(k, s):
                for b, s2 in self.branch(n.values[k], s):
                    if isinstance(b, tuple):
                        yield b, s2
                    elif b != isand or k == len(n.values) - 1:
                        yield b, s2
                    else:
                        yield from go(k + 1, s2)
            yield from go(0, st)
            return
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            for b, s in self.branch(n.operand, st):
                yield (b if isinstance(b, tuple) else (not b)), s
            return
        if isinstance(n, ast.IfExp):
            for b, s in self.branch(n.test, st):
                if isinstance(b, tuple):
                    yield b, s
                else:
                    yield from self.branch(n.body if b else n.orelse, s)
            return
        if isinstance(n, ast.Compare) and len(n.ops) > 1:
            parts = []
            left = n.left
            for op, r in zip(n.ops, n.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[r]), n))
                left = r
            yield from self.branch(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), n), st)
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') \
                and len(n.args) == 1 and st.get(n.func.id) is None:
            yield from self.quant(n, st)
            return
        for v, s in self.expr(n, st):
            if isinstance(v, tuple):
                yield v, s
            else:
                yield from self.truth(v, s, n)

    def quant(self, n, st):
        want = n.func.id == 'any'
        for itv, s in self.expr(n.args[0], st, lazy=True):
            if isinstance(itv, tuple):
                yield itv, s
                continue

            def handler(v, s1):
                for b, s2 in self.truth(v, s1, n):
                    if b == want:
                        yield ('return', Const(want)), s2
                    else:
                        yield ('next',), s2
            ge = self.genexp_of(itv)
            if ge is not None:
                it = self._genexp_branch(ge, s, want, n)
            else:
                it = self.consume(itv, s, n, handler)
            for o, s2 in it:
                if o[0] == 'next':
                    yield (not want), s2
                elif o[0] == 'return':
                    yield want, s2.copy(ctx=s.ctx)
                else:
                    yield o, s2

    def _genexp_branch(self, ge, st, want, n):
        node, frame, func, cls = ge

        def inner(s):
            for b, s2 in self.branch(node.elt, s):
                if isinstance(b, tuple):
                    yield b, s2
                elif b == want:
                    yield ('return', Const(want)), s2
                else:
                    yield ('next',), s2
        yield from self.comp_loops(node.generators, st, inner, frame, func, cls)

    def comp_loops(self, gens, st, inner, frame, func, cls):
        """Run comprehension generators in a child frame of `frame`."""
        fid, st = st.fresh()
        frames = dict(st.frames)
        frames[fid] = ({}, frame)
        save = (st.frame, st.func, st.cls)
        st = st.copy(frames=frames, frame=fid, func=func, cls=cls)

        def level(k, s):
            if k == len(gens):
                yield from inner(s)
                return
            g = gens[k]
            for itv, s1 in self.expr(g.iter, s, lazy=True):
                if isinstance(itv, tuple):
                    yield itv, s1
                    continue

                def handler(v, s2):
                    for s3 in self.assign(g.target, v, s2, g.iter):
                        yield from ifs(0, s3)

                def ifs(j, s2):
                    if j == len(g.ifs):
                        yield from level(k + 1, s2)
                        return
                    for b, s3 in self.branch(g.ifs[j], s2):
                        if isinstance(b, tuple):
                            yield b, s3
                        elif b:
                            yield from ifs(j + 1, s3)
                        else:
                            yield ('next',), s3
                yield from self.consume(itv, s1, g.iter, handler)
        for o, s in level(0, st):
            yield o, s.copy(frame=save[0], func=save[1], cls=save[2])

    def truth(self, v, st, node):
        v = self.norm_bool(v, st)
        pol = True
        while v.k == 'un' and v.a[0] == 'not ':
            v = v.a[1]
            pol = not pol
        d = self.decide(v, st)
        if d is not None:
            yield (d == pol), st
            return
        for b in (True, False):
            s = st.fact(v, b)
            s = s.emit('cond', (v, b), node)
            yield (b == pol), s

    def norm_bool(self, v, st):
        if v.k == 'cmp':
            atom, pol = self.norm_cmp(*v.a)
            return atom if pol else V('un', 'not ', atom)
        if is_call(v, 'bool') and len(v.a[1]) == 1:
            return self.norm_bool(v.a[1][0], st)
        if is_call(v, 'len') and len(v.a[1]) == 1 and v.a[0].k == 'name':
            return v.a[1][0]
        return v

    def norm_cmp(self, op, a, b):
        "Canonical comparison atom and polarity."
        if op == '!=':
            x, p = self.norm_cmp('==', a, b)
            return x, not p
        if op == 'is not':
            x, p = self.norm_cmp('is', a, b)
            return x, not p
        if op == 'not in':
            return V('cmp', 'in', a, b), False
        if op == '>':
            return self.norm_cmp('<', b, a)
        if op == '>=':
            return self.norm_cmp('<=', b, a)
        ln = lambda x: x.a[1][0] if is_call(x, 'len') and len(x.a[1]) == 1 else None
        if op == '==':
            for x, y in ((a, b), (b, a)):
                if ln(x) is not None and is_const(y, 0):
                    return ln(x), False
            for x, y in ((a, b), (b, a)):
                if is_const(y, True) and x.k in ('cmp',):
                    return self.norm_cmp(*x.a)
                if is_const(y, False) and x.k in ('cmp',):
                    q, p = self.norm_cmp(*x.a)
                    return q, not p
        if op == '<':
            if is_const(a, 0) and ln(b) is not None:
                return ln(b), True
            if is_const(b, 1) and ln(a) is not None:
                return ln(a), False
        if op == '<=':
            if is_const(a, 1) and ln(b) is not None:
                return ln(b), True
            if is_const(b, 0) and ln(a) is not None:
                return ln(a), False
            x, p = self.norm_cmp('<', b, a)
            return x, not p
        if op in ('==', 'is'):
            if a.k == 'const' and b.k != 'const':
                a, b = b, a
            elif a.k != 'const' and b.k != 'const' and repr(b) < repr(a):
                a, b = b, a
        return V('cmp', op, a, b), True

    def decide(self, atom, st):
        if atom.k == 'const':
            try:
                return bool(atom.a[0])
            except Exception:
                return None
        if atom in st.facts:
            return st.facts[atom]
        if atom.k == 'un' and atom.a[0] == 'not ':
            d = self.decide(atom.a[1], st)
            return None if d is None else not d
        if atom.k == 'tup':
            if not any(x.k == 'star' for x in atom.a[1]):
                return len(atom.a[1]) > 0
        if atom.k in ('lam', 'fn', 'cls'):
            return True
        if atom.k == 'cmp':
            op, a, b = atom.a
            if op == '==' and a is b and is_call(a, 'metric'):
                return None       # a distance may be nan
            if op in ('==', 'is') and a is b and a.k not in ('obj',) and not any(
                    x.k == 'call' and (x.a[0].k == 'cls' or fname(x.a[0]) in FRESH_CONTAINERS) for x in walk(a)):
                return True
            if op in ('==', 'is') and a.k == 'const' and b.k == 'const':
                return type(a.a[0]) is type(b.a[0]) and a.a[0] == b.a[0] or a.a[0] is b.a[0]
            if op in ('is', '==') and b.k == 'const' and (b is NONE or b.a[0] is Ellipsis):
                if a.k in ('obj', 'tup', 'lam', 'fstr', 'bin', 'un', 'cmp', 'dict', 'cls', 'fn') or (a.k == 'call' and (a.a[0].k == 'cls' or (a.a[0].k == 'name' and a.a[0].a[0] in NEVER_NONE))):
                    return False
            if op in ('==', 'is') and b.k == 'const':
                for f, val in st.facts.items():
                    if val and f.k == 'cmp' and f.a[0] in ('==', 'is') and f.a[1] is a and f.a[2].k == 'const' and f.a[2] is not b:
                        return False
                    if val and f.k == 'cmp' and f.a[0] == 'in' and f.a[1] is a and f.a[2].k in ('tup',) \
                            and all(x.k == 'const' for x in f.a[2].a[1]) and b not in f.a[2].a[1]:
                        return False
                if b is NONE and st.facts.get(a) is True:
                    return False
            if op == 'in' and b.k == 'tup' and all(x.k == 'const' for x in b.a[1]):
                if a.k == 'const':
                    return a in b.a[1]
                for f, val in st.facts.items():
                    if f.k == 'cmp' and f.a[0] in ('==', 'is') and f.a[1] is a and f.a[2].k == 'const':
                        if val:
                            return f.a[2] in b.a[1]
                if b.a[1] and all(st.facts.get(self.norm_cmp('==', a, x)[0]) is False for x in b.a[1]):
                    return False
        if atom.k == 'call' and fname(atom.a[0]) == 'isinstance' and len(atom.a[1]) == 2:
            x, T = atom.a[1]
            ts = self._types(T)
            if x.k == 'const' and x.a[0] is not Ellipsis and ts and ts <= {'str', 'int', 'tuple', 'list', 'Var', 'Term', 'float', 'Rule', 'Program', 'Stream', 'Product', 'dict'}:
                return type(x.a[0]).__name__ in ts or (isinstance(x.a[0], bool) and 'int' in ts)
            if ts:
                rest = set(ts)
                for f, val in st.facts.items():
                    if f.k == 'call' and fname(f.a[0]) == 'isinstance' and f.a[1][0] is x:
                        fs = self._types(f.a[1][1])
                        if not fs:
                            continue
                        if val:
                            if all(any(g == t or (g, t) in SUBS for t in ts) for g in fs):
                                return True
                            if all({g, t} in EXCL for g in fs for t in ts):
                                return False
                        else:
                            rest -= {t for t in rest if t in fs or any((t, g) in SUBS for g in fs)}
                if not rest:
                    return False
        if atom.k == 'call' and fname(atom.a[0]) == 'callable':
            return None
        # truthiness of a value known to be None / a constant
        for f, val in st.facts.items():
            if val and f.k == 'cmp' and f.a[0] in ('is', '==') and f.a[1] is atom and f.a[2].k == 'const':
                c = f.a[2].a[0]
                return bool(c) if c is not Ellipsis else True
        if self.presume is not None:
            return self.presume(atom, st)
        return None

    def _types(self, T):
        if T.k == 'tup':
            out = set()
            for x in T.a[1]:
                n = fname(x)
                if n is None:
                    return None
                out.add(n)
            return out
        n = fname(T)
        return {n} if n else None

    # ------------------------------------------------------------------ expressions
    def exprs(self, nodes, st, lazy=False):
        "Evaluate nodes left to right; yields ([values], st), or ((None, outcome), st) on an exceptional outcome."
        def go(k, acc, s):
            if k == len(nodes):
                yield tuple(acc), s
                return
            for v, s2 in self.expr(nodes[k], s, lazy=lazy):
                if isinstance(v, tuple):
                    yield (None,) + (v,) * max(1, len(nodes) - 1), s2
                else:
                    yield from go(k + 1, acc + [v], s2)
        yield from go(0, [], st)

    def expr(self, n, st, lazy=False):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            yield V('unk', type(n).__name__, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)), st
            return
        if lazy and isinstance(n, (ast.GeneratorExp, ast.Call)):
            yield from m(n, st, lazy=True)
        else:
            yield from m(n, st)

    def e_Constant(self, n, st):
        yield Const(n.value), st

    def e_Name(self, n, st):
        v = st.get(n.id)
        if v is not None:
            yield v, st
            return
        yield self.global_value(n.id, st), st

    def global_value(self, name, st):
        r = self.m.resolve(st.func.mod, name)
        return self.value_of(r, name, st)

    def value_of(self, r, name, st):
        if isinstance(r, Func):
            return V('fn', r.ref)
        if isinstance(r, Class):
            return V('cls', r.ref)
        if isinstance(r, Module):
            return V('mod', r.name)
        if isinstance(r, tuple) and r[0] == 'ext':
            return V('ext', r[1])
        if isinstance(r, tuple) and r[0] == 'global':
            mod = self.m.modules[r[1]]
            vals = mod.assigns[r[2]]
            if len(vals) == 1 and not isinstance(vals[0], ast.AugAssign):
                c = self.literal(vals[0], mod)
                if c is not None:
                    return c
                if isinstance(vals[0], ast.Lambda):
                    lam = V('lam', r[2], 'g', r[1])
                    if lam not in self.lams:
                        self.lams[lam] = (vals[0], None, Func(mod, r[2], vals[0]), None)
                    return lam
            return V('global', r[1], r[2])
        return V('name', name)

    def literal(self, n, mod):
        if isinstance(n, ast.Constant):
            return Const(n.value)
        if isinstance(n, (ast.Tuple, ast.Set)) or (isinstance(n, ast.List)):
            xs = []
            for e in n.elts:
                x = self.literal(e, mod)
                if x is None:
                    return None
                xs.append(x)
            return Tup({ast.Tuple: 'tuple', ast.Set: 'set', ast.List: 'list'}[type(n)], xs)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('frozenset', 'set', 'tuple') and len(n.args) == 1 and not n.keywords:
            x = self.literal(n.args[0], mod)
            return x if x is not None and x.k == 'tup' else None
        return None

    def e_Attribute(self, n, st):
        for b, s in self.expr(n.value, st):
            if isinstance(b, tuple):
                yield b, s
                continue
            yield from self.attr_load(b, n.attr, s, n)

    def attr_load(self, b, name, st, node):
        if (b, name) in st.heap:
            yield st.heap[(b, name)], st
            return
        if b.k == 'mod':
            r = self.m.resolve(self.m.modules[b.a[0]], name) or self.m.modules.get(b.a[0] + '.' + name)
            if r is not None:
                yield self.value_of(r, name, st), st
                return
        c = self.cls_of(b, st)
        if c is not None:
            f = self.m.find_method(c, name)
            if f is not None and f.is_property and self.should_inline(f, st):
                yield from self.call_func(f, [b], [], st, node, cls=c)
                return
        yield Attr(b, name), st

    def cls_of(self, v, st):
        if v.k == 'param' and v.a[1] in ('self', 'cls') and st.cls is not None:
            return st.cls
        if v.k == 'call' and v.a[0].k == 'cls':
            mod, n = v.a[0].a[0].split(':')
            return self.m.modules[mod].classes.get(n)
        if v.k == 'cls':
            mod, n = v.a[0].split(':')
            return self.m.modules[mod].classes.get(n)
        return None

    def e_Subscript(self, n, st):
        for (b, i), s in self.exprs([n.value, n.slice], st):
            if b is None:
                yield i, s
                continue
            yield self.subscript(b, i, s), s.emit('getitem', (b, i), n)

    def subscript(self, b, i, st):
        if (b, i) in st.heap:
            return st.heap[(b, i)]
        if b.k == 'tup' and i.k == 'const' and isinstance(i.a[0], int) and not any(x.k == 'star' for x in b.a[1]):
            try:
                return b.a[1][i.a[0]]
            except IndexError:
                pass
        if i.k == 'slice' and is_const(i.a[0], 0):
            i = V('slice', NONE, i.a[1], i.a[2])
        return Sub(b, i)

    def e_Slice(self, n, st):
        parts = [x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)]
        for vs, s in self.exprs(parts, st):
            if vs[0] is None:
                yield vs[1], s
            else:
                lo, hi, stp = vs
                if is_const(lo, 0):
                    lo = NONE
                yield V('slice', lo, hi, stp), s

    def e_Tuple(self, n, st, kind='tuple'):
        nodes = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        stars = [isinstance(e, ast.Starred) for e in n.elts]
        for vs, s in self.exprs(nodes, st):
            if nodes and vs[0] is None:
                yield vs[1], s
                continue
            out = []
            for v, x in zip(vs, stars):
                if x:
                    r = resolve(v, s.contents)
                    if r.k == 'tup':
                        out.extend(r.a[1])
                    elif r.k == 'call' and fname(r.a[0]) == 'tuple' and len(r.a[1]) == 1 and r.a[1][0].k == 'tup':
                        out.extend(r.a[1][0].a[1])
                    else:
                        out.append(V('star', v))
                else:
                    out.append(v)
            yield Tup(kind, out), s

    def e_List(self, n, st):
        for v, s in self.e_Tuple(n, st, 'list'):
            if isinstance(v, tuple):
                yield v, s
                continue
            yield self.new_obj('list', v.a[1], s, lit=True)

    def e_Set(self, n, st):
        for v, s in self.e_Tuple(n, st, 'set'):
            if isinstance(v, tuple):
                yield v, s
                continue
            if all(x.k == 'const' for x in v.a[1]):
                yield v, s
            else:
                yield self.new_obj('set', v.a[1], s, lit=True)

    def new_obj(self, kind, items, st, lit=False):
        i, st = st.fresh()
        if lit:
            o = V('obj', kind, i, 'lit', (kind, tuple(items)))
        else:
            o = V('obj', kind, i)
        st = self._setc(st, o, (kind, tuple(items)))
        return o, st.emit('newobj', (o,), st.ev.node if st.ev is not None else st.func.node)

    def e_Dict(self, n, st):
        ks = [k for k in n.keys]
        nodes = [k if k is not None else ast.Constant(value=None) for k in ks] + list(n.values)
        for vs, s in self.exprs(nodes, st):
            if nodes and vs[0] is None:
                yield vs[1], s
                continue
            m = len(ks)
            items = tuple(((None if ks[j] is None else vs[j]), vs[m + j]) for j in range(m))
            yield self.new_obj('dict', items, s)

    def binop(self, op, a, b):
        if a.k == 'const' and b.k == 'const' and op in '+-*' and type(a.a[0]) in (int, float) and type(b.a[0]) in (int, float):
            x, y = a.a[0], b.a[0]
            return Const(x + y if op == '+' else x - y if op == '-' else x * y)
        if op == '+' and a.k == 'tup' and b.k == 'tup' and a.a[0] == b.a[0]:
            return Tup(a.a[0], a.a[1] + b.a[1])
        # (e + c1) + c2
        if op in '+-' and b.k == 'const' and isinstance(b.a[0], int) and not isinstance(b.a[0], bool):
            c = b.a[0] if op == '+' else -b.a[0]
            if a.k == 'bin' and a.a[0] in '+-' and a.a[2].k == 'const' and isinstance(a.a[2].a[0], int):
                c += a.a[2].a[0] if a.a[0] == '+' else -a.a[2].a[0]
                a = a.a[1]
            if c == 0:
                return a
            return V('bin', '+', a, Const(c)) if c > 0 else V('bin', '-', a, Const(-c))
        if op == '+' and a.k == 'const' and isinstance(a.a[0], int) and b.k != 'const' and not isinstance(a.a[0], bool):
            return self.binop('+', b, a)
        return V('bin', op, a, b)

    def e_BinOp(self, n, st):
        for (a, b), s in self.exprs([n.left, n.right], st):
            if a is None:
                yield b, s
                continue
            op = self.OPS[type(n.op)]
            if op == '+' and a.k == 'obj' and a in s.contents and s.contents[a][0] == 'list':
                o, s = self.new_obj('list', s.contents[a][1] + tuple(self._items(b, s)), s)
                yield o, s
                continue
            v = self.binop(op, a, b)
            yield v, s.emit('binop', (op, a, b), n)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            for v, s in self.expr(n.operand, st):
                if isinstance(v, tuple):
                    yield v, s
                    continue
                v = self.norm_bool(v, s)
                yield (v.a[1] if v.k == 'un' and v.a[0] == 'not ' else V('un', 'not ', v)), s
            return
        for v, s in self.expr(n.operand, st):
            if isinstance(v, tuple):
                yield v, s
                continue
            op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)]
            if v.k == 'const' and isinstance(v.a[0], (int, float)) and op == '-':
                yield Const(-v.a[0]), s
            else:
                yield V('un', op, v), s

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def go(k, s):
            if k == len(n.values) - 1:
                yield from self.expr(n.values[k], s)
                return
            if _pure_bool(n.values[k]):
                for b, s2 in self.branch(n.values[k], s):
                    if isinstance(b, tuple):
                        yield b, s2
                    elif b != isand:
                        yield Const(b), s2
                    else:
                        yield from go(k + 1, s2)
                return
            for v, s2 in self.expr(n.values[k], s):
                if isinstance(v, tuple):
                    yield v, s2
                    continue
                for b, s3 in self.truth(v, s2, n.values[k]):
                    if b != isand:
                        yield v, s3
                    else:
                        yield from go(k + 1, s3)
        yield from go(0, st)

    def e_Compare(self, n, st):
        if len(n.ops) > 1:
            for b, s in self.branch(n, st):
                yield (b if isinstance(b, tuple) else Const(b)), s
            return
        op = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
              ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}[type(n.ops[0])]
        for (a, b), s in self.exprs([n.left, n.comparators[0]], st):
            if a is None:
                yield b, s
                continue
            if op in ('in', 'not in'):
                b = resolve(b, s.contents)
            s = s.emit('compare', (op, a, b), n)
            atom, pol = self.norm_cmp(op, a, b)
            yield (atom if pol else V('un', 'not ', atom)), s

    def e_IfExp(self, n, st):
        for b, s in self.branch(n.test, st):
            if isinstance(b, tuple):
                yield b, s
            else:
                yield from self.expr(n.body if b else n.orelse, s)

    def e_NamedExpr(self, n, st):
        for v, s in self.expr(n.value, st):
            if isinstance(v, tuple):
                yield v, s
            else:
                for s2 in self.assign(n.target, v, s, n):
                    yield v, s2

    def e_JoinedStr(self, n, st):
        nodes = [x.value if isinstance(x, ast.FormattedValue) else x for x in n.values]
        for vs, s in self.exprs(nodes, st):
            if nodes and vs[0] is None:
                yield vs[1], s
            else:
                yield V('fstr', tuple(vs)), s

    def e_Starred(self, n, st):
        for v, s in self.expr(n.value, st):
            yield (v if isinstance(v, tuple) else V('star', v)), s

    def e_Lambda(self, n, st):
        i, st = st.fresh()
        lam = V('lam', f'lambda@{n.lineno}', i)
        self.lams[lam] = (n, st.frame, st.func, st.cls)
        yield lam, st

    def e_Yield(self, n, st):
        if n.value is None:
            vs = [(NONE, st)]
        else:
            vs = self.expr(n.value, st)
        for v, s in vs:
            if isinstance(v, tuple):
                yield v, s
                continue
            yield from self.do_yield(v, s, n)

    def do_yield(self, v, st, n):
        if st.yh:
            h = st.yh[-1]
            ctx = st.ctx
            for o, s in h(v, st):
                s = s.copy(ctx=ctx)
                if o[0] == 'next':
                    yield NONE, s
                else:
                    yield o, s
        else:
            yield V('unk', 'sent', getattr(n, 'lineno', 0)), st.emit('yield', (v,), n)

    def e_YieldFrom(self, n, st):
        for itv, s in self.expr(n.value, st, lazy=True):
            if isinstance(itv, tuple):
                yield itv, s
                continue
            if self.inlinable_gen(itv, s) is None and self.literal_items(itv, s) is None and not s.yh:
                yield V('unk', 'yf', getattr(n, 'lineno', 0)), s.emit('yieldfrom', (itv,), n)
                continue

            def handler(v, s1):
                for x, s2 in self.do_yield(v, s1, n):
                    if isinstance(x, tuple):
                        yield x, s2
                    else:
                        yield ('next',), s2
            for o, s2 in self.consume(itv, s, n, handler, ret=True):
                yield (NONE if o[0] == 'next' else o[1] if o[0] == 'value' else o), s2

    def e_Await(self, n, st):
        yield from self.expr(n.value, st)

    # -- comprehensions
    def e_ListComp(self, n, st, kind='list'):
        o, st = self.new_obj(kind, (), st)

        def inner(s):
            for v, s2 in self.expr(n.elt, s):
                if isinstance(v, tuple):
                    yield v, s2
                    continue
                k, c = s2.contents[o]
                s2 = self._setc(s2, o, (k, c + (v,)))
                yield ('next',), s2.emit('mutate', (o, 'append' if kind != 'set' else 'add', v), n)
        for out, s in self.comp_loops(n.generators, st, inner, st.frame, st.func, st.cls):
            yield (o if out[0] == 'next' else out), s

    def e_SetComp(self, n, st):
        yield from self.e_ListComp(n, st, 'set')

    def e_GeneratorExp(self, n, st, lazy=False):
        if lazy:
            i, st = st.fresh()
            g = V('genexp', n.lineno, i)
            self.lams[g] = (n, st.frame, st.func, st.cls)
            yield g, st
        else:
            yield from self.e_ListComp(n, st)

    def e_DictComp(self, n, st):
        o, st = self.new_obj('dict', (), st)

        def inner(s):
            for (k, v), s2 in self.exprs([n.key, n.value], s):
                if k is None:
                    yield v, s2
                    continue
                s2 = self._setc(s2, o, ('dict', s2.contents[o][1] + ((k, v),)))
                yield ('next',), s2.emit('setitem', (o, k, v), n)
        for out, s in self.comp_loops(n.generators, st, inner, st.frame, st.func, st.cls):
            yield (o if out[0] == 'next' else out), s

    def genexp_of(self, v):
        return self.lams[v] if v.k == 'genexp' else None

    # ------------------------------------------------------------------ calls
    def should_inline(self, f, st):
        if f.node in st.stack or len(st.stack) > self.max_depth:
            return False
        if f.ref in self.opaque or f.qual in self.opaque or f.name in self.opaque:
            return False
        if f.ref in self.inline or f.qual in self.inline or f.name in self.inline:
            return True
        return f.ref not in base_names()

    def target(self, fv, st):
        """Resolve a callee value -> (Func, bound args, cls) or None."""
        if fv.k == 'fn':
            mod, q = fv.a[0].split(':')
            f = self.m.modules[mod].funcs.get(q)
            return (f, [], None) if f else None
        if fv.k == 'attr':
            b, name = fv.a
            if b.k == 'call' and fname(b.a[0]) == 'super' and not b.a[1]:
                # super().m()
                if st.func.cls is not None:
                    mro = self.m.mro(st.cls or st.func.cls)
                    if st.func.cls in mro:
                        for k in mro[mro.index(st.func.cls) + 1:]:
                            if name in k.methods:
                                me = self._self_value(st)
                                return (k.methods[name], [me] if me is not None else [], st.cls)
                return None
            c = self.cls_of(b, st)
            if c is not None:
                f = self.m.find_method(c, name)
                if f is not None:
                    if f.is_static:
                        return (f, [], c)
                    if b.k == 'cls' and not f.is_classmethod:
                        return (f, [], c)
                    return (f, [b], c)
                return None
            if b.k == 'mod':
                return None
            cand = self.m.methods_by_name.get(name, [])
            if len(cand) == 1 and (cand[0].ref not in base_names() or name in self.inline or cand[0].qual in self.inline):
                f = cand[0]
                return (f, [] if f.is_static else [b], f.cls)
            qual = [f for f in cand if f.qual in self.inline]
            if len(qual) == 1:
                return (qual[0], [b], qual[0].cls)
        return None

    def _self_value(self, st):
        f = st.frame
        while f is not None:
            env, parent = st.frames[f]
            if 'self' in env:
                return env['self']
            f = parent
        return None

    def bind(self, args_node, pos, kws, st, defaults_st):
        """Bind positional values / keyword values to parameters; None if impossible."""
        a = args_node
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        flat = []
        for v in pos:
            if v.k == 'star':
                r = resolve(v.a[0], st.contents)
                if r.k == 'tup':
                    flat.extend(r.a[1])
                else:
                    flat.append(v)
            else:
                flat.append(v)
        star = next((k for k, v in enumerate(flat) if v.k == 'star'), None)
        if star is not None:
            sv = flat[star].a[0]
            head = flat[:star]
            if a.vararg and star == len(flat) - 1 and len(head) <= len(names):
                need = names[len(head):]
                for nme, v in zip(names, head):
                    env[nme] = v
                for k, nme in enumerate(need):
                    if nme in dict(kws):
                        continue
                    env[nme] = Sub(sv, Const(k))
                env[a.vararg.arg] = sv if not need else Sub(sv, V('slice', Const(len(need)), NONE, NONE))
                if len(head) == len(names) == 0 or not need:
                    env[a.vararg.arg] = sv
            else:
                for nme, v in zip(names, head):
                    env[nme] = v
                for k, nme in enumerate(names[len(head):]):
                    if nme not in dict(kws):
                        env[nme] = Sub(sv, Const(k))
                if a.vararg and len(head) >= len(names):
                    env[a.vararg.arg] = Tup('tuple', flat[len(names):])
        else:
            for nme, v in zip(names, flat):
                env[nme] = v
            extra = flat[len(names):]
            if a.vararg:
                env[a.vararg.arg] = Tup('tuple', extra)
            elif extra:
                return None
        kwextra = []
        for k, v in kws:
            if k is None:
                continue
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                kwextra.append((Const(k), v))
        if a.kwarg:
            env[a.kwarg.arg] = V('dict', tuple(kwextra))
        # defaults
        ds = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
            [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for nme, d in ds:
            if nme not in env:
                c = self.literal(d, None)
                if c is None and isinstance(d, ast.Name):
                    c = self.global_value(d.id, st)
                env[nme] = c if c is not None else V('default', ast.unparse(d))
        for nme in names:
            if nme not in env:
                env[nme] = V('unk', 'arg', nme)
        return env

    def call_func(self, f, pos, kws, st, node, cls=None, gen_handler=None, lam=None):
        """Inline a call.  For generator functions `gen_handler` must be given."""
        n = f.node if lam is None else lam[0]
        parent = None if lam is None else lam[1]
        env = self.bind(n.args, pos, kws, st, st)
        if env is None:
            yield V('unk', 'badcall', getattr(node, 'lineno', 0)), st
            return
        self.inlined.add(f.ref)
        fid, st = st.fresh()
        save = dict(frame=st.frame, func=st.func, stack=st.stack, cls=st.cls, yh=st.yh)
        frames = dict(st.frames)
        frames[fid] = (env, parent)
        ctx0 = st.ctx
        s = st.copy(frames=frames, frame=fid, func=f, stack=st.stack + (n,), cls=(cls if cls is not None else (lam[3] if lam else f.cls)),
                    yh=(st.yh + (gen_handler,)) if gen_handler is not None else (), ctx=ctx0 + (('call', f.ref, node),))
        if isinstance(n, ast.Lambda):
            for v, s2 in self.expr(n.body, s):
                yield v, s2.copy(ctx=ctx0, **save)
            return
        for o, s2 in self.block(n.body, s):
            s2 = s2.copy(ctx=ctx0, **save)
            if gen_handler is not None:
                yield o, s2
            elif o[0] == 'next':
                yield NONE, s2
            elif o[0] == 'return':
                yield o[1], s2
            else:
                yield o, s2

    def inlinable_gen(self, v, st):
        """If iterating `v` can be inlined, return runner(handler, st) -> (outcome, st)."""
        if v.k == 'genexp':
            node, frame, func, cls = self.lams[v]

            def run(h, s):
                def inner(s1):
                    for x, s2 in self.expr(node.elt, s1):
                        if isinstance(x, tuple):
                            yield x, s2
                        else:
                            yield from h(x, s2)
                yield from self.comp_loops(node.generators, s, inner, frame, func, cls)
            return run
        if is_call(v, 'map') and v.a[0].k == 'name' and len(v.a[1]) == 2 and v.a[1][0].k in ('lam',):
            fv, xs = v.a[1]

            def run(h, s):
                def hh(x, s1):
                    for y, s2 in self.apply(fv, [x], [], s1, None):
                        if isinstance(y, tuple):
                            yield y, s2
                        else:
                            yield from h(y, s2)
                yield from self.consume(xs, s, None, hh)
            return run
        if v.k != 'call':
            return None
        fv = v.a[0]
        if fv.k == 'lam':
            ent = self.lams.get(fv)
            if ent is None or isinstance(ent[0], ast.Lambda) or ent[0] in st.stack or len(st.stack) > self.max_depth:
                return None
            f = Func(ent[2].mod, ent[2].qual + '.' + ent[0].name, ent[0], ent[3])
            if not f.is_gen:
                return None
            return lambda h, s: self.call_func(f, list(v.a[1]), list(v.a[2]), s, None, gen_handler=h, lam=ent)
        t = self.target(fv, st)
        if t is None or not t[0].is_gen or not self.should_inline(t[0], st) or 'contextmanager' in [d and d.split('.')[-1] for d in t[0].decos]:
            return None
        return lambda h, s: self.call_func(t[0], t[1] + list(v.a[1]), list(v.a[2]), s, None, cls=t[2], gen_handler=h)

    def inlinable_cm(self, v, st):
        if v.k != 'call':
            return None
        fv = v.a[0]
        if fv.k == 'lam':
            ent = self.lams.get(fv)
            if ent is None or isinstance(ent[0], ast.Lambda):
                return None
            f = Func(ent[2].mod, ent[2].qual + '.' + ent[0].name, ent[0], ent[3])
            if not f.is_gen:
                return None
            return lambda h, s: self.call_func(f, list(v.a[1]), list(v.a[2]), s, None, gen_handler=h, lam=ent)
        t = self.target(fv, st)
        if t is None or not t[0].is_gen or not self.should_inline(t[0], st):
            return None
        return lambda h, s: self.call_func(t[0], t[1] + list(v.a[1]), list(v.a[2]), s, None, cls=t[2], gen_handler=h)

    def e_Call(self, n, st, lazy=False):
        # any()/all() as values
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 and st.get(n.func.id) is None:
            for b, s in self.quant(n, st):
                yield (b if isinstance(b, tuple) else Const(b)), s
            return
        argnodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
        stars = [isinstance(a, ast.Starred) for a in n.args]
        kwnodes = [k.value for k in n.keywords]
        consumer = isinstance(n.func, ast.Name) and n.func.id in CONSUMERS and st.get(n.func.id) is None
        lazyargs = isinstance(n.func, ast.Name) and n.func.id in (
            'list', 'tuple', 'set', 'frozenset', 'sorted', 'OrderedSet', 'Product', 'FrozenBag', 'enumerate', 'reversed', 'iter', 'zip', 'map') \
            and st.get(n.func.id) is None
        for fv, s0 in self.expr(n.func, st):
            if isinstance(fv, tuple):
                yield fv, s0
                continue

            def ev():
                for vs, s in self.exprs(argnodes, s0, lazy=lazyargs):
                    if argnodes and vs[0] is None:
                        yield None, vs[1], s
                        continue
                    for ks, s2 in self.exprs(kwnodes, s):
                        if kwnodes and ks[0] is None:
                            yield None, ks[1], s2
                        else:
                            yield vs, ks, s2
            for vs, ks, s in ev():
                if vs is None:
                    yield ks, s
                    continue
                pos = []
                for v, x in zip(vs, stars):
                    if x:
                        r = resolve(v, s.contents)
                        if r.k == 'tup':
                            pos.extend(r.a[1])
                        else:
                            pos.append(V('star', v))
                    else:
                        pos.append(v)
                kws = [(k.arg, v) for k, v in zip(n.keywords, ks)]
                if consumer and len(pos) >= 1 and (pos[0].k == 'genexp' or self.inlinable_gen(pos[0], s) is not None):
                    yield from self.collect(n, fv, pos, kws, s)
                    continue
                yield from self.apply(fv, pos, kws, s, n, lazy=lazy)

    def collect(self, n, fv, pos, kws, st):
        "list(gen) & friends: run the generator, gathering its elements."
        kind = CONSUMERS[fname(fv)]
        o, st = self.new_obj(kind if kind != 'tuple' else 'list', (), st)

        def handler(v, s):
            k, c = s.contents[o]
            s = self._setc(s, o, (k, c + (v,)))
            yield ('next',), s.emit('mutate', (o, 'append' if kind != 'set' else 'add', v), n)
        for out, s in self.consume(pos[0], st, n, handler):
            if out[0] != 'next':
                yield out, s
            elif fname(fv) in ('list', 'set'):
                yield o, s
            elif fname(fv) == 'tuple':
                yield Tup('tuple', s.contents[o][1]) if False else Call(fv, [o]), s
            else:
                v = Call(fv, [o] + list(pos[1:]), kws)
                yield v, s.emit('call', (v,), n)

    MUT = {'append', 'add', 'extend', 'update', 'insert', 'appendleft', 'setdefault', 'remove', 'discard', 'clear', 'pop', 'popleft', 'sort', 'reverse'}

    def apply(self, fv, pos, kws, st, n, lazy=False):
        # local containers
        if fv.k == 'attr' and fv.a[0].k == 'obj' and fv.a[0] in st.contents and fv.a[1] in self.MUT:
            o, meth = fv.a
            kind, c = st.contents[o]
            st = st.emit('mutate', (o, meth) + tuple(pos), n)
            if kind != 'dict':
                if meth in ('append', 'add', 'appendleft') and pos:
                    st = self._setc(st, o, (kind, c + (pos[0],)))
                elif meth in ('extend', 'update') and pos:
                    if pos[0].k == 'genexp':
                        def handler(v, s):
                            k2, c2 = s.contents[o]
                            s = self._setc(s, o, (k2, c2 + (v,)))
                            yield ('next',), s.emit('mutate', (o, 'append', v), n)
                        for out, s in self.consume(pos[0], st, n, handler):
                            yield (NONE if out[0] == 'next' else out), s
                        return
                    st = self._setc(st, o, (kind, c + tuple(self._items(pos[0], st))))
                elif meth == 'insert' and len(pos) == 2:
                    st = self._setc(st, o, (kind, (c + (pos[1],)) if not is_const(pos[0], 0) else (pos[1],) + c))
                elif meth == 'pop' and c and (not pos or is_const(pos[0], -1)) and c[-1].k != 'star':
                    st = self._setc(st, o, (kind, c[:-1]))
                    yield c[-1], st
                    return
                elif meth in ('clear',):
                    st = self._setc(st, o, (kind, ()))
            else:
                if meth == 'update' and pos and pos[0].k == 'obj' and pos[0] in st.contents:
                    st = self._setc(st, o, (kind, c + tuple(st.contents[pos[0]][1])))
                elif meth == 'setdefault' and len(pos) == 2:
                    st = self._setc(st, o, (kind, c + ((pos[0], pos[1]),)))
                    yield Call(fv, pos, kws), st
                    return
            if meth in ('append', 'add', 'extend', 'update', 'insert', 'clear', 'sort', 'reverse', 'remove', 'discard', 'appendleft'):
                yield NONE, st
            else:
                i, st = st.fresh()
                yield Call(fv, pos, kws, i), st
            return
        # nested functions and lambdas
        if fv.k == 'lam' and fv in self.lams:
            ent = self.lams[fv]
            node = ent[0]
            if node not in st.stack and len(st.stack) <= self.max_depth:
                f = Func(ent[2].mod, ent[2].qual + ('.' + node.name if hasattr(node, 'name') else '.<lambda>'), node, ent[3])
                if not f.is_gen:
                    yield from self.call_func(f, pos, kws, st, n, lam=ent)
                    return
                v = Call(fv, pos, kws)
                yield v, st
                return
        t = self.target(fv, st)
        if t is not None and self.should_inline(t[0], st):
            f, bound, cls = t
            if f.is_gen:
                yield Call(fv, pos, kws), st     # consumed where it is iterated
                return
            if not any(d and d.split('.')[-1] in ('instance_cache', 'lru_cache') for d in f.decos) or True:
                yield from self.call_func(f, bound + pos, kws, st, n, cls=cls)
                return
        # known container constructors
        if fv.k == 'name' and not pos and not kws and fv.a[0] in ('list', 'set', 'dict'):
            o, st = self.new_obj(fv.a[0], (), st)
            yield o, st
            return
        if fv.k == 'name' and fv.a[0] in ('list', 'set') and len(pos) == 1 and pos[0].k in ('tup',):
            o, st = self.new_obj(fv.a[0], pos[0].a[1], st)
            yield o, st
            return
        if fv.k == 'name' and fv.a[0] == 'isinstance' and len(pos) == 2 and pos[1].k == 'obj':
            pos = [pos[0], resolve(pos[1], st.contents)]
        if fv.k == 'name' and fv.a[0] == 'getattr' and len(pos) >= 2 and pos[1].k == 'const' and isinstance(pos[1].a[0], str) and len(pos) == 2:
            yield from self.attr_load(pos[0], pos[1].a[0], st, n)
            return
        if fv.k == 'name' and fv.a[0] == 'setattr' and len(pos) == 3 and pos[1].k == 'const':
            st = st.emit('setattr', (pos[0], pos[1].a[0], pos[2]), n)
            heap = dict(st.heap)
            heap[(pos[0], pos[1].a[0])] = pos[2]
            yield NONE, st.copy(heap=heap)
            return
        # generator expressions given to opaque callees: evaluate them once, here
        newpos = []
        lazies = [p for p in pos if p.k == 'genexp']
        if lazies and not (fv.k == 'name' and fv.a[0] in ('enumerate', 'reversed', 'iter', 'zip', 'map')):
            yield from self._force(fv, pos, kws, st, n)
            return
        cid = 0
        nm = fname(fv)
        if fv.k == 'name' and nm == 'next' and pos and pos[0].k == 'obj' and pos[0] in st.contents and st.contents[pos[0]][0] != 'dict':
            items = st.contents[pos[0]][1]
            if not items and len(pos) > 1:
                yield pos[1], st
                return
            if items and items[0].k != 'star':
                yield items[0], st
                return
        if fv.k == 'cls' or nm in PURE_DISTINCT:
            cid, st = st.fresh()
        v = Call(fv, pos, kws, cid)
        st = st.emit('call', (v,), n)
        if fv.k == 'attr' and fv.a[1] in self.MUT:
            st = st.emit('mutate', (fv.a[0], fv.a[1]) + tuple(pos), n)
        yield v, st

    def _force(self, fv, pos, kws, st, n):
        k = next(i for i, p in enumerate(pos) if p.k == 'genexp')
        o, st = self.new_obj('list', (), st)

        def handler(v, s):
            kind, c = s.contents[o]
            yield ('next',), self._setc(s, o, (kind, c + (v,)))
        for out, s in self.consume(pos[k], st, n, handler):
            if out[0] != 'next':
                yield out, s
            else:
                yield from self.apply(fv, pos[:k] + [o] + pos[k + 1:], kws, s, n)


def _pure_bool(n):
    return isinstance(n, (ast.Compare, ast.BoolOp)) or (isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not)) or \
        (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'any', 'all', 'callable', 'hasattr'))


def is_reraise(v):
    return v.k == 'name' and v.a[0] == '$reraise'
