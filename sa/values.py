"""Symbolic values: hash-consed expression trees over access paths.

A value is what an expression *denotes* on one path, after temporaries have been
substituted away.  Two syntactically different but equivalent ways of writing the
same dataflow produce the same value.
"""


class V:
    __slots__ = ('k', 'a', '_h')
    _pool = {}

    def __new__(cls, k, *a):
        key = (k, a, tuple(type(x) for x in a) if k == 'const' else None)
        v = cls._pool.get(key)
        if v is None:
            v = object.__new__(cls)
            v.k = k
            v.a = a
            v._h = hash(key)
            cls._pool[key] = v
        return v

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __iter__(self):
        raise TypeError('V is not iterable')


def Const(x):
    return V('const', x)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
ELLIPSIS = V('const', Ellipsis)


def Call(f, args=(), kws=(), n=0):
    return V('call', f, tuple(args), tuple(kws), n)


def Attr(b, n):
    return V('attr', b, n)


def Sub(b, i):
    return V('sub', b, i)


def Tup(kind, elts):
    return V('tup', kind, tuple(elts))


def is_const(v, *xs):
    return v.k == 'const' and (not xs or any(v.a[0] is x or (type(v.a[0]) is type(x) and v.a[0] == x) for x in xs))


def children(v):
    for x in v.a:
        if isinstance(x, V):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, V):
                            yield z


def walk(v, _seen=None):
    seen = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))


def contains(v, sub):
    return any(x is sub for x in walk(v))


def rewrite(v, f):
    "Bottom-up rewrite."
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, V):
            return x
        if x in memo:
            return memo[x]
        memo[x] = x
        na = tuple(go(y) for y in x.a) if x.k != 'const' else x.a
        y = x if all(p is q for p, q in zip(na, x.a)) else V(x.k, *na)
        y = f(y)
        memo[x] = y
        return y
    return go(v)


def fname(v):
    "Terminal name of a callee value: `f`, `mod.f`, `obj.f` -> 'f'."
    if v.k == 'attr':
        return v.a[1]
    if v.k in ('fn', 'cls'):
        return v.a[0].rsplit(':', 1)[-1].rsplit('.', 1)[-1]
    if v.k in ('name', 'param', 'ext', 'global'):
        return str(v.a[-1]).rsplit('.', 1)[-1]
    return None


def is_call(v, *names):
    return v.k == 'call' and (not names or fname(v.a[0]) in names)


def cargs(v):
    return v.a[1]


def carg(v, i, kw=None):
    if i is not None and i < len(v.a[1]) and all(x.k != 'star' for x in v.a[1][:i + 1]):
        return v.a[1][i]
    for k, x in v.a[2]:
        if k == kw and kw is not None:
            return x
    return None


def recv(v):
    "Receiver of a method-call value."
    return v.a[0].a[0] if v.k == 'call' and v.a[0].k == 'attr' else None


def strip_phi(v):
    return rewrite(v, lambda x: strip_phi(x.a[2]) if x.k == 'phi' and isinstance(x.a[2], V) else x)


_prec = {}


def show(v, d=0):
    k, a = v.k, v.a
    if d > 12:
        return '…'
    s = lambda x: show(x, d + 1)
    if k == 'const':
        return '...' if a[0] is Ellipsis else repr(a[0])
    if k == 'param':
        return a[1]
    if k in ('name',):
        return a[0]
    if k in ('fn', 'cls'):
        return fname(v)
    if k in ('ext', 'global', 'mod'):
        return str(a[-1])
    if k == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if k == 'sub':
        return f'{s(a[0])}[{s(a[1])}]'
    if k == 'slice':
        return ':'.join('' if is_const(x, None) else s(x) for x in a[:2]) + ('' if is_const(a[2], None) else ':' + s(a[2]))
    if k == 'call':
        xs = [s(x) for x in a[1]] + [f'{n}={s(x)}' if n else f'**{s(x)}' for n, x in a[2]]
        return f'{s(a[0])}({", ".join(xs)})'
    if k == 'star':
        return '*' + s(a[0])
    if k == 'bin':
        return f'({s(a[1])} {a[0]} {s(a[2])})'
    if k == 'un':
        return f'({a[0]}{s(a[1])})'
    if k == 'cmp':
        return f'({s(a[1])} {a[0]} {s(a[2])})'
    if k == 'tup':
        o, c = {'tuple': '()', 'list': '[]', 'set': '{}'}[a[0]]
        return o + ', '.join(s(x) for x in a[1]) + (',' if a[0] == 'tuple' and len(a[1]) == 1 else '') + c
    if k == 'dict':
        return '{' + ', '.join((f'{s(p)}: {s(q)}' if p is not None else f'**{s(q)}') for p, q in a[0]) + '}'
    if k == 'idx':
        return f'i{a[0]}'
    if k == 'elem':
        return f'each({s(a[0])})'
    if k == 'key':
        return f'key({s(a[0])})'
    if k == 'phi':
        return f'{a[1]}~'
    if k == 'lam':
        return f'<closure {a[0]}>'
    if k == 'obj':
        return f'<{a[0]}#{a[1]}>'
    if k == 'fstr':
        return 'f"' + ''.join(x.a[0] if x.k == 'const' and isinstance(x.a[0], str) else '{' + s(x) + '}' for x in a[0]) + '"'
    if k == 'unk':
        return f'<?{a[0]}>'
    return f'{k}{a}'
