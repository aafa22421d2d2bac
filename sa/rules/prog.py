"""The program container: caches and positional indexes (C07, C08)."""
import ast
from ..core import check
from ..values import (V, Const, NONE, TRUE, FALSE, fname, is_call, recv, walk, contains, is_const, strip_phi, Attr, Sub)
from ..util import mentions, root, is_fresh, analysis_roots, calls_name, short, calls_in, has_node, in_ctx
from ..model import AnalysisError
from .match import param, fact

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__'}
CORE = ('dyna.program:Program._add_rule', 'dyna.program:Program._invalidate_caches', 'dyna.program:Program._update_bucket',
        'dyna.program:Program._make_buckets')
BUILDERS = {'spawn', 'Program', 'TransformedProgram', 'to_program'}
# derived from the transformation history or the builtin registry, not from the rules
HISTORY = {'measure', 'unit_measure', 'safe_by_smt', 'safe_by_unit', 'builtins'}
PASSIVE = {'isinstance', 'len', 'fresh', 'iter', 'enumerate', 'list', 'Rule', 'term_vars'}


def program_family(m):
    base = m.cls('dyna.program', 'Program')
    return [base] + list(m.subclasses(base))


def cached_members(m):
    "cached_property / instance_cache members of the program classes that are derived from the rules or the declarations."
    props, memo = {}, {}
    for c in program_family(m)[:1]:
        for name, f in c.methods.items():
            for d in f.decos:
                d = (d or '').split('.')[-1]
                if d == 'cached_property' and name not in HISTORY:
                    props[name] = f
                elif d in ('instance_cache',):
                    memo[name] = f
                elif d in ('lru_cache', 'cache'):
                    memo[name] = f
    return props, memo


def touches(names):
    "Functions that can write one of the attributes: directly, through a local alias, or by handing it on."
    def isattr(n):
        return isinstance(n, ast.Attribute) and n.attr in names

    def q(n):
        if isattr(n) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, ast.Call):
            g = n.func
            if isinstance(g, ast.Attribute) and g.attr in MUTATORS and isattr(g.value):
                return True
            if isinstance(g, ast.Name) and g.id in ('setattr', 'delattr') and any(isinstance(a, ast.Constant) and a.value in names for a in n.args):
                return True
            if any(isattr(a) for a in n.args) and isinstance(g, ast.Attribute) and g.attr.startswith('_'):
                return True
            if any(isattr(a) for a in n.args) and isinstance(g, ast.Name) and g.id.startswith('_'):
                return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isattr(n.value):
            return True
        if isinstance(n, (ast.Assign, ast.NamedExpr)) and isattr(n.value):
            return True
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Tuple) and any(isattr(v) for v in n.value.elts):
            return True
        return False
    return lambda f: has_node(f, q) or (f.cls is not None and calls_name(f, '_add_rule', '_update_bucket'))


def rule_writes(p):
    "(event, program, operation, operands) for every change of a program's rule list on the path."
    for e in p.events:
        if e.kind == 'setattr' and e.a[1] == 'rules':
            yield e, e.a[0], 'assign', (e.a[2],)
        elif e.kind == 'delattr' and e.a[1] == 'rules':
            yield e, e.a[0], 'delete', ()
        elif e.kind == 'mutate' and e.a[0].k == 'attr' and e.a[0].a[1] == 'rules' and e.a[1] in MUTATORS:
            yield e, e.a[0].a[0], e.a[1], e.a[2:]
        elif e.kind in ('setitem', 'delitem') and e.a[0].k == 'attr' and e.a[0].a[1] == 'rules':
            yield e, e.a[0].a[0], e.kind, e.a[1:]
        elif e.kind == 'aug' and isinstance(e.a[0], V) and e.a[0].k == 'attr' and e.a[0].a[1] == 'rules':
            yield e, e.a[0].a[0], 'assign', ()


def newly_built(p, e, x, f):
    "x was created on this path and nothing cached was read from it before e."
    x0 = strip_phi(x)
    if x0.k == 'call' and (fname(x0.a[0]) in BUILDERS or x0.a[0].k == 'cls'):
        for w in p.events:
            if w.n >= e.n:
                break
            if w.kind == 'call' and recv(w.a[0]) is x0 and fname(w.a[0].a[0]) not in ('append', 'update', 'extend', 'add'):
                return False
        return True
    if x0.k == 'obj':
        return True
    return False


def dropped(p, e, x):
    "Names of cached properties dropped, and whether the memo table is cleared, after event e."
    names, memo = set(), False
    D = Attr(x, '__dict__')
    for w in p.events:
        if w.n <= e.n:
            continue
        if w.kind == 'mutate' and w.a[0] is D and w.a[1] == 'pop' and w.a[2].k == 'const':
            names.add(w.a[2].a[0])
        elif w.kind == 'delitem' and w.a[0] is D and w.a[1].k == 'const':
            names.add(w.a[1].a[0])
        elif w.kind == 'delattr' and w.a[0] is x:
            names.add(w.a[1])
        elif w.kind == 'call' and is_call(w.a[0], 'delattr') and w.a[0].a[1][0] is x:
            names.add(w.a[0].a[1][1].a[0])
        elif w.kind == 'mutate' and w.a[0] is Attr(x, '_caches') and w.a[1] == 'clear':
            memo = True
        elif w.kind == 'setattr' and w.a[0] is x and w.a[1] == '_caches':
            memo = True
        elif w.kind == 'call' and is_call(w.a[0], '_invalidate_caches') and recv(w.a[0]) is x:
            names.add('*')
            memo = True
    return names, memo


def not_program(m, f, x):
    "The receiver is an instance of a class outside the program family."
    if x is param(f, 0) and f.cls is not None and not f.is_static:
        fam = {c.ref for c in program_family(m)}
        return f.cls.ref not in fam
    return False


@check('C07', 'cache-coherence analysis: every write to a program\'s rules or declarations is followed, on every path, by the removal of every cache derived from them',
       'The cached members of the program class are read off its decorators. Every function that can change a rule list or a declaration is '
       'enumerated path by path, with the container primitives inlined; after each change each rule-derived cached member and the '
       'memo table must be dropped before the path ends, unless the program was created on that path and nothing was read from it yet. The '
       'memo key must contain the method and all its arguments.',
       ['cached members derived from the transformation history or the builtin registry are outside the property',
        'rules and terms are immutable (checked for their own mutation sites by C02)'])
def c07(ctx):
    m = ctx.m
    props, memo = cached_members(m)
    ctx.floor(len(props), 4, 'rule-derived cached properties')
    ctx.floor(len(memo), 4, 'memoised methods')
    n = 0
    decl = 0
    for f in analysis_roots(m, touches({'rules', 'inputs', 'outputs'})):
        if f.mod.name == 'dyna.search.old':
            continue
        if f.name == '_invalidate_caches':
            continue
        for p in ctx.paths(f, inline=CORE):
            if p.kind == 'raise':
                continue
            for e, x, op, args in rule_writes(p):
                if not_program(m, f, x) or (f.name == '__init__' and x is param(f, 0)) or newly_built(p, e, x, f):
                    continue
                n += 1
                names, cl = dropped(p, e, x)
                for k in sorted(props):
                    ctx.need(k in names or '*' in names, 'dropped', f'{f.ref} {k}', e.where, f'`{k}` keeps the value it had before the rules changed ({op})')
                ctx.need(cl, 'dropped', f'{f.ref} memo table', e.where, f'memoised results ({", ".join(sorted(memo))}) survive a change of the rules ({op})')
                direct_reads(ctx, f, p, e, x, props)
            for e in p.events:
                if e.kind == 'setattr' and e.a[1] in ('inputs', 'outputs'):
                    x = e.a[0]
                    if not_program(m, f, x) or (f.name == '__init__' and x is param(f, 0)) or newly_built(p, e, x, f) or f.cls is None or f.cls.name != 'Program':
                        if not is_decl_target(m, f, x):
                            continue
                    decl += 1
                    names, cl = dropped(p, e, x)
                    ctx.need(cl, 'dropped', f'{f.ref} declarations', e.where, 'memoised analyses survive a change of the declarations they depend on')
    ctx.floor(n, 3, 'changes of a rule list')
    ctx.floor(decl, 2, 'changes of declarations')
    # the memo table itself
    f = m.func('dyna.util.util', 'instance_cache')
    k = 0
    inner = [g for g in m.all_funcs(nested=True) if g.outer is not None and getattr(g.outer, 'node', g.outer) is f.node]
    for g in inner:
        args = [a.arg for a in g.node.args.args] + ([g.node.args.vararg.arg] if g.node.args.vararg else []) + ([g.node.args.kwarg.arg] if g.node.args.kwarg else [])
        for p in ctx.paths(g):
            if p.kind != 'return':
                continue
            for e in p.events:
                key = None
                if e.kind == 'setitem' and mentions(e.a[0], lambda w: w.k == 'attr' and w.a[1] == '_caches'):
                    key = p.res(e.a[1])
                    val = p.res(e.a[2])
                    ctx.need(p.res(p.value) is val, 'memo', g.ref + ' value', e.where, 'the value remembered is not the value returned')
                elif e.kind == 'getitem' and mentions(e.a[0], lambda w: w.k == 'attr' and w.a[1] == '_caches'):
                    key = p.res(e.a[1])
                elif e.kind == 'call' and is_call(e.a[0], 'get', 'setdefault') and mentions(recv(e.a[0]), lambda w: w.k == 'attr' and w.a[1] == '_caches'):
                    key = p.res(e.a[0].a[1][0])
                if key is None:
                    continue
                k += 1
                fun = any(w.k in ('param', 'free', 'name') and w.a[0] == f.node.args.args[0].arg for w in walk(key)) or mentions(key, lambda w: w.k in ('attr',) and w.a[1] in ('__name__', '__qualname__'))
                ctx.need(fun, 'memo', g.ref + ' method', e.where, 'two memoised methods share one entry: the key does not name the method')
                for a in args[1:]:
                    ctx.need(mentions(key, lambda w: w.k == 'param' and str(w).lstrip('*') == a), 'memo', f'{g.ref} {a}', e.where, f'calls that differ in {a} share one entry')
    ctx.floor(k, 2, 'uses of the memo table')


def is_decl_target(m, f, x):
    return f.cls is not None and f.cls.name == 'Program' and x is param(f, 0) and f.name != '__init__'


def direct_reads(ctx, f, p, e, x, props):
    return


# ---------------------------------------------------------------------------- C08
INDEXES = ('_cache_f2r', '_buckets')


def reset(p, x, ix, after=0):
    return any(w.kind == 'setattr' and w.a[0] is x and w.a[1] == ix and is_const(w.a[2], None) and w.n > after for w in p.events)


def aliases(p, x, ix):
    return {Attr(x, ix)} | {w.a[2] for w in p.events if w.kind == 'setattr' and w.a[0] is x and w.a[1] == ix}


def known_none(p, x, ix):
    return any(b is True and a.k == 'cmp' and a.a[0] in ('is', '==') and a.a[1] is Attr(x, ix) and is_const(a.a[2], None) for a, b in p.facts.items())


def last_index(p, e, x, v):
    "v denotes the position at which event e (an append) puts its rule."
    L = [w for w in p.events if w.kind == 'call' and is_call(w.a[0], 'len') and w.a[0].a[1] and w.a[0].a[1][0] in (Attr(x, 'rules'), x)]
    if is_call(v, 'len') and v.a[1][0] in (Attr(x, 'rules'), x):
        ns = [w.n for w in L if w.a[0] is v]
        return bool(ns) and max(ns) < e.n
    if v.k == 'bin' and v.a[0] == '-' and is_const(v.a[2], 1) and is_call(v.a[1], 'len') and v.a[1].a[1][0] in (Attr(x, 'rules'), x):
        ns = [w.n for w in L if w.a[0] is v.a[1]]
        return bool(ns) and min(ns) > e.n
    return False


def head_fn(v, r):
    "v is the functor of the head of rule r (up to a fresh copy)."
    return v.k == 'attr' and v.a[1] == 'fn' and v.a[0].k == 'attr' and v.a[0].a[1] == 'head' and same_rule(v.a[0].a[0], r)


def same_rule(a, b):
    def core(v):
        v = strip_phi(v)
        while is_call(v, 'fresh') and v.a[1]:
            v = strip_phi(v.a[1][0])
        return v
    return core(a) is core(b)


@check('C08', 'path-sensitive index-consistency analysis of every change to a rule list',
       'For each change of a rule list the position-based indexes (head functor -> rule positions, canonical head -> position of its '
       'accumulated value) must be maintained with the position the rule really takes, or be discarded when positions shift. The builder must '
       'put every rule in the bucket of its head functor and variable-headed rules in all of them, queries must ask for the functor they '
       'were given, and position 0 must not be confused with "absent". Values merged by canonical head must be sums of the old and new value.')
def c08(ctx):
    m = ctx.m
    n = 0
    for f in analysis_roots(m, touches({'rules'})):
        if f.mod.name == 'dyna.search.old':
            continue
        for p in ctx.paths(f, inline=CORE):
            if p.kind == 'raise':
                continue
            for e, x, op, args in rule_writes(p):
                if not_program(m, f, x) or (f.name == '__init__' and x is param(f, 0)) or newly_built(p, e, x, f):
                    continue
                n += 1
                if op == 'append':
                    r = args[0]
                    ups = []
                    keyof = {}
                    for w in p.events:
                        if w.kind == 'setitem' and w.a[0] in aliases(p, x, '_cache_f2r'):
                            keyof[w.a[2]] = w.a[1]
                        if w.kind == 'mutate' and w.a[1] == 'append' and w.a[0] in keyof:
                            ups.append(w)
                            continue
                        if w.kind == 'mutate' and w.a[1] == 'append' and w.a[0].k == 'sub' and w.a[0].a[0] is Attr(x, '_cache_f2r'):
                            ups.append(w)
                        if w.kind == 'mutate' and w.a[1] == 'append' and is_call(w.a[0], 'setdefault', 'get') and recv(w.a[0]) is Attr(x, '_cache_f2r'):
                            ups.append(w)
                    if known_none(p, x, '_cache_f2r') or reset(p, x, '_cache_f2r', 0):
                        ctx.ob('append', f.ref + ' functor index', e.where)
                    else:
                        ok = bool(ups)
                        for w in ups:
                            key = keyof[w.a[0]] if w.a[0] in keyof else w.a[0].a[1] if w.a[0].k == 'sub' else w.a[0].a[1][0]
                            ok = ok and head_fn(key, r) and last_index(p, e, x, w.a[2])
                        ctx.need(ok, 'append', f.ref + ' functor index', e.where, 'the functor index does not record the position the new rule takes')
                        if ok:
                            # a new bucket starts with the rules whose head is a variable
                            u0 = ups[0].a[0]
                            key = keyof[u0] if u0 in keyof else u0.a[1] if u0.k == 'sub' else None
                            novel = any(b is False and a.k == 'cmp' and a.a[0] == 'in' and a.a[1] is key and a.a[2] is Attr(x, '_cache_f2r') for a, b in p.facts.items())
                            wild = any(b is True and a.k == 'cmp' and a.a[0] == 'in' and a.a[2] is Attr(x, '_cache_f2r') and a.a[1] is not key for a, b in p.facts.items())
                            seeded = any(w.kind == 'setitem' and w.a[0] is Attr(x, '_cache_f2r') and w.a[1] is key for w in p.events)
                            if novel and wild:
                                ctx.need(seeded, 'append', f.ref + ' variable heads', e.where, 'a functor seen for the first time gets a bucket without the variable-headed rules')
                            term = fact(p, lambda a: is_call(a, 'isinstance') and same_rule(root(a.a[1][0]), r))
                            ctx.need(term is True, 'append', f.ref + ' variable-headed rule', e.where, 'a rule whose head is a variable is filed under a single functor')
                elif op == 'setitem':
                    i, v = args
                    old = Sub(Attr(x, 'rules'), i)
                    same = v.k == 'call' and v.a[1] and v.a[1][0].k == 'attr' and v.a[1][0].a[1] == 'head' and strip_phi(v.a[1][0].a[0]) is old
                    ok = same or all(reset(p, x, ix, 0) or known_none(p, x, ix) for ix in INDEXES)
                    ctx.need(ok, 'replace', f.ref, e.where, 'a rule is replaced by one with another head, but the indexes still find it by the old head')
                else:
                    for ix in INDEXES:
                        ctx.need(reset(p, x, ix, 0) or known_none(p, x, ix), 'shift', f'{f.ref} {ix}', e.where, f'positions change ({op}) but `{ix}` keeps the old ones')
    ctx.floor(n, 3, 'changes of a rule list')
    update(ctx)
    builders(ctx)


def positions(ctx, f, p):
    "Positions are compared with None, never tested for truth."
    for e in p.events:
        if e.kind != 'cond':
            continue
        a = strip_phi(e.a[0])
        if is_call(a, '_update_bucket') or (is_call(a, 'get') and recv(a).k == 'attr' and recv(a).a[1] == '_buckets'):
            ctx.fail('position-zero', f.ref, e.where, 'position 0 is mistaken for "no such rule"')
    ctx.ob('position-zero', f.ref, f.where)


def update(ctx):
    "Program.update: dead rules add nothing, constants accumulate, everything else is appended once."
    m = ctx.m
    f = m.func('dyna.program', 'Program.update')
    x = param(f, 0)
    k = 0
    for p in ctx.paths(f, inline=CORE):
        if p.kind == 'raise':
            continue
        k += 1
        positions(ctx, f, p)
        ws = list(rule_writes(p))
        folded = [w for w in p_calls(p) if is_call(w, 'constant_folding_rhs')]
        dead = any(b is True and a.k == 'cmp' and a.a[0] == 'is' and is_call(a.a[1], 'constant_folding_rhs') and is_const(a.a[2], None) for a, b in p.facts.items())
        if dead:
            ctx.need(not ws, 'update', f.ref + ' dead', p.where(), 'a rule whose value is zero is added')
            continue
        live = any(b is False and a.k == 'cmp' and a.a[0] == 'is' and is_call(a.a[1], 'constant_folding_rhs') and is_const(a.a[2], None) for a, b in p.facts.items()) \
            or any(b is True and is_call(a, 'constant_folding_rhs') for a, b in p.facts.items())
        ctx.need(live or not ws or not folded, 'update', f.ref + ' dead', p.where(), 'a rule whose value is zero is stored')
        ctx.need(len(ws) == 1, 'update', f.ref + ' once', p.where(), f'the rule is stored {len(ws)} times')
        for e, y, op, args in ws:
            ctx.need(y is x, 'update', f.ref + ' target', e.where, 'the rule is stored in another program')
            src = [w for w in walk(args[-1]) if is_call(w, 'constant_folding_rhs')] if args else []
            ctx.need(bool(src) or op == 'setitem', 'update', f.ref + ' folded', e.where, 'the stored rule is not the folded one')
            if op == 'setitem':
                i, v = args
                old = Sub(Attr(x, 'rules'), i)
                add = [w for w in walk(v) if w.k == 'bin' and w.a[0] == '+']
                ok = any((mentions(w.a[1], lambda z: z is old) and mentions(w.a[2], lambda z: is_call(z, 'constant_folding_rhs'))) or
                         (mentions(w.a[2], lambda z: z is old) and mentions(w.a[1], lambda z: is_call(z, 'constant_folding_rhs'))) for w in add)
                ctx.need(ok, 'update', f.ref + ' accumulate', e.where, 'the value stored is not the sum of the old and the new one')
                hit = is_call(i, 'get') or i.k == 'sub'
                key = (i.a[1][0] if is_call(i, 'get') else i.a[1]) if hit else None
                ctx.need(hit and is_call(key, 'canonicalize') and mentions(key, lambda z: is_call(z, 'constant_folding_rhs')), 'update', f.ref + ' bucket', e.where,
                         'values are accumulated under a key other than the canonical head of the new rule')
            if op == 'append':
                isconst = any(b is False and a.k == 'cmp' and a.a[0] == 'is' and is_call(a.a[1], 'get_const_rhs') and mentions(a.a[1], lambda z: is_call(z, 'constant_folding_rhs')) and is_const(a.a[2], None) for a, b in p.facts.items())
                regs = [w for w in p.events if w.kind == 'setitem' and w.a[0] in aliases(p, x, '_buckets') and w.n > e.n]
                if isconst:
                    ok = bool(regs) and all(last_index(p, e, x, w.a[2]) and is_call(w.a[1], 'canonicalize') for w in regs)
                    ctx.need(ok, 'update', f.ref + ' register', e.where, 'a new value is stored but not registered under its canonical head, so later values are not merged with it')
                else:
                    ctx.need(not regs, 'update', f.ref + ' register', e.where, 'a rule with subgoals is registered as a value')
    ctx.floor(k, 4, 'paths of Program.update')
    for q in ('Program._update_bucket', 'Program._make_buckets'):
        g = m.func('dyna.program', q, required=False)
        if g is not None:
            for p in ctx.paths(g):
                positions(ctx, g, p)


def p_calls(p):
    return [e.a[0] for e in p.events if e.kind == 'call']


def builders(ctx):
    m = ctx.m
    # canonical head -> position
    f = m.func('dyna.program', 'Program._make_buckets', required=False)
    if f is not None:
        x = param(f, 0)
        k = 0
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'setitem' and (e.a[0] is Attr(x, '_buckets') or e.a[0].k == 'obj'):
                    k += 1
                    key, v = e.a[1], e.a[2]
                    lp = [c for c in e.ctx if c[0] == 'loop']
                    R = rule_at(v, x)
                    ok = is_call(key, 'canonicalize') and key.a[1][0].k == 'attr' and key.a[1][0].a[1] == 'head' and R is not None and R(key.a[1][0].a[0])
                    ctx.need(ok, 'bucket', f.ref, e.where, 'a value is filed under a key or a position that is not its own')
                    const = any(b is False and a.k == 'cmp' and a.a[0] == 'is' and is_call(a.a[1], 'get_const_rhs') for a, b in e.facts.items())
                    ctx.need(const, 'bucket', f.ref + ' constants only', e.where, 'a rule with subgoals is filed as a value')
        ctx.floor(k, 1, 'bucket registrations')
    f = m.func('dyna.program', 'Program.f2r')
    x, fn_ = param(f, 0), param(f, 1)
    k = 0
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        v = p.res(p.value)
        asked = None
        dflt = None
        if is_call(v, 'get'):
            asked = v.a[1][0]
            dflt = v.a[1][1] if len(v.a[1]) > 1 else NONE
        elif v.k == 'sub':
            asked = v.a[1]
        if asked is not None:
            k += 1
            ctx.need(strip_phi(asked) is fn_ and asked.k != 'phi', 'functor-index', f.ref + ' query', p.where(), f'the index is asked for {short(asked)} instead of the functor of the query')
            if dflt is not None:
                empty = (dflt.k == 'const' and not dflt.a[0]) or (dflt.k in ('tup', 'obj') and not any(True for w in walk(dflt) if w.k in ('attr', 'call', 'sub', 'param')))
                ctx.need(not empty, 'functor-index', f.ref + ' unknown functor', p.where(), 'a functor that heads no rule misses the rules whose head is a variable')
        # building
        stores = [e for e in p.events if e.kind == 'setattr' and e.a[0] is x and e.a[1] == '_cache_f2r']
        loops = [e for e in p.events if e.kind == 'loop' and e.a[1] is not None and not any(c[0] == 'loop' for c in e.ctx[:-1])]
        if stores and loops:
            i = loops[0].a[0]
            adds = [e for e in p.events if e.kind == 'mutate' and e.a[1] in ('append', 'add') and any(c[0] == 'loop' and c[1] == i for c in e.ctx)]
            term = [b for a, b in p.facts.items() if is_call(a, 'isinstance') and 'Term' in str(a)]
            inner0 = any(e.kind == 'loop0' and any(c[0] == 'loop' and c[1] == i for c in e.ctx) for e in p.events)
            if not adds:
                if not inner0:
                    ctx.fail('functor-index', f.ref + ' complete', p.where(), 'a rule is left out of the index')
                continue
            for e in adds:
                key = None
                if e.a[0].k == 'sub':
                    key = e.a[0].a[1]
                elif is_call(e.a[0], 'setdefault'):
                    key = e.a[0].a[1][0]
                R = rule_at(e.a[2], x)
                ok = R is not None
                if key is not None and key.k == 'attr' and key.a[1] == 'fn':
                    ok = ok and R(key.a[0].a[0])
                ctx.need(ok, 'functor-index', f.ref + ' position', e.where, 'a rule is filed under a position or functor that is not its own')
            isterm = any(b is True for b in term)
            allkeys = any(any(c[0] == 'loop' and c[1] != i for c in e.ctx) for e in adds)
            byhead = any(e.a[0].k == 'sub' and e.a[0].a[1].k == 'attr' and e.a[0].a[1].a[1] == 'fn' for e in adds)
            if isterm:
                ctx.need(byhead, 'functor-index', f.ref + ' by head', p.where(), 'a rule is not filed under the functor of its head')
            elif not inner0:
                ctx.need(allkeys, 'functor-index', f.ref + ' variable heads', p.where(), 'a rule whose head is a variable is not filed under every functor')
    ctx.floor(k, 1, 'queries of the functor index')


def rule_at(v, x):
    "If v is the position of a rule of program x, a predicate recognising that rule."
    srcs = (x, Attr(x, 'rules'))
    # enumerate(x) -> (i, r): the position is elem[0], the rule elem[1]; or an index variable
    v = strip_phi(v)
    if v.k == 'sub' and is_const(v.a[1], 0):
        el = v.a[0]
        return lambda r: r is Sub(el, Const(1))
    if v.k == 'idx':
        return lambda r: any(r is Sub(s, v) for s in srcs) or (r.k in ('sub', 'elem') and v in r.a)
    if v.k == 'sub' or v.k == 'elem':
        return lambda r: r.k == 'sub' and r.a[1] is v and r.a[0] in srcs
    return None
