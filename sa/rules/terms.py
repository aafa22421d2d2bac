"""Terms and variables: bindings, snapshots, renaming, occurs check (C01-C04)."""
import ast
from ..core import check
from ..values import (V, Const, NONE, TRUE, FALSE, ELLIPSIS, fname, is_call, carg, recv, walk, contains, is_const, strip_phi, show, Attr)
from ..util import (root, is_fresh, known, isinst, analysis_roots, has_node, calls_name, short, calls_in, mentions)
from ..model import AnalysisError
from ..flow import base_names


# ---------------------------------------------------------------------------- C01
def writes_value(f):
    def t(n):
        if isinstance(n, ast.Attribute) and n.attr == 'value' and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if nm in ('setattr', 'delattr', '__setattr__') and any(isinstance(a, ast.Constant) and a.value == 'value' for a in n.args):
                return True
        return False
    return has_node(f, t)


def is_restore(base, v, facts):
    "The value stored puts the cell back into the state it had on entry."
    v = strip_phi(v)
    if v is Attr(base, 'value'):
        return True
    nm = fname(v) if v.k in ('name', 'global', 'ext') else None
    unbound = nm == 'null_ptr' or v is ELLIPSIS or (v.k == 'const' and v.a[0] is Ellipsis)
    if unbound:
        for a, b in facts.items():
            if is_call(a, 'is_bound') and recv(a) is base and b is False:
                return True
            if a.k == 'cmp' and a.a[0] == 'is' and Attr(base, 'value') in a.a[1:] and b is True:
                return True
    return False


@check('C01', 'path-sensitive typestate (bind/restore pairing) over all exits of every function that writes a binding cell',
       'Every function that stores into a binding cell is enumerated path by path; the cell must be open only while a '
       'try/finally (or catch-all handler) of the same activation restores the value saved before the store, and it '
       'must be closed again when the path ends. No other function may write the cell, and a unification generator '
       'may not be kept in a data structure.',
       ['CPython runs the finally block of a generator that is closed or collected'])
def c01(ctx):
    m = ctx.m
    var = m.cls('dyna.term', 'Var')
    n = 0
    for f in analysis_roots(m, writes_value):
        if f.cls is not None and f.name == '__init__' and f.cls.name == 'Var':
            continue
        if f.name in ('__enter__', '__exit__') and f.cls is not None and {'__enter__', '__exit__'} <= set(f.cls.methods):
            continue
        paths = ctx.paths(f)
        # (try node, 'finally'|'except') -> set of cells restored there, over all paths
        restored = {}
        for p in paths:
            for e in p.events:
                if e.kind == 'setattr' and e.a[1] == 'value' and is_restore(e.a[0], e.a[2], e.facts):
                    for c in e.ctx:
                        if c[0] == 'finally':
                            restored.setdefault(id(c[1]), set()).add(e.a[0])
                        elif c[0] == 'except' and (c[2].type is None or 'BaseException' in ast.unparse(c[2].type)):
                            restored.setdefault(id(c[1]), set()).add(e.a[0])
        for p in paths:
            open_ = {}
            for e in p.events:
                if e.kind == 'setattr' and e.a[1] == 'value':
                    base, v = e.a[0], e.a[2]
                    if is_restore(base, v, e.facts):
                        if base in open_:
                            ctx.ob('restored', f.ref, e.where)
                        open_.pop(base, None)
                    else:
                        n += 1
                        open_[base] = e
                elif e.kind in ('delattr',) and e.a[1] == 'value':
                    ctx.fail('restored', f.ref, e.where, 'the binding cell is deleted')
                elif open_ and e.kind in ('yield', 'yieldfrom', 'call', 'raise', 'getitem', 'unpack'):
                    if e.kind == 'call' and fname(e.a[0].a[0]) in ('isinstance', 'len', 'id', 'type', 'is_bound'):
                        continue
                    for base, w in open_.items():
                        ok = any(c[0] == 'try' and base in restored.get(id(c[1]), ()) for c in e.ctx)
                        # the finally block itself is past the point of no return
                        ok = ok or any(c[0] == 'finally' and base in restored.get(id(c[1]), ()) for c in e.ctx)
                        ctx.need(ok, 'protected', f.ref, e.where,
                                 f'control can leave here with {short(base)} still bound (stored at line {w.line}) and no finally block restores it')
            for base, w in open_.items():
                ctx.fail('restored', f.ref, w.where, f'a path returns with {short(base)} bound: the value it had before is not put back')
            ctx.ob('closed', f'{f.ref} path {p.where()}', f.where)
    ctx.floor(n, 1, 'binding writes')
    # generators of unification are consumed where they are created
    k = 0
    for f in analysis_roots(m, lambda f: calls_name(f, 'unify', 'unifyN')):
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], 'unify', 'unifyN'):
                    k += 1
                if e.kind in ('setattr', 'setitem', 'mutate'):
                    v = e.a[-1]
                    if isinstance(v, V) and is_call(v, 'unify', 'unifyN'):
                        ctx.fail('consumed', f.ref, e.where, 'a unification generator is stored, so its bindings outlive the activation that made them')
        ctx.ob('consumed', f.ref, f.where)
    ctx.floor(k, 20, 'unification call sites')


# ---------------------------------------------------------------------------- C02
BINDERS = {'unify', 'unifyN', 'lookup', 'join', 'join_f', 'lookup_vals', 'ground_out_rule', 'snap_unifications', 'sld', '_run_builtins'}
SAFE_CALLS = {'stype_bound', 'len', 'id', 'hash', 'str', 'repr', 'range', 'int', 'float', 'type', 'sum', 'min', 'max', 'metric', 'multiple', 'isinstance', 'gen_functor', 'signature'}
COPIERS = {'fresh', 'canonicalize'}

LIVE_MUT = {'append', 'add', 'insert', 'appendleft', 'extend'}


def copying_receiver(v):
    "Program objects copy what they are given (judged separately: Program.update/__setitem__)."
    return False


def is_copy(v, e, scope, path):
    "Value `v` is a copy that was taken while `scope` (a loop id) was open."
    v = strip_phi(v) if v.k == 'phi' else v
    if v.k in ('const', 'idx', 'lam', 'fstr'):
        return True
    if v.k == 'attr' and v.a[1] in ('one', 'zero', 'i', 'fn', 'arity', 'semiring', 'Semiring'):
        return True
    if v.k == 'tup':
        return all(is_copy(x, e, scope, path) for x in v.a[1])
    if v.k == 'cmp':
        return True
    if v.k == 'star':
        return is_copy(v.a[0], e, scope, path)
    if v.k == 'bin' and v.a[0] in ('+', '-', '*'):
        return is_copy(v.a[1], e, scope, path) and is_copy(v.a[2], e, scope, path)
    if v.k in ('attr', 'sub', 'elem'):
        return is_copy(root(v), e, scope, path) if root(v) is not v else False
    if v.k == 'call':
        n = fname(v.a[0])
        if n in SAFE_CALLS:
            return True
        if n in COPIERS:
            return taken_inside(v, e, scope, path)
        if v.a[0].k in ('cls', 'global', 'ext') or n in ('tuple', 'list'):
            return all(is_copy(x, e, scope, path) for x in v.a[1]) and bool(v.a[1])
        return False
    return False


def taken_inside(v, e, scope, path):
    for x in path.events:
        if x.n > e.n:
            break
        if x.kind == 'call' and x.a[0] is v and any(c[0] == 'loop' and c[1] == scope for c in x.ctx):
            return True
    return False


def term_index(i):
    "The subscript of a chart lookup: a body, a subgoal of one, a head."
    i = strip_phi(i)
    if i.k == 'bin':
        return term_index(i.a[1]) or term_index(i.a[2])
    while i.k in ('sub', 'elem', 'star'):
        i = i.a[0]
    return i.k == 'attr' and i.a[1] in ('body', 'head')


def binder_scopes(e):
    "Enclosing loops whose iteration binds variables in place."
    out = []
    for c in e.ctx:
        if c[0] != 'loop' or c[2] is None:
            continue
        it = c[2]
        if is_call(it, *BINDERS) or (is_call(it, 'run') and it.a[0].k == 'attr'):
            out.append(c)
        elif it.k == 'sub' and term_index(it.a[1]):
            out.append(c)
        elif it.k == 'sub' and it.a[0].k == 'attr' and it.a[0].a[1] == 'outgoing':
            continue
    return out


def programlike(ctx, v, e):
    "Objects whose mutators copy what they are given."
    v = strip_phi(v)
    if v.k == 'param' and v.a[1] == 'self' and e.func.cls is not None:
        return any(c.name == 'Program' for c in ctx.m.mro(e.func.cls))
    if v.k == 'call':
        if v.a[0].k == 'cls':
            c = ctx.m.cls(*v.a[0].a[0].split(':'), required=False)
            return c is not None and any(x.name == 'Program' for x in ctx.m.mro(c))
        return fname(v.a[0]) in ('spawn', 'step', 'constant_folding', 'agenda', 'Program')
    return False


def created_inside(p, v, scope):
    "The container was allocated while the scope was open."
    for x in p.events:
        if not any(c[0] == 'loop' and c[1] == scope for c in x.ctx):
            continue
        if x.kind == 'newobj' and x.a[0] is v:
            return True
        if x.kind == 'call' and x.a[0] is v:
            return True
    return False


def keep_sinks(e):
    if e.kind == 'mutate' and e.a[1] in LIVE_MUT and len(e.a) > 2:
        return e.a[0], e.a[-1]
    if e.kind == 'setitem':
        return e.a[0], e.a[2]
    if e.kind == 'setattr' and e.a[1] != 'value':
        return e.a[0], e.a[2]
    if e.kind == 'return' and not (e.a[0] is NONE):
        return None, e.a[0]
    return None


def scope_terms(it):
    "The objects whose variables iterating `it` binds."
    out = set()
    for x in list(it.a[1]) + [k[1] for k in it.a[2]] if it.k == 'call' else [it.a[1]]:
        todo = [x]
        while todo:
            y = todo.pop()
            y = strip_phi(y)
            if y.k == 'bin':
                todo += [y.a[1], y.a[2]]
                continue
            if y.k == 'const' or (y.k == 'param' and y.a[1] == 'self'):
                continue
            out.add(y)
            z = y
            while z.k in ('star', 'attr', 'sub', 'elem'):
                was = z
                z = z.a[0]
                if was.k == 'attr' and was.a[1] in ('head', 'body', 'args', 'fargs'):
                    out.add(z)
                    break
    return out


def depends(v, scope):
    "`v` can contain variables bound by the loop `scope`."
    _, sid, it, _ = scope
    st = scope_terms(it)
    for x in walk(v):
        if x.k == 'idx' and x.a[0] == sid:
            return True
        if x in st or strip_phi(x) in st:
            return True
    return False


DRAINERS = {'list', 'tuple', 'sorted', 'set', 'frozenset', 'deque', 'reversed', 'dict'}
# generators whose contract is to yield the live (bound) match: their consumers are judged
LIVE_STREAMS = {
    'dyna.derivations:sld', 'dyna.program:Program.lookup_vals', 'dyna.program:Program.lookup', 'dyna.program:Program._run_builtins',
    'dyna.term:join_f', 'dyna.term:Product.snap_unifications', 'dyna.execute.base:BaseSolver.ground_out_rule', 'dyna.execute.base:BaseSolver.join',
    'dyna.execute.solver:Solver.drive_rules', 'dyna.execute.solver:Solver.lookup_vals', 'dyna.execute.solver:Chart._indexed_lookup',
    'dyna.execute.solver2:Solver.drive_rule', 'dyna.execute.solver2:Solver.lookup_vals',
}


def funcs_and_closures(m):
    "Top-level functions and methods, and nested functions that are passed around as values."
    roots = {f.ref for f in analysis_roots(m, lambda f: True)}
    for f in m.all_funcs(nested=True):
        if f.outer is None:
            if f.ref in roots:     # a new helper is judged where it is called
                yield f
            continue
        calls = {id(n.func) for n in ast.walk(f.outer) if isinstance(n, ast.Call)}
        if any(isinstance(n, ast.Name) and n.id == f.name and isinstance(n.ctx, ast.Load) and id(n) not in calls for n in ast.walk(f.outer)):
            yield f


SKIP2 = {'dyna.propagate:ConstraintPropagation.__call__', 'dyna.analyze.rewrites:Rewrites.__call__'}


def judge_kept(ctx, f, p, e, tgt, v, what):
    for sc in reversed(binder_scopes(e)):
        if tgt is not None and created_inside(p, tgt, sc[1]):
            return
        if is_copy(v, e, sc[1], p):
            break
        if depends(v, sc):
            ctx.need(False, 'snapshot', f'{e.func.ref} {what}', e.where,
                     f'{short(v)} is kept while the variables bound by {short(sc[2])} are still bound, without taking a copy inside that scope')
            return
    ctx.ob('snapshot', f'{e.func.ref} {what}', e.where)


@check('C02', 'escape analysis of values that leave an in-place binding scope (path-sensitive value flow)',
       'For every loop that binds variables in place, every value that is appended, stored or returned from inside it and '
       'that can contain those variables must be a fresh/canonical copy whose copying call happened inside the loop, or go '
       'into a container that lives only inside it, or be handed to a Program mutator; the mutators are themselves proved to copy.',
       ['fresh() and canonicalize() dereference bound variables (their definitions are checked by C03)'])
def c02(ctx):
    m = ctx.m
    sites = set()
    for f in funcs_and_closures(m):
        if f.ref in SKIP2 or f.mod.name in ('dyna.search.old', 'dyna.syntax', 'dyna.pretty'):
            continue
        if not has_node(f, lambda n: isinstance(n, (ast.For, ast.comprehension, ast.Call))):
            continue
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'call' and is_call(e.a[0], *DRAINERS) and e.a[0].a[1]:
                    it = p.res(e.a[0].a[1][0])
                    if is_call(it, *BINDERS) and not is_call(it, 'sld'):
                        ctx.need(False, 'drained', f'{e.func.ref}', e.where,
                                 f'{short(e.a[0])} runs the stream to its end: every match it holds has lost its bindings by the time it is read')
                if e.kind == 'yield' and e.a and binder_scopes(e) and f.ref not in LIVE_STREAMS and e.func.ref == f.ref and (f.ref in base_names()):
                    judge_kept(ctx, f, p, e, None, p.res(e.a[0]), 'yield')
                sk = keep_sinks(e)
                if not sk or not binder_scopes(e):
                    continue
                tgt, v = sk
                v = p.res(v)
                if tgt is not None and programlike(ctx, tgt, e):
                    ctx.ob('handed-to-program', f'{e.func.ref}', e.where)
                    continue
                sites.add((e.func.ref, e.kind))
                if e.kind == 'setitem' and v.k == 'bin' and calls_or_sub(v, e.a[0], p.res(e.a[1])):
                    judge_kept(ctx, f, p, e, tgt, e.a[1], 'key')      # x[k] += weight
                    continue
                judge_kept(ctx, f, p, e, tgt, v, e.kind)
    ctx.floor(len(sites), 12, 'sinks inside binding scopes')
    # values that leave after the scope, through a local
    for mod, q in (('dyna.term', 'intersect'),):
        f = m.func(mod, q)
        for p in ctx.paths(f):
            if p.kind != 'return' or is_const(p.value):
                continue
            v = strip_phi(p.res(p.value))
            okv = any(x.kind == 'call' and x.a[0] is root(v) and is_call(x.a[0], 'fresh') and binder_scopes(x) for x in p.events)
            it = [x for x in p.events if x.kind == 'call' and is_call(x.a[0], 'unify')]
            ctx.need(okv or is_copyish_of_call(v, p), 'snapshot', f'{f.ref} result', f.where, f'the result {short(v)} is not a copy taken while the unifier is applied')
    # Program mutators copy
    upd = m.func('dyna.program', 'Program.update')
    n = 0
    for p in ctx.paths(upd, inline=('dyna.program:Program._update_bucket', 'dyna.program:Program._add_rule')):
        for e in p.events:
            if e.kind == 'mutate' and e.a[1] in ('append', 'insert') and e.a[0].k == 'attr' and e.a[0].a[1] == 'rules':
                n += 1
                v = p.res(e.a[-1])
                ctx.need(is_call(root(v), 'fresh'), 'update-copies', upd.ref, e.where, f'the rule stored is {short(v)}, not a renamed copy')
            if e.kind == 'setitem' and e.a[0].k == 'attr' and e.a[0].a[1] == '_buckets':
                ctx.need(is_call(e.a[1], 'canonicalize'), 'update-copies', upd.ref + ' key', e.where, f'the bucket key {short(e.a[1])} is not canonical')
    ctx.floor(n, 2, 'rule insertions by Program.update')
    ap = m.func('dyna.program', 'Program.append')
    for p in ctx.paths(ap):
        cs = [e for e in p.events if e.kind == 'call' and fname(e.a[0].a[0]) == 'update' and recv(e.a[0]) is V('param', ap.ref, 'self', 0)]
        direct = [e for e in p.events if e.kind == 'mutate']
        ok = bool(cs) or all(is_call(root(p.res(e.a[-1])), 'fresh') for e in direct) and bool(direct)
        ctx.need(ok, 'append-copies', ap.ref, ap.where, 'append neither delegates to update nor stores a renamed copy')
    si = m.func('dyna.program', 'Program.__setitem__')
    k = 0
    for p in ctx.paths(si):
        for e in p.events:
            if e.kind == 'call' and fname(e.a[0].a[0]) in ('append', 'update', '_add_rule') or (e.kind == 'mutate' and e.a[0].k == 'attr' and e.a[0].a[1] == 'rules'):
                if e.kind == 'call' and fname(e.a[0].a[0]) in ('append', 'update') and recv(e.a[0]).k == 'param':
                    k += 1
                    ctx.need(bool([c for c in e.ctx if c[0] == 'loop']), 'setitem-inside', si.ref, e.where, 'the rule is added after the stream has moved on')
                else:
                    v = p.res(e.a[-1] if e.kind == 'mutate' else e.a[0].a[1][0])
                    k += 1
                    ctx.need(is_call(root(v), 'fresh'), 'setitem-copies', si.ref, e.where, f'{short(v)} is stored without a copy')
    ctx.floor(k, 1, 'rule insertions by Program.__setitem__')
    # solver entry points copy the item they record
    for mod in ('dyna.execute.solver', 'dyna.execute.solver2'):
        f = m.func(mod, 'Solver.update')
        item = V('param', f.ref, 'item', 1)
        k = 0
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind in ('setitem',) and e.a[0].k == 'attr' and e.a[0].a[1] in ('change', 'agenda'):
                    k += 1
                    key = p.res(e.a[1])
                    bare = not any(is_call(x, 'fresh', 'canonicalize') and contains(x, item) for x in walk(key))
                    ctx.need(not bare, 'solver-copies', f.ref, e.where, f'the agenda entry {short(key)} is keyed by the caller\'s term, not by a copy')
        ctx.floor(k, 2, f'agenda/change stores in {mod}')


def is_copyish_of_call(v, p):
    "The value was produced by a helper that does the copying (judged on its own)."
    v = root(v)
    return is_call(v, 'intersect', 'fresh', 'canonicalize')


def calls_or_sub(v, base, key):
    "`x[k] + y`, the accumulating form: the stored value is a semiring element."
    return any(y.k == 'sub' and y.a[1] is key for y in (v.a[1], v.a[2]))


# ---------------------------------------------------------------------------- C03
MATCHERS = {'unify', 'unifyN', 'unifies', 'mgu', 'cover', 'covers', 'intersect', 'generalizer', 'same', '_match_comm'}

# functions that match stored rules / definitions / patterns, and what they match them against
APART = {
    'dyna.program:Program.lookup': 1, 'dyna.execute.solver2:Solver.lookup_vals': 1, 'dyna.analyze.types:TypeAnalyzer._run_basic': 1,
    'dyna.analyze.rewrites:Rewrites.intersect': 1, 'dyna.analyze.rewrites:Rewrites.anti_unifier': 3,
    'dyna.term:DisjointEstimate.add': 1, 'dyna.term:DisjointEstimate.find_all': 1, 'dyna.term:MostGeneralSet.add': 2,
    'dyna.term:MostGeneralSet.find': 1, 'dyna.term:NoDupsSet.add': 1, 'dyna.term:NoDupsSet.find': 1,
    'dyna.transform.lct:LCT.__init__': 3, 'dyna.transform.slash:Slash.__init__': 3,
    'dyna.transform.measure:Measure._freshness_violations': 1, 'dyna.propagate:ConstraintPropagation.check': 2,
    'dyna.analyze.coarse_graph:CoarseGraph.scc_decomposition': 1,
}


def same_origin(a, b):
    "Both sides are parts of the same (query) object, so they share its variables on purpose."
    def org(v):
        v = strip_phi(v)
        while True:
            if v.k in ('attr', 'sub', 'star', 'elem'):
                v = v.a[0]
            elif is_call(v, 'snap', 'deref') and v.a[1]:
                v = v.a[1][0]
            else:
                return v
    x, y = org(a), org(b)
    return x is y and x.k == 'param' and x.a[1] != 'self'


def carried_renamed(p, v):
    "A value carried from one loop iteration to the next is still a renamed copy."
    phis = [x for x in walk(v) if x.k == 'phi']
    for e in p.events:
        if e.kind == 'carry' and e.a[2] in phis:
            c = e.a[3]
            if not is_fresh(p.res(c)):
                return False
    return True


def renamed(v):
    v = strip_phi(v)
    if is_fresh(v):
        return True
    if is_call(v, 'generalizer') and v.a[1] and all(renamed(x) for x in v.a[1][:2]):
        return True
    return False


@check('C03', 'value-flow lint: every match of a stored rule or pattern has a renamed-apart side; typestate of the copy pool; case analysis of the renamers',
       'For every function that matches stored rules, definitions or patterns (lookup, type analysis, equality, pattern sets, '
       'slash/LCT/measure/propagation), each matching call on each path must receive at least one operand that flows from a renaming '
       'copy. The pool of copies must take a copy out before lending it, put it back only afterwards and keep its key object alive. '
       'The renaming functions are analysed case by case: an unbound variable always maps to a new variable memoised under its identity, '
       'bound variables are followed, compound values are copied element by element.',
       ['callers of the matching functions outside the listed modules pass queries whose variables are their own'])
def c03(ctx):
    m = ctx.m
    for ref, least in APART.items():
        mod, q = ref.split(':')
        f = m.func(mod, q)
        sites = set()
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind != 'call':
                    continue
                v = p.res(e.a[0])
                if not is_call(v, *MATCHERS):
                    if not (v.k == 'call' and v.a[0].k == 'attr' and v.a[0].a[1] == 'same'):
                        continue
                sides = [x for x in v.a[1]][:2]
                if fname(v.a[0]) == 'mgu' or fname(v.a[0]) == 'cover':
                    sides = list(v.a[1])[:2]
                if len(sides) < 2 or same_origin(*sides):
                    continue
                if fname(v.a[0]) == 'same' and recv(v) is not None and recv(v).k != 'param':
                    continue
                sites.add((e.line, fname(v.a[0])))
                ctx.need(any(renamed(x) and carried_renamed(p, x) for x in sides), 'renamed-apart', f'{ref} {fname(v.a[0])}', e.where,
                         f'{short(sides[0], 70)} is matched against {short(sides[1], 70)} and neither is a renamed copy')
        ctx.counts[ref] = len(sites)
        if not sites:
            raise AnalysisError(f'C03: no matching call found in {ref}')
    same_program(ctx)
    # rule equality
    f = m.func('dyna.rule', 'Rule.same')
    k = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'call' and is_call(e.a[0], 'cover', 'covers', 'mgu', 'unifies', '_match_comm', 'match_comm'):
                v = p.res(e.a[0])
                k += 1
                ok = any(is_fresh(x) for x in v.a[1])
                for a, b in e.facts.items():
                    if is_call(a, 'isdisjoint') and b is True:
                        tv = calls_in(a, 'term_vars', 'vars')
                        if len(tv) == 2 and all(t.a[1] and t.a[1][0].k == 'param' for t in tv):
                            ok = True
                ctx.need(ok, 'renamed-apart', f'{f.ref} {fname(v.a[0])}', e.where, 'two rules that share variables are compared without renaming one apart')
    ctx.floor(k, 2, 'rule comparison sites')
    pool(ctx)
    renamers(ctx)
    # Program.fresh / fresh() are what they claim to be
    f = m.func('dyna.term', 'fresh')
    for p in ctx.paths(f):
        v = p.res(p.value) if p.kind == 'return' else NONE
        ok = v.k == 'call' and ((is_call(v.a[0], 'Fresh') and not any(n == 'm' for n, _ in v.a[0].a[2]) and len(v.a[0].a[1]) < 2))
        ctx.need(ok, 'renamer', f.ref, f.where, f'fresh returns {short(v)}, not a copy made by a new renamer')
    f = m.func('dyna.program', 'Program.fresh')
    for p in ctx.paths(f):
        if p.kind == 'return':
            adds = [e for e in p.events if e.kind == 'mutate' and e.a[1] == 'append']
            ctx.need(all(is_fresh(p.res(e.a[-1])) for e in adds), 'renamer', f.ref, f.where, 'a rule enters the renamed program without being copied')


def rule_of(v):
    "(program, rule) when the value is a part of a rule taken from a program's rule list."
    v = strip_phi(v)
    while v.k in ('attr', 'sub', 'star', 'elem'):
        b = v.a[0]
        if v.k in ('sub', 'elem'):
            c = b.a[0] if b.k == 'attr' and b.a[1] == 'rules' else b
            if is_call(c, 'enumerate', 'list', 'tuple', 'reversed', 'sorted') and c.a[1]:
                c = c.a[1][0]
            if c.k == 'param' or (c.k == 'attr' and c.a[1] in ('program', 'parent', 'defs')):
                return c, v
        v = b
    return None


def same_program(ctx):
    "Two rules of one program may be the same rule: one of them is copied, or they are known to differ."
    k = 0
    for f in analysis_roots(ctx.m, lambda f: calls_name(f, *MATCHERS)):
        if f.mod.name in ('dyna.search.old', 'dyna.term', 'dyna.builtin') or f.ref in APART:
            continue
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind != 'call' or not is_call(e.a[0], *MATCHERS):
                    continue
                v = p.res(e.a[0])
                a, b = ([recv(v)] + list(v.a[1]) if fname(v.a[0]) == 'same' and len(v.a[1]) == 1 else list(v.a[1]))[:2] if len(v.a[1]) >= 1 + (fname(v.a[0]) != 'same') else (None, None)
                if a is None or b is None:
                    continue
                x, y = rule_of(a), rule_of(b)
                if x is None or y is None or x[0] is not y[0] or x[1] is y[1]:
                    continue
                k += 1
                differ = any(q is False and c.k == 'cmp' and c.a[0] in ('is', '==') and
                             any({strip_phi(w) for w in c.a[1:]} == {s, t} for s, t in ((x[1], y[1]), (x[1].a[1] if len(x[1].a) > 1 else None, y[1].a[1] if len(y[1].a) > 1 else None)))
                             for c, q in e.facts.items())
                ctx.need(differ or renamed(a) or renamed(b), 'renamed-apart', f'{e.func.ref} {fname(v.a[0])}', e.where,
                         f'{short(a, 70)} is matched against {short(b, 70)}: they may be parts of the same rule')
    ctx.floor(k, 1, 'matches between rules of one program')


def pool(ctx):
    m = ctx.m
    f = m.func('dyna.term', 'FreshCache.__call__')
    r = V('param', f.ref, 'r', 1)
    r = next((V('param', f.ref, a.arg, i) for i, a in enumerate(f.node.args.args) if i == 1), r)
    ny = 0
    for p in ctx.paths(f):
        ys = [e for e in p.events if e.kind == 'yield']
        if not ys:
            continue
        ny += 1
        y = ys[0]
        lent = y.a[0]
        src = p.res(lent)
        fresh_copy = is_call(src, 'fresh') and contains(src, r)
        popped = is_call(src, 'pop', 'popleft')
        ctx.need(fresh_copy or popped, 'pool', f.ref + ' lend', y.where, f'the pool lends {short(src)}, which stays in the pool (or is the original) while in use')
        for e in p.events:
            if e.kind in ('mutate', 'setitem') and e.n < y.n:
                v = e.a[-1]
                if isinstance(v, V) and (v is lent or p.res(v) is src):
                    if not (e.kind == 'mutate' and e.a[1] in ('pop', 'popleft')):
                        ctx.fail('pool', f.ref + ' return', e.where, 'the copy goes back into the pool before its user is done with it')
        # the object whose id() is the key is kept alive
        keyed_by_id = any(is_call(e.a[0], 'id') for e in p.events if e.kind == 'call')
        absent = any(b is False and a.k == 'cmp' and a.a[0] == 'in' for a, b in y.facts.items())
        if keyed_by_id and absent:
            kept = any(e.kind == 'mutate' and e.a[1] in ('append', 'add') and e.a[-1] is r and root(e.a[0]) is not r for e in p.events) or \
                any(e.kind == 'setitem' and contains(e.a[2], r) and e.a[0].k == 'attr' and e.a[2].k != 'call' for e in p.events)
            ctx.need(kept, 'pool', f.ref + ' key', f.where, 'the pool is keyed by id() but keeps no reference to the object, so the id can be reused for another rule')
        else:
            ctx.ob('pool', f.ref + ' key', f.where)
    ctx.floor(ny, 2, 'lending paths of the copy pool')


def renamers(ctx):
    m = ctx.m
    for mod, q in (('dyna.term', 'Fresh.__call__'), ('dyna.term', '_canonicalize')):
        f = m.func(mod, q)
        i = 1 if f.cls is not None else 0
        x = V('param', f.ref, f.node.args.args[i].arg, i)
        k = 0
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            v = p.res(p.value)
            xs = {x} | {c for c in (root_snap(w) for w in p_values(p)) if c is not None and contains(c, x) and is_call(c, 'snap')}
            isvar = next((b for a, b in p.facts.items() if is_call(a, 'isinstance') and a.a[1][0] in xs and fname(a.a[1][1]) == 'Var'), None)
            isterm = next((b for a, b in p.facts.items() if is_call(a, 'isinstance') and a.a[1][0] in xs and fname(a.a[1][1]) == 'Term'), None)
            bound = next((b for a, b in p.facts.items() if is_call(a, 'is_bound') and recv(a) in xs), None)
            snapped = any(is_call(c, 'snap') for c in xs)
            where = p.where()
            k += 1
            if isvar:
                if bound and not snapped:
                    ok = v.k == 'call' and any(y.k == 'attr' and y.a[1] == 'value' and y.a[0] in xs for y in walk(v))
                    ctx.need(ok, 'renamer', f'{f.ref} bound', where, f'a bound variable is renamed to {short(v)}: its value is not followed')
                    continue
                # unbound: memoised under the variable's identity
                if not snapped and bound is None:
                    ctx.fail('renamer', f'{f.ref} bound', where, 'a variable is renamed without looking whether it is bound')
                    continue
                stores = [e for e in p.events if e.kind == 'setitem']
                good = False
                why = f'an unbound variable is renamed to {short(v)}'
                if stores:
                    st = stores[-1]
                    key, val = p.res(st.a[1]), p.res(st.a[2])
                    good = ident_key(key, xs) and (val is v or (v.k == 'sub' and p.res(v.a[1]) is key)) and new_var(val)
                    why += f', stored under {short(key)}'
                else:
                    good = (v.k == 'sub' and ident_key(p.res(v.a[1]), xs)) or (is_call(v, 'get', 'setdefault') and ident_key(p.res(v.a[1][0]), xs)
                            and (not is_call(v, 'setdefault') or new_var(p.res(v.a[1][1]))))
                ctx.need(good, 'renamer', f'{f.ref} unbound', where, why + ': every distinct variable needs one new variable of its own')
            elif isterm:
                ok = v.k == 'call' and fname(v.a[0]) == 'fresh' and recv(v) in xs
                ctx.need(ok, 'renamer', f'{f.ref} term', where, f'a compound term is copied to {short(v)} instead of having all its arguments renamed')
            elif isvar is False:
                tup = [(a, b) for a, b in p.facts.items() if is_call(a, 'isinstance') and a.a[1][0] in xs and 'tuple' in isinst_names(a)]
                if q == 'Fresh.__call__':
                    if any(b for _, b in tup):
                        rec = any(e.kind == 'loop0' for e in p.events) or any(
                            e.kind == 'call' and e.a[0].a[0].k == 'param' and e.a[0].a[1] and e.a[0].a[1][0].k in ('sub', 'elem') for e in p.events) or (
                            is_call(v, 'tuple') and any(is_call(w, 'map') for w in walk(v)))
                        ctx.need(rec and v not in xs, 'renamer', f'{f.ref} tuple', where, 'the elements of a tuple are not renamed')
                    else:
                        ctx.need(bool(tup), 'renamer', f'{f.ref} other', where, f'{short(v)} is returned unchanged although it may be a tuple of terms')
                else:
                    ctx.ob('renamer', f'{f.ref} other', where)
            else:
                ctx.fail('renamer', f'{f.ref} other', where, f'{short(v)} is returned without knowing whether the input is a variable')
        ctx.floor(k, 4, f'cases of {q}')
    # Term.fresh maps the renamer over every argument
    f = m.func('dyna.term', 'Term.fresh')
    for p in ctx.paths(f):
        if p.kind != 'return':
            continue
        if any(e.kind == 'loop0' for e in p.events):
            continue
        v = p.res(p.value)
        ok = False
        for e in p.events:
            if e.kind == 'call' and e.a[0].k == 'call' and e.a[0].a[0].k == 'param' and e.a[0].a[1]:
                a = e.a[0].a[1][0]
                lp = [c for c in e.ctx if c[0] == 'loop']
                if lp and any(c[2] is not None and p.res(c[2]).k == 'attr' and p.res(c[2]).a[1] in ('fargs', 'args') for c in lp):
                    ok = True
        ctx.need(ok, 'renamer', f.ref, f.where, 'the renamer is not applied to every argument of the term')


def isinst_names(a):
    T = a.a[1][1]
    return {fname(y) for y in T.a[1]} if T.k == 'tup' else {fname(T)}


def p_values(p):
    for e in p.events:
        for x in e.a:
            if isinstance(x, V):
                yield from walk(x)


def root_snap(w):
    return w if is_call(w, 'snap') and len(w.a[1]) == 1 else None


def ident_key(key, xs):
    return key in xs or (is_call(key, 'id') and key.a[1][0] in xs)


def new_var(v):
    if is_call(v, 'Var'):
        return True
    if is_call(v, '_canonicalize_var') or (v.k == 'call' and v.a[0].k in ('fn',)):
        return any(is_call(a, 'len') for a in v.a[1])
    if v.k == 'sub':
        return True
    return False


# ---------------------------------------------------------------------------- C04
def occ_guard(e, x, y):
    "The path has established that variable x does not occur in y."
    for a, b in e.facts.items():
        if b is not False:
            continue
        if is_call(a, 'occurs_check') and recv(a) is x and a.a[1] and a.a[1][0] is y:
            return True
        if is_call(a, 'occur_check') and len(a.a[1]) == 2 and a.a[1][0] is x and a.a[1][1] is y:
            return True
    return False


@check('C04', 'dominance of every variable binding by a negative occurs check; structural completeness of the check itself',
       'Every store that binds a variable to an existing term (binding cell, substitution entry, anti-unifier memo) must lie on a path '
       'that has tested the occurs check of exactly that variable and term with a negative outcome. Each path on which an occurs check '
       'answers "no" must have compared the variable with the term, followed its binding if it is bound, and recursed into every '
       'element of a compound. The enabling switch must be a constant that no function writes.',
       ['substitutions built outside the term module come from these functions'])
def c04(ctx):
    m = ctx.m
    n = 0
    for f in analysis_roots(m, writes_value):
        if f.name in ('__init__',) or f.name in ('__enter__', '__exit__'):
            continue
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'setattr' and e.a[1] == 'value' and not is_restore(e.a[0], e.a[2], e.facts):
                    n += 1
                    ctx.need(occ_guard(e, e.a[0], e.a[2]), 'guarded-binding', f.ref, e.where,
                             f'{short(e.a[0])} is bound to {short(e.a[2])} without a negative occurs check')
    ctx.floor(n, 1, 'in-place bindings')
    sub = m.cls('dyna.term', 'Subst')
    k = 0
    for name, f in sorted(sub.methods.items()):
        self_ = V('param', f.ref, 'self', 0)
        for p in ctx.paths(f):
            for e in p.events:
                tgt = None
                if e.kind == 'setitem' and (e.a[0] is self_ or is_call(e.a[0], 'copy', 'Subst')):
                    tgt = (e.a[1], e.a[2])
                elif e.kind == 'mutate' and e.a[1] in ('update', 'setdefault') and e.a[0] is self_:
                    tgt = (e.a[2], e.a[-1])
                if tgt:
                    k += 1
                    ctx.need(occ_guard(e, *tgt), 'guarded-binding', f.ref, e.where,
                             f'{short(tgt[0])} is mapped to {short(tgt[1])} without a negative occurs check')
    ctx.floor(k, 2, 'substitution entries')
    f = m.func('dyna.term', 'generalizer')
    g = 0
    for h in m.all_funcs(nested=True):
        if h.outer is None or not h.ref.startswith(f.ref + '.') or h.name != 'traverse':
            continue
        for p in ctx.paths(h):
            for e in p.events:
                if e.kind == 'setitem' and e.a[1].k == 'param':
                    g += 1
                    new = is_call(p.res(e.a[2]), 'Var')
                    ctx.need(new or occ_guard(e, e.a[1], e.a[2]), 'guarded-binding', f.ref, e.where,
                             f'{short(e.a[1])} is associated with {short(e.a[2])} without a negative occurs check')
    ctx.counts['anti-unifier entries'] = g
    # the checks themselves
    for mod, q, vi, xi, partner in (('dyna.term', 'Var.occurs_check', 0, 1, 'unify'), ('dyna.term', 'Subst.occur_check', 1, 2, 'Subst.mgu')):
        f = m.func(mod, q)
        var = V('param', f.ref, f.node.args.args[vi].arg, vi)
        x = V('param', f.ref, f.node.args.args[xi].arg, xi)
        cnt = 0
        g = m.func('dyna.term', partner)
        descends = set()        # the kinds of compound that unification itself descends into
        for p in ctx.paths(g):
            for a, b in p.facts.items():
                if b and is_call(a, 'isinstance'):
                    descends |= isinst_names(a) & {'Term', 'list', 'tuple'}
        for p in ctx.paths(f):
            if p.kind != 'return':
                continue
            v = p.res(p.value)
            if is_const(v, True):
                continue
            cnt += 1
            xs = {x} | {w for w in p_values(p) if is_call(w, 'snap') and w.a[1] and w.a[1][0] is x}
            where = p.where()
            seen = any(b is False and a.k == 'cmp' and a.a[0] in ('is', '==') and var in a.a[1:] and (set(a.a[1:]) & xs) for a, b in p.facts.items())
            if v.k == 'cmp':
                seen = True
            ctx.need(seen, 'occurs-identity', f.ref, where, f'a path answers {short(v)} without comparing the variable with the term')
            rec = [w for w in walk(v) if is_call(w, f.name)]
            if rec:
                ok = any(contains_any(w, xs) for w in rec) and not any(in_open_loop(p, e) for e in p.events if e.kind == 'loop')
                ctx.need(ok, 'occurs-recursion', f.ref, where, f'the recursion {short(v)} does not look at the term')
                continue
            isvar = next((b for a, b in p.facts.items() if is_call(a, 'isinstance') and a.a[1][0] in xs and fname(a.a[1][1]) == 'Var'), None)
            if isvar:
                stop = any(b is False and ((is_call(a, 'is_bound') and recv(a) in xs) or (a.k == 'cmp' and a.a[0] == 'in' and (set(a.a[1:]) & xs))) for a, b in p.facts.items())
                ctx.need(stop, 'occurs-binding', f.ref, where, 'a variable is declared free of the other without checking that it is unbound')
                continue
            comp = None
            for a, b in p.facts.items():
                if is_call(a, 'isinstance') and a.a[1][0] in xs:
                    if 'Term' in isinst_names(a) and b:
                        isvar = False
            if isvar is None:
                ctx.fail('occurs-binding', f.ref, where, 'a path answers "no" without looking whether the term is a bound variable')
                continue
            for a, b in p.facts.items():
                if is_call(a, 'isinstance') and a.a[1][0] in xs:
                    T = a.a[1][1]
                    ts = {fname(y) for y in T.a[1]} if T.k == 'tup' else {fname(T)}
                    if 'Term' in ts:
                        comp = (b, ts)
            loops = [e for e in p.events if e.kind in ('loop', 'loop0')]
            if loops:
                whole = any(p.res(e.a[1]) in xs or (p.res(e.a[1]).k == 'attr' and p.res(e.a[1]).a[1] == 'fargs' and p.res(e.a[1]).a[0] in xs) for e in loops)
                recs = [e for e in p.events if e.kind == 'call' and is_call(e.a[0], f.name)]
                it = any(e.kind == 'loop' for e in loops)
                full = whole and (not it or any(w.k in ('sub', 'elem') for e in recs for w in e.a[0].a[1]))
                # the answer "no" may only be given after the loop has run to its end
                ended = all(not in_open_loop(p, e) for e in loops if e.kind == 'loop')
                ctx.need(full and ended, 'occurs-elements', f.ref, where, 'not every element of a compound term is searched')
            else:
                out = set()
                for a, b in p.facts.items():
                    if b is False and is_call(a, 'isinstance') and a.a[1][0] in xs:
                        out |= isinst_names(a)
                ctx.need(comp is not None and comp[0] is False and descends <= out, 'occurs-elements', f.ref, where,
                         'a compound term is declared free of the variable without searching it')
        ctx.floor(cnt, 3, f'negative answers of {q}')
    # the switch
    mod = m.modules.get('dyna.term')
    val = None
    for n_ in mod.tree.body:
        if isinstance(n_, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'OCCURS_CHECK_ENABLED' for t in n_.targets):
            val = n_.value
    if val is not None:
        ctx.need(isinstance(val, ast.Constant) and bool(val.value), 'enabled', 'OCCURS_CHECK_ENABLED', f'dyna/term.py:{val.lineno}', 'the occurs check is off by default')
    for mm in m.modules.values():
        top = set(map(id, mm.tree.body))
        for n_ in ast.walk(mm.tree):
            ts = n_.targets if isinstance(n_, ast.Assign) else [n_.target] if isinstance(n_, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
                if nm == 'OCCURS_CHECK_ENABLED' and not (mm is mod and id(n_) in top):
                    ctx.fail('enabled', 'OCCURS_CHECK_ENABLED', f'{mm.path}:{n_.lineno}', 'the occurs check is switched here')


def contains_any(w, xs):
    return any(y in xs for y in walk(w))


def in_open_loop(p, e):
    "The path returns from inside this loop iteration."
    r = [x for x in p.events if x.kind == 'return']
    return bool(r) and any(c[0] == 'loop' and c[1] == e.a[0] for c in r[-1].ctx)
