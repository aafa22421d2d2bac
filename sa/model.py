"""Program model: parses every module under /repo/dyna and resolves names.

Nothing here imports or runs the analysed code; only `ast.parse` touches it.
"""
import ast
import os
import hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'dyna'


class AnalysisError(Exception):
    "The analysis itself cannot proceed (vanished anchor, unparsable source)."


class Func:
    "A function or method definition."
    __slots__ = ('mod', 'qual', 'node', 'cls', 'outer', 'is_gen', 'decos')

    def __init__(self, mod, qual, node, cls=None, outer=None):
        self.mod = mod
        self.qual = qual
        self.node = node
        self.cls = cls
        self.outer = outer
        self.is_gen = _is_gen(node)
        self.decos = [_dotted(d.func if isinstance(d, ast.Call) else d)
                      for d in getattr(node, 'decorator_list', [])]

    @property
    def name(self):
        return self.qual.rsplit('.', 1)[-1]

    @property
    def ref(self):
        return f'{self.mod.name}:{self.qual}'

    @property
    def where(self):
        return f'{self.mod.relpath}:{self.node.lineno}'

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def is_static(self):
        return 'staticmethod' in self.decos

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decos

    @property
    def is_property(self):
        return any(d and d.split('.')[-1] in ('property', 'cached_property') for d in self.decos)

    def __repr__(self):
        return f'<{self.ref}>'


class Class:
    def __init__(self, mod, name, node):
        self.mod = mod
        self.name = name
        self.node = node
        self.methods = {}
        self.attrs = {}       # class-level assignments  name -> value node
        self.bases = [_dotted(b) for b in node.bases]

    @property
    def ref(self):
        return f'{self.mod.name}:{self.name}'

    @property
    def where(self):
        return f'{self.mod.relpath}:{self.node.lineno}'

    def __repr__(self):
        return f'<class {self.ref}>'


class Module:
    def __init__(self, name, path, relpath, src):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.src = src
        self.tree = ast.parse(src, filename=path)
        self.funcs = {}
        self.classes = {}
        self.imports = {}        # local name -> ('mod', m) | ('from', m, n)
        self.assigns = {}        # global name -> [value nodes]
        self.stmts = []


def _dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = _dotted(n.value)
        return None if b is None else b + '.' + n.attr
    return None


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Model:
    def __init__(self, root=None, overlay=None):
        self.root = root or REPO
        self.overlay = overlay or {}
        self.modules = {}
        self.digest = hashlib.sha256()
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisError(f'no package at {base}')
        for d, subs, files in sorted(os.walk(base)):
            subs.sort()
            if '__pycache__' in d:
                continue
            for f in sorted(files):
                if f.endswith('.py'):
                    self._load(os.path.join(d, f))
        for m in self.modules.values():
            self._index(m)
        self.methods_by_name = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for k, fn in c.methods.items():
                    self.methods_by_name.setdefault(k, []).append(fn)
        self._parents = {}

    # -- loading
    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, '.')
        if name.endswith('.__init__'):
            name = name[:-9]
        if rel in self.overlay:
            src = self.overlay[rel]
        else:
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
        self.digest.update(rel.encode() + b'\0' + src.encode() + b'\0')
        try:
            self.modules[name] = Module(name, path, rel, src)
        except SyntaxError as e:
            raise AnalysisError(f'{rel} does not parse: {e}')

    def _index(self, m):
        is_pkg = m.path.endswith('__init__.py')

        def absmod(node):
            if not node.level:
                return node.module
            parts = m.name.split('.')
            if not is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (node.level - 1)]
            return '.'.join(parts + ([node.module] if node.module else []))

        def visit(stmts, cls=None):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if cls is None:
                        m.funcs[s.name] = Func(m, s.name, s)
                        m.assigns.setdefault(s.name, []).append(s)
                    else:
                        f = Func(m, f'{cls.name}.{s.name}', s, cls)
                        cls.methods[s.name] = f
                elif isinstance(s, ast.ClassDef) and cls is None:
                    c = Class(m, s.name, s)
                    m.classes[s.name] = c
                    m.assigns.setdefault(s.name, []).append(s)
                    visit(s.body, c)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        m.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        m.imports[a.asname or a.name] = ('from', absmod(s), a.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        self._assign(m, cls, t, s.value)
                elif isinstance(s, ast.AnnAssign) and s.value is not None:
                    self._assign(m, cls, s.target, s.value)
                elif isinstance(s, ast.AugAssign):
                    if isinstance(s.target, ast.Name) and cls is None:
                        m.assigns.setdefault(s.target.id, []).append(s)
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        visit(getattr(s, fld, []) or [], cls)
                    for h in getattr(s, 'handlers', []):
                        visit(h.body, cls)
        visit(m.tree.body)
        # function-local imports are resolved too (dyna uses them for cycles)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    m.imports.setdefault(a.asname or a.name, ('from', absmod(n), a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.imports.setdefault(a.asname or a.name.split('.')[0], ('mod', a.name if a.asname else a.name.split('.')[0]))

    def _assign(self, m, cls, t, value):
        if isinstance(t, ast.Name):
            if cls is None:
                m.assigns.setdefault(t.id, []).append(value)
            else:
                cls.attrs[t.id] = value
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._assign(m, cls, e, ast.Constant(value=None))
        elif isinstance(t, ast.Attribute) and cls is None:
            b = _dotted(t)
            if b:
                m.assigns.setdefault(b, []).append(value)

    # -- resolution
    def resolve(self, m, name, _seen=()):
        """Resolve a global `name` in module `m` to a Func / Class / Module /
        ('ext', dotted) / ('global', mod, name) / None."""
        if (m.name, name) in _seen:
            return None
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.assigns:
            vals = m.assigns[name]
            if len(vals) == 1 and isinstance(vals[0], (ast.Name, ast.Attribute)):
                d = _dotted(vals[0])
                if d and d != name:
                    r = self.resolve_dotted(m, d, _seen + ((m.name, name),))
                    if isinstance(r, (Func, Class)):
                        return r
            return ('global', m.name, name)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                return self.modules.get(imp[1]) or ('ext', imp[1])
            _, mod, n = imp
            target = self.modules.get(mod)
            if target is None:
                return ('ext', f'{mod}.{n}')
            sub = self.modules.get(f'{mod}.{n}')
            r = self.resolve(target, n, _seen + ((m.name, name),))
            if r is None:
                return sub
            return r
        # star imports
        for s in m.tree.body:
            if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
                mod = s.module if not s.level else None
                target = self.modules.get(mod)
                if target is not None:
                    r = self.resolve(target, name, _seen + ((m.name, name),))
                    if r is not None:
                        return r
        return None

    def resolve_dotted(self, m, dotted, _seen=()):
        parts = dotted.split('.')
        r = self.resolve(m, parts[0], _seen)
        for p in parts[1:]:
            if isinstance(r, Module):
                r = self.resolve(r, p, _seen) or self.modules.get(r.name + '.' + p)
            elif isinstance(r, Class):
                r = self.find_method(r, p)
            elif isinstance(r, tuple) and r[0] == 'ext':
                r = ('ext', r[1] + '.' + p)
            else:
                return None
        return r

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if b is None:
                continue
            r = self.resolve_dotted(c.mod, b)
            if isinstance(r, Class):
                for x in self.mro(r):
                    if x not in out:
                        out.append(x)
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def subclasses(self, c):
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if c in self.mro(k):
                    out.append(k)
        return out

    # -- lookups used by rules
    def func(self, mod, qual, required=True):
        m = self.modules.get(mod)
        f = None
        if m is not None:
            if '.' in qual:
                c, k = qual.split('.', 1)
                cls = m.classes.get(c)
                if cls is None:
                    r = self.resolve(m, c)
                    cls = r if isinstance(r, Class) else None
                if cls is not None:
                    f = self.find_method(cls, k)
            else:
                f = m.funcs.get(qual)
                if f is None:
                    r = self.resolve(m, qual)
                    f = r if isinstance(r, Func) else None
        if f is None and '.' in qual:
            # the class may have moved to another module
            c, k = qual.split('.', 1)
            for mm in self.modules.values():
                if c in mm.classes:
                    f = self.find_method(mm.classes[c], k)
                    if f:
                        break
        elif f is None:
            for mm in self.modules.values():
                if qual in mm.funcs and mm.name.startswith('dyna'):
                    f = mm.funcs[qual]
                    break
        if f is None and required:
            raise AnalysisError(f'anchor vanished: {mod}:{qual}')
        return f

    def cls(self, mod, name, required=True):
        m = self.modules.get(mod)
        c = m and m.classes.get(name)
        if c is None:
            for mm in self.modules.values():
                if name in mm.classes:
                    c = mm.classes[name]
                    break
        if c is None and required:
            raise AnalysisError(f'anchor vanished: class {mod}:{name}')
        return c

    def all_funcs(self, nested=True):
        "Every function in the package, nested ones included."
        for m in self.modules.values():
            yield from self.mod_funcs(m, nested)

    def mod_funcs(self, m, nested=True):
        def rec(owner, qual, cls):
            for n in _direct_defs(owner):
                f = Func(m, f'{qual}.{n.name}', n, cls, outer=owner)
                yield f
                yield from rec(n, f'{qual}.{n.name}', cls)
        seen = set()

        def top(stmts, cls, prefix):
            for n in stmts:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + n.name
                    f = (cls.methods.get(n.name) if cls else m.funcs.get(n.name))
                    if f is None or f.node is not n:
                        f = Func(m, q, n, cls)
                    if id(n) in seen:
                        continue
                    seen.add(id(n))
                    yield f
                    if nested:
                        yield from rec(n, q, cls)
                elif isinstance(n, ast.ClassDef):
                    c = m.classes.get(n.name) if cls is None else None
                    yield from top(n.body, c or cls, prefix + n.name + '.')
                else:
                    for fld in ('body', 'orelse', 'finalbody'):
                        yield from top([x for x in getattr(n, fld, []) or [] if isinstance(x, ast.stmt)], cls, prefix)
                    for h in getattr(n, 'handlers', []):
                        yield from top(h.body, cls, prefix)
        yield from top(m.tree.body, None, '')


def _direct_defs(owner):
    todo = list(owner.body)
    while todo:
        n = todo.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n
            continue
        if isinstance(n, (ast.ClassDef, ast.Lambda)):
            continue
        todo = list(ast.iter_child_nodes(n)) + todo
