"""Front end: load the current source of /repo, build module/class tables."""
import ast
import hashlib
import os

REPO = os.environ.get('SA_REPO', '/repo')


class AnchorLost(Exception):
    """A public construct the rules are anchored to does not exist."""


class ClassDef(object):
    def __init__(self, prog, mod, node):
        self.prog, self.mod, self.node, self.name = prog, mod, node, node.name
        self.own = {}            # name -> ('fn', FunctionDef) | ('prop', {get,set}) | ('expr', node)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self._fn(s)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name):
                self.own[s.targets[0].id] = self._assign(s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and \
                    isinstance(s.target, ast.Name):
                self.own[s.target.id] = ('expr', s.value)
        self._mro = None

    def _assign(self, v):
        # x = property(getter[, setter]) over functions of the class body
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id == 'property':
            d = {'abstract': False}
            for slot, a in zip(('get', 'set'), v.args):
                if isinstance(a, ast.Name) and self.own.get(a.id, ('',))[0] == 'fn':
                    d[slot] = self.own[a.id][1]
            for k in v.keywords:
                if k.arg in ('fget', 'fset') and isinstance(k.value, ast.Name) and \
                        self.own.get(k.value.id, ('',))[0] == 'fn':
                    d[k.arg[1:]] = self.own[k.value.id][1]
            return ('prop', d)
        if isinstance(v, ast.Name) and v.id in self.own:
            return self.own[v.id]
        return ('expr', v)

    def _fn(self, s):
        decs = []
        for d in s.decorator_list:
            decs.append(ast.unparse(d))
        known = ('property', 'staticmethod', 'classmethod')
        odd = [d for d in decs if d not in known and 'abstract' not in d
               and not d.endswith(('.setter', '.getter', 'cached_property'))]
        if odd:
            # some other decorator: the attribute is what it returns
            self.own[s.name] = ('deco', s) if len(odd) == len(decs) else ('odd', s)
            return
        abstract = any('abstract' in d for d in decs)
        if any(d in ('property', 'abstractproperty') or d.endswith('.getter')
               or d.endswith('cached_property') for d in decs):
            self.own[s.name] = ('prop', {'get': s, 'abstract': abstract,
                                         'cached': any(d.endswith('cached_property') for d in decs)})
        elif any(d.endswith('.setter') for d in decs):
            old = self.own.get(s.name) or ('prop', {})
            new = dict(old[1]) if old[0] == 'prop' else {}
            new['set'] = s
            self.own[s.name] = ('prop', new)
        elif 'staticmethod' in decs:
            self.own[s.name] = ('static', s)
        elif 'classmethod' in decs:
            self.own[s.name] = ('cls', s)
        else:
            self.own[s.name] = ('fn', s) if not abstract else ('abs', s)

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.prog.resolve_expr(self.mod, b)
            out.append(r)
        return out

    def mro(self):
        if self._mro is None:
            seqs = []
            bs = [b for b in self.bases()]
            for b in bs:
                seqs.append(b.mro() if isinstance(b, ClassDef) else [b])
            seqs.append(list(bs))
            res = [self]
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = res
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassDef) and name in c.own:
                return c, c.own[name]
        return None, None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return '<class %s.%s>' % (self.mod.name, self.name)


class Module(object):
    def __init__(self, prog, name, path, tree, src):
        self.prog, self.name, self.path, self.tree, self.src = prog, name, path, tree, src
        self.names = {}
        self.stars = []
        self.top = []
        self.line = {}           # of the definitions and imports
        self._scan(tree.body)
        self._values()
        self.values = {}         # evaluated module level values

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.names[s.name] = ('fn', s)
                self.line[s.name] = s.lineno
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ('class', ClassDef(self.prog, self, s))
                self.line[s.name] = s.lineno
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.names[a.asname] = ('mod', a.name)
                    else:
                        self.names[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                m = s.module or ''
                if s.level:
                    pk = self.name.split('.')
                    isp = os.path.basename(self.path) == '__init__.py'
                    pk = pk[:len(pk) - s.level + (1 if isp else 0)]
                    m = '.'.join(pk + ([m] if m else []))
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(m)
                    else:
                        self.names[a.asname or a.name] = ('from', m, a.name)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.While, ast.With, ast.Expr)):
                self.top.append(s)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, 'handlers', []):
                    self._scan(h.body)
                self._scan(s.orelse)


    def _values(self):
        """the names the statements of the module give a value to.  Most are bound once;
        those which several statements concern have a Story: these statements, in order"""
        concerns = []
        self.given = {}         # (function, attribute) -> expression given by the module
        every = {n for s in self.top for n in bound(s)}
        for s in self.top:
            b, t = bound(s), touched(s)
            for n in sorted(t):
                e = self.names.get(n)
                if e is not None and e[0] in ('class', 'fn') and isinstance(s, ast.Assign):
                    for x in s.targets:
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and e[0] == 'fn':
                            self.given[n, x.attr] = s.value
                if e is not None and e[0] == 'class':
                    # an attribute given to a class from outside
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                            isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name):
                        e[1].own[s.targets[0].attr] = e[1]._assign(s.value)
                if e is not None and e[0] in ('class', 'mod', 'from', 'fn'):
                    t = t - {n}
            t = t & every
            b = {n for n in b if n not in self.names or self.names[n][0] == 'expr'
                 or isinstance(s, ast.Assign) and self.line.get(n, 0) < s.lineno}
            if b or t:
                concerns.append((s, b, t))
        group = {}

        def root(n):
            while group.setdefault(n, n) != n:
                n = group[n]
            return n
        many = set()
        seen = set()
        for s, b, t in concerns:
            if t or not isinstance(s, (ast.Assign, ast.AnnAssign)):
                many |= b | t
            many |= b & seen
            seen |= b
            for n in b | t:
                group[root(n)] = root(sorted(b | t)[0])
        many = {root(n) for n in many}
        stories = {}
        for s, b, t in concerns:
            for n in sorted(b | t):
                if root(n) in many:
                    story = stories.setdefault(root(n), Story())
                    if not story.stmts or story.stmts[-1] is not s:
                        story.stmts.append(s)
                    if n not in story.names and n not in loop_names(s):
                        story.names.append(n)
                    self.names[n] = ('expr', story)
                else:
                    self.names[n] = ('expr', s)


class Story(object):
    def __init__(self):
        self.stmts, self.names = [], []

    def function(self):
        f = ast.parse('def values(): pass').body[0]
        f.body = list(self.stmts) + [ast.Return(ast.Tuple([ast.Name(n, ast.Load()) for n in self.names], ast.Load()))]
        return ast.fix_missing_locations(f)


def base(t):
    while isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def targets(s):
    for x in ast.walk(s):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                yield t
        elif isinstance(x, ast.AugAssign) or isinstance(x, ast.AnnAssign) and x.value is not None:
            yield x.target
        elif isinstance(x, (ast.For, ast.NamedExpr)):
            yield x.target
        elif isinstance(x, ast.withitem) and x.optional_vars is not None:
            yield x.optional_vars


def flat(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            for y in flat(x):
                yield y
    else:
        yield t.value if isinstance(t, ast.Starred) else t


def bound(s):
    return {x.id for t in targets(s) for x in flat(t) if isinstance(x, ast.Name)}


def loop_names(s):
    return {y.id for x in ast.walk(s) if isinstance(x, ast.For) for y in flat(x.target) if isinstance(y, ast.Name)}


def touched(s):
    """the names whose values a statement changes"""
    out = {base(x) for t in targets(s) for x in flat(t) if not isinstance(x, ast.Name)}
    for x in ast.walk(s):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute):
            out.add(base(x.value.func))
    return out - {None}


class Program(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.consulted = set()

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path_of(name)
        if p is None:
            self.mods[name] = None
            return None
        with open(p, encoding='utf-8') as f:
            src = f.read()
        try:
            tree = ast.parse(src)
        except SyntaxError:
            tree = ast.parse(to_py3(src, p))
        m = Module(self, name, p, tree, src)
        self.mods[name] = m
        return m

    def add_source(self, name, src, path):
        """a specification module (part of the checker, not of /repo)"""
        self.mods[name] = Module(self, name, path, ast.parse(src), src)
        return self.mods[name]

    def lookup(self, mod, name):
        """-> ('fn', mod, node) | ('class', ClassDef) | ('mod', dotted) |
        ('ext', dotted) | ('expr', mod, node) | None"""
        e = mod.names.get(name)
        if e is None:
            for m in mod.stars:
                mm = self.module(m)
                if mm is None:
                    continue
                r = self.lookup(mm, name)
                if r is not None:
                    return r
            for m in mod.stars:
                if self.module(m) is None and name in KNOWN_STAR.get(m, ()):
                    return ('ext', m + '.' + name)
            return None
        k = e[0]
        if k == 'fn':
            return ('fn' if not e[1].decorator_list else 'deco', mod, e[1])
        if k == 'class':
            return ('class', e[1])
        if k == 'mod':
            return ('mod', e[1])
        if k == 'from':
            if e[1] == mod.name and e[2] == name:       # a submodule of its own package
                return ('mod', e[1] + '.' + e[2]) if self.path_of(e[1] + '.' + e[2]) else None
            return self.member(e[1], e[2])
        return ('expr', mod, e[1])

    def member(self, modname, name):
        mm = self.module(modname)
        if mm is None:
            return ('ext', modname + '.' + name)
        r = self.lookup(mm, name)
        if r is None and self.path_of(modname + '.' + name):
            return ('mod', modname + '.' + name)
        return r

    def resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            r = self.lookup(mod, e.id)
            if r is None:
                return e.id
        elif isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if isinstance(b, tuple) and b[0] == 'mod':
                r = self.member(b[1], e.attr)
            else:
                return ast.unparse(e)
        else:
            return ast.unparse(e)
        if r and r[0] == 'class':
            return r[1]
        return r

    def cls(self, modname, name):
        r = self.member(modname, name) if self.module(modname) else None
        if not r or r[0] != 'class':
            raise AnchorLost('class %s.%s' % (modname, name))
        return r[1]

    def func(self, modname, name):
        r = self.member(modname, name) if self.module(modname) else None
        if not r or r[0] not in ('fn', 'deco'):
            raise AnchorLost('function %s.%s' % (modname, name))
        return r

    def all_modules(self):
        out = []
        for d, _, fs in sorted(os.walk(os.path.join(self.root, 'arboris'))):
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3]
                    n = rel.replace(os.sep, '.')
                    if n.endswith('.__init__'):
                        n = n[:-9]
                    out.append(n)
        return out

    def all_classes(self):
        for n in self.all_modules():
            m = self.module(n)
            for k, e in sorted(m.names.items()):
                if e[0] == 'class':
                    yield e[1]

    def digest(self):
        h = hashlib.sha256()
        for n in self.all_modules():
            h.update(n.encode())
            with open(self.path_of(n), 'rb') as f:
                h.update(f.read())
        return h.hexdigest()[:16]


KNOWN_STAR = {'numpy': ('array', 'zeros', 'eye', 'dot', 'pi', 'sin', 'cos',
                        'arange', 'sqrt', 'ones', 'diag')}


def to_py3(src, path):
    from fissix import refactor
    fixers = refactor.get_fixers_from_package('fissix.fixes')
    rt = refactor.RefactoringTool(fixers)
    if not src.endswith('\n'):
        src += '\n'
    return str(rt.refactor_string(src, path))


def walk_local(node):
    """walk a function body without entering nested defs"""
    st = list(ast.iter_child_nodes(node))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def is_generator(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_local(fn))
