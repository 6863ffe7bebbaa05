"""Running the abstract interpreter on public entry points."""
import ast
from front import *
from values import *
from interp import Interp, Frame, Exit
from model import *
import alg


class Run(object):
    """one abstract execution context: interpreter + state + root frame"""
    def __init__(self, prog, schema, contracts=None):
        self.prog, self.schema = prog, schema
        self.I = Interp(prog, schema, contracts or {})
        m = prog.mods.get('__root__')
        if m is None:
            m = prog.add_source('__root__', 'def root():\n    pass\n', '<root>')
        self.fr = Frame(self.I, Fn(m, m.tree.body[0]))
        self.I.stack.append(self.fr)
        self.st = State()

    # -- access
    def fn(self, mod, name):
        r = self.prog.func(mod, name)
        if r[0] == 'deco':
            return self.I.from_entry(self.st, r, name)
        return Fn(r[1], r[2])

    def cls(self, name):
        return self.schema.cls(name)

    def guard(self, f):
        """evaluate; an exception escaping unconditionally ends the state"""
        try:
            return f()
        except PyErr as e:
            self.I.raise_under(self.st, True, e)
            return None

    def call(self, f, *args, **kw):
        return self.guard(lambda: self.I.call(self.st, f, list(args), kw))

    def method(self, o, name, *args, **kw):
        return self.guard(lambda: self.I.call(self.st, self.I.getattr(self.st, o, name),
                                              list(args), kw))

    def get(self, o, *names):
        for n in names:
            if n.startswith('_'):
                # internal state: when it is kept elsewhere, nothing is decided
                try:
                    o = self.I.getattr(self.st, o, n)
                except PyErr:
                    self.I.unsupported('no internal state ' + n)
            else:
                o = self.guard(lambda: self.I.getattr(self.st, o, n))
        return o

    def set(self, o, name, v):
        self.guard(lambda: self.I.setattr(self.st, o, name, v))

    def new(self, cls, *args, **kw):
        if isinstance(cls, str):
            cls = self.cls(cls)
        return self.guard(lambda: self.I.call(self.st, cls, list(args), kw))

    def item(self, o, i):
        return self.guard(lambda: self.I.subscript(self.st, o, i))

    def content(self, v):
        return self.guard(lambda: self.I.content(self.st, v))

    def nd(self, content, dtype='f'):
        return self.I.new_nd(self.st, content, dtype)

    def list(self, items):
        return self.I.new_list(self.st, items)

    def items(self, v):
        return self.I.items_concrete(self.st, v)

    @property
    def raises(self):
        return [x for x in self.fr.exits if x.kind == 'raise'] + \
            getattr(self.I, 'top_raises', [])

    def source(self, name, src):
        """load a specification module of the checker"""
        return self.prog.add_source(name, src, '<spec %s>' % name)


def vec(name, n, **meta):
    return ar([sym('%s%d' % (name, i), **meta) for i in range(n)])


def mat(name, r, c):
    return ar([[sym('%s%d%d' % (name, i, j)) for j in range(c)] for i in range(r)])


def se3(name):
    return mat_atom(name, (4, 4), 'SE3')
