"""Functions of their arguments only: what was asked before, what became of the
answers and of the arrays they were asked about, changes no answer."""
from obl.common import *
from nd import VSlice
from values import Nd

ALL = VSlice(None, None)


def arrays(x):
    return [x] if isinstance(x, Nd) else [y for e in x for y in arrays(e)] if isinstance(x, (list, tuple)) else []


def write(r, x, c):
    r.guard(lambda: r.I.setitem(r.st, x, ALL, r.nd(c)))


def other(c, tag):
    c = next(l for _, l in leaves(c))
    sh = shape_of(c)
    return vec(tag, *sh) if len(sh) == 1 else mat(tag, *sh)


def independent(ctx, mod, name, sets, what='', setup=None):
    """sets: two lists of arguments, arrays given by their contents"""
    with ctx.ob('answers-are-independent', lambda: ctx.at(mod, name), what) as o:
        def fresh():
            r = ctx.run()
            if setup:
                setup(r)
            return r

        def build(r, args):
            return [r.nd(a) if isinstance(a, Ar) else a for a in args]

        def ask(r, args):
            x = r.call(r.fn(mod, name), *args)
            return x

        def read(r, x):
            if isinstance(x, Phi):
                return lift(lambda y: r.content(y) if isinstance(y, Nd) else y, x)
            return r.content(x) if isinstance(x, Nd) else x
        want = []
        for a in sets:
            r = fresh()
            want.append(read(r, ask(r, build(r, a))))
        r = fresh()
        same = lambda x, i, what: o.eq(read(r, x), want[i], what='%s %s' % (name, what))
        A, B = [build(r, a) for a in sets]
        x = ask(r, A)
        y = ask(r, B)
        same(x, 0, 'after it answered another question')
        same(y, 1, 'after another question')
        same(ask(r, build(r, sets[0])), 0, 'of the same values')
        # what becomes of the arrays
        for i, z in enumerate(arrays(x)):
            write(r, z, other(read(r, z), 'spoilt%d_' % i))
        for z, c in zip(A, sets[0]):
            if isinstance(c, Ar):
                o.eq(r.content(z), c, what='argument of %s once its answer is modified' % name)
        same(ask(r, A), 0, 'after its answer was modified')
        same(ask(r, build(r, sets[0])), 0, 'of the same values, after its answer was modified')
        if any(isinstance(c, Ar) for c in sets[0]):
            y = ask(r, A)
            for z, c in zip(A, sets[1]):
                if isinstance(c, Ar):
                    write(r, z, c)
            if isinstance(y, Nd):
                same(y, 0, 'after its argument was modified')
            if all(isinstance(c, Ar) for c in sets[1]):
                same(ask(r, A), 1, 'of an array which was modified')
        o.no_raise(r, allowed=('AssertionError',))
