"""A builder called a second time, after the first world it made was used and
changed, must give what it gives in a program that never called it."""
from obl.c25 import *

WRECK = '''
def wreck(w):
    for b in w.getbodies():
        b.mass[:, :] = 0.
        b.viscosity[:, :] = 1.
    for j in w.getjoints():
        if j.ndof == 1:
            j.gpos[:] = 7.
        j.gvel[:] = 7.
    for s in w.getshapes():
        s.frame.body.name = 'another'

def kind(x):
    return x.__class__.__name__

def sizes(s):
    out = []
    for k in ('half_extents', 'radius', 'length', 'coeffs'):
        if hasattr(s, k):
            v = getattr(s, k)
            out.extend([v] if k in ('radius', 'length') else list(v))
    return out

def spoil(d):
    """the table belongs to who asked for it"""
    for k in list(d.keys()):
        d[k] = None

def spoil_list(x):
    for i in range(len(x)):
        x[i] = None
'''


def things(r, w):
    return {str(x) for n in ('getbodies', 'getjoints', 'getframes', 'getshapes') for x in r.items(r.method(w, n))}


def picture(r, w, before=()):
    """what there is in a world, in order: (what, content)"""
    r.source('spec_again', WRECK)
    k_ = lambda n, x: r.call(r.I.mod_member(r.st, 'spec_again', n), x)
    kind = lambda x: k_('kind', x)
    out = []
    name = lambda x: r.get(x, 'name')
    new = lambda n: [x for x in r.items(r.method(w, n)) if str(x) not in before]
    bodies = [b for b in new('getbodies') if str(b) != str(r.get(w, 'ground'))]
    which = {str(b): i for i, b in enumerate(bodies)}
    which[str(r.get(w, 'ground'))] = 'ground'
    on = lambda f: which.get(str(r.get(f, 'body')), None)
    for i, b in enumerate(bodies):
        out.append(('name of body %d' % i, name(b)))
        for q in ('mass', 'viscosity', 'pose'):
            out.append(('%s of body %d' % (q, i), r.content(r.get(b, q))))
    for i, j in enumerate(new('getjoints')):
        out.append(('name of joint %d' % i, name(j)))
        out.append(('class of joint %d' % i, kind(j)))
        out.append(('ends of joint %d' % i, tuple(on(r.get(j, k)) for k in ('frame0', 'frame1'))))
        for q in ('gpos', 'gvel'):
            out.append(('%s of joint %d' % (q, i), r.content(r.get(j, q))))
        for k in ('frame0', 'frame1'):
            out.append(('%s of joint %d' % (k, i), r.content(r.get(r.get(j, k), 'bpose'))))
    for i, f in enumerate(new('getframes')):
        out.append(('frame %d' % i, (name(f), on(f))))
        out.append(('place of frame %d' % i, r.content(r.get(f, 'bpose'))))
    for i, s in enumerate(new('getshapes')):
        out.append(('shape %d' % i, (name(s), kind(s), on(r.get(s, 'frame')))))
        out.append(('place of shape %d' % i, r.content(r.get(s, 'frame', 'bpose'))))
        d = [num(x) for x in r.items(k_('sizes', s))]
        if d:
            out.append(('sizes of shape %d' % i, ar(d)))
    return out


def same_pictures(o, got, want, what='in the world'):
    o.require([k for k, _ in got] == [k for k, _ in want], 'other things %s: %s'
              % (what, sorted({k for k, _ in got} ^ {k for k, _ in want})[:4]))
    for (k, x), (k2, y) in zip(got, want):
        if k != k2:
            break
        if isinstance(x, (str, tuple, type(None))) or isinstance(y, (str, tuple, type(None))):
            o.require(x == y, '%s: %s, at first %s' % (k, x, y))
        else:
            o.eq(x, y, what=k)


def wreck(r, w):
    r.source('spec_again', WRECK)
    r.call(r.I.mod_member(r.st, 'spec_again', 'wreck'), w)


def spoil(r, d, name='spoil'):
    r.source('spec_again', WRECK)
    r.call(r.I.mod_member(r.st, 'spec_again', name), d)
