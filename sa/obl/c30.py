"""Robots described in URDF.  The DOM of the library is replaced by a reference one; a robot with every element
and with symbolic numbers is read, written, read again and loaded in a world: what was read must be what the document says, it must
survive a round trip, and in any posture every body must be where the semantics of URDF puts its link."""
from obl.small import *
import lib
from fractions import Fraction as frac
from obl.c01 import ref_rot

UP, UI = 'arboris.robots.urdf.urdf_parser', 'arboris.robots.urdf'

SPEC = '''
from library import Object
from numpy import array, dot, eye, cos, sin
from arboris.core import World, Body
from arboris.homogeneousmatrix import transl, rotx, roty, rotz
from arboris.joints import RxJoint, RyJoint, RzJoint, TxJoint, TyJoint, TzJoint, FixedJoint, FreeJoint
from arboris.shapes import Box, Sphere, Cylinder
from arboris.constraints import JointLimits
from arboris.robots.urdf import URDFConverter
from arboris.robots.urdf.urdf_parser import URDF

class Node(Object):
    ELEMENT_NODE = 1
    TEXT_NODE = 3
    COMMENT_NODE = 8
    def __init__(self, kind, name):
        self.nodeType = kind
        self.localName = name
        self.tagName = name
        self.nodeName = name
        self.childNodes = []
        self.parentNode = None
        self.texts = {}
    @property
    def firstChild(self):
        return self.childNodes[0] if self.childNodes else None
    @property
    def lastChild(self):
        return self.childNodes[-1] if self.childNodes else None
    @property
    def documentElement(self):
        for x in self.childNodes:
            if x.nodeType == 1:
                return x
    @property
    def nextSibling(self):
        last = None
        for x in self.parentNode.childNodes:
            if last is self:
                return x
            last = x
    def hasChildNodes(self):
        return len(self.childNodes) > 0
    def getElementsByTagName(self, name):
        r = []
        for x in self.childNodes:
            if x.nodeType == 1:
                if x.localName == name or name == '*':
                    r.append(x)
                r += x.getElementsByTagName(name)
        return r
    def appendChild(self, x):
        self.childNodes.append(x)
        x.parentNode = self
        return x
    def setAttribute(self, name, value):
        self.texts[name] = value
    def getAttribute(self, name):
        if name in self.texts:
            return self.texts[name]
        return ''
    def hasAttribute(self, name):
        return name in self.texts
    def createElement(self, name):
        return Node(1, name)
    def toprettyxml(self, *args, **kw):
        return self
    def toxml(self, *args, **kw):
        return self

class File(Object):
    def __init__(self, node):
        self.node = node
    def read(self):
        return self.node
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *args):
        pass

def laid_out(x):
    """with the spaces and comments there are between the elements of a file"""
    y = Node(x.nodeType, x.localName)
    for k in x.texts:
        y.texts[k] = x.texts[k]
    for c in x.childNodes:
        y.appendChild(Node(3, None))
        y.appendChild(Node(8, None))
        y.appendChild(laid_out(c))
        y.appendChild(Node(8, None))
    y.appendChild(Node(3, None))
    return y

def el(name, texts, *inside):
    x = Node(1, name)
    for k in texts:
        x.texts[k] = texts[k]
    for c in inside:
        x.appendChild(c)
    return x

def words(v):
    return ' '.join([str(x) for x in v])

def origin(xyz, rpy):
    d = {}
    if xyz is not None:
        d['xyz'] = words(xyz)
    if rpy is not None:
        d['rpy'] = words(rpy)
    return el('origin', d)

def inertial(m, I, *place):
    d = {}
    for k in I:
        d[k] = str(I[k])
    return el('inertial', {}, el('mass', {'value': str(m)}), el('inertia', d), *place)

def collision(shape, *place):
    return el('collision', {}, el('geometry', {}, shape), *place)

def joint(name, kind, parent, child, *more):
    return el('joint', {'name': name, 'type': kind}, el('parent', {'link': parent}), el('child', {'link': child}), *more)

def document(P, N, M):
    place = lambda n: origin(P[n][0], P[n][1])
    robot = el('robot', {'name': 'r'},
        joint('grip', 'fixed', 'slide', 'tool', origin(P['grip'][0], None)),
        el('link', {'name': 'base'},
            el('visual', {}, el('geometry', {}, el('mesh', {'filename': 'base.dae', 'scale': words(N['scale'])})), place('seen'),
               el('material', {'name': 'red'}, el('color', {'rgba': words(N['rgba'])}), el('texture', {'filename': 'red.png'}))),
            collision(el('box', {'size': words(N['size'])}), place('box')),
            inertial(M[0], M[1], place('com'))),
        el('link', {'name': 'arm'}, collision(el('sphere', {'radius': str(N['r'])}), place('sphere')), inertial(M[2], M[3])),
        joint('elbow', 'revolute', 'base', 'arm', place('elbow'), el('axis', {'xyz': '0 1 0'}),
              el('limit', {'effort': str(N['e']), 'velocity': str(N['v']), 'lower': str(N['low']), 'upper': str(N['up'])}),
              el('dynamics', {'damping': '0.5', 'friction': '0.25'}),
              el('safety_controller', {'k_velocity': str(N['kv']), 'k_position': str(N['kp']),
                                       'soft_lower_limit': str(N['sl']), 'soft_upper_limit': str(N['su'])}),
              el('calibration', {'rising': str(N['rise']), 'falling': str(N['fall'])}),
              el('mimic', {'joint': 'rail', 'multiplier': str(N['mul']), 'offset': str(N['off'])})),
        el('link', {'name': 'slide'}, collision(el('cylinder', {'radius': str(N['R']), 'length': str(N['L'])}))),
        joint('rail', 'prismatic', 'arm', 'slide', place('rail'), el('axis', {'xyz': '0 0.6 0.8'}),
              el('limit', {'effort': str(N['e2']), 'velocity': str(N['v2']), 'lower': str(N['low2']), 'upper': str(N['up2'])})),
        el('link', {'name': 'tool'}, collision(el('mesh', {'filename': 'tool.dae'}), origin(P['mesh'][0], P['mesh'][1]))),
        el('link', {'name': 'plate'}, el('inertial', {}, el('mass', {'value': '2'}))),
        joint('flap', 'revolute', 'base', 'plate', origin(None, P['flap'][1])),
        el('link', {'name': 'tip'}),
        joint('wrist', 'revolute', 'tool', 'tip', el('axis', {'xyz': '0.6 0 -0.8'}), place('wrist')),
        el('link', {'name': 'up'}),
        joint('mast', 'prismatic', 'base', 'up', el('axis', {'xyz': '0 0 1'}), place('mast')),
        el('link', {'name': 'loose'}),
        joint('free', 'floating', 'plate', 'loose', place('free')),
        el('material', {'name': 'blue'}, el('color', {'rgba': words(N['rgba2'])})),
        el('gazebo', {}), el('transmission', {'name': 't'}))
    doc = Node(9, None)
    doc.appendChild(robot)
    return laid_out(doc)

def rpy(a):
    return dot(rotz(a[2]), dot(roty(a[1]), rotx(a[0])))

def place(p):
    H = eye(4)
    if p[0] is not None:
        H = transl(p[0][0], p[0][1], p[0][2])
    if p[1] is not None:
        H = dot(H, rpy(p[1]))
    return H

def turn(u, q):
    c = cos(q)
    s = sin(q)
    x, y, z = u
    return array([[c+x*x*(1-c), x*y*(1-c)-z*s, x*z*(1-c)+y*s, 0.],
                  [y*x*(1-c)+z*s, c+y*y*(1-c), y*z*(1-c)-x*s, 0.],
                  [z*x*(1-c)-y*s, z*y*(1-c)+x*s, c+z*z*(1-c), 0.],
                  [0., 0., 0., 1.]])

def slide(u, q):
    return transl(u[0]*q, u[1]*q, u[2]*q)

def poses(H, P, q):
    """where the links are"""
    d = {'base': H}
    d['arm'] = dot(d['base'], dot(place(P['elbow']), turn((0, 1, 0), q['elbow'])))
    d['slide'] = dot(d['arm'], dot(place(P['rail']), slide((0, 0.6, 0.8), q['rail'])))
    d['tool'] = dot(d['slide'], place((P['grip'][0], None)))
    d['tip'] = dot(d['tool'], dot(place(P['wrist']), turn((0.6, 0, -0.8), q['wrist'])))
    d['plate'] = dot(d['base'], dot(place((None, P['flap'][1])), turn((1, 0, 0), q['flap'])))
    d['up'] = dot(d['base'], dot(place(P['mast']), slide((0, 0, 1), q['mast'])))
    d['loose'] = dot(d['plate'], place(P['free']))
    return d

def roots():
    a = URDF('a')
    return a
'''

FIELDS = {
    'URDF': ('name', 'elements'), 'Link': ('name', 'visual', 'inertial', 'collision'),
    'Visual': ('geometry', 'material', 'origin'), 'Collision': ('geometry', 'origin'),
    'Inertial': ('matrix', 'mass', 'origin'), 'Material': ('name', 'color', 'texture'), 'Color': ('rgba',),
    'Pose': ('position', 'rotation'), 'Box': ('dims',), 'Sphere': ('radius',), 'Cylinder': ('radius', 'length'),
    'Mesh': ('filename', 'scale'), 'Dynamics': ('damping', 'friction'), 'JointMimic': ('joint_name', 'multiplier', 'offset'),
    'JointLimit': ('effort', 'velocity', 'lower', 'upper'), 'JointCalibration': ('rising', 'falling'),
    'SafetyController': ('velocity', 'position', 'lower', 'upper'),
    'Joint': ('name', 'parent', 'child', 'joint_type', 'axis', 'origin', 'limits', 'dynamics', 'safety', 'calibration', 'mimic')}
INERTIA = ('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz')


def place_(n):
    return (['%s_%s' % (n, k) for k in 'xyz'], ['%s_%s' % (n, k) for k in ('roll', 'pitch', 'yaw')])


class Robot(object):
    def __init__(self, ctx):
        self.ctx = ctx
        S = Schema(ctx.prog)
        c = {'arboris.massmatrix.ismassmatrix': lambda I, st, a, kw: True,
             HG + '.ishomogeneousmatrix': lambda I, st, a, kw: True}
        r = self.r = ctx.run(S, c)
        r.I.plain_floats = True
        r.source('spec_urdf', SPEC)
        self.member = lambda n: r.I.mod_member(r.st, 'spec_urdf', n)
        self.f = lambda n: r.fn('spec_urdf', n)
        pair = lambda n: tuple(r.list([sym(x) for x in l]) for l in place_(n))
        self.places = {n: pair(n) for n in ('grip', 'seen', 'box', 'com', 'sphere', 'elbow', 'rail', 'mesh', 'flap', 'wrist', 'mast', 'free')}
        many = lambda n, k: r.list([sym('%s%d' % (n, i), pos=True) for i in range(k)])
        self.numbers = dict({k: sym(k) for k in ('e', 'v', 'low', 'up', 'kv', 'kp', 'sl', 'su', 'rise', 'fall', 'mul', 'off',
                                                 'e2', 'v2', 'low2', 'up2')},
                            **{k: sym(k, pos=True) for k in 'rRL'})
        self.numbers.update(low=num(0), up=num(frac(3, 2)), low2=num(frac(-1, 2)), up2=num(0))
        self.numbers.update(scale=many('scale', 3), rgba=many('rgba', 4), rgba2=many('blue', 4), size=many('size', 3))
        one = dict(zip(INERTIA, [num(frac(k, 4)) for k in (8, 1, -1, 9, 2, 10)]))
        two = dict(zip(INERTIA, [num(k) for k in (1, 0, 0, 2, 0, 3)]))
        self.masses = (num(frac(5, 2)), one, num(3), two)

    def value(self, x):
        """a Python structure as a value of the analysis"""
        r = self.r
        if isinstance(x, dict):
            d = r.I.lib.call(r.st, 'dict', [], {})
            for k, v in x.items():
                r.I.setitem(r.st, d, k, self.value(v))
            return d
        if isinstance(x, tuple):
            return tuple(self.value(y) for y in x)
        return x

    def document(self):
        return self.r.call(self.f('document'), self.value(self.places), self.value(self.numbers), self.value(self.masses))

    def text(self, I, st, args, kw):
        t = '{document %d}' % len(self.written)
        self.written[t] = args[0]
        return t

    def new_document(self, L, st, a, kw):
        return L.I.call(st, self.member('Node'), [9, None], {})

    def parse_string(self, L, st, a, kw):
        x = a[0]
        if isinstance(x, str) and x in self.written:
            return L.I.call(st, self.member('laid_out'), [self.written[x]], {})
        return x

    def stands_in(self):
        self.written = {}
        return {'xml.dom.minidom.Document': self.new_document, 'xml.dom.minidom.parseString': self.parse_string,
                'open': lambda L, st, a, kw: list(a) and L.I.call(st, self.member('File'), [self.doc], {})}

    def show(self, x):
        """what was read, as a Python structure"""
        r = self.r
        if isinstance(x, Obj) and isinstance(x.cls, ClassDef):
            n = x.cls.name
            if n not in FIELDS:
                raise Unsupported('an element of class ' + n)
            return (n,) + tuple((k, self.show(r.get(x, k))) for k in FIELDS[n])
        if isinstance(x, Obj) and x.cls == 'dict':
            ks = r.items(x)
            return ('dict',) + tuple((k, self.show(r.item(x, k))) for k in sorted(ks))
        if isinstance(x, (Obj, tuple)):
            return ('list',) + tuple((i, self.show(y)) for i, y in enumerate(r.items(x)))
        return x

    def expected(self):
        p = {k: ('Pose', ('position', L(v[0])), ('rotation', L(v[1])))
             for k, v in ((n, place_(n)) for n in self.places)}
        p['grip'] = p['grip'][:2] + (('rotation', None),)
        p['flap'] = p['flap'][:1] + (('position', None),) + p['flap'][2:]
        N = self.numbers
        many = lambda n, k: ('list',) + tuple((i, sym('%s%d' % (n, i), pos=True)) for i in range(k))
        matrix = lambda d: ('dict',) + tuple(sorted(d.items()))
        m0, i0, m1, i1 = self.masses
        zero = dict.fromkeys(INERTIA, num(0))
        F = lambda n, *v: (n,) + tuple(zip(FIELDS[n], v))
        none = [None] * 5
        els = [
            F('Joint', 'grip', 'slide', 'tool', 'fixed', None, p['grip'], *none),
            F('Link', 'base', F('Visual', F('Mesh', 'base.dae', many('scale', 3)),
                                F('Material', 'red', F('Color', many('rgba', 4)), 'red.png'), p['seen']),
              F('Inertial', matrix(i0), m0, p['com']), F('Collision', F('Box', many('size', 3)), p['box'])),
            F('Link', 'arm', None, F('Inertial', matrix(i1), m1, None), F('Collision', F('Sphere', N['r']), p['sphere'])),
            F('Joint', 'elbow', 'base', 'arm', 'revolute', '0 1 0', p['elbow'], F('JointLimit', N['e'], N['v'], N['low'], N['up']),
              F('Dynamics', '0.5', '0.25'), F('SafetyController', N['kv'], N['kp'], N['sl'], N['su']),
              F('JointCalibration', N['rise'], N['fall']), F('JointMimic', 'rail', N['mul'], N['off'])),
            F('Link', 'slide', None, None, F('Collision', F('Cylinder', N['R'], N['L']), None)),
            F('Joint', 'rail', 'arm', 'slide', 'prismatic', '0 0.6 0.8', p['rail'],
              F('JointLimit', N['e2'], N['v2'], N['low2'], N['up2']), None, None, None, None),
            F('Link', 'tool', None, None, F('Collision', F('Mesh', 'tool.dae', None), p['mesh'])),
            F('Link', 'plate', None, F('Inertial', matrix(zero), num(2), None), None),
            F('Joint', 'flap', 'base', 'plate', 'revolute', None, p['flap'], *none),
            F('Link', 'tip', None, None, None),
            F('Joint', 'wrist', 'tool', 'tip', 'revolute', '0.6 0 -0.8', p['wrist'], *none),
            F('Link', 'up', None, None, None),
            F('Joint', 'mast', 'base', 'up', 'prismatic', '0 0 1', p['mast'], *none),
            F('Link', 'loose', None, None, None),
            F('Joint', 'free', 'plate', 'loose', 'floating', None, p['free'], *none),
            F('Material', 'blue', F('Color', many('blue', 4)), None)]
        return els


def L(names):
    return ('list',) + tuple((i, sym(n)) for i, n in enumerate(names))


class stand_in(object):
    def __init__(self, W):
        self.new = W.stands_in()
        self.W = W
        self.I = W.r.I

    def __enter__(self):
        self.kept = {k: lib.EXTRA.get(k) for k in self.new}
        lib.EXTRA.update(self.new)
        I = self.I
        for n in ('toprettyxml', 'toxml'):
            I.contracts['spec_urdf.Node.' + n] = self.W.text

    def __exit__(self, *a):
        for k, v in self.kept.items():
            if v is None:
                del lib.EXTRA[k]
            else:
                lib.EXTRA[k] = v


def agree(o, got, want, what):
    if isinstance(got, tuple) and isinstance(want, tuple):
        if got[0] != want[0]:
            o.violation('%s is a %s, not a %s' % (what, got[0], want[0]))
            return
        g, w = dict(got[1:]), dict(want[1:])
        for k in sorted(set(g) | set(w), key=str):
            if k not in g or k not in w:
                o.violation('%s: %s is %s' % (what, k, 'missing' if k in w else 'not in the document'))
            else:
                agree(o, g[k], w[k], '%s %s' % (what, k))
        return
    if isinstance(got, tuple) or isinstance(want, tuple) or (got is None) != (want is None):
        o.violation('%s is %.60r, not %.60r' % (what, got, want))
        return
    if got is not None:
        o.eq(got, want, what=what)


def whole(o, R, u, what):
    r = R.r
    o.require(r.get(u, 'name') == 'r', '%s: the robot is called %r' % (what, r.get(u, 'name')))
    got = [R.show(x) for x in r.items(r.get(u, 'elements'))]
    want = R.expected()
    name = lambda x: dict(x[1:])['name']
    key = lambda x: (x[0], name(x))
    o.require(list(map(key, got)) == list(map(key, want)), '%s: elements %s' % (what, list(map(key, got))))
    w = {key(x): x for x in want}
    for x in got:
        if key(x) in w:
            agree(o, x, w[key(x)], '%s: %s %s' % (what, x[0], name(x)))
    for d, k in (('links', 'Link'), ('joints', 'Joint'), ('materials', 'Material')):
        t = r.get(u, d)
        o.require(sorted(r.items(t)) == sorted(n for c, n in w if c == k), '%s: %s %s' % (what, d, sorted(r.items(t))))
        for n in r.items(t):
            agree(o, R.show(r.item(t, n)), w[k, n], '%s: %s' % (d, n))


def reading(ctx):
    with ctx.ob('document-is-read', lambda: ctx.at_cls('URDF', 'to_xml'), 'a robot with every element') as o:
        R = Robot(ctx)
        r = R.r
        with stand_in(R):
            u = r.call(r.get(R.member('URDF'), 'parse_xml_string'), R.document())
            o.no_raise(r)
            whole(o, R, u, 'read')
            for loader in range(2):
                R.doc = R.document()
                v = r.call(r.get(R.member('URDF'), 'load_xml_file'), 'r.urdf')
                o.no_raise(r)
                whole(o, R, v, 'read from a file')
            whole(o, R, u, 'read first')
    with ctx.ob('written-as-it-was-read', lambda: ctx.at_cls('URDF', 'to_xml'), 'round trip') as o:
        R = Robot(ctx)
        r = R.r
        with stand_in(R):
            u = r.call(r.get(R.member('URDF'), 'parse_xml_string'), R.document())
            for k in range(2):
                t = r.method(u, 'to_xml')
                o.no_raise(r)
                whole(o, R, u, 'after it was written')
                u = r.call(r.get(R.member('URDF'), 'parse_xml_string'), t)
                o.no_raise(r)
                whole(o, R, u, 'written and read')


def paths(ctx):
    with ctx.ob('chains-and-root', lambda: ctx.at_cls('URDF', 'to_xml'), 'get_chain, get_root') as o:
        R = Robot(ctx)
        r = R.r
        with stand_in(R):
            u = r.call(r.get(R.member('URDF'), 'parse_xml_string'), R.document())
            ls = ['base', 'arm', 'slide', 'tool', 'tip']
            js = ['elbow', 'rail', 'grip', 'wrist']
            for i in range(5):
                for j in range(i, 5):
                    for joints, links, fixed in ((True, True, True), (True, False, True), (False, True, True), (True, True, False),
                                                 (True, False, False), (False, False, True)):
                        want = []
                        for k in range(i, j + 1):
                            if k > i and joints and (fixed or js[k - 1] != 'grip'):
                                want.append(js[k - 1])
                            if links:
                                want.append(ls[k])
                        got = r.items(r.method(u, 'get_chain', ls[i], ls[j], joints=joints, links=links, fixed=fixed))
                        o.no_raise(r)
                        o.require(list(got) == want, 'chain from %s to %s: %s, required %s' % (ls[i], ls[j], got, want))
            for m, want in (('child_map', {'slide': [('grip', 'tool')], 'base': [('elbow', 'arm'), ('flap', 'plate'), ('mast', 'up')],
                                           'arm': [('rail', 'slide')], 'tool': [('wrist', 'tip')], 'plate': [('free', 'loose')]}),
                            ('parent_map', {'tool': ('grip', 'slide'), 'arm': ('elbow', 'base'), 'slide': ('rail', 'arm'),
                                            'plate': ('flap', 'base'), 'tip': ('wrist', 'tool'), 'up': ('mast', 'base'),
                                            'loose': ('free', 'plate')})):
                t = r.get(u, m)
                got = {k: r.item(t, k) for k in r.items(t)}
                got = {k: tuple(r.items(v)) if isinstance(v, tuple) else [tuple(r.items(y)) for y in r.items(v)] for k, v in got.items()}
                o.require(got == want, '%s is %s' % (m, got))
            o.require(r.method(u, 'get_root') == 'base', 'the root is not base')
            o.no_raise(r)


def loaded(ctx, fixed, prefix, suffix, limits):
    name = lambda n: prefix + n + suffix
    with ctx.ob('links-are-where-urdf-says', lambda: ctx.at_cls('URDFConverter', 'load_in_world'),
                '%s base%s' % ('fixed' if fixed else 'free', ', names with %s and %s' % (prefix, suffix) if prefix else '')) as o:
        R = Robot(ctx)
        r = R.r
        with stand_in(R):
            R.doc = R.document()
            w = r.new(R.member('World'))
            kw = {} if not prefix else dict(prefix=prefix, suffix=suffix, root_joint_name='root')
            H0 = se3('H0') if prefix else None
            if H0 is not None:
                kw['H_init'] = r.nd(H0)
            if not limits:
                kw['save_joint_limits'] = False
            c = r.new(R.member('URDFConverter'), 'dir/r.urdf', w, fixed_base=fixed, **kw)
            o.no_raise(r)
            bodies = {r.get(b, 'name'): b for b in r.items(r.method(w, 'getbodies'))}
            js = {r.get(j, 'name'): j for j in r.items(r.method(w, 'getjoints'))}
            links = ('base', 'arm', 'slide', 'tool', 'plate', 'tip', 'up', 'loose')
            o.require(sorted(bodies) == sorted(['ground'] + [name(n) for n in links]), 'bodies %s' % sorted(bodies))
            kinds = {'elbow': 'RyJoint', 'rail': 'TzJoint', 'grip': 'FixedJoint', 'flap': 'RxJoint', 'wrist': 'RzJoint', 'mast': 'TzJoint',
                     'free': 'FreeJoint', 'root' if prefix else 'root_joint': 'FixedJoint' if fixed else 'FreeJoint'}
            o.require(sorted(js) == sorted(name(n) for n in kinds), 'joints %s' % sorted(js))
            q = {}
            for n in ('elbow', 'rail', 'wrist', 'flap', 'mast'):
                j = js[name(n)]
                o.require(r.get(j, 'ndof') == 1, '%s has %r degrees of freedom' % (n, r.get(j, 'ndof')))
                q[n] = sym('q_' + n)
                r.guard(lambda: r.I.setitem(r.st, r.get(j, 'gpos'), 0, q[n]))
            for n, k in kinds.items():
                m = {'FreeJoint': 6, 'FixedJoint': 0}.get(k, 1)
                o.require(r.get(js[name(n)], 'ndof') == m, '%s has not %d degrees of freedom' % (n, m))
            r.method(w, 'update_geometric')
            o.no_raise(r)
            want = r.call(R.f('poses'), r.nd(H0 if H0 is not None else ar_eye(4)), R.value(R.places), R.value(q))
            for n in links:
                o.eq(r.content(r.get(bodies[name(n)], 'pose')), r.content(r.item(want, n)), what='pose of ' + n)
            # masses
            _, i0, _, i1 = R.masses
            S = lambda i: ar([[i['ixx'], i['ixy'], i['ixz']], [i['ixy'], i['iyy'], i['iyz']], [i['ixz'], i['iyz'], i['izz']]])
            P = r.content(r.call(R.f('place'), R.value(R.places['com'])))
            Rm = ar([[cells(P).c[a, b] for b in range(3)] for a in range(3)])
            o.eq(r.content(r.get(bodies[name('base')], 'mass')),
                 mass_about(ar([cells(P).c[a, 3] for a in range(3)]), mul(mul(Rm, S(i0)), tr(Rm)), R.masses[0]), what='mass of base')
            o.eq(r.content(r.get(bodies[name('arm')], 'mass')), mass_about(ar([num(0)] * 3), S(i1), R.masses[2]), what='mass of arm')
            o.eq(r.content(r.get(bodies[name('slide')], 'mass')), ar_zeros((6, 6)), what='mass of slide')
            # shapes
            shapes = {}
            for s in r.items(r.method(w, 'getshapes')):
                f = r.get(s, 'frame')
                n = r.get(r.get(f, 'body'), 'name')
                o.require(n not in shapes, 'two shapes on ' + str(n))
                shapes[n] = (s, f)
            o.require(sorted(shapes) == sorted(name(n) for n in ('base', 'arm', 'slide')), 'shapes on %s' % sorted(shapes))
            N = R.numbers
            for n, k, at, dims in (('base', 'Box', 'box', {'half_extents': ar([scale_(y) for y in r.items(N['size'])])}),
                                   ('arm', 'Sphere', 'sphere', {'radius': N['r']}),
                                   ('slide', 'Cylinder', None, {'radius': N['R'], 'length': N['L']})):
                if name(n) not in shapes:
                    continue
                s, f = shapes[name(n)]
                o.require(s.cls.name == k, 'the shape of %s is a %s' % (n, s.cls.name))
                P = r.content(r.call(R.f('place'), R.value(R.places[at]))) if at else ar_eye(4)
                o.eq(r.content(r.get(f, 'bpose')), P, what='place of the shape of ' + n)
                for d, v in dims.items():
                    o.eq(r.content(r.get(s, d)), v, what='%s of the shape of %s' % (d, n))
            # what viewers are given
            at = lambda n: r.content(r.call(R.f('place'), R.value(R.places[n]))) if n else ar_eye(4)
            half = tuple(scale_(y) for y in r.items(N['size']))      # the box of simple_shapes.dae goes from -1 to 1
            for m, want in (('get_visual_shapes', {'base': ('mesh', 'seen', N['scale'], 'base.dae')}),
                            ('get_collision_shapes', {'base': ('box', 'box', half, None), 'arm': ('sphere', 'sphere', N['r'], None),
                                                      'slide': ('cylinder', None, (N['R'], N['R'], N['L']), None),
                                                      'tool': ('mesh', 'mesh', num(1), 'tool.dae')})):
                t = {r.item(x, 'frame'): x for x in r.items(r.method(c, m))}
                o.no_raise(r)
                o.require(sorted(t) == sorted(map(name, want)), '%s: %s' % (m, sorted(t)))
                for n, (k, place, scale, mesh) in want.items():
                    x = t.get(name(n))
                    if x is None:
                        continue
                    o.require(r.item(x, 'shape') == k, '%s: the shape of %s is a %s' % (m, n, r.item(x, 'shape')))
                    o.eq(r.content(r.item(x, 'transform')), at(place), what='%s: place of %s' % (m, n))
                    y = r.item(x, 'scale')
                    for u, v in zip(scale if isinstance(scale, tuple) else r.items(scale), r.items(y)) if isinstance(scale, (Obj, tuple)) else [(scale, y)]:
                        o.eq(v, u, what='%s: scale of %s' % (m, n))
                    if mesh is not None:
                        o.require(r.item(x, 'mesh') == 'dir/' + mesh, '%s: file of %s: %r' % (m, n, r.item(x, 'mesh')))
            # limits
            got = {}
            for x in r.items(r.method(w, 'getconstraints')):
                o.require(x.cls.name == 'JointLimits', 'a constraint %s' % x.cls.name)
                got[r.get(r.get(x, '_joint'), 'name')] = x
            want = {'elbow': ('low', 'up'), 'rail': ('low2', 'up2')} if limits else {}
            o.require(sorted(got) == sorted(map(name, want)), 'limits of %s' % sorted(got))
            for n, (a, b) in want.items():
                if name(n) in got:
                    for k, v in (('_min', a), ('_max', b)):
                        o.eq(r.content(r.get(got[name(n)], k)), ar([N[v]]), what='%s of %s' % (k[1:], n))
            # tables
            for table, cols in (('get_joint_limits', {'elbow': ('low', 'up'), 'rail': ('low2', 'up2')}),
                                ('get_effort_limits', {'elbow': 'e', 'rail': 'e2'}),
                                ('get_velocity_limits', {'elbow': 'v', 'rail': 'v2'})):
                t = r.method(c, table)
                o.no_raise(r)
                o.require(sorted(r.items(t)) == sorted(map(name, cols)), '%s of %s' % (table, sorted(r.items(t))))
                for n, v in cols.items():
                    if name(n) in r.items(t):
                        x = r.item(t, name(n))
                        for y, z in zip(r.items(x) if isinstance(v, tuple) else [x], v if isinstance(v, tuple) else [v]):
                            o.eq(y, N[z], what='%s %s' % (table, n))


def scale_(y):
    return y * num(frac(1, 2))


def run(ctx):
    reading(ctx)
    paths(ctx)
    angles(ctx)
    loaded(ctx, False, '', '', True)
    loaded(ctx, True, 'left_', '_1', True)
    loaded(ctx, True, '', '', False)


def angles(ctx):
    z, y, x = [sym(n) for n in ('az', 'ay', 'ax')]
    with ctx.ob('angles-of-urdf', lambda: ctx.at(UI, 'rotation_matrix_to_roll_pitch_yaw'), 'regular') as o:
        r = ctx.run()
        r.I.contracts[HG + '.ishomogeneousmatrix'] = lambda I, st, a, kw: True
        H = ref_rot((2, 1, 0), (z, y, x))
        R = Ar(H.c[:3, :3])
        got = r.content(r.call(r.fn(UI, 'roll_pitch_yaw_to_rotation_matrix'), x, y, z))
        o.no_raise(r)
        o.eq(got, R, what='the rotation of roll, pitch, yaw')
        v = r.call(r.fn(UI, 'rotation_matrix_to_roll_pitch_yaw'), r.nd(R))
        o.no_raise(r)
        v = r.content(v)
        back = lift(lambda m: ref_rot((2, 1, 0), [cells(m).c[i] for i in (2, 1, 0)]), v)
        a, b = [alg.absx(R.c[i, 0]) for i in (0, 1)]
        reg = b_or(cmp_cond('>', a, num(1e-6)), cmp_cond('>', b, num(1e-6)))
        o.eq(back, H, b_and(r.st.pc, reg), what='the rotation of its roll, pitch, yaw')
