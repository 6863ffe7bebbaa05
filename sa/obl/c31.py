"""Collada scenes.  The collada library is replaced by one which records the nodes, transforms and geometries; the transforms
of a node compose, in their order, to a matrix which must bring the unit mesh of simple_shapes.dae to the shape asked for."""
from obl.small import *
import ast
import os
import lib
import xml.etree.ElementTree as ET
from fractions import Fraction as frac

DW, VC = 'arboris.visu.dae_writer', 'arboris.visu.visu_collada'

SPEC = '''
import collada
import collada.scene
from library import Object
from numpy import array, dot, eye

class Xml(Object):
    def __init__(self):
        self.attrib = {'id': '', 'name': ''}
    def set(self, k, v):
        self.attrib[k] = v
    def get(self, k, default=None):
        return self.attrib.get(k, default)

class Element(Object):
    def __init__(self, tag, inside, texts):
        self.tag = tag
        self.inside = [x for x in inside]
        self.texts = texts
    def append(self, x):
        self.inside.append(x)
    def insert(self, i, x):
        self.inside.insert(i, x)
    def getroot(self):
        return self

class Node(collada.scene.Node, Object):
    def __init__(self, id, children=None, transforms=None):
        self.id = id
        self.children = [x for x in children] if children is not None else []
        self.transforms = [x for x in transforms] if transforms is not None else []
        self.xmlnode = Xml()

class Scene(collada.scene.Scene, Object):
    def __init__(self, id, nodes):
        self.id = id
        self.nodes = nodes

class GeometryNode(collada.scene.GeometryNode, Object):
    def __init__(self, geometry, materials=None):
        self.geometry = geometry
        self.materials = materials

class NodeNode(collada.scene.NodeNode, Object):
    def __init__(self, node):
        self.node = node

class ExtraNode(collada.scene.ExtraNode, Object):
    def __init__(self, xmlnode):
        self.xmlnode = xmlnode

class MaterialNode(collada.scene.MaterialNode, Object):
    def __init__(self, symbol, target, inputs):
        self.symbol = symbol
        self.target = target

class Matrix(collada.scene.MatrixTransform, Object):
    def __init__(self, matrix):
        self.numbers = [x for x in matrix]
        self.xmlnode = Xml()

class Scale(collada.scene.ScaleTransform, Object):
    def __init__(self, x, y, z):
        self.numbers = [x, y, z]

class Effect(Object):
    def __init__(self, id, params, shading, diffuse=None):
        self.id = id
        self.diffuse = diffuse

class Material(Object):
    def __init__(self, id, name, effect):
        self.id = id
        self.effect = effect

class Geometry(Object):
    def __init__(self, id):
        self.id = id

class Indexed(Object):
    def __init__(self, items):
        self.items = [x for x in items]
    def get(self, id, default=None):
        for x in self.items:
            if x.id == id:
                return x
        return default
    def append(self, x):
        self.items.append(x)
    def __contains__(self, x):
        for y in self.items:
            if y is x or y.id == x:
                return True
        return False
    def __iter__(self):
        return iter(self.items)

class Info(Object):
    def __init__(self):
        self.upaxis = None

class Dae(Object):
    def __init__(self, geometries, nodes):
        self.geometries = Indexed([Geometry(n) for n in geometries])
        self.nodes = Indexed([Node(n, [Node('arrow%d' % k, [GeometryNode(Geometry('arrow%d_mesh' % (k % 2)), [MaterialNode('material', Material(
            'colour%d' % (k % 2), 'material', Effect('effect%d' % (k % 2), [], 'phong')), [])])]) for k in range(3)]) for n in nodes])
        self.effects = Indexed([])
        self.materials = Indexed([])
        self.scenes = Indexed([])
        self.scene = None
        self.assetInfo = Info()
        self.xmlnode = Element('COLLADA', [], {})

def composed(node):
    H = eye(4)
    for t in node.transforms:
        n = t.numbers
        if len(n) == 3:
            T = array([[n[0], 0., 0., 0.], [0., n[1], 0., 0.], [0., 0., n[2], 0.], [0., 0., 0., 1.]])
        else:
            T = array(n).reshape((4, 4))
        H = dot(H, T)
    return H
'''
TAGS = ('physics_model', 'library_physics_models', 'rigid_body', 'technique_common', 'dynamic', 'mass', 'mass_frame', 'translate',
        'rotate', 'inertia', 'extra', 'technique', 'Descriptions', 'Description')
# the mesh, and the lengths of its sides along x, y, z about the origin
MESH = {'box': ((-1, 1), (-1, 1), (-1, 1)), 'sphere': ((-1, 1), (-1, 1), (-1, 1)), 'cylinder': ((-1, 1), (-1, 1), (frac(-1, 2), frac(1, 2))),
        'plane': ((-1, 1), (-1, 1), (0, 0)), 'line': ((0, 0), (0, 0), (0, 1))}


class Scenery(object):
    def __init__(self, ctx, mod, cls):
        self.ctx = ctx
        S = Schema(ctx.prog)
        r = self.r = ctx.run(S, {'arboris.massmatrix.ismassmatrix': lambda I, st, a, kw: True,
                                 HG + '.ishomogeneousmatrix': lambda I, st, a, kw: True})
        r.I.plain_floats = True
        r.source('spec_collada', SPEC)
        self.member = lambda n: r.I.mod_member(r.st, 'spec_collada', n)
        with stand_in(self):
            self.d = r.new(r.I.mod_member(r.st, mod, cls), 'scene.dae', *[])
            self.dae = r.get(self.d, 'dae')

    def stands_in(self):
        def new(n):
            return lambda L, st, a, kw: L.I.call(st, self.member(n), list(a), dict(kw))

        def tag(n):
            return lambda L, st, a, kw: L.I.call(st, self.member('Element'), [n, L.I.new_list(st, list(a)), L.call(st, 'dict', [], dict(kw))], {})

        def dae(L, st, a, kw):
            full = list(a) + list(kw.values())
            l = lambda x: L.I.new_list(st, list(x))
            return L.I.call(st, self.member('Dae'), [l([n + '_geometry-mesh' for n in MESH] if full else []), l(['frame_arrows'] if full else [])], {})
        d = {'collada.common.E.' + t: tag(t) for t in TAGS}
        d['collada.Collada'] = dae
        for n in ('Node', 'Scene', 'GeometryNode', 'NodeNode', 'ExtraNode', 'MaterialNode'):
            d['collada.scene.' + n] = new(n)
        d.update({'collada.scene.MatrixTransform': new('Matrix'), 'collada.scene.ScaleTransform': new('Scale'),
                  'collada.material.Effect': new('Effect'), 'collada.material.Material': new('Material')})
        return d

    def kids(self, n, kind):
        return [c for c in self.r.items(self.r.get(n, 'children')) if c.cls.name == kind]

    def drawn(self, o, n, mesh, color, what):
        """the node shows this mesh in this colour; its matrix"""
        r = self.r
        g = self.kids(n, 'GeometryNode')
        o.require(len(g) == 1, '%s: %d geometries' % (what, len(g)))
        if len(g) != 1:
            return None
        geom = r.get(g[0], 'geometry')
        o.require(r.get(geom, 'id') == mesh + '_geometry-mesh', '%s is drawn as %s' % (what, r.get(geom, 'id')))
        o.require([x for x in r.items(r.get(r.get(self.dae, 'geometries'), 'items')) if x is geom] == [geom],
                  '%s: its mesh is not once in the document' % what)
        m = r.get(r.items(r.get(g[0], 'materials'))[0], 'target')
        e = r.get(m, 'effect')
        o.require(tuple(r.items(r.get(e, 'diffuse'))) == color, '%s has the colour %s' % (what, r.items(r.get(e, 'diffuse'))))
        for l, x in (('materials', m), ('effects', e)):
            ids = [r.get(y, 'id') for y in r.items(r.get(r.get(self.dae, l), 'items'))]
            o.require(ids.count(r.get(x, 'id')) == 1, '%s: %s of the document: %s' % (what, l, ids))
        return r.content(r.call(r.fn('spec_collada', 'composed'), n))


class stand_in(object):
    def __init__(self, W):
        self.new = W.stands_in()

    def __enter__(self):
        self.kept = {k: lib.EXTRA.get(k) for k in self.new}
        lib.EXTRA.update(self.new)

    def __exit__(self, *a):
        for k, v in self.kept.items():
            if v is None:
                del lib.EXTRA[k]
            else:
                lib.EXTRA[k] = v


def diag4(x, y, z):
    return ar([[x, 0, 0, 0], [0, y, 0, 0], [0, 0, z, 0], [0, 0, 0, 1]])


def meshes(ctx):
    with ctx.ob('unit-meshes', lambda: ctx.at_cls('pydaenimColladaDriver', 'create_box'), 'simple_shapes.dae') as o:
        p = os.path.join(os.path.dirname(ctx.prog.module(DW).path), 'simple_shapes.dae')
        root = ET.parse(p).getroot()
        ns = root.tag.split('}')[0] + '}'
        for n, want in MESH.items():
            g = [x for x in root.iter(ns + 'geometry') if x.get('id') == n + '_geometry-mesh']
            if len(g) != 1:
                o.violation('%d meshes %s in simple_shapes.dae' % (len(g), n))
                continue
            src = [i.get('source')[1:] for v in g[0].iter(ns + 'vertices') for i in v.iter(ns + 'input') if i.get('semantic') == 'POSITION']
            v = [frac(x) for s in g[0].iter(ns + 'source') if s.get('id') in src for x in s.find(ns + 'float_array').text.split()]
            got = tuple((min(v[i::3]), max(v[i::3])) for i in range(3))
            o.require(all(abs(a - b) < frac(1, 1000) for x, y in zip(got, want) for a, b in zip(x, y)), 'the mesh %s goes over %s' % (n, got))


GONE = ('long', 'basestring', 'unicode', 'xrange', 'raw_input', 'unichr', 'file', 'execfile', 'reduce', 'cmp')


def python3(ctx):
    """the modules are in the syntax, and use the builtins, of Python 3"""
    with ctx.ob('python-3', lambda: ctx.at_cls('pydaenimColladaDriver', 'create_box'), 'arboris.visu') as o:
        d = os.path.dirname(ctx.prog.module(DW).path)
        for n in sorted(os.listdir(d)):
            if not n.endswith('.py'):
                continue
            with open(os.path.join(d, n), encoding='utf-8') as f:
                src = f.read()
            try:
                t = ast.parse(src)
            except SyntaxError as e:
                o.require(False, 'arboris/visu/%s:%s cannot be imported: %s' % (n, e.lineno, e.msg))
                continue
            o.fact()
            bound = set(x.id for x in ast.walk(t) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load))
            bound |= set(x.name for x in ast.walk(t) if isinstance(x, (ast.FunctionDef, ast.ClassDef)))
            bound |= set(x.arg for x in ast.walk(t) if isinstance(x, ast.arg))
            bound |= set((y.asname or y.name).split('.')[0] for x in ast.walk(t) if isinstance(x, (ast.Import, ast.ImportFrom)) for y in x.names)
            if '*' in bound:
                continue
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and x.id in GONE:
                    o.require(x.id in bound, 'arboris/visu/%s:%s uses %s, which Python 3 does not have' % (n, x.lineno, x.id))


def shapes(ctx, mod, cls):
    red, blue = (1, 0, 0), (0, 0, 1)
    s = lambda n: sym(n, pos=True)
    with ctx.ob('drawn-as-asked', lambda: ctx.at_cls(cls, 'create_box'), cls) as o:
        W = Scenery(ctx, mod, cls)
        r = W.r
        o.no_raise(r)
        with stand_in(W):
            tup = lambda v: tuple(num(x) for x in v)
            col = {0: tup(red), 1: tup(blue), 2: tup((0, 1, 0)), 3: tup((1, 0, frac(1, 2)))}
            got = []
            for k, c in ((0, 0), (1, 1), (2, 0)):
                x, y, z = [s('%s%d' % (n, k)) for n in 'xyz']
                n = r.method(W.d, 'create_box', r.nd(ar([x, y, z])), col[c], 'box%d' % k)
                got.append((n, 'box', c, diag4(x, y, z), 'box%d' % k))
                n = r.method(W.d, 'create_ellipsoid', (x, y, z), col[c])
                got.append((n, 'sphere', c, diag4(x, y, z), None))
                n = r.method(W.d, 'create_cylinder', z, x, col[c], 'cyl%d' % k)
                got.append((n, 'cylinder', c, diag4(x, x, z), 'cyl%d' % k))
            for c, x in ((2, 'u'), (0, 'v'), (3, 'w')):
                got.append((r.method(W.d, 'create_ellipsoid', (s(x),) * 3, col[c]), 'sphere', c, diag4(s(x), s(x), s(x)), None))
            o.no_raise(r)
            for n, mesh, c, want, name in got:
                H = W.drawn(o, n, mesh, col[c], 'a %s' % mesh)
                if H is not None:
                    o.eq(H, want, what='size of a %s' % mesh)
                o.require(r.get(n, 'id') == name, 'a node called %r instead of %r' % (r.get(n, 'id'), name))
            for k, nrm in enumerate(((0, 0, 1), (frac(3, 5), 0, frac(4, 5)), (frac(2, 7), frac(-6, 7), frac(3, 7)))):
                d = sym('d%d' % k)
                n = r.method(W.d, 'create_plane', r.nd(ar([num(x) for x in nrm] + [d])), col[0], 'plane%d' % k)
                o.no_raise(r)
                H = W.drawn(o, n, 'plane', col[0], 'a plane')
                he = [num(x) for x in r.items(r.item(r.get(W.d, '_options'), 'plane half extents'))]
                if H is None:
                    continue
                C = cells(H).c
                u = [ar([C[i, j] for i in range(3)]) for j in (0, 1, 3)]
                N = ar([num(x) for x in nrm])
                o.eq(dots(N, u[2]), d, what='distance of the plane')
                for i in range(2):
                    o.eq(dots(N, u[i]), S0, what='side of the plane along its normal')
                    o.eq(dots(u[i], u[i]), he[i] * he[i], what='side of the plane')
                o.eq(dots(u[0], u[1]), S0, what='angle between the sides of the plane')


def dots(a, b):
    a, b = cells(a).c, cells(b).c
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def frames(ctx, mod, cls):
    with ctx.ob('placed-as-asked', lambda: ctx.at_cls('pydaenimColladaDriver', 'create_transform'), cls) as o:
        W = Scenery(ctx, mod, cls)
        r = W.r
        with stand_in(W):
            g = r.method(W.d, 'add_ground', r.nd(ar([num(0), num(1), num(0)])))
            o.no_raise(r)
            o.eq(r.content(r.call(r.fn('spec_collada', 'composed'), g)), ar_eye(4), what='place of the ground')
            o.require(r.items(r.get(r.get(r.get(W.d, 'dae'), 'scene'), 'nodes')) == [g], 'the scene is not the ground')
            names = []
            parent = g
            for k, name in enumerate(('a', None, 'b', 'a', 'a', 'b')):
                H = se3('H%d' % k)
                n = r.method(W.d, 'create_transform', r.nd(H), k % 2 == 0, name)
                o.no_raise(r)
                ts = r.items(r.get(n, 'transforms'))
                o.require(len(ts) == 1, '%d transforms' % len(ts))
                o.eq(r.content(r.call(r.fn('spec_collada', 'composed'), n)), H, what='place of a frame')
                o.require(r.item(r.get(r.get(ts[0], 'xmlnode'), 'attrib'), 'sid') == 'matrix', 'the transform of a frame has another sid than matrix')
                i = r.get(n, 'id')
                if name is None:
                    o.require(i is None, 'a node without name is called %r' % (i,))
                else:
                    o.require(i == name or name in names, 'a node is called %r instead of %r' % (i, name))
                    o.require(i not in names, 'two nodes are called %r' % (i,))
                    names.append(i)
                r.method(W.d, 'add_child', parent, n)
                o.require(any(x is n for x in r.items(r.get(parent, 'children'))), 'a node was not added to its parent')
                parent = n


def lines(ctx):
    with ctx.ob('drawn-as-asked', lambda: ctx.at_cls('DaenimColladaDriver', 'create_line'), 'lines') as o:
        W = Scenery(ctx, VC, 'DaenimColladaDriver')
        r = W.r
        with stand_in(W):
            col = tuple(num(x) for x in (0, 1, 0))
            for start in ((0, 0, 0), (1, frac(-1, 2), 2)):
                for way in ((0, 0, 3), (frac(6, 7), frac(2, 7), frac(-3, 7)), (0, -2, 0)):
                    end = [num(a + b) for a, b in zip(start, way)]
                    st = [num(a) for a in start]
                    n = r.method(W.d, 'create_line', tuple(st), r.nd(ar(end)), col)
                    o.no_raise(r)
                    H = W.drawn(o, n, 'line', col, 'a line')
                    if H is None:
                        continue
                    C = cells(H).c
                    o.eq(ar([C[i, 3] for i in range(3)]), ar(st), what='start of a line')
                    o.eq(ar([C[i, 2] + C[i, 3] for i in range(3)]), ar(end), what='end of a line')


def arrows(ctx):
    with ctx.ob('drawn-as-asked', lambda: ctx.at_cls('DaenimColladaDriver', 'create_frame_arrows'), 'arrows') as o:
        W = Scenery(ctx, VC, 'DaenimColladaDriver')
        r = W.r
        with stand_in(W):
            size = r.item(r.get(W.d, '_options'), 'frame arrows length')
            drawn = [r.method(W.d, 'create_frame_arrows') for k in range(3)]
            o.no_raise(r)
            kept = r.items(r.get(r.get(W.dae, 'nodes'), 'items'))
            o.require([r.get(x, 'id') for x in kept] == ['frame_arrows'], 'arrows in the document: %d' % len(kept))
            for l, want in (('geometries', ['arrow0_mesh', 'arrow1_mesh']), ('materials', ['colour0', 'colour1']),
                            ('effects', ['effect0', 'effect1'])):
                ids = [r.get(y, 'id') for y in r.items(r.get(r.get(W.dae, l), 'items'))]
                o.require(sorted(ids) == want, '%s of the document of arrows: %s' % (l, ids))
            for a in drawn:
                n = r.get(a, 'node')
                o.require(n is kept[0], 'a frame is drawn with other arrows than those of the document')
                o.eq(r.content(r.call(r.fn('spec_collada', 'composed'), n)), diag4(size, size, size), what='size of the arrows')


def inertias(ctx):
    with ctx.ob('drawn-as-asked', lambda: ctx.at_cls('DaenimColladaDriver', 'create_inertia'), 'inertias') as o:
        W = Scenery(ctx, VC, 'DaenimColladaDriver')
        r = W.r
        H = se3('H')
        moments = [sym('j%d' % i, pos=True) for i in range(6)]
        moments[3] = moments[4] = moments[5]
        M = ar([[sym('M%d%d' % (min(i, j), max(i, j))) for j in range(6)] for i in range(6)])
        given = r.nd(M)
        MM = 'arboris.massmatrix.'
        r.I.contracts[MM + 'principalframe'] = lambda I, st, a, kw: r.nd(H)
        r.I.contracts[MM + 'transport'] = lambda I, st, a, kw: r.nd(ar([[moments[i] if i == j else 0 for j in range(6)] for i in range(6)]))
        r.I.contracts[DW + '.pydaenimColladaDriver.create_inertia'] = lambda I, st, a, kw: None
        with stand_in(W):
            col = tuple(num(x) for x in (0, 1, 1))
            f = r.item(r.get(W.d, '_options'), 'inertia factor')
            n = r.method(W.d, 'create_inertia', given, col, 'body')
            o.no_raise(r)
            o.eq(r.content(r.call(r.fn('spec_collada', 'composed'), n)), H, what='place of an inertia')
            k = W.kids(n, 'Node')
            o.require(len(k) == 1, '%d nodes for an inertia' % len(k))
            C = W.drawn(o, k[0], 'sphere', col, 'an inertia') if k else None
            if C is not None:
                o.eq(C, diag4(*[f * moments[i] for i in range(3)]), what='size of an inertia')


def run(ctx):
    inertias(ctx)
    arrows(ctx)
    python3(ctx)
    meshes(ctx)
    for mod, cls in ((DW, 'pydaenimColladaDriver'), (VC, 'DaenimColladaDriver')):
        shapes(ctx, mod, cls)
        frames(ctx, mod, cls)
    lines(ctx)
