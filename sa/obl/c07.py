"""Forward kinematics, by induction over the tree: Body.update_geometric and
Body.update_dynamic are analysed on an arbitrary body with an arbitrary set of
child joints (any pose, jacobian, rate, attachment frames).  The body must keep
exactly the quantities it is given, and hand to each child the ones obtained by
composing displacements, transporting and adding twists, and their derivatives;
World starts the recursion at the ground with the identity and zero rates; a
subframe follows its body rigidly."""
from obl.world import *


STALE = '''
def signalled(f, name):
    try:
        getattr(f, name)
    except TypeError:
        return 1
    return 0
'''


def child_updates(o, run, name, coll):
    """arguments handed to the child of a generic child joint"""
    out = []
    for ev in run.st.events:
        if ev.kind == 'call' and ev.what == name:
            o.violation('%s is called outside of the loop over the child joints' % name)
            return None
        if ev.kind == 'each':
            subs = [x for x in flat_events(ev) if x.kind == 'call' and x.what == name]
            if not subs:
                continue
            if ev.what is not coll:
                o.undecided('the children are updated in a loop over %r' % (ev.what,))
                return None
            out += [(ev.args[0], x) for x in subs]
    if not out:
        o.violation('no child body is updated')
        return None
    if len(out) > 1:
        o.undecided('%d update sites' % len(out))
        return None
    e, x = out[0]
    if ex_always(x.pc) is False:
        o.violation('some child bodies are not updated: only when %s' % (x.pc,))
        return None
    o.fact()
    return e, x.args


def ex_always(pc):
    if pc is True:
        return True
    return all(l is True or not consistent(p) for p, l in leaves(pc))


def flat_events(ev):
    for x in ev.sub or ():
        if x.kind == 'each':
            for y in flat_events(x):
                yield y
        else:
            yield x


def body_run(ctx):
    n = int_sym('N', dim=True)
    S = world_schema(ctx, n)
    b = S.obj('b', 'Body')

    def rec(name):
        def f(I, st, args, kw):
            if args[0] is b:
                return NotImplemented
            st.events += (Event('call', name, tuple(S.freeze(I, st, x) for x in args),
                                st.pc, I.site()),)
            return None
        return f
    c = hg_contracts()
    c.update((CORE + '.Body.' + k, rec(k)) for k in ('update_geometric', 'update_dynamic'))
    r = ctx.run(S, c)
    return r, b, n


def run(ctx):
    P, T = se3('P'), vec('T', 6)
    with ctx.ob('geometric-induction-step', lambda: ctx.at_cls('Body', 'update_geometric')) as o:
        r, b, n = body_run(ctx)
        r.method(b, 'update_geometric', r.nd(P))
        o.no_raise(r)
        o.eq(r.content(r.get(b, 'pose')), P, what='pose kept by the body')
        x = child_updates(o, r, 'update_geometric', children(r, b))
        if x:
            e, a = x
            o.require(child_body(r, e, a[0]), 'the update is not sent to the body of frame1')
            o.eq(a[1], child_pose(r, e, P), what='pose of the child')
    with ctx.ob('dynamic-induction-step', lambda: ctx.at_cls('Body', 'update_dynamic')) as o:
        r, b, n = body_run(ctx)
        J, dJ = mat_atom('J', (6, n)), mat_atom('dJ', (6, n))
        r.method(b, 'update_dynamic', r.nd(P), r.nd(J), r.nd(dJ), r.nd(T))
        o.no_raise(r)
        for k, v in (('pose', P), ('jacobian', J), ('djacobian', dJ), ('twist', T)):
            o.eq(r.content(r.get(b, k)), v, what=k + ' kept by the body')
        x = child_updates(o, r, 'update_dynamic', children(r, b))
        if x:
            e, a = x
            o.require(child_body(r, e, a[0]), 'the update is not sent to the body of frame1')
            o.require(len(a) == 5, 'the child is not given its pose, jacobian, rate and twist')
            j, H = parts(r, e)
            Hpc = child_pose(r, e, None)
            iAd = adjoint(se3_inv(Hpc))                 # Ad_cp
            Adn, Adr = adjoint(H['cn']), adjoint(se3_inv(H['pr']))
            Tj = mx_dot(H['J'], H['v'])
            o.eq(a[1], child_pose(r, e, P), what='pose of the child')
            o.eq(a[4], mx_add(mx_dot(iAd, T), mx_dot(Adn, Tj)), what='twist of the child')
            sel = mx_of(sel_atom(n, SelKey(H['dof'].start, H['dof'].stop)))
            Jn = mx_add(mx_dot(iAd, J), mx_dot(mx_dot(Adn, H['J']), sel))
            o.eq(a[2], Jn, what='jacobian of the child')
            # rate of Ad_cp = Ad_cn Ad_nr Ad_rp, with d(Ad_nr) = -ad(T_nr) Ad_nr
            dAd = mx_dot(mx_dot(mx_dot(Adn, lit_of(scale(num(-1), ad(explode(Tj))))),
                                adjoint(se3_inv(H['rn']))), Adr)
            dJn = mx_add(mx_add(mx_dot(dAd, J), mx_dot(iAd, dJ)), mx_dot(mx_dot(Adn, H['dJ']), sel))
            o.eq(a[3], dJn, what='jacobian rate of the child')
    with ctx.ob('recursion-starts-at-the-ground', lambda: ctx.at_cls('World', 'update_geometric')) as o:
        W = WorldRun(ctx)
        W.r.method(W.w, 'update_geometric')
        o.no_raise(W.r)
        ev = calls(W.r.st.events, 'update_geometric')
        if one_call(o, ev, 'update_geometric', W):
            o.eq(ev[0].args[1], ar_eye(4), what='pose of the ground')
    with ctx.ob('recursion-starts-at-the-ground', lambda: ctx.at_cls('World', 'update_dynamic')) as o:
        W = WorldRun(ctx)
        W.r.method(W.w, 'init')
        W.r.method(W.w, 'update_dynamic')
        o.no_raise(W.r)
        ev = calls(W.r.st.events, 'update_dynamic')
        if one_call(o, ev, 'update_dynamic', W):
            n = W.r.get(W.w, 'ndof')
            o.eq(ev[0].args[1], ar_eye(4), what='pose of the ground')
            o.eq(ev[0].args[2], mx_zero((6, n)), what='jacobian of the ground')
            o.eq(ev[0].args[3], mx_zero((6, n)), what='jacobian rate of the ground')
            o.eq(ev[0].args[4], ar_zeros((6,)), what='twist of the ground')
    histories(ctx)
    subframes(ctx, P, T)


def subframes(ctx, P, T):
    Hs = quat_h('s')
    n = int_sym('N', dim=True)
    J, dJ = mat_atom('J', (6, n)), mat_atom('dJ', (6, n))
    for cls in ('SubFrame', 'MovingSubFrame'):
        def mk():
            S = Schema(ctx.prog)
            val = lambda x: C(lambda I, st, o: I.new_nd(st, x))
            S.add('Body', pose=val(P), jacobian=val(J), djacobian=val(dJ), twist=val(T))
            r = ctx.run(S)
            b = S.obj('b', 'Body')
            return r, b, r.new(cls, b, r.nd(Hs))
        A = adj(hinv(Hs))
        for k, v in (('pose', mx_dot(P, lit_of(Hs))), ('twist', mul(A, T)),
                     ('jacobian', mx_dot(lit_of(A), J)), ('djacobian', mx_dot(lit_of(A), dJ)),
                     ('bpose', Hs)):
            with ctx.ob('subframe-follows-its-body', lambda: ctx.at_cls(cls, k)) as o:
                r, b, f = mk()
                o.eq(r.content(r.get(f, k)), v, what=k)
                o.no_raise(r)
        with ctx.ob('subframe-follows-its-body', lambda: ctx.at_cls(cls, 'body')) as o:
            r, b, f = mk()
            o.require(r.get(f, 'body') is b, 'body is not the body given')
    with ctx.ob('subframe-follows-its-body', lambda: ctx.at_cls('MovingSubFrame', 'bpose')) as o:
        H2 = quat_h('t')
        r, b, f = mk()
        r.set(f, 'bpose', r.nd(H2))
        o.no_raise(r)
        o.eq(r.content(r.get(f, 'bpose')), H2, what='bpose once moved')
        o.eq(r.content(r.get(f, 'pose')), mx_dot(P, lit_of(H2)), what='pose once moved')
        o.eq(r.content(r.get(f, 'twist')), mul(adj(hinv(H2)), T), what='twist once moved')
    ks = ('pose', 'jacobian', 'djacobian', 'twist')
    for cls in ('Body', 'SubFrame', 'MovingSubFrame'):
        with ctx.ob('subframe-follows-its-body', lambda: ctx.at_cls(cls), 'over two updates') as o:
            r = ctx.run()
            b = r.new('Body')
            f = b if cls == 'Body' else r.new(cls, b, r.nd(Hs))
            h, A = Hs, adj(hinv(Hs))
            for i in (0, 1):
                v = [quat_h('P%d' % i), mat_atom('J%d' % i, (6, n)), mat_atom('dJ%d' % i, (6, n)), vec('T%d' % i, 6)]
                r.method(b, 'update_dynamic', *[r.nd(x) for x in v])
                o.no_raise(r)
                for again in range(2 if cls == 'MovingSubFrame' else 1):
                    for k, x in zip(ks, v):
                        got = r.content(r.get(f, k))
                        o.no_raise(r)
                        o.eq(got, x if cls == 'Body' else mul(x, h) if k == 'pose' else mul(A, x) if k == 'twist' else
                             mx_dot(lit_of(A), x), what='%s after update %d' % (k, i + 1))
                    if cls == 'MovingSubFrame' and not again:
                        h = quat_h('m%d' % i)
                        r.set(f, 'bpose', r.nd(h))
                        A = adj(hinv(h))
        if cls == 'Body':
            continue
        for k in ks:
            with ctx.ob('not-up-to-date-is-signalled', lambda: ctx.at_cls(cls, k)) as o:
                r = ctx.run()
                r.source('spec07', STALE)
                f = r.new(cls, r.new('Body'), r.nd(Hs))
                got = r.call(r.fn('spec07', 'signalled'), f, k)
                o.eq(num(got), num(1), what='TypeError when %s is read before any update' % k)
    with ctx.ob('body-is-its-own-frame', lambda: ctx.at_cls('Body', 'bpose')) as o:
        r = ctx.run()
        b = r.new('Body')
        o.eq(r.content(r.get(b, 'bpose')), ar_eye(4), what='bpose')
        o.require(r.get(b, 'body') is b, 'body is not the body itself')


def link(r, w, parent, cls, i, moving=False):
    """a joint between offset frames, and the body it carries"""
    b = r.new('Body', 'body%d' % i)
    f = lambda k: r.nd(h_of(WHOLE[(i + k) % 3], ar([num(3 * i + k + n) for n in range(1, 4)])))
    F_ = 'MovingSubFrame' if moving else 'SubFrame'
    f0, f1 = r.new(F_, parent, f(0)), r.new(F_, b, f(1))
    j = r.new(cls, name='joint%d' % i)
    r.method(w, 'add_link', f0, j, f1)
    return b, j, f0, f1


def check_tree(o, r, w, js, tag, geometric=False):
    """the quantities of the bodies moved by js (serial), from their joints"""
    n = sum(len(j[1].c) for j in js)
    H, q, u = ar_eye(4), [], []
    # the place of each joint is the one its dofs have in the world
    for j, qs, us, f0, f1 in js:
        place = r.get(j, 'dof')
        o.require(isinstance(place, VSlice) and place.start == len(q) and place.stop == len(q) + len(qs.c),
                  '%s: the degrees of freedom of a joint are elsewhere' % tag)
        q += list(qs.c)
        u += list(us.c)
        bp = [A_(r.content(r.get(f, 'bpose'))) for f in (f0, f1)]
        H = mul(H, bp[0], A_(r.content(r.get(j, 'pose'))), hinv(bp[1]))
        b = r.get(f1, 'body')
        o.eq(r.content(r.get(b, 'pose')), H, what='%s: pose of a body' % tag)
        if geometric:
            continue
        J = np.empty((6, n), dtype=object)
        J[:, :] = S0
        for k, x in enumerate(q):
            J[:, k] = body_twist(H, diff(H, alg._single(x)))[0].c
        J = Ar(J)
        o.eq(r.content(r.get(b, 'jacobian')), J, what='%s: jacobian of a body' % tag)
        o.eq(r.content(r.get(b, 'djacobian')), dtime(J, q, u), what='%s: jacobian rate of a body' % tag)
        o.eq(r.content(r.get(b, 'twist')), mul(J, ar(u + [S0] * (n - len(u)))), what='%s: twist of a body' % tag)


def histories(ctx):
    """a small tree through changes of coordinates, attachments and joints"""
    at = lambda: ctx.at_cls('World', 'update_dynamic')
    for how in ('other coordinates', 'moved attachments', 'a joint replaced', 'a joint replaced by two',
                'a body added'):
        with ctx.ob('tree-follows-changes', at, how) as o:
            r = ctx.run()
            w = r.new('World')
            parent, js = r.get(w, 'ground'), []
            for i, c in enumerate(('RzJoint', 'TxTyTzJoint', 'RyJoint')):
                parent, j, f0, f1 = link(r, w, parent, c, i, how == 'moved attachments')
                js.append([j, None, None, f0, f1])

            def move(tag):
                for i, x in enumerate(js):
                    m = int(num(r.get(x[0], 'ndof')).const())
                    x[1:3] = vec('%sq%d_' % (tag, i), m), vec('%su%d_' % (tag, i), m)
                    for k, v in (('gpos', x[1]), ('gvel', x[2])):
                        r.guard(lambda: r.I.setitem(r.st, r.get(x[0], k), VSlice(None, None), r.nd(v)))
            r.method(w, 'init')
            move('a')
            r.method(w, 'update_dynamic')
            o.no_raise(r, what='the first update')
            if how == 'other coordinates':
                check_tree(o, r, w, js, 'first update')
            if how == 'moved attachments':
                for x in js:
                    r.set(x[3], 'bpose', r.nd(h_of(WHOLE[2], ar([num(7), num(-2), num(5)]))))
                    r.set(x[4], 'bpose', r.nd(h_of(WHOLE[0], ar([num(1), num(11), num(-3)]))))
            elif how == 'a joint replaced':
                j = r.new('RzRyJoint', name='new')
                r.method(w, 'replace_joint', js[0][0], j)
                js[0][0] = j
            elif how == 'a joint replaced by two':
                mid = r.new('Body', 'mid')
                m0, m1 = r.new('SubFrame', mid, r.nd(h_of(WHOLE[1], ar([num(2), num(0), num(1)])))), \
                    r.new('SubFrame', mid, r.nd(h_of(WHOLE[2], ar([num(0), num(4), num(1)]))))
                a, b = r.new('RxJoint', name='one'), r.new('TyJoint', name='two')
                old = js[1]
                r.method(w, 'replace_joint', old[0], old[3], a, m0, m1, b, old[4])
                js[1:2] = [[a, None, None, old[3], m0], [b, None, None, m1, old[4]]]
            elif how == 'a body added':
                parent, j, f0, f1 = link(r, w, parent, 'RxJoint', 5)
                js.append([j, None, None, f0, f1])
            o.no_raise(r, what='the change')
            r.method(w, 'init')
            move('b')
            r.method(w, 'update_geometric')
            o.no_raise(r)
            check_tree(o, r, w, js, 'geometric update after ' + how, True)
            move('c')
            r.method(w, 'update_dynamic')
            o.no_raise(r)
            check_tree(o, r, w, js, 'update after ' + how)


def one_call(o, ev, name, W):
    if len(ev) != 1:
        o.violation('%s of the ground is called %d times' % (name, len(ev)))
        return False
    g = W.r.get(W.w, 'ground')
    o.require(ev[0].args[0] == W.S.freeze(W.r.I, W.r.st, g), 'the recursion starts elsewhere')
    o.require(ev[0].pc is True, 'the recursion starts only when %s' % (ev[0].pc,))
    return True


def calls(events, name):
    return [e for e in events if e.kind == 'call' and e.what == name]


def ar_of_mx(m):
    return explode(m)


def children(r, b):
    return atom('attr', b.key, 'childrenjoints')


def parts(r, e):
    j = AObj(e, r.cls('Joint'))
    H = {}
    for k, ns in (('cn', ('frame1', 'bpose')), ('pr', ('frame0', 'bpose')), ('rn', ('pose',)),
                  ('J', ('jacobian',)), ('dJ', ('djacobian',)), ('v', ('gvel',))):
        H[k] = r.content(r.get(j, *ns))
    H['dof'] = r.get(j, 'dof')
    return j, H


def child_pose(r, e, P):
    j, H = parts(r, e)
    rel_ = mx_dot(mx_dot(H['pr'], H['rn']), se3_inv(H['cn']))
    return rel_ if P is None else mx_dot(P, rel_)


def child_body(r, e, v):
    return v is r.get(AObj(e, r.cls('Joint')), 'frame1', 'body').key
