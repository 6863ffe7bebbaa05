"""Recording observers.  Every recorder is analysed on a small world that moves
in arbitrary ways between the updates: slot k of its record must be
the value its quantity had at update k, whatever happens to the world or to the record of other
updates afterwards; a new simulation starts an empty record of its own; observing
changes nothing the simulation goes on from.  PerfMonitor must time each step once."""
from obl.small import *
import lib

EXTRA = '''
from arboris.observers import (RecordJointGpos, RecordJointGvel, RecordFramePose, RecordFrameTwist,
                               RecordConstForce, RecordDistance, RecordCoMPosition, PerfMonitor,
                               CoMObserver)
def summary(total, least, mean, most):
    return 'total computation time (s): {0}\\nmin computation time (s): {1}\\nmean computation time (s): {2}\\nmax computation time (s): {3}'.format(total, least, mean, most)
'''


def pos(W, f):
    return p_of(explode(W.r.content(W.r.get(f, 'pose'))))


def distance(W, a, b, ra, rb):
    d = add(pos(W, a), scale(num(-1), pos(W, b)))
    return alg.sqrt(sx_sum(x * x for x in d.c.flat)) - ra - rb


def com_of(W):
    """as decided by C23"""
    def bodies():
        return W.r.list([W.A, W.B])

    def value():
        c = W.r.new(W.member('CoMObserver'), bodies())
        W.r.method(c, 'init', W.w, W.r.list([sym('t0'), sym('t1')]))
        W.r.method(c, 'update', sym('dt', pos=True))
        return W.r.content(W.r.method(c, 'get_CoMPosition'))
    return (bodies(),), value


def now(f, k):
    """the recorder's subject and what must be recorded of it"""
    def g(W):
        x = f(W)
        return (x,), lambda: W.r.content(W.r.get(x, k))
    return g


def forced(f, n):
    def g(W):
        c = f(W)
        W.r.method(W.w, 'register', c)
        W.r.method(c, 'init', W.w)
        W.forced.append((c, n))
        return (c,), lambda: W.r.content(W.r.get(c, '_force'))
    return g


def ground(W):
    return W.r.get(W.w, 'ground')


def sphere(W, f, r):
    return W.r.new(W.member('Sphere'), f, sym(r, pos=True))


def plane(W):
    return W.r.new(W.member('Plane'), ground(W), W.r.list([num(0), num(1), num(0), sym('height')]))


def height(W):
    return pos(W, W.s).c[1] - sym('height') - sym('ra')


SUBJECTS = [('RecordJointGpos', 'free joint', now(lambda W: W.J, 'gpos')),
            ('RecordJointGpos', 'hinge', now(lambda W: W.N, 'gpos')),
            ('RecordJointGvel', 'free joint', now(lambda W: W.J, 'gvel')),
            ('RecordJointGvel', 'hinge', now(lambda W: W.N, 'gvel'))]
for k, f in (('body', lambda W: W.A), ('last body', lambda W: W.B), ('sub-frame', lambda W: W.s),
             ('moving sub-frame', lambda W: W.m), ('ground', ground)):
    SUBJECTS += [('RecordFramePose', k, now(f, 'pose')), ('RecordFrameTwist', k, now(f, 'twist'))]
SUBJECTS += [
    ('RecordConstForce', 'ball and socket',
     forced(lambda W: W.r.new(W.member('BallAndSocketConstraint'), (W.s, ground(W))), 3)),
    ('RecordConstForce', 'joint limits',
     forced(lambda W: W.r.new(W.member('JointLimits'), W.N, W.r.list([sym('min')]),
                              W.r.list([sym('max')])), 1)),
    ('RecordCoMPosition', 'two bodies', com_of),
    ('RecordDistance', 'two spheres', lambda W: (
        (sphere(W, W.s, 'ra'), sphere(W, W.m, 'rb')),
        lambda: distance(W, W.s, W.m, sym('ra'), sym('rb')))),
    ('RecordDistance', 'sphere and plane', lambda W: ((sphere(W, W.s, 'ra'), plane(W)), lambda: height(W))),
    ('RecordDistance', 'plane and sphere', lambda W: ((plane(W), sphere(W, W.s, 'ra')), lambda: height(W)))]


def move(W):
    """a step: the state and the constraint forces change in place"""
    r = W.r
    W.state()
    for c, n in W.forced:
        r.I.setitem(r.st, r.get(c, '_force'), VSlice(None, None), r.nd(vec('f%d_' % W.t, n)))


def world(ctx):
    W = Small(ctx, extra=EXTRA)
    W.forced = []
    return W


def records(ctx):
    N = 2 if ctx.tier == 'quick' else 5
    for kind, name, subject in SUBJECTS:
        with ctx.ob('record-of-a-simulation', lambda: ctx.at_cls(kind, 'update'), name) as o:
            W = world(ctx)
            r = W.r
            args, now = subject(W)
            x = r.new(W.member(kind), *args)
            previous = []
            for run, steps in enumerate((N, 2)):
                r.method(x, 'init', W.w, r.list([sym('t%d' % k) for k in range(steps + 1)]))
                want = []
                for k in range(steps):
                    move(W)
                    before = W.snapshot() if (run, k) == (0, 0) else None
                    want.append(now())
                    r.method(x, 'update', sym('dt', pos=True))
                    o.no_raise(r)
                    if before:
                        W.undisturbed(o, before, 'the update')
                move(W)
                r.method(x, 'finish')
                rec = r.method(x, 'get_record')
                for rec, want in previous + [(rec, want)]:
                    got = r.items(rec)
                    o.require(len(got) == len(want), '%d values recorded in %d steps' % (len(got), len(want)))
                    for k, (g, v) in enumerate(zip(got, want)):
                        if g is None:
                            o.violation('nothing is recorded at step %d' % k)
                        else:
                            o.eq(r.content(g), v, what='value recorded at step %d of %d' % (k, len(want)))
                previous.append((rec, want))
            o.no_raise(r)


def perf(ctx):
    with ctx.ob('step-times', lambda: ctx.at_cls('PerfMonitor', 'update')) as o:
        clock = [None]
        saved = {k: lib.EXTRA[k] for k in ('time.time', 'time.perf_counter')}
        for k in saved:
            lib.EXTRA[k] = lambda L, st, a, kw: clock[0]
        try:
            W = world(ctx)
            r = W.r
            x = r.new(W.member('PerfMonitor'))
            n = 0
            for steps in (3, 2):
                # a strictly increasing clock, with steps of known order
                least, a, c = [sym('%s%d' % (q, n), pos=True) for q in ('least', 'more', 'most')]
                times = [least + a, least, least + a + c][:steps]
                clock[0] = sym('start%d' % n)
                r.method(x, 'init', W.w, r.list([sym('t%d' % k) for k in range(steps + 1)]))
                for t in times:
                    before = W.snapshot()
                    clock[0] = clock[0] + t
                    r.method(x, 'update', sym('dt', pos=True))
                    W.undisturbed(o, before, 'the update')
                clock[0] = clock[0] + sym('later', pos=True)
                r.method(x, 'finish')
                n += steps
                got = r.method(x, 'get_summary')
                tot = sx_sum(times)
                want = r.call(W.member('summary'), tot, least, tot / num(steps),
                              times[-1] if steps > 2 else times[0])
                o.no_raise(r)
                o.eq(got, want, what='summary')
        finally:
            lib.EXTRA.update(saved)


def run(ctx):
    with cut_at(12):
        records(ctx)
        perf(ctx)
