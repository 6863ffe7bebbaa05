"""Summaries of loops over collections of unknown size.

The body is analysed once for a generic element, with placeholders standing
for the loop carried values; the resulting transfer function is closed as a
sum, a map/filter, a prefix sum, a quantified exit, a per-element update, or
kept as a loop record (transfer function + initial values) when it is none of
these.  No iteration is ever unrolled unless the items are individually known.
"""
import itertools
from alg import *
import alg
import nd
from values import *


def canon_elem(I, coll):
    k = 0
    while atom('elem', coll, k) in I.active:
        k += 1
    return atom('elem', coll, k)


def run_segs(I, st, fr, segs, body, broken):
    for s in segs:
        if st.dead:
            return
        if isinstance(s, One):
            one(I, st, fr, lambda x: body(x, s.v), broken)
        elif isinstance(s, Cnd):
            def inside(x):
                run_segs(I, x, fr, s.segs, body, broken)
            I.branch(st, s.c, inside, lambda x: None)
        elif isinstance(s, Rng):
            a, b = s.a.const(), s.b.const()
            if a is not None and b is not None and b - a <= 128:
                for k in range(int(a), int(b)):
                    one(I, st, fr, lambda x: body(x, k), broken)
                    if st.dead:
                        return
                continue
            coll, shift = range_coll(s.a, s.b)
            e = atom('elem', coll, 0)
            v = sx_atom(atom('idx', e, int=True, interp=_idx)) + shift
            each(I, st, fr, coll, e, True, (One(v),), body, broken)
        elif isinstance(s, Each):
            each(I, st, fr, s.coll, s.e, s.guard, s.segs, body, broken)
        elif isinstance(s, Vec):
            n = s.m.shape[0]
            coll, shift = range_coll(S0, num(n))
            e = atom('elem', coll, 0)
            i = sx_atom(atom('idx', e, int=True, interp=_idx))
            each(I, st, fr, coll, e, True, (One(nd.getitem(s.m, i + shift)),), body, broken)
        else:
            I.unsupported('iteration over the list being built')


def range_coll(a, b):
    """collection whose elements are the integers a..b-1; a range over the
    size of a collection is that collection"""
    n = b - a
    at = alg._single(n)
    if at is not None and at.kind == 'sum' and at.args[2] == S1 and len(at.args) == 3:
        return at.args[0], a
    return atom('rangec', n, interp=None), a


def _idx(m, a):
    return float(m.bindval(a.args[0]))


def one(I, st, fr, f, broken):
    n0 = len(fr.exits)
    f(st)
    from interp import take
    brk, cont = take(fr, n0)
    broken.extend(x.st for x in brk)
    if cont:
        m = merge_states(([st.fork()] if not st.dead else []) + [x.st for x in cont])
        if m is None:
            st.pc = False
        else:
            st.assign(m)


def is_num(v):
    if isinstance(v, Phi):
        return all(is_num(l) for _, l in leaves(v))
    return isinstance(v, (Sx, int, Fraction, Ar, Mx)) and not isinstance(v, bool)


def is_bool(v):
    if isinstance(v, Phi):
        return all(is_bool(l) for _, l in leaves(v))
    return isinstance(v, bool)


def shape_of_num(v):
    if isinstance(v, Phi):
        sh = set(shape_of_num(l) for _, l in leaves(v))
        if len(sh) != 1:
            raise Unsupported('gated shapes in a loop')
        return sh.pop()
    return tuple(v.shape) if isinstance(v, (Ar, Mx)) else ()


def ph_value(depth, idx, v):
    """placeholder of the same kind as v -> (atom, value)"""
    if is_bool(v):
        a = atom('ph', depth, idx, 'b', interp=_phb)
        return a, cond(a)
    sh = shape_of_num(v)
    if sh == ():
        a = atom('ph', depth, idx, 's', interp=_phs)
        return a, sx_atom(a)
    full = sh if len(sh) == 2 else (sh[0], 1)
    a = atom('ph', depth, idx, tuple(kd(d) for d in sh), shape=full, interp=_phm)
    return a, mx_of(a, len(sh))


def kd(d):
    return d if isinstance(d, int) else num(d).key


def _phs(m, a):
    return float(np.asarray(m.bindval(a)).reshape(()))


def _phb(m, a):
    return bool(m.bindval(a))


def _phm(m, a):
    v = np.asarray(m.bindval(a), dtype=float)
    return v.reshape([m.dim(d) for d in a.meta['shape']])


def elem_rooted(k, e):
    """heap key of something belonging to the generic element"""
    return e in key_fe(k)


def key_fe(k):
    r = set()
    for x in k[1:]:
        if isinstance(x, AObj):
            r |= free_elems(x.key)
        elif isinstance(x, tuple):
            r |= key_fe(('',) + x)
        elif isinstance(x, Atom):
            r |= free_elems(x)
    return r


def each(I, st, fr, coll, e, guard, segs, body, broken):
    from interp import take, subst_segs
    ce = canon_elem(I, coll)
    if ce is not e:
        mp = {e: ce}
        guard = subst(guard, mp)
        segs = subst_segs(segs, lambda x: subst(x, mp))
        e = ce
    entry_pc = st.pc
    anchor = st.heap
    # freeze the entry heap so that writes of the body are visible as a delta
    base = st.fork()          # base: pristine copy
    depth = len(I.active)
    ev0, ld0 = len(st.events), len(st.loops)

    def run(prep):
        x = base.fork()
        x.events, x.loops = base.events, base.loops
        x.asserts, x.hazards = base.asserts, base.hazards
        x.pc = b_and(base.pc, guard)
        top = Heap(x.heap)
        x.heap = top
        prep(x)
        mark = Heap(x.heap)
        x.heap = mark
        brk = []
        n0 = len(fr.exits)
        I.active.append(e)
        nid = I.nid
        try:
            if x.pc is not False:
                run_segs(I, x, fr, segs, body, brk)
        finally:
            I.active.pop()
        if brk:
            raise_nested(brk)
        b2, cont = take(fr, n0)
        new = fr.exits[n0:]
        del fr.exits[n0:]
        # 'break' of this loop is reported through brk by run_segs
        return x, top, [], new, nid

    def run2(prep):
        """as run, also returning the break states"""
        x = base.fork()
        x.pc = b_and(base.pc, guard)
        top = Heap(x.heap)
        x.heap = top
        prep(x)
        x.heap = Heap(x.heap)
        brk = []
        n0 = len(fr.exits)
        I.active.append(e)
        nid = I.nid
        try:
            if x.pc is not False:
                run_segs(I, x, fr, segs, body, brk)
        finally:
            I.active.pop()
        new = fr.exits[n0:]
        del fr.exits[n0:]
        return x, top, brk, new, nid

    # ---- pass 1: what does the body write?
    steps = I.calls_seen.copy()
    x, top, brk, new, nid0 = run2(lambda s: None)
    states = ([] if x.dead else [x]) + list(brk)
    keys = []
    for s in states:
        for k in s.heap.keys_since(top):
            if k not in keys:
                keys.append(k)
    exits1 = new

    def written(k):
        return any(not same_val(s.get(k), base.get(k)) for s in states)
    keys = [k for k in keys if k[0] not in ('R', 'EXC') and written(k)]
    carried, lists, elems, temps, toks = [], [], [], [], []
    for k in keys:
        v = base.get(k)
        if elem_rooted(k, e):
            elems.append(k)
            continue
        if v is UNDEF:
            if k[0] == 'B' and k[1][0] == 'attr':
                # a buffer of an abstract object, not read before: initial value
                v = I.schema.buffer(I, base, k[1])
                base.heap.d[k] = v
            elif k[0] == 'V':
                v = I.schema.token0(k)
                base.heap.d[k] = v
            else:
                temps.append(k)
                continue
        if isinstance(v, Content):
            lists.append(k)
        else:
            carried.append(k)

    # ---- pass 2: with placeholders
    phs = {}
    phbuf = {}
    inits = {}
    other = []

    def prep(s):
        for i, k in enumerate(carried):
            v = base.get(k)
            if isinstance(v, Nd):
                c = I.content(base, v)
                a, val = ph_value(depth, i, c)
                b = ('ph', depth, i)
                s.set(('B', b), val)
                phbuf[k] = val
                s.set(k, Nd(b))
                phs[k], inits[k] = a, c
            elif is_num(v) or is_bool(v):
                a, val = ph_value(depth, i, v)
                s.set(k, val)
                phs[k], inits[k] = a, v
            elif is_tok(v):
                phs[k], inits[k], val = tok_ph(depth, i, k, v, I.active + [e])
                s.set(k, val)
            else:
                s.set(k, Poison('loop carried object'))
                other.append(k)
        for i, k in enumerate(lists):
            s.set(k, Content((Ph((depth, i), base.get(k).segs),)))
        for k in elems:
            pass
    if carried or lists:
        x, top, brk, new, nid0 = run2(prep)
    else:
        top = top
    live = not x.dead
    # exits other than break
    rel = lambda pc: under(pc, entry_pc) if entry_pc is not True else pc
    st.heap = base.heap
    st.heap = Heap(base.heap)
    escape = False
    for q in new:
        c = rel(q.st.pc)
        if q.kind == 'raise':
            E = exists(coll, e, c)
            s2 = q.st
            s2.pc = b_and(entry_pc, E)
            if s2.pc is not False:
                fr.exits.append(type(q)('raise', s2, subst_first(q.val, coll, e, c), q.site))
            escape = b_or(escape, E)
        elif q.kind == 'return':
            E = exists(coll, e, c)
            s2 = base.fork()
            s2.pc = b_and(b_and(entry_pc, b_not(escape)), E)
            v = q.val
            if isinstance(v, (Obj,)) or (isinstance(v, Nd) and v.root()[0] == 't'):
                I.unsupported('return of a fresh object from a loop')
            fr.exits.append(type(q)('return', s2, subst_first(v, coll, e, c), q.site))
            escape = b_or(escape, E)
        elif q.kind == 'break' or q.kind == 'continue':
            I.unsupported('stray loop exit')
    # ---- value of every carried variable at the end of an iteration
    allphs = dict((a, k) for k, a in phs.items())
    ends = {}
    poisoned = {}

    def roots(v):
        return set(l.root() for _, l in leaves(v) if isinstance(l, Nd))

    def aliased(s, k):
        """an array variable rebound to a buffer that something else also
        changes: its placeholder would not see those changes"""
        ends_ = roots(s.get(k))
        start = roots(base.get(k))
        inplace = [q for i, q in enumerate(carried) if isinstance(base.get(q), Nd) and
                   not same_val(s.get(('B', ('ph', depth, i))), phbuf[q])]
        mine = ('ph', depth, carried.index(k))
        for r in ends_:
            if r == mine:
                continue
            old = base.get(('B', r)) is not UNDEF
            if old and (('B', r) in keys or inplace):
                return True
            if inplace and any(q != k and r in roots(s.get(q)) for q in carried):
                return True
        if k in inplace:
            for r in start:
                for q in base.heap.keys_since(None):
                    if q != k and q[0] in ('L', 'A') and r in roots(base.get(q)):
                        return True
        return False

    def end_value(s, k):
        v = s.get(k)
        if v is UNDEF:
            return None
        if isinstance(base.get(k), Nd) and aliased(s, k):
            return None
        if isinstance(v, Poison):
            return None
        if is_tok(inits[k]):
            return under(v, rel(s.pc)) if is_tok(v) else None
        if isinstance(inits[k], Fam):
            return Fam(inits[k].c, under(v, rel(s.pc))) if is_tok(v) else None
        if isinstance(v, Nd) or (isinstance(v, Phi) and any(isinstance(l, Nd) for _, l in leaves(v))):
            try:
                return under(I.content(s, v), rel(s.pc))
            except (Unsupported, nd.PyErr):
                return None
        if is_num(v) or is_bool(v):
            return v if not isinstance(v, int) or isinstance(v, bool) else num(v)
        return None
    keyset = [k for k in carried if k in phs]
    brk_T = []
    gd = guard
    if live:
        # condition under which the body completes normally, relative to entry
        done = rel(x.pc)
        for k in keyset:
            ends[k] = end_value(x, k)
    else:
        done = False
        for k in keyset:
            ends[k] = None
    # skip condition: elements for which the guard fails leave values unchanged
    T = {}
    for k in keyset:
        v = ends[k]
        if v is None:
            T[k] = None
            continue
        T[k] = v
    if brk:
        record(I, st, fr, coll, e, guard, done, x if live else None, brk, keyset, phs, inits, T,
               end_value, rel, lists, elems, depth, base, entry_pc, other, temps, ev0, ld0)
        return
    # ---- classify: linear accumulators first
    sums = {}
    inc = {}
    for k in keyset:
        if T[k] is None:
            continue
        r = linear_inc(T[k], phs[k], done)
        if r is not None and not fe_has_ph(r, phs.values(), except_=set()):
            inc[k] = r
    # increments depending on other (linear) placeholders: prefix substitution
    for _ in range(3):
        for k in keyset:
            if T[k] is None or k in inc:
                continue
            r = linear_inc(T[k], phs[k], done)
            if r is None:
                continue
            deps = ph_deps(r, phs.values())
            if all(allphs[a] in inc for a in deps):
                mp = dict((a, prefix_value(inits[allphs[a]], coll, e, done, inc[allphs[a]]))
                          for a in deps)
                inc[k] = subst(r, mp)
    atphs = {}
    for k in inc:
        atphs[phs[k]] = prefix_value(inits[k], coll, e, done, inc[k])
    for k, r in inc.items():
        tot = close_sum(coll, e, done, r)
        sums[k] = lift(lambda a, b: nd.add(a, b), inits[k], tot)
    # bool flags: found = found or c(e)
    for k in keyset:
        if k in inc or T[k] is None or not is_bool(inits[k]):
            continue
        r = bool_close(T[k], phs[k], inits[k], coll, e, done)
        if r is not None:
            sums[k] = r
            inc[k] = True
    # arrays filled slice after slice: concatenations
    for k in keyset:
        if k in inc or T[k] is None:
            continue
        r = cat_close(subst(T[k], atphs), phs[k], inits[k], coll, e, done)
        if r is not None:
            sums[k] = r
            inc[k] = True
    # remaining: temporaries (own placeholder unused anywhere) or records
    rest = [k for k in keyset if k not in inc]
    used = set()
    for k in rest:
        if T[k] is not None:
            used |= ph_deps(T[k], phs.values())
    seg_vals = []
    if live:
        for k in lists:
            seg_vals.append(x.get(k))
        for k in elems:
            seg_vals.append(x.get(k))
    used |= ph_deps([sv.segs if isinstance(sv, Content) else sv for sv in seg_vals], phs.values())
    ev_used = set()
    for ev in x.events[ev0:] if live else ():
        ev_used |= ph_deps(list(ev.args) + [ev.pc], phs.values())
    used |= ev_used
    nonlin = []
    for k in rest:
        if phs[k] in used and T[k] is not None:
            p = after_first(T[k], inits[k], coll, e, done, True, phs.values())
            if p is not None:
                atphs[phs[k]] = p
            nonlin.append(k)
    for k in rest:
        if k not in nonlin:
            if phs[k] in used or T[k] is None:
                poisoned[k] = 'loop carried value'
            else:
                poisoned[k] = 'value of the last iteration'
    vals = [(k, phs[k], inits[k], T[k]) for k in nonlin]
    for k in [k for k in poisoned if poisoned[k] == 'value of the last iteration']:
        # set by every iteration without being read: its record is not one of
        # the loops that run, only a value
        try:
            rec, i = make_records(coll, e, done, vals + [(k, phs[k], inits[k], T[k])], atphs, None,
                                  depth)[k]
            sums[k] = rec_out(rec, i, inits[k])
            del poisoned[k]
        except (Unsupported, KeyError):
            pass
    if nonlin:
        recs = make_records(coll, e, done, vals, atphs, None, depth)
        for k, (rec, i) in recs.items():
            sums[k] = rec_out(rec, i, inits[k])
            atphs[phs[k]] = rec_at(rec, i, inits[k], e)
        st.loops += distinct(r for r, _ in recs.values())
    # ---- write back
    for k in keyset:
        if k in poisoned:
            st.set(k, Poison(poisoned[k]))
            continue
        v = sums[k]
        old = base.get(k)
        if isinstance(old, Nd):
            st.set(k, I.new_nd(st, v))
        else:
            st.set(k, v)
    for k in other + temps:
        if k[0] == 'L':
            st.set(k, Poison('variable of the last iteration'))
        elif k in other:
            st.set(k, Poison('loop carried object'))
        elif k[0] in ('C', 'A', 'B', 'D') and live:
            st.set(k, subst_any(x.get(k), atphs))
    if live:
        finish_lists(I, st, x, coll, e, done, lists, depth, atphs, base)
        for k in elems:
            v = subst_any(settle(I, x, x.get(k)), atphs)
            old = st.get(k)
            if old is UNDEF or done is True:
                st.set(k, v)
            else:
                st.set(k, merge_val(done, v, old) if not isinstance(v, Content) else v)
        sub = tuple(subst_event(ev, atphs) for ev in x.events[ev0:])
        if sub:
            st.events = base.events + (Event('each', coll, (e,), rel(entry_pc), None, sub),)
        else:
            st.events = base.events
        st.asserts = x.asserts
        st.hazards = x.hazards
        st.loops = base.loops + x.loops[ld0:] + st.loops[ld0:]
    else:
        for k in lists:
            st.set(k, base.get(k))
    st.pc = b_and(entry_pc, b_not(escape))


def same_val(a, b):
    if a is b:
        return True
    if a is UNDEF or b is UNDEF:
        return False
    if isinstance(a, Content) and isinstance(b, Content):
        return a.samekey() == b.samekey()
    return same(a, b) if not isinstance(a, (BAr,)) else False


def settle(I, s, v):
    """value stored per element: content of a fresh buffer"""
    if isinstance(v, Nd) and v.root()[0] in ('t', 'ph'):
        return v
    return v


def subst_any(v, mp):
    if not mp:
        return v
    if isinstance(v, Content):
        from interp import subst_segs
        return Content(subst_segs(v.segs, lambda y: subst_any(y, mp)))
    if isinstance(v, BAr):
        return v
    try:
        return subst(v, mp)
    except NoSubst:
        return Poison('substitution')


def subst_event(ev, mp):
    if not mp:
        return ev
    return Event(ev.kind, ev.what, tuple(subst_any(a, mp) for a in ev.args),
                 subst(ev.pc, mp), ev.site,
                 None if ev.sub is None else tuple(subst_event(x, mp) for x in ev.sub))


def finish_lists(I, st, x, coll, e, done, lists, depth, atphs, base):
    for i, k in enumerate(lists):
        c = x.get(k)
        segs = c.segs
        if not segs or not isinstance(segs[0], Ph) or segs[0].n != (depth, i) or \
                any(has_ph(s) for s in segs[1:]):
            st.set(k, Poison('list rebuilt in a loop'))
            continue
        rest = list(segs[1:])
        g = done
        # a single conditional append: put the condition in the guard
        while len(rest) == 1 and isinstance(rest[0], Cnd):
            g = b_and(g, under(rest[0].c, g)) if g is not False else g
            rest = list(rest[0].segs)
        rest = [freeze(I, x, s) for s in rest]
        from interp import subst_segs
        rest = subst_segs(rest, lambda y: subst_any(y, atphs))
        old = base.get(k)
        if rest:
            st.set(k, Content(old.segs + (Each(coll, e, g, tuple(rest)),)))
        else:
            st.set(k, old)


def freeze(I, x, s):
    if isinstance(s, One):
        return One(freeze_val(I, x, s.v))
    if isinstance(s, Each):
        return Each(s.coll, s.e, s.guard, tuple(freeze(I, x, y) for y in s.segs))
    if isinstance(s, Cnd):
        return Cnd(s.c, tuple(freeze(I, x, y) for y in s.segs))
    return s


def freeze_val(I, x, v):
    if isinstance(v, Nd) and v.root()[0] in ('t', 'ph'):
        return I.content(x, v)
    if isinstance(v, tuple):
        return tuple(freeze_val(I, x, y) for y in v)
    return v


def has_ph(s):
    if isinstance(s, Ph):
        return True
    if isinstance(s, (Each, Cnd)):
        return any(has_ph(y) for y in s.segs)
    return False


def raise_nested(brk):
    raise Unsupported('break')


def ph_deps(v, phs):
    phs = set(phs)
    from interp import segs_fe

    def fe(z):
        if isinstance(z, (One, Each, Cnd, Vec, Rng)):
            return segs_fe((z,))
        if isinstance(z, (list, tuple)):
            r = set()
            for y in z:
                r |= fe(y)
            return r
        if isinstance(z, Content):
            return segs_fe(z.segs)
        return fe_of(z)
    return fe(v) & phs


def fe_has_ph(v, phs, except_):
    return bool(ph_deps(v, phs))


def linear_inc(T, ph, done):
    """T - ph as a value free of ph, or None"""
    T = under(T, done) if isinstance(done, Phi) else T
    bad = []

    def f(leaf):
        if isinstance(leaf, bool) or isinstance(leaf, (str, Atom)) or leaf is None:
            bad.append(1)
            return S0
        if 'shape' in ph.meta:
            if not isinstance(leaf, (Ar, Mx)):
                bad.append(1)
                return S0
            try:
                shp = ph.meta['shape']
                p = mx_of(ph, len(leaf.shape))
                d = nd.add(leaf, p, -1)
            except Unsupported:
                bad.append(1)
                return S0
        else:
            if not isinstance(leaf, (Sx, int, Fraction)):
                bad.append(1)
                return S0
            d = num(leaf) - sx_atom(ph)
        if ph in fe_of(d):
            if isinstance(d, Mx) and ints(d.shape):
                d = explode(d)
            if ph in fe_of(d):
                bad.append(1)
        return d
    r = lift(f, T)
    if bad:
        return None
    return r


def ints(sh):
    return all(isinstance(d, int) for d in sh)


def bool_close(T, ph, init, coll, e, done):
    hi = restrict(T, ph, True)
    lo = restrict(T, ph, False)
    hi = under(hi, done) if isinstance(done, Phi) else hi
    lo = under(lo, done) if isinstance(done, Phi) else lo
    if hi is True:
        return b_or(init, exists(coll, e, b_and(done, lo)))
    if lo is False:
        return b_and(init, b_not(exists(coll, e, b_and(done, b_not(hi)))))
    return None


def cat_close(T, ph, init, coll, e, done):
    """x[start:stop] = v(e) where start:stop are the consecutive slices of x:
    x becomes the concatenation of the v(e)"""
    if not isinstance(T, Mx) or isinstance(init, Phi) or not isinstance(init, (Mx, Ar)):
        return None
    if len(T.shape) not in (1, 2) or fe_of(T.shape) & {e}:
        return None
    t = dict(T.t)
    me = ((ph, False, False),)
    if t.pop(me, None) != S1:
        return None
    S = None
    for w in t:
        if len(w) == 3 and w[1][0] is w[0][0] and w[2] == me[0]:
            S = w[0][0]
            sw = w
    if S is None or S.meta.get('grp') != 'sel' or not isinstance(S.args[1], nd.SelKey) or \
            t.pop(sw) != -S1:
        return None
    K = S.args[1]
    v = {}
    for w, c in t.items():
        if w[0] != (S, True, False) or ph in ph_deps(Mx(T.shape, {w: c}), [ph]):
            return None
        v[w[1:]] = c
    L = K.stop - K.start
    try:
        start = prefix_value(S0, coll, e, done, L)
        n = close_sum(coll, e, done, L)
    except Unsupported:
        return None
    if not (isinstance(start, Sx) and start == K.start and num(T.shape[0]) == n):
        return None
    body = Mx((nd.simp_dim(L),) + tuple(T.shape[1:]), v)
    seg = Each(coll, e, done, (Vec(body),))
    from interp import cat_atom
    return cat_atom((seg,), T.shape)


def indep_gate(c, e):
    """a gate of the condition that does not depend on the element"""
    seen, todo = set(), [c]
    best = None
    while todo:
        x = todo.pop()
        if not isinstance(x, Phi) or id(x) in seen:
            continue
        seen.add(id(x))
        if e not in free_elems(x.a) and (best is None or x.a.id < best.id):
            best = x.a
        todo += [x.hi, x.lo]
    return best


def exists(coll, e, c):
    if c is False:
        return False
    if isinstance(c, Phi):
        a = indep_gate(c, e)
        if a is not None:
            return ite(cond(a), exists(coll, e, restrict(c, a, True)), exists(coll, e, restrict(c, a, False)))
    return cond(atom('exists', coll, e, c, interp=_exists))


def _exists(m, a):
    coll, e, c = a.args[:3]
    old = m.bind.get(e)
    r = False
    for k in m.indices(coll):
        m.bind[e] = k
        if m.bool(c):
            r = True
            break
    restore(m, e, old)
    return r


def restore(m, e, old):
    if old is None:
        m.bind.pop(e, None)
    else:
        m.bind[e] = old


def subst_first(v, coll, e, c):
    if isinstance(v, ExcV):
        return ExcV(v.name, tuple(subst_first(y, coll, e, c) for y in v.args))
    try:
        return subst_any(v, {e: atom('first', coll, e, c, interp=_first)})
    except Unsupported:
        return Poison('first')


def _first(m, a):
    coll, e, c = a.args[:3]
    old = m.bind.get(e)
    try:
        for k in m.indices(coll):
            m.bind[e] = k
            if m.bool(c):
                return m.token(e)
    finally:
        restore(m, e, old)
    raise NoModel('no first')


# ------------------------------------------------------------------- sums
def zero_like(v):
    if isinstance(v, Ar):
        return ar_zeros(v.shape)
    if isinstance(v, Mx):
        return mx_zero(v.shape)
    return S0


def close_sum(coll, e, guard, T):
    """sum of T(e) over the elements satisfying guard, in normal form"""
    if guard is False:
        return lift(zero_like, T)
    ls = list(leaves(T))
    kinds = set()
    shapes = set()
    for _, l in ls:
        kinds.add('M' if isinstance(l, Mx) else 'A' if isinstance(l, Ar) else 'S')
        if isinstance(l, (Ar, Mx)):
            shapes.add(tuple(l.shape))
    if 'A' in kinds or ('M' in kinds and all(ints(s) for s in shapes) and 'S' in kinds):
        sh = list(shapes)[0]
        C = lift(lambda l: l if isinstance(l, Ar) else explode(l) if isinstance(l, Mx)
                 else ar_zeros(sh, num(l)), T)
        cellsum = {}
        vals = []
        for i in np.ndindex(sh):
            vals.append(close_sum(coll, e, guard, lift(lambda l: l.c[i], C)))

        def build(*xs):
            o = np.empty(len(xs), dtype=object)
            for j, z in enumerate(xs):
                o[j] = z
            return Ar(o.reshape(sh))
        return lift(build, *vals)
    acc = {}
    order = []

    def put(k, g, make):
        if k not in acc:
            acc[k] = [False, make]
            order.append(k)
        acc[k][0] = b_or(acc[k][0], g)
    for path, leaf in leaves(T):
        from interp import path_cond
        g = b_and(guard, path_cond(path))
        if g is False or not consistent(path):
            continue
        if isinstance(leaf, Mx):
            for w, c in leaf.t.items():
                _mx_term(leaf, w, c, e, g, put)
        else:
            _sx_terms(num(leaf), e, g, put)
    tot = None
    for k in order:
        g, make = acc[k]
        ge = fe_of(g) if isinstance(g, Phi) else set()
        if e in ge:
            t = make(coll, g)
        elif g is True:
            t = make(coll, True)
        else:
            t = ite(g, make(coll, True), lift(zero_like, make(coll, True)))
        tot = t if tot is None else lift(lambda a, b: nd.add(a, b), tot, t)
    if tot is None:
        return zero_like(ls[0][1])
    return tot


def dep(x, e):
    return e in fe_of(x)


def split_mono(m, e):
    a = tuple((i, p) for i, p in m if e in free_elems(Atom.all[i]))
    b = tuple((i, p) for i, p in m if e not in free_elems(Atom.all[i]))
    return a, b


def split_sx(c, e):
    """c = sum of dep * indep -> list of (dep Sx, indep Sx)"""
    one_ = {ONE: Fraction(1)}
    dd = any(e in free_elems(Atom.all[i]) for m in c.d for i, _ in m)
    if dd and len(c.d) == 1:
        (m, k), = c.d.items()
        a, b = split_mono(m, e)
        dden, iden = Sx({a: Fraction(1)}), Sx({b: k})
    elif dd:
        dden, iden = Sx(c.d), S1
    else:
        dden, iden = S1, Sx(c.d)
    g = {}
    for m, k in c.n.items():
        a, b = split_mono(m, e)
        g[a] = p_add(g.get(a, {}), {b: k})
    return [(Sx({a: Fraction(1)}) / dden, Sx(b) / iden) for a, b in g.items()]


def _sx_terms(x, e, g, put):
    for d, i in split_sx(x, e):
        if i.iszero():
            continue

        def make(coll, g, d=d, i=i):
            args = (coll, e, d) if g is True else (coll, e, d, g)
            return sx_atom(atom('sum', *args)) * i
        put((d.key, i.key), g, make)


def _mx_term(leaf, w, c, e, g, put):
    lo = 0
    hi = len(w)
    fe = [e in free_elems(f[0]) for f in w]
    while lo < hi and not fe[lo]:
        lo += 1
    while hi > lo and not fe[hi - 1]:
        hi -= 1
    L, M, R = w[:lo], w[lo:hi], w[hi:]
    nd_ = len(leaf.shape)
    for d, i in split_sx(c, e):
        if i.iszero():
            continue
        if not M:
            def make(coll, g, d=d, i=i):
                args = (coll, e, d) if g is True else (coll, e, d, g)
                s = sx_atom(atom('sum', *args)) * i
                return Mx(leaf.shape, {w: s})
            put(('s', d.key, i.key, tuple((f[0].id, f[1], f[2]) for f in w)), g, make)
            continue
        sh = (fshape(M[0])[0], fshape(M[-1])[1])

        def make(coll, g, d=d, i=i):
            body = Mx(sh, {M: d})
            args = (coll, e, body) if g is True else (coll, e, body, g)
            meta = {}
            ms = sh
            if e in fe_of(sh):
                raise Unsupported('sum of arrays of different shapes')
            a = atom('sum', *args, shape=ms, grp='sym' if mx_T(body) == body else None)
            k, word = word_mul(L, ((a, False, False),))
            k2, word = word_mul(word, R)
            return Mx(leaf.shape, {word: i * k * k2})
        put(('m', d.key, i.key, tuple((f[0].id, f[1], f[2]) for f in w), tuple(map(kd, leaf.shape))), g, make)


def prefix_value(init, coll, e, guard, inc):
    """value of a linear accumulator when element e is reached"""
    def f(i, t):
        if isinstance(t, (Ar, Mx)):
            raise Unsupported('array prefix sums')
        t = num(t)
        if t.iszero():
            return num(i)
        args = (coll, e, t, guard, e)
        return num(i) + sx_atom(atom('prefix', *args, int=True, interp=_prefix))
    if isinstance(inc, Phi):
        # gate inside: put into guard
        tot = None
        for path, l in leaves(inc):
            from interp import path_cond
            if isinstance(l, (Ar, Mx)):
                return Poison('array prefix')
            if num(l).iszero():
                continue
            g = b_and(guard, path_cond(path))
            t = sx_atom(atom('prefix', coll, e, num(l), g, e, int=True, interp=_prefix))
            tot = t if tot is None else tot + t
        return lift(lambda i: num(i) + (S0 if tot is None else tot), init)
    try:
        return lift(f, init, inc)
    except Unsupported:
        return Poison('array prefix')


def _prefix(m, a):
    coll, e, t, g, cur = a.args
    stop = m.token(cur)
    old = m.bind.get(e)
    tot = 0.
    try:
        for k in m.indices(coll):
            m.bind[e] = k
            if m.token(e) == stop:
                break
            if m.bool(g):
                tot += m.value(t)
    finally:
        restore(m, e, old)
    return tot


# ----------------------------------------------------------------- records
class Rec(object):
    """transfer function of a loop that has no closed form"""
    def __init__(self, coll, e, guard, phs, inits, T, brk, Tb):
        self.coll, self.e, self.guard = coll, e, guard
        self.phs, self.inits, self.T = phs, inits, T
        self.brk, self.Tb = brk, Tb
        self.k = ('rec', coll.id, e.id, skey(guard), tuple(p.id for p in phs),
                  skey(tuple(inits)), skey(tuple(T)), skey(brk), skey(tuple(Tb)))

    def samekey(self):
        return self.k

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, Rec) and o.k == self.k

    def __repr__(self):
        return 'loop(%r over %r if %r: %r -> %r%s)' % (
            self.e, self.coll, self.guard, self.inits, self.T,
            '' if self.brk is False else ' until %r' % (self.brk,))

    def fe(self):
        r = fe_of(tuple(self.T)) | fe_of(tuple(self.Tb)) | fe_of(self.guard) | fe_of(self.brk)
        r = set(r) - set(self.phs) - {self.e}
        return r | fe_of(tuple(self.inits)) | fe_of(self.coll)

    def subst(self, f):
        return Rec(f(self.coll), self.e, f(self.guard), self.phs, tuple(f(i) for i in self.inits),
                   tuple(f(t) for t in self.T), f(self.brk),
                   tuple(t if t is None else f(t) for t in self.Tb))

    def run(self, m, cur=None):
        vals = [m.value(i) for i in self.inits]
        olde = m.bind.get(self.e)
        olds = [m.bind.get(p) for p in self.phs]
        stop = None if cur is None else m.token(cur)
        try:
            for k in m.indices(self.coll):
                m.bind[self.e] = k
                if stop is not None and m.token(self.e) == stop:
                    break
                for p, v in zip(self.phs, vals):
                    m.setph(p, v)
                if self.brk is not False and m.bool(self.brk):
                    vals = [None if t is None else m.value(t) for t in self.Tb]
                    break
                if not m.bool(self.guard):
                    continue
                vals = [m.value(t) for t in self.T]
        finally:
            restore(m, self.e, olde)
            for p, o in zip(self.phs, olds):
                restore(m, p, o)
        return vals


def make_record(coll, e, done, vals, atphs, brk, depth):
    """canonical record: vals = [(key, ph, init, T)]; atphs substitutes the
    placeholders that have a closed form"""
    items = []
    for k, ph, init, t in vals:
        items.append((k, ph, init, t))
    base = sorted(items, key=lambda it: repr(skey(it[2])))
    # group ties
    groups = []
    for it in base:
        kk_ = repr(skey(it[2]))
        if groups and groups[-1][0] == kk_:
            groups[-1][1].append(it)
        else:
            groups.append((kk_, [it]))
    best = None
    perms = [list(itertools.permutations(g)) if len(g) <= 4 else [g] for _, g in groups]
    for combo in itertools.product(*perms):
        seq = [it for g in combo for it in g]
        mp = {}
        news = []
        for i, (k, ph, init, t) in enumerate(seq):
            if isinstance(init, Fam) or is_tok(init):
                n = atom('ph', depth, ('c', i), 'tok')
            else:
                n, _ = ph_value(depth, ('c', i), init)
            news.append(n)
            mp[ph] = n

        def put(v):
            return subst_any(subst_any(v, atphs), mp)
        T = tuple(put(under(t, done) if isinstance(done, Phi) else t) for _, _, _, t in seq)
        g = put(done)
        if brk is None:
            b, Tb = False, ()
        else:
            b = put(brk[0])
            Tb = tuple(put(brk[1][k]) if k in brk[1] else None for k, _, _, _ in seq)
        r = Rec(coll, e, g, tuple(news), tuple(i for _, _, i, _ in seq), T, b, Tb)
        kk_ = repr(r.k)
        if best is None or kk_ < best[0]:
            best = (kk_, r, [k for k, _, _, _ in seq])
    return best[1], best[2]


def after_first(t, init, coll, e, guard, done, allp):
    """value at the beginning of an iteration of a variable that every iteration
    sets to the same value (a flag telling the first iteration, for instance)"""
    if guard is not True or isinstance(init, Fam) or is_tok(init):
        return None
    t = under(t, done) if isinstance(done, Phi) else t
    if ph_deps(t, allp) or e in fe_of(t) or not (
            is_bool(t) and is_bool(init) or is_num(t) and is_num(init)
            and shape_of_num(t) == shape_of_num(init) == ()):
        return None
    i = sx_atom(atom('idx', e, int=True, interp=_idx))
    return ite(cmp_cond('>', i, S0), t, init)


def distinct(recs):
    out = []
    for r in recs:
        if r not in out:
            out.append(r)
    return tuple(out)


def make_records(coll, e, done, vals, atphs, brk, depth, want=None):
    """a record per loop carried value, with only the values it depends on.
    Values that are equal at the beginning of every iteration are identified first.
    With want=() the record of the exit condition alone."""
    atphs = dict(atphs)
    vals = list(vals)
    ends = dict((k, under(t, done) if isinstance(done, Phi) else t) for k, _, _, t in vals)
    groups = []
    for it in vals:
        if it[1] in atphs:
            continue
        for g in groups:
            if type(g[0][2]) is type(it[2]) and g[0][1].meta.get('shape') == it[1].meta.get('shape') \
                    and not isinstance(it[2], Fam) and same(g[0][2], it[2]):
                g.append(it)
                break
        else:
            groups.append([it])
    while True:
        mp = dict((it[1], g[0][1]) for g in groups for it in g[1:])
        new = []
        for g in groups:
            parts = []
            for it in g:
                t = subst_any(subst_any(ends[it[0]], atphs), mp)
                for q in parts:
                    if same(q[0], t):
                        q[1].append(it)
                        break
                else:
                    parts.append((t, [it]))
            new += [q[1] for q in parts]
        if len(new) == len(groups):
            break
        groups = new
    atphs.update(mp)
    for ph in list(atphs):
        atphs[ph] = subst_any(atphs[ph], mp) if ph not in mp else atphs[ph]
    owner = dict((it[1], it) for it in vals)
    allp = set(owner)

    def direct(v):
        return ph_deps(subst_any(v, atphs), allp)
    root = direct(done)
    if brk is not None:
        root |= direct(brk[0])
    need = dict((ph, direct(ends[k])) for k, ph, _, _ in vals)

    def build(start, Tb):
        keep, todo = set(), list(start | root)
        while todo:
            ph = todo.pop()
            if ph not in keep:
                keep.add(ph)
                todo += list(need[ph])
        return make_record(coll, e, done, [it for it in vals if it[1] in keep], atphs,
                           brk and (brk[0], Tb), depth)
    if want is not None:
        return build(set(), {})[0]
    out = {}
    for k, ph, _, _ in vals:
        first = owner[mp.get(ph, ph)]       # the value it is identified with
        start, Tb = set([first[1]]), {}
        if brk is not None:
            Tb[first[0]] = brk[1][k]
            start |= direct(brk[1][k])
        rec, order = build(start, Tb)
        out[k] = (rec, order.index(first[0]))
    return out


def rec_atom(kind, rec, i, init, *more):
    meta = dict(interp=_rec_interp)
    if isinstance(init, Fam):
        return atom(kind + 'f', rec, i, init.c, *more, interp=_rec_fam)
    if is_tok(init):
        return atom(kind, rec, i, *more, **meta)
    if is_bool(init):
        return cond(atom(kind, rec, i, *more, **meta))
    sh = shape_of_num(init)
    if sh == ():
        return sx_atom(atom(kind, rec, i, *more, **meta))
    full = sh if len(sh) == 2 else (sh[0], 1)
    return mx_of(atom(kind, rec, i, *more, shape=full, **meta), len(sh))


def rec_out(rec, i, init):
    return rec_atom('loopout', rec, i, init)


def rec_at(rec, i, init, e):
    return rec_atom('loopat', rec, i, init, e)


def _rec_interp(m, a):
    vals = a.args[0].run(m, a.args[2] if len(a.args) > 2 else None)
    v = vals[a.args[1]]
    if 'shape' in a.meta:
        return np.asarray(v, dtype=float).reshape([m.dim(d) for d in a.meta['shape']])
    return v


def _rec_fam(m, a):
    vals = a.args[0].run(m, a.args[3] if len(a.args) > 3 else None)
    return vals[a.args[1]][int(m.bindval(a.args[2]))]


class Fam(object):
    """a value for every element c of a collection (c bound)"""
    def __init__(self, c, v):
        self.c, self.v = c, v

    def samekey(self):
        return ('fam', self.c.id, skey(self.v))

    def __repr__(self):
        return '[%r for %r]' % (self.v, self.c)

    def fe(self):
        return set(fe_of(self.v)) - {self.c}

    def subst(self, f):
        return Fam(self.c, f(self.v))

    def model_value(self, m):
        old = m.bind.get(self.c)
        out = []
        for k in m.indices(self.c.args[0]):
            m.bind[self.c] = k
            out.append(m.value(self.v))
        restore(m, self.c, old)
        return out


def is_tok(v):
    """a version token of an abstract object, possibly gated"""
    if isinstance(v, Phi):
        return all(isinstance(l, Atom) for _, l in leaves(v))
    return isinstance(v, Atom)


def tok_ph(depth, i, k, v, active):
    a = atom('ph', depth, i, 'tok')
    free = [z for z in key_fe(k) if z not in active and z.kind == 'elem']
    if not free:
        return a, v, a
    if len(free) > 1:
        raise Unsupported('object family with two indices')
    c = free[0]
    return a, Fam(c, v), atom('phf', a, c, interp=_phf)


def _phf(m, a):
    return m.bindval(a.args[0])[int(m.bindval(a.args[1]))]


def record(I, st, fr, coll, e, guard, done, x, brk, keyset, phs, inits, T, end_value, rel,
           lists, elems, depth, base, entry_pc, other, temps, ev0, ld0):
    """loop with break: always kept as a record"""
    m = merge_states(brk)
    bc = rel(m.pc)
    Tb = {}
    use = []
    allp = set(phs.values())
    deps = set()
    for k in keyset:
        Tb[k] = end_value(m, k)
        if T[k] is not None:
            deps |= ph_deps(T[k], allp)
        if Tb[k] is not None:
            deps |= ph_deps(Tb[k], allp)
    deps |= ph_deps(bc, allp) | ph_deps(done, allp)
    evs = m.events[ev0:] if x is None else x.events[ev0:]
    for k in elems + lists:
        for s in [m] + ([x] if x is not None else []):
            if not same_val(s.get(k), base.get(k)):
                if k in lists:
                    I.unsupported('list built in a loop with break')
    poison = []
    vals = []
    for k in keyset:
        if T[k] is None:
            T[k] = Tb[k]
        if T[k] is None or Tb[k] is None:
            if phs[k] in deps:
                I.unsupported('loop carried object in a loop with break')
            poison.append(k)
            continue
        vals.append((k, phs[k], inits[k], T[k]))
    # element rooted keys written: carry them as families
    atphs = {}
    for k, ph, init, t in vals:
        # counters and other sums have a closed form at the beginning of an iteration
        r = linear_inc(t, ph, done)
        if r is not None and not ph_deps(r, allp):
            p = prefix_value(init, coll, e, guard, r)
        else:
            p = after_first(t, init, coll, e, guard, done, allp)
            if p is None:
                continue
        if not any(isinstance(l, Poison) for _, l in leaves(p)):
            atphs[ph] = p
    recs = make_records(coll, e, done, vals, atphs, (bc, Tb), depth)
    for k, (rec, i) in recs.items():
        v = rec_out(rec, i, inits[k])
        st.set(k, I.new_nd(st, v) if isinstance(base.get(k), Nd) else v)
    rec = make_records(coll, e, done, vals, atphs, (bc, Tb), depth, ())
    for k in poison + other + temps:
        if k[0] in ('L',) or k in poison or k in other:
            st.set(k, Poison('variable of the last iteration'))
    for k in elems:
        I.unsupported('per-element update in a loop with break')
    st.loops = base.loops + distinct([rec] + [r for r, _ in recs.values()])
    src = x if x is not None else m
    st.asserts, st.hazards = src.asserts, src.hazards
    sub = tuple(src.events[ev0:])
    if sub:
        st.events = base.events + (Event('each', rec, (e,), rel(entry_pc), None, sub),)
    st.pc = entry_pc
