"""Remote viewers.  The observers which talk to a viewer (through a socket: SocketCom, DaenimCom;
through a web socket: pydaenimCom) are analysed on a small world which moves in arbitrary ways, with the
connections replaced by recording stand-ins: the text sent at each update is read back and must
give every moving thing, under the name its node has, the twelve numbers of its transform at this update."""
from obl.small import *
import lib

VC = 'arboris.visu.visu_collada'
PD = 'arboris.visu'

EXTRA = '''
from library import Object
import arboris.visu.visu_collada
import arboris.visu
from arboris.observers import SocketCom
from arboris.joints import FixedJoint

class Wire(Object):
    def __init__(self):
        self.sent = []
        self.broken = False
        self.closed = False
    def send(self, data):
        if self.broken:
            raise OSError()
        self.sent.append(data)
        return 0
    def sendall(self, data):
        if self.broken:
            raise OSError()
        self.sent.append(data)
    def send_message(self, data):
        if self.broken:
            raise OSError()
        self.sent.append(data)
    def shutdown(self, how):
        pass
    def close(self):
        self.closed = True

class Server(Object):
    def __init__(self, busy, answers):
        self.busy, self.answers = busy, answers
        self.address, self.asked, self.listening, self.closed = None, [], False, False
        self.timeout = None
        self.wire = Wire()
    def setsockopt(self, *args):
        pass
    def settimeout(self, t):
        self.timeout = t
    def bind(self, address):
        self.asked.append(address)
        for p in self.busy:
            if p == address[1]:
                raise OSError()
        self.address = address
    def listen(self, n=1):
        self.listening = self.address is not None
    def accept(self):
        if not self.listening or not self.answers:
            raise OSError()
        return self.wire, ('there', 1)
    def close(self):
        self.closed = True

class Web(Wire):
    def __init__(self, host, port, timeout):
        Wire.__init__(self)
        self.host, self.port, self.listening = host, port, False
    def listen(self):
        self.listening = True

class Later(Object):
    def __init__(self, delay, f, args=(), kwargs=None):
        self.f, self.args, self.kwargs, self.started = f, args, kwargs, False
    def start(self):
        self.started = True

def frozen(x):
    if isinstance(x, dict):
        d = {}
        for k in x:
            d[k] = frozen(x[k])
        return d
    if isinstance(x, (list, tuple)):
        return [frozen(y) for y in x]
    return x

def unnamed():
    return 'nothing'
'''


class Garbled(Exception):
    pass


def pieces(v):
    """the pieces of a text of the analysis, decoded"""
    if isinstance(v, bytes):
        return [v.decode()]
    if isinstance(v, str):
        return [v]
    if isinstance(v, StrV):
        if v.key.kind == 'strcat':
            return [y for x in v.key.args[0] for y in pieces(x)]
        if v.key.kind == 'bytes':
            return pieces(v.key.args[0])
        if v.key.kind == 'str' and isinstance(v.key.args[0], Sx):
            return [v.key.args[0]]
        if v.key.kind in ('id', 'hex', 'hash'):     # a word
            return [v]
    raise Unsupported('a text which is not read: %.80r' % (v,))


def number(y):
    try:
        return num(Fraction(y))
    except (TypeError, ValueError):
        raise Unsupported('a word in the place of a number')


def lines(texts, cat):
    """lists of words: texts or numbers"""
    out, line, word = [], [], []
    def flush():
        if word:
            if len(word) > 1 and any(isinstance(x, Sx) for x in word):
                raise Garbled('two words are not separated')
            line.append(word[0] if isinstance(word[0], Sx) else cat(word))
            del word[:]
    for t in texts:
        for p in pieces(t):
            if isinstance(p, (Sx, StrV)):
                word.append(p)
                continue
            for c in p:
                if c in ' \t':
                    flush()
                elif c in '\n\r':
                    flush()
                    if line:
                        out.append(list(line))
                    del line[:]
                else:
                    word.append(c)
    flush()
    if line:
        raise Garbled('the last line is not ended')
    return out


class Watched(Small):
    def __init__(self, ctx, busy=(), answers=True):
        self.servers, self.webs, self.launched, self.timers, self.texts = [], [], [], [], {}
        self.busy, self.answers, self.found = busy, answers, True
        Small.__init__(self, ctx, extra=EXTRA)
        r = self.r
        self.F = r.new(self.member('FixedJoint'), name='weld')
        self.C = r.new('Body', 'C', r.nd(self.mass('C')))
        r.method(self.w, 'add_link', self.B, self.F, self.C)
        r.method(self.w, 'init')
        self.state()

    def new_server(self, L, st, a, kw):
        list(a), dict(kw)
        x = L.I.call(st, self.member('Server'), [L.I.new_list(st, list(self.busy)), self.answers], {})
        self.servers.append(x)
        return x

    def new_web(self, L, st, a, kw):
        x = L.I.call(st, self.member('Web'), list(a), kw)
        self.webs.append(x)
        return x

    def popen(self, L, st, a, kw):
        list(a), list(kw)
        self.launched.append(L.I.items_concrete(st, a[0]))
        if not self.found:
            raise PyErr('FileNotFoundError')
        return 'process'

    def timer(self, L, st, a, kw):
        x = L.I.call(st, self.member('Later'), list(a), kw)
        self.timers.append(x)
        return x

    def dumps(self, L, st, a, kw):
        list(kw)
        t = '{text %d}' % len(self.texts)
        self.texts[t] = L.I.call(st, self.member('frozen'), [a[0]], {})
        return t

    def stands_in(self):
        return {'socket.socket': self.new_server, 'pydaenim.pydaenimWebSocket': self.new_web,
                'pydaenim.create_pydaenimViewer': lambda L, st, a, kw: list(a) and None,
                'subprocess.Popen': self.popen, 'threading.Timer': self.timer, 'json.dumps': self.dumps,
                'time.sleep': lambda L, st, a, kw: list(a) and None,
                'tempfile.mkstemp': lambda L, st, a, kw: (list(a), list(kw)) and (3, 'a-scene.dae'),
                'shlex.split': lambda L, st, a, kw: L.I.new_list(st, a[0].split())}

    def where(self, flat):
        """name -> the transform its node must be given"""
        r = self.r
        val = lambda o, k: r.content(r.get(o, k))
        out = {}
        if flat:
            for b in (self.A, self.B, self.C):
                out[r.get(b, 'name')] = val(b, 'pose')
        else:
            for j in (self.J, self.N, self.F):
                out[r.get(r.get(j, 'frame1'), 'name')] = val(j, 'pose')
        out[r.get(self.m, 'name')] = val(self.m, 'pose' if flat else 'bpose')
        return out

    def told(self, o, what, got, want):
        """got: name -> list of numbers"""
        r = self.r
        g = r.get(r.get(self.w, 'ground'), 'name')
        for n in sorted(set(want) - set(got), key=str):
            o.violation('%s: nothing is sent for %s' % (what, n))
        for n in sorted(set(got) - set(want) - {g}, key=str):
            o.violation('%s: something is sent for %s, which is not a moving thing' % (what, n))
        for n in sorted(got, key=str):
            x = [r.content(y) for y in got[n]]
            o.require(len(x) == 12, '%s: %d numbers for %s, not 12' % (what, len(x), n))
            if len(x) == 12 and n in want or n == g:
                H = cells(want[n]) if n in want else None
                for k in range(12):
                    o.eq(x[k], H.c[k // 4, k % 4] if H is not None else num(int(k % 5 == 0)),
                         what='%s: number %d of %s' % (what, k, n))


class stand_in(object):
    def __init__(self, W):
        self.new = W.stands_in()

    def __enter__(self):
        self.kept = {k: lib.EXTRA.get(k) for k in self.new}
        lib.EXTRA.update(self.new)

    def __exit__(self, *a):
        for k, v in self.kept.items():
            if v is None:
                del lib.EXTRA[k]
            else:
                lib.EXTRA[k] = v


def connection(ctx):
    for what, busy, answers, broken in (('the port is free', (), True, False), ('ports are taken', (5000, 5001), True, False),
                                        ('nobody connects', (), False, False), ('the viewer is closed', (), True, True)):
        with ctx.ob('connection', lambda: ctx.at_cls('SocketCom', 'finish'), what) as o:
            W = Watched(ctx, busy, answers)
            r = W.r
            with stand_in(W):
                x = r.new(W.member('SocketCom'), '127.0.0.1', 5000, 3)
                o.no_raise(r)
                o.require(len(W.servers) == 1, '%d sockets' % len(W.servers))
                s = W.servers[0]
                port = 5000 + len(busy)
                a = r.get(s, 'address')
                o.require(a is not None and tuple(r.items(a)) == ('127.0.0.1', port),
                          'bound to %r, required port %d' % (a, port))
                o.eq(r.get(x, 'port'), port, what='port')
                o.eq(r.get(x, 'host'), '127.0.0.1', what='host')
                o.eq(r.get(s, 'timeout'), 3, what='time-out')
                r.method(x, 'init', W.w, r.list([sym('t0'), sym('t1')]))
                o.no_raise(r)
                o.require(r.get(s, 'listening') is True, 'the socket does not listen')
                wire = r.get(s, 'wire')
                if answers:
                    o.require(r.get(x, 'conn') is wire, 'the connection is not the one which was accepted')
                r.set(wire, 'broken', broken)
                r.method(x, 'finish')
                o.no_raise(r)
                sent = r.items(r.get(wire, 'sent'))
                if answers and not broken:
                    o.require(sent == [b'close_connection'], 'sent at the end: %r' % (sent,))
                if not broken:
                    o.require(r.get(s, 'closed') is True, 'the socket is left open')


def messages(ctx, flat):
    word = 'flat' if flat else 'tree'
    with ctx.ob('every-moving-thing-is-placed', lambda: ctx.at_cls('DaenimCom', 'update'), 'daenim, ' + word) as o:
        W = Watched(ctx, (5000,))
        r = W.r
        with stand_in(W):
            cls = r.I.mod_member(r.st, VC, 'DaenimCom')
            for n in (W.B, W.m) if flat else (r.get(W.J, 'frame1'), r.get(W.N, 'frame1'), W.m):
                r.set(n, 'name', None)
            x = r.new(cls, 'scene.dae', 'daenim', flat=flat, options='-a b')
            o.no_raise(r)
            r.method(x, 'init', W.w, r.list([sym('t%d' % k) for k in range(4)]))
            o.no_raise(r)
            o.require(W.launched == [['daenim', 'scene.dae', '-socket', '127.0.0.1', '5001', '-a', 'b']],
                      'the viewer is launched as %r' % (W.launched,))
            wire = r.get(W.servers[0], 'wire')
            seen = 0
            names = W.where(flat)
            o.require(len(names) == 4 and None not in names, 'things are sent under the names %s' % sorted(names, key=str))
            for k in range(3):
                W.state()
                if k == 2:
                    r.set(W.m, 'name', 'slider')
                before = W.snapshot() if k == 0 else None
                r.method(x, 'update', sym('dt', pos=True))
                o.no_raise(r)
                sent = r.items(r.get(wire, 'sent'))
                new, seen = sent[seen:], len(sent)
                o.require(all(lib.is_bytes(t) for t in new), 'texts are sent where a socket takes bytes')
                try:
                    got = lines(new, r.I.lib.str_cat)
                except Garbled as e:
                    o.violation('update %d: %s' % (k, e))
                    return
                d = {}
                for l in got:
                    if isinstance(l[0], Sx):
                        o.violation('update %d: a line does not begin with a name' % k)
                        return
                    o.require(l[0] not in d, 'update %d: %s is sent twice' % (k, l[0]))
                    d[l[0]] = [y if isinstance(y, Sx) else number(y) for y in l[1:]]
                W.told(o, 'update %d' % k, d, W.where(flat))
                if before:
                    W.undisturbed(o, before, 'the update')
            r.set(wire, 'broken', True)
            r.method(x, 'update', sym('dt', pos=True))
            o.no_raise(r)
            r.method(x, 'finish')
            o.no_raise(r)


def absent(ctx):
    with ctx.ob('a-viewer-which-is-absent-stops-nothing', lambda: ctx.at_cls('DaenimCom', 'init'), 'daenim') as o:
        for found in (False, True):
            W = Watched(ctx, (), False)
            W.found = found
            r = W.r
            with stand_in(W):
                x = r.new(r.I.mod_member(r.st, VC, 'DaenimCom'), 'scene.dae', 'daenim')
                r.method(x, 'init', W.w, r.list([sym('t0'), sym('t1')]))
                o.no_raise(r)
                W.state()
                r.method(x, 'update', sym('dt', pos=True))
                o.no_raise(r)
                r.method(x, 'finish')
                o.no_raise(r)


def scene(ctx):
    """without a scene, one is drawn as the transforms are sent"""
    for flat in (False, True):
        with ctx.ob('the-scene-is-drawn-as-it-moves', lambda: ctx.at_cls('DaenimCom', 'init'), 'flat' if flat else 'tree') as o:
            W = Watched(ctx)
            r = W.r
            drawn = []

            def write(I, st, args, kw):
                drawn.append((args, kw))
            r.I.contracts[VC + '.write_collada_scene'] = write
            with stand_in(W):
                x = r.new(r.I.mod_member(r.st, VC, 'DaenimCom'), daenim_path='daenim', flat=flat)
                r.method(x, 'init', W.w, r.list([sym('t0'), sym('t1')]))
                o.no_raise(r)
                o.require(len(drawn) == 1 and len(W.launched) == 1, '%d scenes are drawn, %d viewers launched' % (len(drawn), len(W.launched)))
                args, kw = drawn[0]
                d = r.I.bind(r.st, r.fn(VC, 'write_collada_scene'), list(args), dict(kw))
                o.require(d['world'] is W.w, 'another world is drawn')
                o.eq(d['flat'], flat, what='flat')
                o.require(d['dae_filename'] == W.launched[0][1] and d['dae_filename'] == 'a-scene.dae',
                          'the scene is in %s, the viewer opens %s' % (d['dae_filename'], W.launched[0][1]))


def web(ctx, flat):
    word = 'flat' if flat else 'tree'
    with ctx.ob('every-moving-thing-is-placed', lambda: ctx.at_cls('pydaenimCom', 'update'), 'pydaenim, ' + word) as o:
        W = Watched(ctx)
        r = W.r
        with stand_in(W):
            r.set(r.get(W.J, 'frame1'), 'name', 'root')
            x = r.new(r.I.mod_member(r.st, PD, 'pydaenimCom'), 'scene.dae', port=5003, flat=flat)
            o.no_raise(r)
            o.require(len(W.webs) == 1 and r.get(W.webs[0], 'listening') is True, 'the web socket does not listen')
            wire = W.webs[0]
            o.eq(r.get(wire, 'port'), 5003, what='port')
            r.method(x, 'init', W.w, r.list([sym('t%d' % k) for k in range(4)]))
            o.no_raise(r)
            seen = 0
            for k in range(3):
                W.state()
                if k == 2:
                    r.set(W.m, 'name', 'slider')
                before = W.snapshot() if k == 0 else None
                r.method(x, 'update', sym('dt', pos=True))
                o.no_raise(r)
                sent = r.items(r.get(wire, 'sent'))
                new, seen = sent[seen:], len(sent)
                o.require(len(new) == 1, 'update %d: %d messages' % (k, len(new)))
                if len(new) != 1:
                    return
                if new[0] not in W.texts:
                    raise Unsupported('a message which json.dumps did not write')
                m = r.items(W.texts[new[0]])
                o.require(len(m) == 3 and m[0] == 'update_transforms', 'update %d: the message is not an update of transforms' % k)
                o.eq(m[1], r.get(W.w, 'current_time'), what='update %d: time' % k)
                d = {n: r.items(r.item(m[2], n)) for n in r.items(m[2])}
                W.told(o, 'update %d' % k, d, W.where(flat))
                if before:
                    W.undisturbed(o, before, 'the update')
            r.set(wire, 'broken', True)
            r.method(x, 'update', sym('dt', pos=True))
            o.no_raise(r)
            r.method(x, 'finish')
            o.no_raise(r)


def run(ctx):
    with cut_at(12):
        connection(ctx)
        for flat in (False, True):
            messages(ctx, flat)
            web(ctx, flat)
        absent(ctx)
        scene(ctx)
