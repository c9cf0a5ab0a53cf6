"""Views: position independence, lifetimes and reference accounting, under generated histories."""
import ctypes
import gc
import os
import sys

import pointless

import capi
import pv
import plfmt
from checks import C02
from harness import Fail, expect, short, divided

RULE = 'a history that read at least two views, iterators or buffers after the object or source they came from was released, changed or replaced; distinct by image and history'
LEVEL = 'exploration'
CONF = {'budget': 26}
ASSUMPTIONS = ['files that are mapped are replaced or deleted, never truncated or rewritten in place']

read_all = capi.fn('vp_read_all', ctypes.c_int, ctypes.c_void_p, ctypes.POINTER(ctypes.c_uint64))

OTHER = bytes(pointless.serialize_to_bytearray({'other': [9, 8, 7, 'x' * 50], 'z': list(range(300))}))


def put(fn, img):
    """a file is replaced, never changed in place"""
    with open(fn + '.new', 'wb') as f:
        f.write(img)
    os.rename(fn + '.new', fn)


class Live:
    """A live object and what it has to read as. views: the view objects it keeps alive, by their address"""
    __slots__ = ('o', 'kind', 'exp', 'pos', 'held', 'm', 'deps')

    def __init__(self, o, kind, exp, held, m=None):
        self.o, self.kind, self.exp, self.pos, self.held, self.m = o, kind, exp, 0, held, m
        self.deps = 0


def vkind(x):
    t = type(x)
    return 'vector' if t is pv.PV else 'map' if t is pv.PM else 'set' if t is pv.PS else 'bitvector' if t is pv.PB else None


class Base:
    def __init__(self, d, c, img, m):
        self.src, self.img, self.m = d.int(3), img, m
        self.buf = self.fn = None
        if self.src == 0:
            self.fn = os.path.join(c.scratch, 'b%d.map' % d.int(3))
            put(self.fn, img)
            a = self.fn
        elif self.src == 1:
            self.buf = a = bytearray(img)
        else:
            self.buf = a = pointless.PointlessPrimVector('u8', sequence=list(img))
        self.p = pointless.Pointless(a)
        self.changed = False
        if self.src == 0:
            st = os.stat(self.fn)
            expect(self.p.GetINode() == st.st_ino, 'GetINode')
            expect(os.fstat(self.p.GetFileNo()).st_ino == st.st_ino, 'GetFileNo')

    def disturb(self, d):
        """changes or removes what the image came from"""
        self.changed = True
        k = d.int(3)
        if self.src == 0:
            if k == 0 and os.path.exists(self.fn):
                os.unlink(self.fn)
            elif k == 1:
                put(self.fn, OTHER)
            else:
                pointless.serialize([1, 2, 'new'], self.fn)
        elif self.buf is not None:
            if k == 0:
                self.buf = None
            elif k == 1:
                for i in range(0, len(self.buf), 1):
                    self.buf[i] = 0xa5
            elif self.src == 1:
                del self.buf[:]
            else:
                self.buf.clear()


def setup(c):
    gc.disable()
    gc.collect()
    gc.freeze()


def prop(d, c):
    live0 = capi.mem_live()
    fds0 = len(os.listdir('/proc/self/fd'))
    if d.int(4) == 3:
        nodes = C02.graph(d, 6)
        m = None
        img = bytes(pointless.serialize_to_bytearray(pv.real(list(nodes))))
        del nodes
        gc.collect()
        live0 = capi.mem_live()
    else:
        g = pv.G(nodes=d.choice([6, 20, 60]), depth=5)
        m = pv.g_value(d, g)
        if not pv.has_container(m):
            m = [m, (1, 2), {3: [4]}]
        img = bytes(pointless.serialize_to_bytearray(pv.real(m)))
    history(d, c, img, m)
    expect(capi.mem_live() == live0, 'allocations left after everything was released', lambda: '%d, %d before' % (capi.mem_live(), live0))
    n = len(os.listdir('/proc/self/fd'))
    expect(n == fds0, 'file descriptors left after everything was released', lambda: '%d, %d before' % (n, fds0))


def expected(x):
    """deep content of a view read right away, None for cyclic images"""
    return pv.canon_open(x)


def history(d, c, img, m):
    b = Base(d, c, img, m)
    acyclic = m is not None
    bag = []
    trace = []
    late = 0
    root = b.p.GetRoot()
    if acyclic:
        expect(pv.canon_open(root) == pv.canon_model(m), 'root differs', lambda: pv.diff(pv.canon_model(m), pv.canon_open(root)))
    text0 = str(root) if not acyclic else None
    if vkind(root) is None:
        return
    bag.append(Live(root, 'view', pv.canon_open(root) if acyclic else None, [root_token(root)]))
    del root
    steps = 3 + d.int(25)
    for _ in range(steps):
        k = d.int(14)
        if not bag and b.p is not None:
            r = b.p.GetRoot()
            bag.append(Live(r, 'view', pv.canon_open(r) if acyclic else None, [root_token(r)]))
            del r
        if not bag:
            break
        i = d.int(len(bag))
        e = bag[i]
        if k < 5 and e.kind == 'view':
            n = derive(d, e, acyclic)
            if n is not None:
                bag.append(n)
                trace.append('%s of %d' % (n.kind, i))
        elif k < 7 and e.kind == 'iter':
            late += b.p is None or b.changed
            advance(d, e, bag, acyclic)
            trace.append('next %d' % i)
        elif k < 9:
            trace.append('drop %d' % i)
            bag.pop(i)
        elif k == 9:
            b.disturb(d)
            trace.append('disturb source %d' % b.src)
        elif k == 10 and d.int(3) == 0 and b.p is not None:
            b.p = None
            trace.append('drop base')
        elif k == 11 and b.p is not None:
            # a second use of the same object is refused while anything is alive
            if any(x.held for x in bag):
                ex = None
                try:
                    b.p.__init__(bytearray(OTHER))
                except ValueError as e2:
                    ex = e2.args
                expect(ex is not None, 'an image in use was reopened')
                trace.append('reopen')
        elif k == 12 and e.kind == 'view':
            if reinit(d, e, bag):
                trace.append('initialize %d again' % i)
        else:
            late += b.p is None or b.changed
            trace.append('read %d' % i)
            reread(e, acyclic)
        e = n = None
        refs(b, bag, trace)
    for e in bag:
        late += b.p is None or b.changed
        reread(e, acyclic)
    if text0 is not None:
        for e in bag:
            if e.kind == 'view' and e.deps == 1:
                expect(str(e.o) == text0, 'root text changed', lambda: str(e.o))
    e = None
    order = d.shuffle(range(len(bag)))
    for i in order:
        bag[i] = None
        refs(b, [x for x in bag if x is not None], trace)
    if b.p is not None:
        expect(sys.getrefcount(b.p) == 2, 'references to the base left', lambda: sys.getrefcount(b.p))
        # nothing is alive: the same object may be used for another image
        if d.int(2):
            b.p.__init__(bytearray(OTHER))
            expect(pv.canon_open(b.p.GetRoot())[1] == 2, 'reopened image')
    c.note('trace', trace)
    if late > 1:
        c.nontrivial(bytes(img) + ' '.join(trace).encode(), lambda: 'history: ' + ', '.join(trace))


def reinit(d, e, bag):
    """a view is not something to initialize, but a bit vector becomes one of its own"""
    x = e.o
    if type(x) is not pv.PB:
        try:
            x.__init__()
        except TypeError:
            pass
        return False
    token = root_token(x)
    bag[:] = [y for y in bag if y is e or token not in y.held]
    bits = [d.int(2) for _ in range(d.int(12))]
    k = d.int(4)
    try:
        if k == 0:
            x.__init__(len(bits))
            bits = [0] * len(bits)
        elif k == 1:
            x.__init__(sequence=[bool(b) for b in bits])
        elif k == 2:
            bits = []
            x.__init__(sequence=[True, 2])
            raise Fail('a bad bit vector was accepted', '')
        else:
            bits = []
            x.__init__(-1)
            raise Fail('a bad bit vector was accepted', '')
    except ValueError:
        expect(k >= 2, 'initializing again failed')
    e.kind, e.held, e.exp = 'copy', [], pv.canon_open(x)
    expect([int(b) for b in x] == bits, 'an initialized bit vector')
    return True


def root_token(o):
    return (vkind(o), id(o))


def derive(d, e, acyclic):
    """an object obtained from a view"""
    x = e.o
    t = type(x)
    k = d.int(4)
    if t is pv.PB:
        if k == 0:
            n = Live(iter(x), 'iter', [('t', bool(v)) for v in e.exp[1]] if acyclic else None, list(e.held))
            return n
        y = x.copy()
        return Live(y, 'copy', e.exp, [])
    if t is pv.PV:
        n = len(x)
        if k == 0 and n:
            i = d.int(n)
            y = x[i] if d.bool() else x[i - n]
            return Live(y, 'view', e.exp[1 + i] if acyclic else None, [root_token(y)]) if vkind(y) else None
        if k == 1:
            i, j = d.int(n + 1), d.int(n + 1)
            y = x[i:j]
            return Live(y, 'view', ('v',) + e.exp[1:][i:j] if acyclic else None, [root_token(y)])
        if k == 2:
            try:
                y = memoryview(x)
            except BufferError:
                return None
            return Live(y, 'buffer', bytes(y), list(e.held))
        rev = d.bool()
        y = reversed(x) if rev else iter(x)
        exp = None
        if acyclic:
            exp = list(e.exp[1:])
            if rev:
                exp.reverse()
        return Live(y, 'iter', exp, list(e.held))
    # maps and sets: the order is that of a fresh iteration
    if t is pv.PS:
        return Live(iter(x), 'iter', [pv.canon_open(v) for v in x] if acyclic else None, list(e.held))
    if k == 0 and len(x):
        vs = list(x.values())
        y = vs[d.int(len(vs))]
        return Live(y, 'view', pv.canon_open(y) if acyclic else None, [root_token(y)]) if vkind(y) else None
    if k == 1:
        return Live(x.items(), 'iter', [(pv.canon_open(a), pv.canon_open(b)) for a, b in x.items()] if acyclic else None, list(e.held))
    if k == 2:
        return Live(x.values(), 'iter', [pv.canon_open(v) for v in x.values()] if acyclic else None, list(e.held))
    return Live(iter(x) if d.bool() else x.keys(), 'iter', [pv.canon_open(v) for v in x.keys()] if acyclic else None, list(e.held))


def advance(d, e, bag, acyclic):
    for _ in range(1 + d.int(3)):
        try:
            v = next(e.o)
        except StopIteration:
            if acyclic:
                expect(e.pos == len(e.exp), 'iterator ended early', lambda: '%d of %d' % (e.pos, len(e.exp)))
            e.held = []
            e.kind = 'ended'
            return
        if acyclic:
            expect(e.pos < len(e.exp), 'iterator went on', lambda: short(v))
            got = tuple(map(pv.canon_open, v)) if type(v) is tuple else pv.canon_open(v)
            expect(got == e.exp[e.pos], 'iterator gave another item', lambda: 'got %s, expected %s' % (short(got), short(e.exp[e.pos])))
            e.pos += 1
        for y in (v if type(v) is tuple else (v,)):
            if vkind(y) and d.int(2):
                bag.append(Live(y, 'view', pv.canon_open(y) if acyclic else None, [root_token(y)]))


def reread(e, acyclic):
    if e.kind in ('view', 'copy'):
        if acyclic:
            got = pv.canon_open(e.o)
            expect(got == e.exp, 'a view changed', lambda: pv.diff(e.exp, got))
        else:
            repr(e.o)
            if type(e.o) is not pv.PB:
                len(e.o), list(e.o)
    elif e.kind == 'buffer':
        expect(bytes(e.o) == e.exp, 'an exported buffer changed')
    elif e.kind == 'ended':
        expect(next(e.o, None) is None, 'iterator restarted')


def refs(b, bag, trace):
    if b.p is None:
        return
    r = b.p.GetRefs()
    held = set()
    for e in bag:
        held.update(e.held)
    exp = {'n_root_refs': 0}
    for k in ('vector', 'bitvector', 'map', 'set'):
        exp['n_%s_refs' % k] = sum(1 for x in held if x[0] == k)
    expect(r == exp, 'GetRefs', lambda: 'got %r, expected %r after %s' % (r, exp, trace))
    expect(sys.getrefcount(b.p) == 2 + len(held), 'references to the base object', lambda: '%d, expected %d after %s' % (sys.getrefcount(b.p), 2 + len(held), trace))


@divided
def example_positions(c):
    """the same image, read in full through the C interface from several places and from files"""
    from harness import Draw
    for seed in range(30):
        d = Draw(seed=c.seed * 1000 + c.part * 100 + seed)
        m = pv.g_value(d, pv.G(nodes=80, depth=5))
        img = bytes(pointless.serialize_to_bytearray(pv.real(m)))
        digests = set()
        for off in (0, 1, 3, 4, 8, 4096):
            raw = ctypes.create_string_buffer(off + len(img) + 64)
            base = (ctypes.addressof(raw) + 15) & ~15
            at = base + (off if off in (0, 4, 8) else 0)
            if at + len(img) > ctypes.addressof(raw) + len(raw):
                continue
            ctypes.memmove(at, img, len(img))
            p = ctypes.create_string_buffer(capi.SIZES['pointless'])
            err = ctypes.c_char_p()
            expect(capi.open_b(p, at, len(img), ctypes.byref(err)), 'open in place failed', err.value)
            # the caller's bytes may be reused at once
            ctypes.memset(at, 0xa5, len(img))
            h = ctypes.c_uint64()
            bad = read_all(p, ctypes.byref(h))
            expect(bad == 0, 'reading', bad)
            digests.add(h.value)
            capi.close(p)
        fn = os.path.join(c.scratch, 'pos.map')
        for k in range(2):
            put(fn, img)
            with capi.Image(fname=fn) as im:
                os.unlink(fn)
                h = ctypes.c_uint64()
                expect(read_all(im.p, ctypes.byref(h)) == 0, 'reading a file')
                digests.add(h.value)
        expect(len(digests) == 1, 'an image depends on its position')
        c.evals += 1


def example_released(c):
    """the last view keeps the file mapped"""
    fn = os.path.join(c.scratch, 'r.map')
    m = {'a': [1, 2, [3, 'xyz']], 'b': pv.Bits([1, 0, 1] * 20), 'c': {1, 2, 3}}
    pointless.serialize(pv.real(m), fn)

    def mapped():
        with open('/proc/self/maps') as f:
            return 'r.map' in f.read()
    p = pointless.Pointless(fn)
    it = iter(p.GetRoot()['a'][2])
    del p
    pointless.serialize(['other'], fn)
    expect(mapped(), 'the file is not mapped any more')
    expect(list(it) == [3, 'xyz'], 'iterator of a released image')
    expect(not mapped(), 'the file is still mapped')
