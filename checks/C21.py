"""str and repr of views, typed vectors and bit vectors against a reference formatter."""
import ctypes as C
import functools
import resource
import struct

import pointless

import capi
import plfmt
import pv
from checks.C02 import graph
from harness import Discard, Fail, expect, short
from plfmt import BITTYPES, BOOL, EMPTY, EMPTYV, FLOAT, FLOATV, HASHABLE, I32, MAP, NULL, SET, STRING, U32, UNICODE, VALUE, VEC_FMT

RULE = 'text of a container with at least three nested containers or a cycle; distinct by text'
LEVEL = 'exploration'
CONF = {'budget': 25}
ASSUMPTIONS = ['sets and maps are shown in the order of their tables, and vectors inside set items and map keys as tuples, as the code documents by its tests', 'the C debugging printer writes vectors of floats without decimals']

LIMIT = 200000
TYPES = {pv.PV: 'PyPointlessVector', pv.PM: 'PyPointlessMap', pv.PS: 'PyPointlessSet', pv.PB: 'PyPointlessBitvector', pv.PP: 'PyPointlessPrimVector'}
libc = C.CDLL(None)
libc.open_memstream.restype = C.c_void_p
libc.open_memstream.argtypes = [C.c_void_p, C.c_void_p]
libc.fclose.argtypes = [C.c_void_p]
libc.free.argtypes = [C.c_void_p]
debug_print = capi.fn('pointless_debug_print', C.c_int, capi.VP, C.c_void_p, capi.ERR)
debug_value = capi.fn('pointless_debug_print_value', C.c_int, capi.VP, capi.PV, C.c_void_p, capi.ERR)

cmp_reader = capi.fn('pointless_cmp_reader', C.c_int32, capi.VP, C.POINTER(capi.CValue), capi.VP, C.POINTER(capi.CValue), capi.ERR)


class TooLong(Exception):
    pass


class Text:
    def __init__(self, dec):
        self.dec = dec
        self.out = []
        self.n = 0
        self.containers = self.cycles = 0

    def put(self, s):
        self.out.append(s)
        self.n += len(s)
        if self.n > LIMIT:
            raise TooLong

    def item(self, v, stack, tup):
        t, x = v
        dec = self.dec
        if t == NULL:
            self.put('None')
        elif t == BOOL:
            self.put('True' if x else 'False')
        elif t == I32:
            self.put(str(x - 2**32 if x >= 2**31 else x))
        elif t == U32:
            self.put(str(x))
        elif t == FLOAT:
            self.put('%f' % struct.unpack('<f', struct.pack('<I', x))[0])
        elif t in (STRING, UNICODE):
            self.put(repr(''.join(map(chr, dec.text(t, x)))))
        elif t in BITTYPES:
            self.put(''.join(map(str, reversed(dec.bits(t, x)))) + 'b')
        elif t == EMPTYV:
            self.put('()' if tup else '[]')
        elif t in VEC_FMT:
            xs = dec.vec_items(t, x)
            self.seq(['%f' % y if t == FLOATV else str(y) for y in xs], tup)
        elif t in (VALUE, HASHABLE):
            self.vector(v, stack, tup, None)
        elif t == SET:
            k = ('set', x)
            if k in stack:
                self.cycles += 1
                return self.put('set([...])')
            self.containers += 1
            n, hv, kv = dec.set_parts(x)
            self.put('set([')
            for i, y in enumerate([y for y in dec.vec_items(*kv) if y[0] != EMPTY]):
                if i:
                    self.put(', ')
                self.item(y, stack | {k}, True)
            self.put('])')
        elif t == MAP:
            k = ('map', x)
            if k in stack:
                self.cycles += 1
                return self.put('{...}')
            self.containers += 1
            n, hv, kv, vv = dec.map_parts(x)
            self.put('{')
            first = True
            for a, b in zip(dec.vec_items(*kv), dec.vec_items(*vv)):
                if a[0] == EMPTY:
                    continue
                if not first:
                    self.put(', ')
                first = False
                self.item(a, stack | {k}, True)
                self.put(': ')
                self.item(b, stack | {k}, False)
            self.put('}')
        else:
            raise Discard

    def seq(self, ss, tup):
        if tup:
            self.put('(' + ', '.join(ss) + (',)' if len(ss) == 1 else ')'))
        else:
            self.put('[' + ', '.join(ss) + ']')

    def vector(self, v, stack, tup, sl):
        t, x = v
        k = ('v', x)
        if k in stack:
            self.cycles += 1
            return self.put('[...]')
        self.containers += 1
        xs = self.dec.vec_items(t, x)
        if sl is not None:
            xs = xs[sl]
        self.put('(' if tup else '[')
        for i, y in enumerate(xs):
            if i:
                self.put(', ')
            self.item(y, stack | {k}, tup)
        self.put((',)' if len(xs) == 1 else ')') if tup else ']')

    def of(self, v, sl=None):
        if sl is not None:
            t, x = v
            if t == EMPTYV:
                self.put('[]')
            elif t in VEC_FMT:
                self.seq(['%f' % y if t == FLOATV else str(y) for y in self.dec.vec_items(t, x)[sl]], False)
            else:
                self.vector(v, frozenset(), False, sl)
        else:
            self.item(v, frozenset(), False)
        return ''.join(self.out)


def text(dec, v, sl=None):
    x = Text(dec)
    return x.of(v, sl), x


def hidden(view):
    return ('<pointless.%s object at 0x' % TYPES[type(view)], '>')


def see(view, dec, v, sl, show, c):
    if not show:
        for s in (str(view), repr(view), '%s' % (view,), format(view)):
            a, b = hidden(view)
            expect(s.startswith(a) and s.endswith(b) and len(s) < len(a) + 20, 'text although printing is disabled', lambda: short(s))
        return
    e, x = text(dec, v, sl)
    for s in (str(view), repr(view)):
        if s != e:
            i = next((i for i, (p, q) in enumerate(zip(s, e)) if p != q), min(len(s), len(e)))
            raise Fail('text', 'at %d: %s, expected %s' % (i, short(s[max(i - 20, 0):], 300), short(e[max(i - 20, 0):], 300)))
    if x.containers > 3 or x.cycles:
        c.nontrivial(e, lambda: short(e, 200))


def walk(d, view, dec, v, show, c, seen, budget):
    """the text of every view below one, with slices"""
    t = type(view)
    if t not in TYPES or budget[0] <= 0:
        return
    budget[0] -= 1
    see(view, dec, v, None, show, c)
    if t is pv.PV:
        n = len(view)
        if d.int(3) == 0 and n:
            a, b = d.int(n + 1), d.int(n + 1)
            s = view[a:b]
            see(s, dec, v, slice(a, b), show, c)
            if b > a + 1:
                p, q = d.int(b - a), d.int(b - a + 1)
                see(s[p:q], dec, v, slice(a + p, a + max(p, q)), show, c)
        if v[0] not in (VALUE, HASHABLE) or v in seen:
            return
        seen.add(v)
        for x, y in zip(view, dec.vec_items(*v)):
            walk(d, x, dec, y, show, c, seen, budget)
    elif t is pv.PS:
        n, hv, kv = dec.set_parts(v[1])
        for x, y in zip(view, [y for y in dec.vec_items(*kv) if y[0] != EMPTY]):
            walk(d, x, dec, y, show, c, seen, budget)
    elif t is pv.PM:
        if v in seen:
            return
        seen.add(v)
        n, hv, kv, vv = dec.map_parts(v[1])
        for (x, z), (y, w) in zip(view.items(), [(a, b) for a, b in zip(dec.vec_items(*kv), dec.vec_items(*vv)) if a[0] != EMPTY]):
            walk(d, x, dec, y, show, c, seen, budget)
            walk(d, z, dec, w, show, c, seen, budget)


def evaluates(m):
    """the text of this value is an expression for it"""
    t = type(m)
    if t in (list, tuple):
        return all(map(evaluates, m))
    if t in (set, frozenset):
        return all(map(evaluates, m))
    if t is dict:
        return all(evaluates(k) and evaluates(x) for k, x in m.items())
    if t is pv.Prim:
        return m.t != 'f'
    return t in (int, str, bool, type(None), bytearray)


def prop(d, c):
    k = d.int(9)
    m = None
    show = d.int(8) > 0
    if k < 3:
        nodes = graph(d)
        img = bytes(pointless.serialize_to_bytearray(pv.real(nodes[0] if d.bool() else nodes)))
    elif k == 3:
        # anything deep
        m = pv.g_value(d, pv.G(nodes=30))
        for _ in range(d.int(100)):
            m = [m] if d.int(3) else {1: m} if d.bool() else (m, 2)
        img = None
    elif k == 4:
        # memory objects
        return objects(d, c)
    elif k == 5:
        # tuples in keys
        x = pv.g_key(d, pv.G())
        for _ in range(d.int(5)):
            x = (x,) if d.bool() else (x, pv.g_key(d, pv.G(nodes=3)))
        m = {x: [x, (x,)], 'b': {x}, (): ()} if not hasnan(x) else [x]
        img = None
    else:
        m = pv.g_value(d, pv.G(nodes=d.choice([4, 20, 60])))
        img = None
    if img is None:
        if d.bool():
            B, ref = plfmt.build_model(m, d)
            img = bytes(B.image(ref))
        else:
            img = bytes(pointless.serialize_to_bytearray(pv.real(m)))
    c.note('image', lambda: short(m, 400) if m is not None else short(img, 200))
    dec = plfmt.Decoder(img)
    view = pointless.Pointless(bytearray(img), allow_print=show).GetRoot()
    try:
        if dec.root[0] in (VALUE, HASHABLE, SET, MAP):
            text(dec, dec.root)
        walk(d, view, dec, dec.root, show, c, set(), [30])
    except TooLong:
        raise Discard
    if m is not None and show and type(view) in TYPES and evaluates(m):
        v = eval(str(view), {'set': set})
        expect(pv.canon_model(unlist(v)) == pv.canon_model(unlist(m)), 'the text does not evaluate to the value', lambda: short(str(view), 400))
    debug(d, dec, img)


def unlist(m):
    """as plain lists and tuples"""
    t = type(m)
    if t is pv.Prim:
        return list(m.items)
    if t is bytearray:
        return list(m)
    if t in (list, tuple):
        return t(map(unlist, m))
    if t in (set, frozenset):
        return set(map(unkey, m))
    if t is dict:
        return {unkey(k): unlist(x) for k, x in m.items()}
    return m


def unkey(k):
    return tuple(map(unkey, k)) if type(k) in (tuple, list) else k


def hasnan(x):
    return x != x or type(x) in (tuple, frozenset) and any(map(hasnan, x))


# the C debugging printer
def debug_text(dec, v, stack, im):
    """sets and maps are shown in the order of their keys"""
    t, x = v
    if t == NULL:
        return 'NULL'
    if t == BOOL:
        return 'True' if x else 'False'
    if t in (I32, U32):
        return str(x - 2**32 if t == I32 and x >= 2**31 else x)
    if t == FLOAT:
        return '%f' % struct.unpack('<f', struct.pack('<I', x))[0]
    if t in (STRING, UNICODE):
        return '"%s"' % ''.join(chr(ch) if ch < 128 else '?' for ch in dec.text(t, x))
    if t in BITTYPES:
        return '<%s>' % ''.join(map(str, dec.bits(t, x)))
    if t == EMPTYV:
        return '[]'
    if t in VEC_FMT:
        if t == FLOATV:
            return 'H[%s]' % ','.join('%.0f' % y for y in dec.vec_items(t, x))
        return 'H[%s]' % ','.join(map(str, dec.vec_items(t, x)))
    if t in (VALUE, HASHABLE):
        if ('v', x) in stack:
            return '[...]'
        s = stack | {('v', x)}
        return '%s[%s]' % ('H' if t == HASHABLE else '', ','.join(debug_text(dec, y, s, im) for y in dec.vec_items(t, x)))
    if t == SET:
        n, hv, kv = dec.set_parts(x)
        ks = [a for a in dec.vec_items(*kv) if a[0] != EMPTY]
        return 'set([%s])' % ', '.join(debug_text(dec, y, stack, im) for y in sorted(ks, key=functools.cmp_to_key(lambda a, b: order(im, a, b))))
    if t == MAP:
        if ('m', x) in stack:
            return '{...}'
        s = stack | {('m', x)}
        n, hv, kv, vv = dec.map_parts(x)
        ks = [(a, b) for a, b in zip(dec.vec_items(*kv), dec.vec_items(*vv)) if a[0] != EMPTY]
        ks.sort(key=functools.cmp_to_key(lambda a, b: order(im, a[0], b[0])))
        return '{%s}' % ', '.join(debug_text(dec, a, s, im) + ': ' + debug_text(dec, b, s, im) for a, b in ks)
    raise Discard


def order(im, a, b):
    """as the library compares, which has a property of its own"""
    err = C.c_char_p()
    x, y = capi.CValue(*a), capi.CValue(*b)
    r = cmp_reader(im.p, C.byref(x), im.p, C.byref(y), C.byref(err))
    if err.value or a is not b and r == 0:
        raise Discard
    return r


def parts(d, dec, im):
    """the debugging text of values inside"""
    v = dec.root
    for _ in range(1 + d.int(4)):
        t, x = v
        if t == MAP:
            n, hv, kv, vv = dec.map_parts(x)
            xs = [a for a in dec.vec_items(*kv) if a[0] != EMPTY] + [b for a, b in zip(dec.vec_items(*kv), dec.vec_items(*vv)) if a[0] != EMPTY]
        elif t in (VALUE, HASHABLE):
            xs = dec.vec_items(t, x)
        else:
            break
        if not xs:
            break
        v = d.choice(xs)
        err = C.c_char_p()
        buf, size = C.c_char_p(), C.c_size_t()
        f = libc.open_memstream(C.byref(buf), C.byref(size))
        ok = debug_value(im.p, C.byref(capi.Value(*v)), f, C.byref(err))
        libc.fclose(f)
        got = C.string_at(buf, size.value)
        libc.free(buf)
        if not ok:
            expect(err.value, 'the debugging printer failed without an error')
            continue
        try:
            e = debug_text(dec, v, frozenset(), im)
        except Discard:
            return
        expect(got in (e.encode(), e.encode() + b'\n'), 'debugging text of a part', lambda: '%s, expected %s' % (short(got, 300), short(e, 300)))


def debug(d, dec, img):
    im = capi.Image(img)
    try:
        err = C.c_char_p()
        buf, size = C.c_char_p(), C.c_size_t()
        f = libc.open_memstream(C.byref(buf), C.byref(size))
        ok = debug_print(im.p, f, C.byref(err))
        libc.fclose(f)
        got = C.string_at(buf, size.value)
        libc.free(buf)
        if ok:
            parts(d, dec, im)
            try:
                e = debug_text(dec, dec.root, frozenset(), im)
            except Discard:
                return
    finally:
        im.close()
    if not ok:
        expect(err.value, 'the debugging printer failed without an error')
        return
    expect(got.endswith(b'\n'), 'end of the debugging text')
    expect(got[:-1] == e.encode(), 'debugging text', lambda: '%s, expected %s' % (short(got, 300), short(e, 300)))


def objects(d, c):
    show = d.bool()
    kw = {} if show and d.bool() else {'allow_print': show}
    if d.bool():
        n = d.choice([0, 1, 2, 7, 8, 9, d.int(300), d.int(5000)])
        bits = [d.int(2) for _ in range(n)] if n < 400 else [int(b) for b in bin(d.int(2**64) | 2**64)[3:]] * (n // 64)
        o = pointless.PointlessBitvector(sequence=bits, **kw)
        e = ''.join(map(str, reversed(bits))) + 'b'
    else:
        t = d.choice(pv.PRIM_TYPES)
        m = [pv.g_prim_item(d, t) for _ in range(d.choice([0, 1, 2, d.int(20), d.int(300)]))]
        if t == 'f':
            m = [pv.f32(d.choice([x, 3.4028234663852886e38, -3.4028234663852886e38, float('inf'), float('nan'), 1e-45, 0.5, 2.5, 1e20])) for x in m]
        o = pointless.PointlessPrimVector(t, sequence=m, **kw)
        if d.int(3) == 0 and m:
            a, b = d.int(len(m)), d.int(len(m) + 1)
            o, m = o[a:b], m[a:b]
        e = '[' + ', '.join('%f' % x if t == 'f' else str(x) for x in m) + ']'
    c.note('object', lambda: short(e, 300))
    for s in (str(o), repr(o), format(o)):
        if show:
            expect(s == e, 'text', lambda: '%s, expected %s' % (short(s, 300), short(e, 300)))
        else:
            a, b = hidden(o)
            expect(s.startswith(a) and s.endswith(b) and len(s) < len(a) + 20, 'text although printing is disabled', lambda: short(s))
    if len(e) > 100 and show:
        c.nontrivial(e, lambda: short(e, 100))


def example_long(c):
    """long texts"""
    for m in ([1] * 100000, ['x' * 70000, '\u20ac' * 70000, '\U0001f600' * 70000], {i: [i] for i in range(20000)}, [0.5] * 30000):
        v = pointless.Pointless(pointless.serialize_to_bytearray(m)).GetRoot()
        s = str(v)
        if m and type(m) is list and type(m[0]) is float:
            expect(s == '[' + ', '.join(['0.500000'] * len(m)) + ']', 'long text')
        else:
            expect(eval(s) == m, 'long text', type(m))
    p = pointless.PointlessPrimVector('i64', sequence=[-2**63] * 50000)
    expect(str(p) == str([-2**63] * 50000), 'long typed vector')


def example_disabled_default(c):
    p = pointless.Pointless(pointless.serialize_to_bytearray([1, {2: 3}]))
    expect(str(p.GetRoot()) == '[1, {2: 3}]', 'printing is on by default')
    for bad in (0, None, 'x'):
        try:
            pointless.Pointless(pointless.serialize_to_bytearray([1]), allow_print=bad)
        except TypeError:
            continue
        raise Fail('allow_print accepted', repr(bad))


def example_many_bits(c):
    """bit vectors of 2^31 bits and more, which take no room in an image: their text does not fit here, so there is none"""
    if c.variant != 'rel':
        return
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    for t, n in ((plfmt.BITS0, 2**31 + 5), (plfmt.BITS1, 2**31), (plfmt.BITS1, 2**32 - 1), (plfmt.BITS0, 2**31 - 1)):
        b = pointless.Pointless(bytearray(struct.pack('<8I', t, n, 0, 0, 0, 0, 0, 2))).GetRoot()
        expect(len(b) == n, 'length')
        with open('/proc/self/statm') as f:
            now = int(f.read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (now + 2**27, hard))
        try:
            s = str(b)
        except MemoryError:
            continue
        finally:
            resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
        raise Fail('text of many bits', '%d bits are shown as %d characters' % (n, len(s)))
