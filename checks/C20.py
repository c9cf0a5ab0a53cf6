"""Typed vectors written by serialize and loaded from those and from damaged bytes."""
import array
import ctypes as C
import mmap
import struct

import pointless

import pv
from harness import Fail, divided, expect, short

RULE = 'a round trip of a vector of at least two items through a foreign buffer object, or a byte string of at least eight bytes that is not what serialize wrote; distinct by bytes'
LEVEL = 'exploration'
CONF = {'budget': 20}
ASSUMPTIONS = ['the byte layout is that of the code: 32 bit type, 32 bit length, items in native order']

P = pointless.PointlessPrimVector
CODE = pv.PRIM_CODE
TYPE = {v: k for k, v in CODE.items()}
FMT = pv.PRIM_FMT
SIZE = {t: struct.calcsize(f) for t, f in FMT.items()}

libc = C.CDLL(None, use_errno=True)
PAGE = mmap.PAGESIZE
PAGES = 4
_guard = None


def guarded(data):
    """a buffer whose last byte is the last one of readable memory"""
    global _guard
    if _guard is None:
        m = mmap.mmap(-1, PAGE * (PAGES + 1))
        a = C.addressof(C.c_char.from_buffer(m))
        if libc.mprotect(C.c_void_p(a + PAGE * PAGES), C.c_size_t(PAGE), 0):
            raise OSError('mprotect')
        _guard = m
    n = len(data)
    if n > PAGE * PAGES:
        return data
    _guard[PAGE * PAGES - n:PAGE * PAGES] = data
    return memoryview(_guard)[PAGE * PAGES - n:PAGE * PAGES]


class Sub(bytes):
    pass


def buf(d, data):
    k = d.int(10)
    if k == 0:
        return bytes(data)
    if k == 1:
        return bytearray(data)
    if k == 2:
        return memoryview(bytes(data))
    if k == 3:
        a = d.int(9)
        return memoryview(b'\xff' * a + data + b'\xee' * 5)[a:a + len(data)]
    if k == 4:
        return array.array('B', data)
    if k == 5 and len(data) % 4 == 0:
        return array.array('I', data)
    if k == 6:
        return (C.c_ubyte * len(data)).from_buffer_copy(data) if data else b''
    if k == 7:
        return P('u8', sequence=data)
    if k == 8:
        return Sub(data)
    return guarded(bytes(data))


def expected(data):
    """(type, items) or None"""
    if len(data) < 8:
        return None
    t, n = struct.unpack('=II', data[:8])
    if t not in TYPE:
        return None
    t = TYPE[t]
    if len(data) - 8 != n * SIZE[t]:
        return None
    return t, list(struct.unpack('=%d%s' % (n, FMT[t]), data[8:]))


def r(t, m):
    # a NaN keeps its bits only when it is not touched as a double
    return [repr(x) for x in m] if t == 'f' else list(m)


def load(d, c, data):
    e = expected(data)
    b = buf(d, data)
    show = d.choice([None, True, False])
    kw = {} if show is None else {'allow_print': show}
    where = lambda: '%s %s' % (type(b).__name__, short(bytes(data), 200))
    if d.int(4) == 0:
        # over an older vector
        o = P('u32', sequence=[1, 2, 3])
        f = lambda: o.__init__(buffer=b, **kw)
    else:
        o = None
        f = lambda: P(buffer=b, **kw)
    try:
        x = f()
    except ValueError as ex:
        expect(e is None, 'a good buffer was refused', lambda: '%s: %s' % (ex, where()))
        expect(o is None or list(o) == [] and len(o) == 0, 'contents after a failed load', where)
        return None
    o = o if x is None else x
    expect(e is not None, 'a bad buffer was accepted', lambda: '%s: %s' % (short(list(o)), where()))
    t, m = e
    expect(o.typecode == t, 'type', lambda: '%s: %s' % (o.typecode, where()))
    expect(len(o) == len(m) and r(t, o) == r(t, m), 'items', lambda: '%s: %s' % (short(list(o)), where()))
    if show is False:
        expect(str(o).startswith('<'), 'printing disabled', where)
    s = o.serialize()
    expect(type(s) is bytearray and s == data, 'written again', lambda: '%s: %s' % (short(bytes(s)), where()))
    # the vector is independent of the buffer
    if type(b) in (bytearray, array.array) and len(b) > 8:
        for i in range(len(b)):
            b[i] = 0x5a
        expect(r(t, o) == r(t, m), 'the vector shares memory with the buffer', where)
    o.append(m[0] if m else 0.0 if t == 'f' else 0)
    expect(len(o) == len(m) + 1, 'append after loading', where)
    return o


def big(t, n, salt):
    """n items, no two of them near each other the same, and their bytes"""
    x = (2654435761 * (salt + 1)) & M
    w = SIZE[t]
    raw = bytearray(bytes((x >> 8 * k) & 0xff for k in range(4)) * (n * w // 4 + 1))[:n * w]
    for i in range(0, n * w, 61):
        raw[i] = i % 251
    if t == 'f':
        for i in range(3, n * w, 4):
            raw[i] &= 0x3f
    return bytes(raw)


def one_big(t, n, salt):
    raw = big(t, n, salt)
    good = struct.pack('=II', CODE[t], n) + raw
    o = P(buffer=good)
    where = lambda: '%d items of %s' % (n, t)
    expect(len(o) == n and bytes(o.serialize()) == good, 'written again, large', where)
    for i in (0, 1, n // 2, n - 1):
        if 0 <= i < n:
            e = struct.unpack('=' + FMT[t], raw[i * SIZE[t]:(i + 1) * SIZE[t]])[0]
            expect(o[i] == e or e != e, 'item %d' % i, where)
    # grown item by item: another capacity, the same bytes
    if n <= 300000:
        v = P(t)
        for x in struct.unpack('=%d%s' % (n, FMT[t]), raw):
            v.append(x)
        expect(bytes(v.serialize()) == good, 'serialized after appending', where)
    for data in (good[:-1], good + b'\0'):
        try:
            P(buffer=data)
        except ValueError:
            continue
        raise Fail('a bad buffer was accepted', where())


@divided
def example_big(c):
    """around every power of two, in items and in bytes"""
    i = 0
    for t in pv.PRIM_TYPES:
        for k in range(9, 23):
            for dn in (-1, 0, 1):
                for n in {(1 << k) // SIZE[t] + dn, (1 << k) + dn, (1 << k) + (1 << k - 1) + dn}:
                    if n * SIZE[t] > 6 << 20 or (n * SIZE[t] > 1 << 19 and dn and (k + i) % 4):
                        continue
                    i += 1
                    if i % c.parts == c.part:
                        one_big(t, n, i)
                        c.evals += 1


def prop(d, c):
    if d.int(150) == 149:
        t, n = d.choice(pv.PRIM_TYPES), d.int(200000)
        one_big(t, n, d.int(1000))
        c.nontrivial((t, n), lambda: '%d items of %s' % (n, t))
        return
    t = d.choice(pv.PRIM_TYPES)
    n = d.choice([0, 1, 2, d.int(20), d.int(300), d.choice([255, 256, 257, 1000, 4096])]) if d.int(3) else d.int(8)
    m = [pv.g_prim_item(d, t) for _ in range(n)] if n < 400 else [pv.g_prim_item(d, t) for _ in range(40)] * (n // 40)
    o = P(t, sequence=m)
    if d.int(4) == 0 and m:
        # with room to spare
        o.append(m[0])
        o.pop()
    s = o.serialize()
    good = struct.pack('=II', CODE[t], len(m)) + struct.pack('=%d%s' % (len(m), FMT[t]), *m)
    expect(bytes(s) == good or t == 'f' and any(x != x for x in m), 'serialized bytes', lambda: '%s %s: %s' % (t, short(m), short(bytes(s))))
    s = bytes(s)
    k = d.int(8)
    data = s
    if k == 0:
        pass
    elif k == 1:
        data = s[:d.int(len(s) + 1)]
    elif k == 2:
        data = s + d.bytes(1 + d.int(9))
    elif k == 3:
        # another type, of the same or another size
        data = struct.pack('=I', d.choice(list(range(0, 12)) + [255, 256, 2**16, 2**31, 2**32 - 1])) + s[4:]
    elif k == 4:
        # another number of items, also such that the size wraps
        w = SIZE[t]
        data = s[:4] + struct.pack('=I', d.choice([len(m) + 1, max(len(m) - 1, 0), 2**32 - 1, 2**31, 2**32 // w & M, (2**32 // w + len(m)) & M, 2**31 + len(m), 2**30 + len(m), 2**29 + len(m), d.int(2**32)])) + s[8:]
    elif k == 5:
        data = d.bytes(d.int(40))
    elif k == 6:
        data = bytearray(s)
        for _ in range(1 + d.int(3)):
            data[d.int(len(data))] = d.int(256)
        data = bytes(data)
    else:
        tt = d.int(10)
        z = SIZE.get(TYPE.get(tt), 1)
        raw = d.bytes(z * d.int(20))
        data = struct.pack('=II', tt, len(raw) // z) + raw
        if d.int(4) == 0:
            data += d.bytes(d.int(z + 1))
    c.note('load', (t, data))
    x = load(d, c, data)
    if x is not None and n > 1 or data != s and len(data) >= 8:
        c.nontrivial(data, lambda: '%s %s' % (t, short(data, 150)))


M = 2**32 - 1


def setup(c):
    for f in (lambda: P(buffer=None), lambda: P(buffer=5), lambda: P(buffer=[1, 2]), lambda: P(buffer=memoryview(bytes(64))[::2])):
        try:
            x = f()
        except (TypeError, BufferError, ValueError):
            continue
        raise Fail('a wrong buffer was accepted', repr(x))


def example_shared(c):
    """loading a vector from its own exported buffer must not work on freed memory"""
    o = P('u8', sequence=P('u32', sequence=[1, 2, 3]).serialize())
    try:
        o.__init__(buffer=o)
    except BufferError:
        expect(len(o) == 8 + 12, 'contents kept')
    mv = memoryview(o)
    try:
        o.__init__(buffer=mv)
    except BufferError:
        pass
    else:
        raise Fail('initialized while exported', '')


def example_str(c):
    """text as a buffer is its UTF-8 bytes"""
    try:
        o = P(buffer='\x01\0\0\0\x02\0\0\0ab')
    except TypeError:
        return
    expect(list(o) == [97, 98], 'items from a str')


# every type code with every length field against every buffer size, small
def enum_count(tier):
    return 12 * 10 * 33


def enum_case(i, c):
    t, i = i % 12, i // 12
    n, size = i % 10, i // 10
    data = struct.pack('=II', t, n) + bytes(range(1, 100))[:size]
    e = expected(data)
    for b in (data, guarded(data)):
        try:
            o = P(buffer=b)
        except ValueError:
            expect(e is None, 'a good buffer was refused', lambda: short(data))
        else:
            expect(e is not None and o.typecode == e[0] and r(e[0], o) == r(*e), 'loaded', lambda: short(data))
