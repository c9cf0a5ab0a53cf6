"""The size and the parts of an image, against what its value needs."""
import os
import struct

import pointless

import plfmt
import pv
from harness import Discard, Draw, divided, expect, short
from checks import C02, C25

RULE = 'the image has a part on the heap (string, container, bit vector); distinct by image bytes'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing: a generated value or a generated history of creation calls gives an image whose size, number of parts of each kind and typed vectors are compared to those computed from the value'
WIDTH = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f': 4}


def al(n):
    return n + 3 & ~3


def narrowest(xs):
    """the element type of a list, None for one of general values"""
    if not xs:
        return None
    if all(type(x) is float for x in xs):
        return 'f'
    if not all(type(x) is int for x in xs):
        return None
    lo, hi = min(xs), max(xs)
    for t in ('u8', 'u16', 'u32') if lo >= 0 else ('i8', 'i16', 'i32'):
        a, b = pv.PRIM_RANGES[t]
        if a <= lo and hi <= b:
            return t


def is_inline(b):
    n = len(b)
    if n <= 27:
        return True
    k = 1
    while k < n and b[k] == b[0]:
        k += 1
    return k == n or all(x != b[0] for x in b[k:]) and k <= 65535 and n - k <= 65535


class Need:
    """parts that a value needs"""

    def __init__(self):
        self.strings = {}
        self.bits = {}
        self.vectors = {}
        self.sets = {}
        self.maps = {}
        self.seen = set()
        self.keep = []
        self.extra_bits = 0
        self.extra = 0

    def string(self, wide, v):
        self.strings[wide, v] = al(4 + (len(v) + 1) * (4 if wide else 1))

    def bitvector(self, b, shared=True):
        b = tuple(b)
        if is_inline(b):
            return
        if shared:
            self.bits[b] = al(4 + (len(b) + 7) // 8)
        else:
            self.extra_bits += 1
            self.extra += al(4 + (len(b) + 7) // 8)

    def vector(self, k, n, width):
        if n:
            self.vectors[k] = al(4 + n * width)

    def table(self, k, n, is_map):
        nb = plfmt.n_buckets(n)
        self.vectors[k, 'hash'] = 4 + 4 * nb
        self.vectors[k, 'keys'] = 4 + 8 * nb
        if is_map:
            self.vectors[k, 'values'] = 4 + 8 * nb
            self.maps[k] = 32
        else:
            self.sets[k] = 24

    def counts(self):
        return len(self.strings), len(self.vectors), len(self.bits) + self.extra_bits, len(self.sets), len(self.maps)

    def size(self):
        return 32 + 8 * sum(self.counts()) + self.extra + sum(sum(x.values()) for x in (self.strings, self.vectors, self.bits, self.sets, self.maps))

    # -- Python objects
    def walk(self, root):
        todo = [root]
        while todo:
            x = todo.pop()
            t = type(x)
            if t in (int, float, bool) or x is None:
                continue
            if t is str:
                self.string(max(x, default='\0') > '\xff', x)
                continue
            k = id(x)
            if k in self.seen:
                continue
            self.seen.add(k)
            self.keep.append(x)
            if t in (list, tuple):
                e = narrowest(x)
                self.vector(k, len(x), WIDTH[e] if e else 8)
                todo += x
            elif t is bytearray:
                self.vector(k, len(x), 1)
            elif t is pointless.PointlessPrimVector:
                self.vector(k, len(x), WIDTH[x.typecode])
            elif t is pointless.PointlessBitvector:
                self.bitvector(x)
            elif t is dict:
                self.table(k, len(x), True)
                todo += x
                todo += x.values()
            elif t in (set, frozenset):
                self.table(k, len(x), False)
                todo += x
            else:
                self.view(x)

    # -- one opened container, which is copied on its own
    def view(self, *roots):
        todo = list(roots)
        own = object()
        self.keep.append(own)
        memo = {}
        while todo:
            x = todo.pop()
            t = type(x)
            if t in (int, float, bool) or x is None:
                continue
            if t is str:
                self.string(max(x, default='\0') > '\xff', x)
                continue
            if t is pointless.PointlessBitvector:
                self.bitvector(x)
                continue
            k = id(own), t, x.container_id
            if k in memo:
                continue
            memo[k] = 1
            if t is pointless.PointlessVector:
                if len(x):
                    self.vector(k, len(x), WIDTH[x.typecode] if typed(x) else 8)
                    if not typed(x):
                        todo += x
            elif t is pointless.PointlessMap:
                self.table(k, len(x), True)
                for a, b in x.items():
                    todo += [a, b]
            else:
                self.table(k, len(x), False)
                todo += x

    # -- values of the creation interface
    def handles(self, s):
        for r, h in s.h.items():
            if h.kind == 'string':
                self.string(h.t == 'unicode', h.v)
            elif h.kind == 'bits':
                if h.t != 'bitvector_compressed':
                    self.bitvector(h.v.bits, h.t == 'bitvector')
            elif h.kind == 'typed':
                self.vector(r, len(h.v), WIDTH[h.t])
            elif h.kind == 'vec':
                xs = [x.v if x.kind == 'scalar' else x for x in h.v]
                e = narrowest(xs)
                self.vector(r, len(xs), WIDTH[e] if e else 8)
            elif h.kind in ('set', 'map'):
                self.table(r, len(h.v), h.kind == 'map')


def typed(x):
    try:
        return len(x) > 0 and x.typecode in WIDTH
    except ValueError:
        return False


NAMES = ('strings', 'vectors', 'bit vectors', 'sets', 'maps')


def compare(img, need, text):
    got = struct.unpack_from('<5I', img, 8)
    want = need.counts()
    for n, a, b in zip(NAMES, got, want):
        expect(a == b, 'number of ' + n, lambda: '%d, expected %d: %s' % (a, b, text()))
    expect(len(img) == need.size(), 'size of the image', lambda: '%d, expected %d: %s' % (len(img), need.size(), text()))
    dec = plfmt.Decoder(img)
    # each kind of part has the sizes it should have
    return dec


def sizes(dec, need, text):
    """part by part: the distances between the offsets"""
    offs = [dec.off(k, i) for k in ('s', 'v', 'b', 'set', 'map') for i in range(dec.n[k])]
    ends = sorted(offs)[1:] + [dec.heap_len]
    got = sorted(b - a for a, b in zip(sorted(offs), ends))
    want = sorted([n for x in (need.strings, need.vectors, need.bits, need.sets, need.maps) for n in x.values()])
    if not need.extra_bits:
        expect(got == want, 'sizes of the parts', lambda: '%s, expected %s: %s' % (short(got), short(want), text()))


def write(d, x, c):
    k = d.int(4)
    if k == 0:
        fn = os.path.join(c.scratch, 'c29.map')
        if os.path.exists(fn):
            os.unlink(fn)
        pointless.serialize(x, fn)
        with open(fn, 'rb') as f:
            return f.read()
    if k == 1:
        return bytes(memoryview(pointless.serialize_to_buffer(x)).cast('B'))
    return bytes(pointless.serialize_to_bytearray(x))


def value(d):
    """(Python object): a value, shared parts, equal parts that are not shared"""
    k = d.int(4)
    if k == 0:
        nodes = C02.graph(d)
        return pv.real(nodes[0] if d.bool() else list(nodes))
    ms = [pv.g_value(d, pv.G(nodes=d.choice([2, 8, 25, 60]), nan=False)) for _ in range(1 + d.int(3))]
    if d.int(3) == 0:
        ms += [pv.g_long(d) if d.int(20) == 0 else pv.g_str(d), pv.g_bits(d), pv.g_bits(d)]
    xs = [pv.real(m) for m in ms]
    # the same objects, and equal ones
    for _ in range(d.int(4)):
        i = d.int(len(xs))
        xs.append(xs[i] if d.bool() else pv.real(ms[i]) if i < len(ms) else [xs[i]])
    if d.int(4) == 0:
        xs.append(equal_strings(d))
    if d.int(4) == 0:
        xs.append(equal_bits(d))
    if d.int(4) == 0:
        xs.append(numbers(d))
    return xs if d.int(3) else tuple(xs)


def equal_strings(d):
    s = pv.g_str(d) or 'x'
    k = d.int(len(s) + 1)
    return [s, (s + 'x')[:-1], s[:k] + s[k:], ''.join(list(s)), s[:k], s[k:], {s[::-1]: s[::-1]}]


def equal_bits(d):
    b = list(pv.g_bits(d).bits)
    r = [pv.real(pv.Bits(b)) for _ in range(2)]
    # by other histories
    x = pointless.PointlessBitvector(0)
    for i in b:
        x.append(bool(i))
    y = pointless.PointlessBitvector(sequence=b + [1, 1, 0, 1][:d.int(5)])
    while len(y) > len(b):
        y.pop()
    z = pointless.Pointless(pointless.serialize_to_bytearray(x)).GetRoot()
    return r + [x, y, z, r[0], x.copy()]


def numbers(d):
    """lists whose narrowest types are next to each other"""
    edge = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2**31 - 1, 2**31, -2**31, 2**32 - 1]
    out = []
    for _ in range(1 + d.int(6)):
        xs = [d.choice(edge) for _ in range(1 + d.int(3))] + [d.int(100)] * d.int(20)
        k = d.int(8)
        if k == 0:
            xs.append(float(d.int(5)))
        elif k == 1:
            xs.append(d.choice([True, None, 'x']))
        elif k == 2:
            xs = [float(x) for x in xs]
        out.append(tuple(d.shuffle(xs) or xs) if d.bool() else xs)
    return out


def one(x, d, c):
    text = lambda: repr(x)[:1500]
    img = write(d, x, c)
    need = Need()
    need.walk(x)
    dec = compare(img, need, text)
    sizes(dec, need, text)
    p = pointless.Pointless(bytearray(img))
    root = p.GetRoot()
    c.label('value')
    # copies do not grow
    if type(root) in (pointless.PointlessVector, pointless.PointlessMap, pointless.PointlessSet, pointless.PointlessBitvector) and d.bool():
        again = write(d, root, c)
        expect(len(again) == len(img) and again[8:28] == img[8:28], 'size of a copy', lambda: '%d instead of %d: %s' % (len(again), len(img), text()))
        c.label('copy')
        if type(root) is pointless.PointlessVector and d.bool():
            # parts, alone and several times
            i = d.int(len(root) + 1)
            j = i + d.int(len(root) - i + 1)
            v = root[i:j]
            if j - i < len(root):
                need = Need()
                if typed(root):
                    need.vector(0, j - i, WIDTH[root.typecode])
                elif len(v):
                    ys = list(v)
                    e = narrowest(ys)
                    need.vector(0, len(v), WIDTH[e] if e else 8)
                    need.view(*ys)
                part = write(d, v, c)
                compare(part, need, lambda: '[%d:%d] of %s' % (i, j, text()))
                c.label('slice')
        if d.int(3) == 0:
            need = Need()
            y = [root, x, root, p.GetRoot(), {1: root}]
            need.walk(y)
            compare(write(d, y, c), need, lambda: 'opened and not: ' + text())
            c.label('mixed')
    if sum(need.counts()):
        c.nontrivial(img, text)


def history(d, c):
    os.chdir(c.scratch)
    n = d.choice([3, 8, 20, 40, 80])
    s, r, img = C25.run(d, c, n, False)
    if r is None or C25.key_state(s) != 'ok' or img is None or len(img) < 32:
        raise Discard
    need = Need()
    need.handles(s)
    text = lambda: short(s.calls, 2000)
    dec = compare(img, need, text)
    c.label('creation history')
    if sum(need.counts()):
        c.nontrivial(img, text)


def prop(d, c):
    if d.int(4) == 0:
        return history(d, c)
    one(value(d), d, c)


# every length, and every pair of limits of the integer types
EDGE = sorted({x for b in (0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1) for x in (b, -b, -b - 1) if -2**31 <= x < 2**32})
LENGTHS = 300


def enum_count(tier):
    return LENGTHS + len(EDGE) ** 2


def enum_case(i, c):
    d = Draw(seed='C29 %d' % i)
    if i >= LENGTHS:
        a, b = EDGE[(i - LENGTHS) // len(EDGE)], EDGE[(i - LENGTHS) % len(EDGE)]
        one([[a, b], (b, a, a), [a] * 300 + [b], {1: [a, b], (a, b): 1}, [float(a), float(b)], [a, float(b)], [a, b, None], [[a], [b]]], d, c)
        return
    b = [x * x % 7 & 1 for x in range(i)]
    one([list(range(i)), (None,) * i, [1.5] * i, {x: 1 for x in range(i)}, set(range(i)), 'a' * i, '\xff' * i, '\u0100' * i, '\U00010000' * i, ['s%d' % x for x in range(i)], bytearray(i)]
        + [pointless.PointlessPrimVector(t, sequence=[float(x) if t == 'f' else x & 63 for x in range(i)]) for t in pv.PRIM_TYPES]
        + [pointless.PointlessBitvector(sequence=x) for x in (b, [0] * i, [1] * i, [0] * i + [1] * (i // 2), [1] * i + [0] * 9, [1] + [0] * i + [1], b + [1], b)], d, c)


@divided
def example_large(c):
    """large parts, and many"""
    n = 70000
    for i, f in enumerate((lambda: [list(range(n)), {x: -x for x in range(n)}, set(range(0, 3 * n, 3))], lambda: ['\u20ac' * n, 'e' * n, '\U0001f600' * n, [str(x) for x in range(n)]],
                           lambda: [[x] for x in range(n)], lambda: [{x: x} for x in range(5000)] + [{x} for x in range(5000)], lambda: [pointless.PointlessBitvector(sequence=[x >> j & 1 for j in range(30)]) for x in range(5000)],
                           lambda: [pointless.PointlessBitvector(sequence=[a] * j + [1 - a] * k) for a in (0, 1) for j in (1, 65534, 65535, 65536, 70000) for k in (1, 65534, 65535, 65536, 70000)],
                           lambda: [(x, 'a') for x in range(3)] * 5000)):
        if i % c.parts == c.part:
            one(f(), Draw(seed=i), c)
            c.evals += 1


@divided
def example_spare_bits(c):
    """bits beyond the last one do not make a bit vector different"""
    for n in range(28, 60):
        if n % c.parts != c.part:
            continue
        s = C25.History()
        b = [x * x % 7 & 1 for x in range(n - 1)] + [1]
        root = s.add(C25.c_vec['value'](s.c), C25.H('vec', []), 'vector_value()')
        for spare in (0, 255, 0x55, 0):
            raw = bytearray((n + 7) // 8)
            for i, x in enumerate(b):
                raw[i >> 3] |= x << (i & 7)
            if n & 7:
                raw[-1] |= spare << (n & 7) & 255
            r = s.add(C25.c_bits(s.c, C25.array(C25.u8, raw), n), C25.H('bits', pv.Bits(b), 'bitvector'), 'bitvector')
            C25.c_app['value'](s.c, root, r)
            s.h[root].v.append(s.h[r])
        C25.set_root(s.c, root)
        err, buf, k = C25.C.c_char_p(), C25.VP(), C25.C.c_size_t()
        expect(C25.out_b(s.c, C25.C.byref(buf), C25.C.byref(k), C25.C.byref(err)), 'not written')
        img = C25.C.string_at(buf, k.value)
        C25.free(buf)
        need = Need()
        need.handles(s)
        compare(img, need, lambda: '%d bits, with other spare bits' % n)
        c.evals += 1
