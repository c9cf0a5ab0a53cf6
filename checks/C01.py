"""Round trip of generated values through every writer and reader."""
import os

import pointless

import plfmt
import pv
from harness import Draw, Fail, divided, expect

RULE = 'the value holds at least one non-empty container, typed vector or bit vector; distinct by image bytes'
LEVEL = 'exploration'


def write(obj, how, c, **kw):
    if how == 0:
        return bytes(pointless.serialize_to_bytearray(obj, **kw))
    if how == 1:
        return bytes(memoryview(pointless.serialize_to_buffer(obj, **kw)).cast('B'))
    fn = os.path.join(c.scratch, 'c01-é.map' if how == 3 else 'c01.map')
    pointless.serialize(obj, fn, **kw)
    with open(fn, 'rb') as f:
        return f.read()


def prop(d, c):
    g = pv.G(nodes=d.choice([4, 12, 40, 120, 300]), depth=d.choice([2, 4, 7]), exact=d.int(3) > 0)
    m = pv.g_value(d, g)
    if d.int(40) == 39:
        m = chain(m, d)
    one(m, d, c)


def chain(m, d):
    """Deep, but well below the limit."""
    n = d.int(200)
    while n > 0:
        k = d.int(4)
        n -= 2 if k == 3 else 1
        m = [m] if k < 2 else (m,) if k == 2 else {d.int(3): m}
    return m


def one(m, d, c):
    how = d.int(4)
    kw = {}
    if d.bool():
        kw['unwiden_strings'] = d.bool()
    if d.bool():
        kw['normalize_bitvector'] = d.bool()
    c.note('value', m, 'writer', how, kw)
    obj = pv.real(m)
    img = write(obj, how, c, **kw)
    want = pv.canon_model(m)
    v, why = plfmt.verdict(img)
    expect(v is not False, 'the image is malformed', why)
    got = plfmt.Decoder(img).canon()
    if got != want:
        raise Fail('the image holds another value', pv.diff(want, got))
    rd = d.int(4)
    if rd == 0:
        p = pointless.Pointless(bytearray(img)) if d.bool() else pointless.Pointless(bytearray(img), validate=False)
    elif rd == 1:
        p = pointless.Pointless(pointless.PointlessPrimVector('u8', sequence=img))
    else:
        fn = os.path.join(c.scratch, 'c01r.map')
        if os.path.exists(fn):
            os.unlink(fn)
        with open(fn, 'wb') as f:
            f.write(img)
        p = pointless.Pointless(fn) if rd == 2 else pointless.Pointless(fn, validate=False)
    root = p.GetRoot()
    got = pv.canon_open(root)
    if got != want:
        raise Fail('the value reads back different', pv.diff(want, got))
    t = type(m)
    if t is pv.Prim and m.items:
        expect(root.typecode == m.t, 'typed vector has another type', '%s, expected %s' % (root.typecode, m.t))
    if pv.has_container(m):
        c.nontrivial(img, lambda: repr(m))


# exhaustive: every pair of boundary integers as list, key and set item, every boundary character in every position
EDGE = sorted(set(pv.EDGE_INTS))
CPS = sorted({c for b in (1, 0x20, 0x22, 0x27, 0x5c, 0x7f, 0x80, 0xa0, 0xff, 0x100, 0x17f, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1ffff, 0x10ffff)
              for c in (b - 1, b, b + 1) if 0 < c <= 0x10ffff})


def enum_count(tier):
    return len(EDGE) ** 2 + len(CPS) * 3 + 200


def enum_case(i, c):
    d = Draw(seed='enum%d' % i)
    if i < len(EDGE) ** 2:
        a, b = EDGE[i // len(EDGE)], EDGE[i % len(EDGE)]
        one([[a, b], {a: b, (a, b): a}, {a, b}, [float(pv.f32(a)), float(pv.f32(b))], (a, float(pv.f32(b)))], d, c)
        return
    i -= len(EDGE) ** 2
    if i < len(CPS) * 3:
        ch = chr(CPS[i // 3])
        s = [ch, 'ab' + ch, ch + 'z' + ch][i % 3]
        one([s, {s: s, (s, 1): 2}, {s, s + 'x'}], d, c)
        return
    i -= len(CPS) * 3
    # lengths: maps, sets, bit vectors, strings, vectors of i items
    ints = list(range(i))
    one([ints, [x - 100 for x in ints], [float(x) for x in ints], ['s%d' % x for x in ints], 'q' * i, '€' * i,
         {x * 7: x for x in ints}, {x * 0x10001 for x in ints}, {(x, str(x)) for x in ints}, pv.Bits([0] * i), pv.Bits([1] * i),
         pv.Bits([x % 2 for x in ints]), pv.Bits([0] * i + [1] * (i // 2)), pv.Bits([1] * i + [0] * (i // 2 + 1)),
         pv.Prim(pv.PRIM_TYPES[i % 8], [x % 100 for x in ints])], d, c)


def example_large(c):
    d = Draw(seed='large')
    n = 70000
    one([list(range(n)), {x: -x for x in range(30000)}, 'é' * n, '€' * n, '\U0001f600' * 3, [str(x) for x in range(5000)]], d, c)
    for k in (65534, 65535, 65536, 65537, 131070, 131072, 200000):
        one([pv.Bits([0] * k), pv.Bits([1] * k), pv.Bits([0] * k + [1]), pv.Bits([1] * k + [0]), pv.Bits([0] + [1] * k), pv.Bits([1] + [0] * k), pv.Bits([1, 0] * (k // 2))], d, c)


@divided
def example_siblings(c):
    """long strings of one length that differ in one place"""
    d = Draw(seed='siblings')
    i = 0
    for ch in 'aé€\U0001f600':
        for k in range(3, 17):
            for n in ((1 << k) - 1, 1 << k, (1 << k) + 1, 3 << k - 1) if k < 13 else ((1 << k) + 1,):
                i += 1
                if i % c.parts == c.part:
                    x = pv.siblings(n, ch, full=k < 10) if k < 13 else pv.siblings(n, ch, [n - 1])
                    one(x, d, c)
                    if k < 13:
                        one({s: j for j, s in enumerate(x)}, d, c)
                    c.evals += 2


def example_many_containers(c):
    d = Draw(seed='many')
    one([[x, str(x)] for x in range(70000)], d, c)
    one([{x: [x]} for x in range(3000)] + [{x} for x in range(3000)], d, c)


@divided
def example_same_hash(c):
    """different keys with the same hash: strings of one and of several widths, alone and in tuples"""
    d = Draw(seed='hash')
    groups = [pv.TWINS[i:i + 2] for i in range(0, len(pv.TWINS), 2)] + pv.MIXED_TWINS
    for i, g in enumerate(groups):
        if i % c.parts != c.part:
            continue
        for end in ('', 'q', '\u20ac' * 3):
            w = [x + end for x in g]
            for k in (w, w[::-1]):
                for keys in (k, [(x, 1) for x in k], k + [(x,) for x in k], k + list('abcdefgh'), list('abcdefgh') + k):
                    one({x: j for j, x in enumerate(keys)}, d, c)
                    one([set(keys), keys], d, c)
                    c.evals += 2


def example_wide_range_key(c):
    one({(0, 2**31, -1): 0, (-1, 2**32 - 1): 1}, Draw(seed='w'), c)
