"""Hashes of values in every representation against an independent hash function."""
import ctypes as C

import pointless

import capi
import pv
import plfmt
import reps
from capi import VP, PV as PVAL
from harness import Draw, Fail, divided, expect, short

RULE = 'a string, sequence or bit vector was hashed in at least four representations; distinct by value'
LEVEL = 'exploration'
CONF = {'budget': 24}
ASSUMPTIONS = ['a float counts as its single-precision value', 'NaN is hashed but equal to nothing']

hash_reader = capi.fn('pointless_hash_reader_32', C.c_uint32, VP, PVAL)
hashable_reader = capi.fn('pointless_is_hashable_reader', C.c_int, VP, PVAL)
h1 = pointless.pyobject_hash
h2 = pointless.pyobject_hash_32


def wide(m):
    """an integer that 32 bits cannot hold, somewhere inside"""
    t = type(m)
    if t is int:
        return not -2**31 <= m < 2**32
    if t in (tuple, list):
        return any(wide(x) for x in m)
    return False


def prop(d, c):
    a = reps.g_seqval(d, wide=d.int(4) == 3)
    if type(a) is int and wide(a):
        a = (a,)
    if wide(a) and not (type(a) is tuple and all(type(x) is int for x in a)):
        # wide integers are hashable in typed vectors only
        a = tuple([x for x in a if type(x) is int])
    c.note('a', a)
    if wide(a):
        typed(d, a)
        return
    e = plfmt.hash_model(a)
    for _ in range(3):
        x = reps.rep(d, a, hashable=True)
        for f in (h1, h2):
            got = f(x)
            expect(got == e, 'hash', lambda: '%s as %s: %d, expected %d' % (short(a), type(x).__name__, got, e))
        expect(h1(x) == e, 'a hash changed')
    # a value that compares equal hashes equally
    b = reps.close(d, a)
    if not wide(b):
        x, y = reps.rep(d, a, hashable=True), reps.rep(d, b, hashable=True)
        try:
            eq = pointless.pointless_is_eq(x, y)
        except ValueError:
            eq = None
        if eq:
            expect(h1(x) == h1(y), 'equal values hash differently', lambda: '%s (%d) and %s (%d)' % (short(a), h1(x), short(b), h1(y)))
            c.label('equal pair')
            if a != b or type(a) is not type(b):
                c.label('equal pair of other kinds')
    if d.int(2):
        stored(d, a, e)
    if d.int(4) == 3:
        unhashable(d, a)
    if type(a) in (tuple, str, pv.Bits):
        c.nontrivial(repr(a), lambda: '%s: %d' % (short(a), e))


@divided
def example_long(c):
    """long values which differ late"""
    for i, (a, b) in enumerate(reps.long_pairs()):
        if i % c.parts != c.part:
            continue
        d = Draw(seed='long %d' % i)
        for v in (a, b):
            e = plfmt.hash_model(v)
            for x in [reps.rep(d, v, hashable=True)]:
                expect(h1(x) == e and h2(x) == e, 'hash of a long value', lambda: '%s as %s: %d, expected %d' % (short(v), type(x).__name__, h1(x), e))
            if i % 3 == 0:
                stored(d, v, e)
            c.evals += 1


def wide_values():
    """more parts than a value may be deep, in every place where depth is counted"""
    for n in (600, 5000):
        yield tuple((i,) for i in range(n))
        yield tuple((i, ('x', (i % 7,))) for i in range(n))
        yield tuple(pv.Bits([i & 1, i >> 1 & 1] * (i % 40)) for i in range(n))
        yield tuple('%d' % i for i in range(n))
        yield ((),) * n
        yield tuple(float(i) / 4 for i in range(n))
        v = ()
        for i in range(200):
            v = (v, (i,), (i, (i,)))
        yield v


@divided
def example_wide(c):
    """the hash of wide values, again when the same call hashes them twice"""
    for i, v in enumerate(wide_values()):
        if i % c.parts != c.part:
            continue
        d = Draw(seed='wide %d' % i)
        e = plfmt.hash_model(v)
        for x in (pv.real(v), reps.rep(d, v, hashable=True), reps.rep(d, v, hashable=True)):
            expect(h1(x) == e and h2(x) == e, 'hash of a wide value', lambda: '%s as %s: %d, expected %d' % (short(v), type(x).__name__, h1(x), e))
        w = (v, (v, 1), v)
        e2 = plfmt.hash_model(w)
        expect(h1(pv.real(w)) == e2, 'hash of a wide value', lambda: short(w))
        stored(d, v, e)
        r = pointless.Pointless(pointless.serialize_to_bytearray([pv.real(v), {pv.real(v): 1}])).GetRoot()
        expect(h1(r[0]) == e, 'hash of an opened wide value', lambda: short(v))
        expect(pv.real(v) in r[1] and r[0] in r[1] and r[1][pv.real(v)] == 1, 'lookup of a wide value', lambda: short(v))
        c.evals += 4


def typed(d, a):
    """items of 64 bits"""
    ts = [t for t, (lo, hi) in pv.PRIM_RANGES.items() if all(lo <= x <= hi for x in a)]
    e = plfmt.hash_model(pv.Prim('i64', a))
    for t in ts:
        x = pointless.PointlessPrimVector(t, sequence=a)
        expect(h1(x) == e, 'hash of a typed vector', lambda: '%s %r' % (t, a))
        r = pointless.Pointless(pointless.serialize_to_bytearray(x)).GetRoot()
        expect(h1(r) == e, 'hash of an opened typed vector', lambda: '%s %r' % (t, a))
        i = d.int(len(a) + 1)
        j = i + d.int(len(a) - i + 1)
        expect(h1(r[i:j]) == plfmt.hash_model(pv.Prim('i64', a[i:j])), 'hash of a slice', lambda: '%r %d:%d' % (a, i, j))


def stored(d, a, e):
    """the hash in the table of a set and of a map, written by the library, and computed from the image"""
    wrap = {a} if d.bool() else {a: 1}
    img = bytes(pointless.serialize_to_bytearray(pv.real(wrap)))
    dec = plfmt.Decoder(img)
    parts = dec.set_parts(dec.root[1]) if dec.root[0] == plfmt.SET else dec.map_parts(dec.root[1])
    hs, ks = dec.vec_items(*parts[1]), dec.vec_items(*parts[2])
    got = [h for h, k in zip(hs, ks) if k[0] != plfmt.EMPTY]
    expect(got == [e], 'hash stored in a table', lambda: '%s: %r, expected %d' % (short(a), got, e))
    if d.bool():
        B, ref = plfmt.build_model([a, [{}, a]], d)
        img = B.image(ref)
        dec = plfmt.Decoder(img)
        refs = [dec.vec_items(*dec.root)[0]]
    else:
        refs = [k for k in ks if k[0] != plfmt.EMPTY]
    with capi.Image(img) as im:
        for r in refs:
            ok = dec.hashable(r)
            v = capi.Value(*r)
            expect(bool(hashable_reader(im.p, C.byref(v))) == ok, 'hashability of a stored value', lambda: short(a))
            if ok:
                got = hash_reader(im.p, C.byref(v))
                expect(got == e, 'hash of a stored value', lambda: '%s: %d, expected %d' % (short(a), got, e))


def unhashable(d, a):
    mk = d.choice([lambda: [a], lambda: {1: a}, lambda: set([1]), lambda: frozenset([1]), lambda: bytearray(b'x'), lambda: object(), lambda: (1, [a]), lambda: ((1, {}),),
                   lambda: b'bytes', lambda: 1j,
                   lambda: pointless.Pointless(pointless.serialize_to_bytearray({1: 2})).GetRoot(),
                   lambda: pointless.Pointless(pointless.serialize_to_bytearray(set([1]))).GetRoot(),
                   lambda: pointless.Pointless(pointless.serialize_to_bytearray([1, {}])).GetRoot(),
                   lambda: pointless.Pointless(pointless.serialize_to_bytearray(['x', [[1, set()]]])).GetRoot(),
                   lambda: (pointless.Pointless(pointless.serialize_to_bytearray([1, {}])).GetRoot(),),
                   lambda: 2**32, lambda: -2**31 - 1, lambda: (2**70,)])
    x = mk()
    if type(x) is list:
        x = list(pv.real(x))
    for f in (h1, h2):
        try:
            got = f(x)
        except ValueError:
            continue
        raise Fail('an unhashable value was hashed', '%s: %r' % (short(x), got))


def example_history(c):
    """the hash of a typed vector and of a bit vector follows their contents"""
    v = pointless.PointlessPrimVector('i32')
    m = []
    for i in range(40):
        expect(h1(v) == plfmt.hash_model(tuple(m)), 'hash after append', i)
        v.append(i * 1000 - 7)
        m.append(i * 1000 - 7)
    while m:
        v.pop()
        m.pop()
        expect(h1(v) == plfmt.hash_model(tuple(m)), 'hash after pop', len(m))
    b = pointless.PointlessBitvector(0)
    bits = []
    for i in range(70):
        b.append(i % 3 == 0)
        bits.append(int(i % 3 == 0))
        expect(h1(b) == plfmt.hash_bits(bits), 'hash after append', i)


def wide_float(c):
    """known finding: a typed vector of wide integers equal to one of floats"""
    a = pointless.PointlessPrimVector('u64', sequence=[2**40])
    b = pointless.PointlessPrimVector('f', sequence=[float(2**40)])
    return pointless.pointless_is_eq(a, b) and h1(a) != h1(b)


KNOWN = {'wide-items': wide_float}
KNOWN_KEYS = ['wide-items']
