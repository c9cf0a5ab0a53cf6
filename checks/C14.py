"""The order of values, in every mix of representations."""
import ctypes as C

import pointless

import capi
import pv
import plfmt
import reps
from capi import VP, ERR
from harness import Draw, Fail, expect, short, divided

RULE = 'a comparable pair of values that are not both plain numbers was compared in at least three mixes of representation; distinct by pair'
LEVEL = 'exploration'
CONF = {'budget': 24}
ASSUMPTIONS = ['NaN and integers beyond 64 bits are outside of the order', 'a float counts as its single-precision value']

cmp_reader = capi.fn('pointless_cmp_reader', C.c_int32, VP, C.POINTER(capi.CValue), VP, C.POINTER(capi.CValue), ERR)
cmp_acyclic = capi.fn('pointless_cmp_reader_acyclic', C.c_int32, VP, C.POINTER(capi.CValue), VP, C.POINTER(capi.CValue))


def model(a, b):
    try:
        return reps.cmp(a, b)
    except reps.Incomparable:
        return None


def sign(x):
    return (x > 0) - (x < 0)


def lib_cmp(x, y):
    try:
        return sign(pointless.pointless_cmp(x, y))
    except TypeError:
        return None


def lib_eq(x, y):
    try:
        return pointless.pointless_is_eq(x, y)
    except ValueError:
        return None


def prop(d, c):
    a = reps.g_seqval(d)
    b = reps.close(d, a)
    if d.int(3) == 0:
        b = reps.g_seqval(d)
    elif d.int(3) == 0:
        b = reps.close(d, b)
    e = model(a, b)
    c.note('a', a, 'b', b, 'expected', e)
    for i in range(3):
        x, y = reps.rep(d, a), reps.rep(d, b)
        got, back = lib_cmp(x, y), lib_cmp(y, x)

        def where():
            return '%s as %s and %s as %s: got %r and %r, expected %r' % (short(a), type(x).__name__, short(b), type(y).__name__, got, back, e)
        expect(got == e, 'comparison', where)
        expect(back == (None if e is None else -e), 'comparison the other way', where)
        q = lib_eq(x, y)
        expect(q is (None if e is None else e == 0), 'equality', lambda: '%r: %s' % (q, where()))
        if model(a, a) == 0:
            expect(lib_cmp(x, x) == 0, 'a value and itself', where)
    if d.int(3) == 0 and reps.storable(a) and reps.storable(b):
        in_c(d, a, b, e)
    third = reps.close(d, b)
    triple(d, a, b, third)
    if d.int(6) == 5:
        kinds(d)
    c.label({-1: 'less', 0: 'equal', 1: 'greater', None: 'incomparable'}[e])
    if e is not None and not (reps.family(a) == 'num'):
        c.nontrivial(repr((a, b)), lambda: '%s and %s: %d' % (short(a, 200), short(b, 200), e))


def cval(v):
    return capi.CValue(v[0], v[1])


def in_c(d, a, b, e):
    if d.bool():
        ma, mb = [a], [b]
        imgs = []
        for m in (ma, mb):
            if d.bool():
                imgs.append(bytes(pointless.serialize_to_bytearray([pv.real(m[0]), {}])))
            else:
                B, ref = plfmt.build_model([m[0], {}], d)
                imgs.append(B.image(ref))
        with capi.Image(imgs[0]) as p, capi.Image(imgs[1]) as q:
            pair(p, q, plfmt.Decoder(imgs[0]).vec_items(*plfmt.Decoder(imgs[0]).root)[0], plfmt.Decoder(imgs[1]).vec_items(*plfmt.Decoder(imgs[1]).root)[0], a, b, e)
    else:
        B, ref = plfmt.build_model([a, b, {}], d)
        img = B.image(ref)
        dec = plfmt.Decoder(img)
        va, vb, _ = dec.vec_items(*dec.root)
        with capi.Image(img) as p:
            pair(p, p, va, vb, a, b, e)


def pair(p, q, va, vb, a, b, e):
    err = C.c_char_p()
    x, y = cval(va), cval(vb)
    r = cmp_reader(p.p, C.byref(x), q.p, C.byref(y), C.byref(err))
    if e is None:
        # in C, values of different families are ordered by their types
        back = cmp_reader(q.p, C.byref(y), p.p, C.byref(x), C.byref(err))
        expect(err.value is None and r != 0 and sign(back) == -sign(r), 'C comparison of values of different kinds', lambda: '%s and %s: %d %d %r' % (short(a), short(b), r, back, err.value))
        return
    expect(err.value is None and sign(r) == e, 'C comparison', lambda: '%s and %s: %d %r, expected %d' % (short(a), short(b), r, err.value, e))
    r = cmp_acyclic(p.p, C.byref(x), q.p, C.byref(y))
    expect(sign(r) == e, 'C comparison (acyclic)', lambda: '%s and %s: %d, expected %d' % (short(a), short(b), r, e))


def mixed(d, depth=0):
    k = d.int(8)
    if k == 7 and depth < 3:
        return tuple(mixed(d, depth + 1) for _ in range(d.int(4)))
    if k == 6:
        return None
    if k == 5:
        return pv.g_bits(d)
    if k == 4:
        return d.choice(['', 'a', 'é', '€', 'b', 'ab', '\U0001f600'])
    if k == 3:
        v = d.choice(pv.PRIM_TYPES)
        return pv.Prim(v, [d.choice([0, 1, 2, 3, 5, 100]) for _ in range(d.int(4))])
    return reps.g_seqval(d) if k == 2 and depth == 0 else d.choice([0, 1, 2, 3, -1, 0.5, 2.5, True, False, 70000, 2**31 + 5])


def kinds(d):
    """In C, all values without sets and maps are in one order"""
    xs = [mixed(d) for _ in range(3 + d.int(5))]
    if not all(reps.storable(x) for x in xs if not isinstance(x, pv.Prim)):
        return
    B, ref = plfmt.build_model(xs + [{}], d)
    img = B.image(ref)
    dec = plfmt.Decoder(img)
    vs = dec.vec_items(*dec.root)[:-1]
    n = len(vs)
    with capi.Image(img) as p:
        r = []
        for a in vs:
            row = []
            for b in vs:
                err = C.c_char_p()
                x, y = cval(a), cval(b)
                v = cmp_reader(p.p, C.byref(x), p.p, C.byref(y), C.byref(err))
                if err.value:
                    raise Fail('C comparison of values of different kinds', '%r: %s' % (err.value, short(xs)))
                expect(sign(v) == sign(cmp_acyclic(p.p, C.byref(x), p.p, C.byref(y))), 'the two C comparisons differ', lambda: short(xs))
                row.append(sign(v))
            r.append(row)
    for i in range(n):
        for j in range(n):
            expect(r[i][j] == -r[j][i], 'C order: both ways', lambda: '%s and %s: %d and %d' % (short(xs[i]), short(xs[j]), r[i][j], r[j][i]))
            for k in range(n):
                if r[i][j] <= 0 and r[j][k] <= 0:
                    expect(r[i][k] == min(r[i][j], r[j][k]), 'C order: transitivity', lambda: '%s, %s and %s: %d, %d but %d' % (short(xs[i]), short(xs[j]), short(xs[k]), r[i][j], r[j][k], r[i][k]))


def triple(d, a, b, z):
    """transitivity, on the library's own answers"""
    xs = [reps.rep(d, v) for v in (a, b, z)]
    r = [[lib_cmp(x, y) for y in xs] for x in xs]
    for i in range(3):
        for j in range(3):
            for k in range(3):
                p, q, s = r[i][j], r[j][k], r[i][k]
                if p is None or q is None:
                    continue
                if p <= 0 and q <= 0:
                    expect(s is not None and s <= 0 and (s == 0) == (p == 0 and q == 0), 'transitivity', lambda: '%s %s %s: %r' % (short(a), short(b), short(z), r))


EDGE = [0, 1, -1, 0.0, -0.0, 0.5, 1.0, True, False, 2**24, 2**24 + 1, 16777216.0, 2**31 - 1, 2**31, 2147483648.0, -2**31, -2147483648.0, 2**32 - 1, 4294967296.0, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63,
        9223372036854775808.0, 2**64 - 1, 18446744073709551616.0, -2**63, -9223372036854775808.0, float('inf'), float('-inf'), 1e-45, 3.4028234663852886e+38, -1e-45, -2**63 + 1, 2**63 - 2**38]


@divided
def example_numbers(c):
    """every pair of edge numbers, directly, in lists, and as items of typed vectors"""
    for i, a in enumerate(EDGE):
        if i % c.parts != c.part:
            continue
        for b in EDGE:
            e = reps.sgn(a, b)
            forms = [(a, b), ([a], (b,)), ([1, a], [1, b])]
            ra, rb = typed(a), typed(b)
            forms += [(x, y) for x in ra + [[a]] for y in rb + [[b]]]
            for x, y in forms:
                got = lib_cmp(x, y)
                expect(got == e and lib_eq(x, y) is (e == 0), 'comparison of edge numbers', lambda: '%r and %r (%s, %s): %r' % (a, b, type(x).__name__, type(y).__name__, got))
                c.evals += 1


@divided
def example_long(c):
    """differences late in long values"""
    for i, (a, b) in enumerate(reps.long_pairs()):
        if i % c.parts != c.part:
            continue
        d = Draw(seed='long %d' % i)
        e = model(a, b)
        for _ in range(2):
            x, y = reps.rep(d, a), reps.rep(d, b)
            got, back = lib_cmp(x, y), lib_cmp(y, x)
            expect(got == e and back == -e and lib_eq(x, y) is (e == 0) and lib_cmp(x, x) == 0, 'comparison of long values', lambda: '%s as %s and %s as %s: %r %r, expected %r' % (short(a), type(x).__name__, short(b), type(y).__name__, got, back, e))
            c.evals += 1
        if i % 3 == 0:
            in_c(d, a, b, e)


def typed(a):
    out = []
    if type(a) is float:
        out.append(pointless.PointlessPrimVector('f', sequence=[a]))
    elif type(a) is int:
        for t, (lo, hi) in pv.PRIM_RANGES.items():
            if lo <= a <= hi:
                out.append(pointless.PointlessPrimVector(t, sequence=[a]))
    return out + [pointless.Pointless(pointless.serialize_to_bytearray(x)).GetRoot() for x in out]


def example_depth(c):
    """nested deeply, and too deeply"""
    for n in (1, 10, 100, 250, 400):
        a = b = ()
        for _ in range(n):
            a, b = (a, 1), (b, 2)
        expect(lib_cmp(a, b) == -1 and lib_cmp(b, a) == 1 and lib_cmp(a, a) == 0, 'nested', n)
    a = ()
    for _ in range(3000):
        a = (a,)
    for f in (lib_cmp, lib_eq):
        expect(f(a, a) is None, 'too deep a value was compared', f)
