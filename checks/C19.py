"""Sorting of typed vectors, projected sorting and the generic C sort, against reference sorts."""
import ctypes as C
import struct

import pointless

import capi
import pv
from harness import Fail, expect, short

RULE = 'a sort of more than 40 items that were not already in order and had duplicates, a projected sort by at least two value vectors, or a failing comparison in the middle of a sort; distinct by input'
LEVEL = 'exploration'
CONF = {'budget': 25}
ASSUMPTIONS = ['NaN has no place in an order: with NaN only the preservation of the items is checked', 'with a comparison that is not an order, only the preservation of the items is checked']

P = pointless.PointlessPrimVector
RANGES = pv.PRIM_RANGES
INTS = list(RANGES)

CMP = C.CFUNCTYPE(C.c_int, C.c_int, C.c_int, C.POINTER(C.c_int), C.c_void_p)
SWAP = C.CFUNCTYPE(None, C.c_int, C.c_int, C.c_void_p)
sort_ = capi.fn('bentley_sort_', C.c_int, C.c_int, CMP, SWAP, C.c_void_p)


def size(d, big):
    k = d.int(10)
    if k < 3:
        return d.int(9)
    if k < 6:
        return d.choice([6, 7, 8, 9, 39, 40, 41, 42, 48, 63, 64, 65, 100, 127])
    if k < 9:
        return d.int(300)
    return d.int(big)


def pattern(d, n):
    """numbers 0..n-1 arranged in a pattern, with or without duplicates"""
    k = d.int(14)
    if k == 0:
        a = list(range(n))
    elif k == 1:
        a = list(range(n))[::-1]
    elif k == 2:
        a = list(range((n + 1) // 2)) + list(range(n // 2))[::-1]
    elif k == 3:
        a = [i % (1 + d.int(9)) for i in range(n)]
    elif k == 4:
        a = [0] * n
    elif k == 5:
        # sorted but for a few swaps
        a = list(range(n))
        for _ in range(1 + d.int(4)):
            if n:
                i, j = d.int(n), d.int(n)
                a[i], a[j] = a[j], a[i]
    elif k == 6:
        a = [(i * 7919) % (n | 1) for i in range(n)]
    elif k == 7:
        # two values, or three
        m = 2 + d.int(2)
        a = [d.int(m) for _ in range(n)]
    elif k == 8:
        # sorted, with the last or first out of place
        a = list(range(n))
        if n:
            x = a.pop(d.choice([0, n - 1, n // 2]))
            a.insert(d.choice([0, n - 1, n // 2]), x)
    elif k == 9:
        a = [i ^ 1 for i in range(n)]
    elif k == 10:
        s = 1 + d.int(9)
        a = [i // s for i in range(n)]
        if d.bool():
            a.reverse()
    elif k == 11:
        # many equal to the middle one
        a = [d.choice([n // 2, n // 2, d.int(n)]) for _ in range(n)] if n else []
    elif k == 12:
        a = killer(n if n < 600 else 600, d.int(4))
        a += list(range(len(a), n))
    else:
        m = 1 + d.int(n + 1) if n else 1
        a = [d.int(m) for _ in range(n)]
    return a


_killers = {}


def killer(n, how=0):
    """an arrangement on which this sort takes many comparisons (found by answering its questions badly)"""
    if (n, how) not in _killers:
        _killers[n, how] = make_killer(n, how)
    return list(_killers[n, how])


def make_killer(n, how):
    """Adversary: values are only fixed when two open ones are compared, one of them as the smallest so far."""
    gas = n
    val = [gas] * n
    ptr = list(range(n))
    st = [0, 0, 0]

    def cmp(a, b, c, u):
        x, y = ptr[a], ptr[b]
        if val[x] == gas and val[y] == gas:
            st[2] += 1
            if how == 0:
                z = y
            elif how == 1:
                z = x if x == st[1] and st[2] % 7 else y
            elif how == 2:
                z = y if b == a + 1 else x if x == st[1] else y
            else:
                z = y if st[2] * 2654435761 >> 13 & 3 else x
            val[z] = st[0]
            st[0] += 1
        if val[x] == gas:
            st[1] = x
        elif val[y] == gas:
            st[1] = y
        c[0] = (val[x] > val[y]) - (val[x] < val[y])
        return 1

    def swap(a, b, u):
        ptr[a], ptr[b] = ptr[b], ptr[a]
    sort_(n, CMP(cmp), SWAP(swap), None)
    # whatever is still open comes last, in the wrong order
    for x in reversed(ptr):
        if val[x] == gas:
            val[x] = st[0]
            st[0] += 1
    return val


def spread(d, t, a):
    """pattern numbers as items of a type, order preserved where they fit"""
    if t == 'f':
        k = d.int(5)
        if k == 0:
            return [float(x) for x in a]
        if k == 1:
            return [pv.f32(-1.0 / (1 + x)) for x in a]
        if k == 2:
            # neighbouring singles around a power of two or around zero
            base = d.choice([0x3f800000, 0x00000001, 0x7f000000, 0x4b7ffff0])
            return [struct.unpack('f', struct.pack('I', base + x))[0] for x in a]
        if k == 3:
            return [pv.f32(float(x) - len(a) / 2) for x in a]
        return [d.choice([0.0, -0.0, float('inf'), float('-inf'), pv.f32(1e-45), pv.f32(-1e-45), float(x), float('nan') if d.int(9) == 0 else 2.0]) for x in a]
    lo, hi = RANGES[t]
    k = d.int(4)
    if k == 0:
        return [min(hi, x) for x in a]
    if k == 1:
        return [lo + x % (hi - lo + 1) for x in a]
    if k == 2:
        return [hi - x % (hi - lo + 1) for x in a]
    n = max(len(a), 1)
    return [lo + (x * (hi - lo)) // n for x in map(lambda x: min(x, n), a)]


def hasnan(m):
    return any(x != x for x in m)


def interesting(m):
    return len(m) > 40 and len(set(m)) < len(m) and any(x > y for x, y in zip(m, m[1:]))


def plain(d, c):
    t = d.choice(pv.PRIM_TYPES)
    m = spread(d, t, pattern(d, size(d, 2500)))
    c.note('sort', (t, m))
    o = P(t, sequence=m)
    mv = memoryview(o) if d.bool() else None
    expect(o.sort() is None, 'result of sort')
    got = list(o)
    if t == 'f':
        expect(sorted(map(repr, got)) == sorted(map(repr, m)), 'the items are not the same', lambda: '%s %s -> %s' % (t, short(m, 600), short(got, 600)))
        expect(hasnan(m) or all(x <= y for x, y in zip(got, got[1:])), 'not in order', lambda: '%s %s -> %s' % (t, short(m, 600), short(got, 600)))
    else:
        expect(got == sorted(m), 'sorted items', lambda: '%s %s -> %s' % (t, short(m, 600), short(got, 600)))
    expect(len(o) == len(m) and o.typecode == t, 'type or length after sorting')
    if mv is not None:
        expect(bytes(mv) == bytes(memoryview(o)), 'exported buffer')
    if interesting(m):
        c.nontrivial(('plain', t, tuple(map(repr, m))), lambda: 'sort %s %s' % (t, short(m, 150)))


def opened(d, v):
    """as an opened vector, maybe a slice"""
    t, m = v
    if d.int(3) == 0 and m and t != 'f':
        # lists of numbers are stored compressed
        x = [y for y in m]
        if min(x) >= -2**31 and max(x) < (2**31 if min(x) < 0 else 2**32):
            return pointless.Pointless(pointless.serialize_to_bytearray(x)).GetRoot()
    a, b = d.int(4), d.int(4)
    big = [m[-1] if m else 1] * a + m + [m[0] if m else 1] * b
    if t == 'f':
        big = [float(x) for x in big]
    o = pointless.Pointless(pointless.serialize_to_bytearray(P(t, sequence=big))).GetRoot()
    return o[a:a + len(m)]


def proj(d, c):
    t = d.choice(INTS)
    lo, hi = RANGES[t]
    nv = size(d, 1200)
    n = size(d, 1500)
    if nv:
        k = d.int(4)
        top = min(nv, hi + 1)
        if k == 0:
            idx = [x % top for x in pattern(d, n)]
        elif k == 1:
            idx = list(range(top))[:n]
        elif k == 2:
            idx = d.shuffle(list(range(top)))[:n]
        else:
            idx = [d.int(top) for _ in range(n)]
    else:
        idx = []
    nk = d.choice([1, 1, 2, 2, 2, 3, 4, 5, 15, 16])
    vals = []
    for i in range(nk):
        u = d.choice(pv.PRIM_TYPES)
        a = pattern(d, nv)
        if i + 1 < nk and d.int(3):
            # ties, so that later ones decide
            q = 1 + d.int(4)
            a = [x % q for x in a]
        vals.append((u, spread(d, u, a)))
    bad = False
    kind = d.int(12)
    if kind == 0:
        # an index outside
        w = [x for x in (nv, nv + 1, -1, hi, lo, 2 * nv + 7, 2**32, 2**31, 2**16, 2**32 + d.int(nv + 1), -2**31) if lo <= x <= hi and not 0 <= x < nv]
        if w:
            idx.insert(d.int(len(idx) + 1), d.choice(w))
            bad = True
    objs = [P(u, sequence=m) if d.bool() else opened(d, (u, m)) for u, m in vals]
    wrong = False
    if kind == 1:
        wrong = True
        x = d.choice([[1] * nv, None, 5, 'a', P('i8', sequence=[1] * (nv + 1)), P('u32', sequence=[7] * max(nv - 1, 0) if nv else [1]),
                      pointless.Pointless(pointless.serialize_to_bytearray(['a'] * nv or ['b'])).GetRoot(), pointless.Pointless(pointless.serialize_to_bytearray({1: 2})).GetRoot()])
        if nk == 1 and type(x) is P:
            # one vector of another length is fine; make it wrong
            x = None
        objs[d.int(nk)] = x
    if kind == 2:
        o = P('f', sequence=[float(x) for x in idx])
        t, wrong = 'f', True
    else:
        o = P(t, sequence=idx)
    if kind == 3:
        objs = objs * 17
        objs = objs[:17]
        wrong = True
    if kind == 4 and d.bool():
        objs, wrong = [], True
    mv = memoryview(o) if d.bool() else None
    c.note('sort_proj', (t, idx, vals, kind))
    where = lambda: '%s %s by %s' % (t, short(idx, 300), short(vals, 600))
    try:
        r = o.sort_proj(*objs)
    except (ValueError, TypeError) as e:
        expect(wrong or bad, 'projected sort refused', lambda: '%s: %r' % (where(), e))
        expect(list(o) == idx, 'a refused projected sort changed the vector', where)
        return
    expect(not wrong and not bad, 'projected sort accepted', where)
    expect(r is None, 'result of sort_proj')
    got = list(o)
    expect(sorted(got) == sorted(idx), 'the indices are not the same', lambda: '%s -> %s' % (where(), short(got, 300)))
    if not any(hasnan(m) for u, m in vals):
        rows = [tuple(m[i] for u, m in vals) for i in got]
        expect(all(x <= y for x, y in zip(rows, rows[1:])), 'not in order', lambda: '%s -> %s' % (where(), short(got, 300)))
    for x, (u, m) in zip(objs, vals):
        expect([repr(y) for y in x] == [repr(y) for y in m], 'a value vector changed', where)
    if mv is not None:
        expect(bytes(mv) == bytes(memoryview(o)), 'exported buffer')
    if nk > 1 and len(idx) > 3:
        c.nontrivial(('proj', t, tuple(idx), repr(vals)), lambda: 'sort_proj %s %s by %d vectors' % (t, short(idx, 60), nk))


def itself(d, c):
    """the projection as its own value vector: no order, but nothing lost"""
    t = d.choice(INTS)
    n = min(size(d, 100), RANGES[t][1] + 1)
    idx = [x % n for x in pattern(d, n)] if n else []
    o = P(t, sequence=idx)
    o.sort_proj(o, *([o] if d.bool() else []))
    expect(sorted(o) == sorted(idx), 'the indices are not the same', lambda: short(idx))


def generic(d, c):
    n = size(d, 800)
    a = pattern(d, n)
    orig = list(a)
    calls = [0]
    kind = d.int(6)
    fail_at = d.int(d.choice([2 * n + 2, 10 * n + 2, 30])) if kind in (2, 3) else -1
    fail_c = d.choice([0, 0, 1, -1, 2**31 - 1, -2**31]) if kind == 3 else 0
    until = fail_at + d.choice([1, 1, 2, 10**9])
    factor = d.choice([1, 1, 1, 1000, 2**31 // max(2 * n, 1) - 1])
    failed = [False]
    after = [0]
    wrong = []
    messy = kind == 5
    r = d.int(2**62) if messy else 0

    def cmp(i, j, out, u):
        k = calls[0]
        calls[0] += 1
        if not (0 <= i < n and 0 <= j < n):
            wrong.append((i, j))
            return 0
        if fail_at <= k < until and fail_at >= 0:
            failed[0] = True
            out[0] = fail_c
            return 0
        if failed[0]:
            after[0] += 1
        if messy:
            out[0] = ((r >> (k % 61)) ^ (k * 2654435761 >> 7)) % 3 - 1
        else:
            out[0] = (a[i] - a[j]) * factor
        return 1

    def swap(i, j, u):
        if not (0 <= i < n and 0 <= j < n):
            wrong.append((i, j))
            return
        a[i], a[j] = a[j], a[i]
    c.note('generic', (orig, kind, fail_at, until, fail_c))
    ok = sort_(n, CMP(cmp), SWAP(swap), None)
    where = lambda: '%s -> %s, kind %d, failing at %d with %d' % (short(orig, 600), short(a, 600), kind, fail_at, fail_c)
    expect(not wrong, 'position outside', lambda: '%r: %s' % (wrong[:5], where()))
    expect(sorted(a) == sorted(orig), 'the items are not the same', where)
    expect(bool(ok) is not failed[0], 'result of the sort', lambda: '%d after %d comparisons: %s' % (ok, calls[0], where()))
    if failed[0]:
        expect(after[0] <= 8, 'the sort went on after a failed comparison', lambda: '%d more: %s' % (after[0], where()))
    elif not messy:
        expect(a == sorted(orig), 'not in order', where)
    if failed[0] and calls[0] > 10:
        c.nontrivial(('fail', tuple(orig), fail_at, fail_c), lambda: 'comparison %d fails in a sort of %d' % (fail_at, n))
    elif interesting(orig):
        c.nontrivial(('generic', tuple(orig)), lambda: 'generic sort of %s' % short(orig, 100))


def prop(d, c):
    k = d.int(8)
    if k < 3:
        plain(d, c)
    elif k < 6:
        proj(d, c)
    elif k == 6:
        generic(d, c)
    else:
        (itself if d.int(4) == 0 else generic)(d, c)


def example_killers(c):
    """Arrangements on which almost every partition is lopsided."""
    for how in range(4):
        for n in (100, 500, 1000, 2000, 4000):
            a = killer(n, how)
            expect(sorted(a) == list(range(n)), 'arrangement')
            for t in ('u16', 'i32', 'i64', 'f'):
                v = P(t, sequence=[float(x) for x in a] if t == 'f' else a)
                v.sort()
                expect(list(v) == list(range(n)), 'not in order', lambda: 'an arrangement of %d made by adversary %d' % (n, how))
                c.evals += 1
            v = P('u32', sequence=list(range(n)))
            v.sort_proj(P('u32', sequence=a))
            expect([a[i] for i in v] == list(range(n)), 'not in order', lambda: 'an arrangement of %d made by adversary %d, projected' % (n, how))


def example_large(c):
    for n in (20000, 65536, 200001):
        a = [(i * 48271) % 65521 for i in range(n)]
        o = P('u32', sequence=a)
        o.sort()
        expect(list(o) == sorted(a), 'large sort', n)
        b = P('f', sequence=[float(x % 10) for x in a])
        i = P('i32', sequence=range(n))
        i.sort_proj(b, P('u32', sequence=a))
        rows = [(a[j] % 10, a[j]) for j in i]
        expect(rows == sorted(rows) and sorted(i) == list(range(n)), 'large projected sort', n)


# every arrangement of up to 7 items, and of up to 9 items of two values
def enum_count(tier):
    return sum(m**n for n, m in SMALL)


SMALL = [(0, 1), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 4), (7, 3), (8, 3), (9, 2), (10, 2), (11, 2), (12, 2)]


def enum_case(i, c):
    for n, m in SMALL:
        if i < m**n:
            break
        i -= m**n
    a = []
    for _ in range(n):
        a.append(i % m)
        i //= m
    o = P('u8', sequence=a)
    o.sort()
    expect(list(o) == sorted(a), 'sorted items', lambda: '%s -> %s' % (a, list(o)))
    k = P('i16', sequence=range(n))
    k.sort_proj(P('u8', sequence=a))
    expect(sorted(k) == list(range(n)) and [a[j] for j in k] == sorted(a), 'projected sort', lambda: '%s -> %s' % (a, list(k)))
