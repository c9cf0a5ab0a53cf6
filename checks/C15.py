"""Opened vectors and their slices against Python lists."""
import bisect
import ctypes as C
import struct

import pointless

import capi
import pv
import plfmt
import reps
from capi import VP, PV as PVAL
from harness import Fail, expect, short, divided

RULE = 'a slice of an opened vector that starts after its first item was used in at least four operations; distinct by contents, element type and slice'
LEVEL = 'exploration'
CONF = {'budget': 24}
ASSUMPTIONS = ['minimum and maximum with NaN follow the rule of min() and max(): the first item that no later item is strictly beyond']

# the packed struct it returns goes through a hidden pointer, which ctypes does not know
value_case = capi.fn('pointless_reader_vector_value_case', VP, C.POINTER(capi.CValue), VP, PVAL, C.c_uint32)
n_items_of = capi.fn('pointless_reader_vector_n_items', C.c_uint32, VP, PVAL)
seq_item = C.pythonapi.PySequence_GetItem
seq_item.restype, seq_item.argtypes = C.py_object, [C.py_object, C.c_ssize_t]
seq_slice = C.pythonapi.PySequence_GetSlice
seq_slice.restype, seq_slice.argtypes = C.py_object, [C.py_object, C.c_ssize_t, C.c_ssize_t]

TYPECODES = {plfmt.VEC_OF_PRIM[t]: t for t in plfmt.VEC_OF_PRIM}
FMT = pv.PRIM_FMT


class Idx:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i


def norm(m):
    """items as they are read back"""
    if type(m) is float:
        return pv.f32(m)
    return m


def canon(x):
    return pv.canon_model(x)


def source(d):
    """(list of model items, image, how)"""
    k = d.int(8)
    n = d.size(6, 80)
    if k == 0:
        m = pv.Prim(d.choice(pv.PRIM_TYPES), [])
        m = pv.Prim(m.t, [pv.g_prim_item(d, m.t) for _ in range(n)])
        if d.int(4) == 0:
            m = pv.Prim(m.t, sorted(m.items))
        items = list(m.items)
    elif k == 1:
        m = [pv.g_int(d) for _ in range(n)]
        items = m
    elif k == 2:
        m = [pv.g_float(d, d.bool()) for _ in range(n)]
        items = [pv.f32(x) for x in m]
    elif k == 3:
        t = d.choice(list(pv.PRIM_RANGES))
        lo, hi = pv.PRIM_RANGES[t]
        lo, hi = max(lo, -2**31), min(hi, 2**32 - 1)
        m = [d.choice([lo, hi, lo + d.int(hi - lo + 1), 0, 1]) for _ in range(n)]
        if d.bool():
            m = [x if d.int(9) else max(lo, 0) for x in m]
        if min(m, default=0) < 0 and max(m, default=0) > 2**31 - 1:
            m = [min(x, 2**31 - 1) for x in m]
        items = m
    elif k == 4:
        m = bytearray(d.bytes(n))
        items = list(m)
    elif k == 5:
        g = pv.G(nodes=40, depth=3, nan=False)
        m = [pv.g_value(d, g, 1) for _ in range(n % 12)]
        items = m
    elif k == 6:
        m = tuple([reps.g_seqval(d, 2, wide=False) for _ in range(n % 12)])
        m = tuple([x for x in m if reps.storable(x)])
        items = list(m)
    else:
        p = [d.choice([0, 1, 'a', 'b', None, True, (1,), (1, 2), 0.5]) for _ in range(2)]
        m = [d.choice(p) for _ in range(n % 20)]
        items = m
    if d.int(3) == 0:
        B, ref = plfmt.build_model(m, d)
        return items, B.image(ref), 'image'
    return items, bytes(pointless.serialize_to_bytearray(pv.real(m))), m


def narrowest(xs):
    if min(xs) >= 0:
        for t in ('u8', 'u16', 'u32'):
            if max(xs) <= pv.PRIM_RANGES[t][1]:
                return t
    for t in ('i8', 'i16', 'i32'):
        lo, hi = pv.PRIM_RANGES[t]
        if lo <= min(xs) and max(xs) <= hi:
            return t


def prop(d, c):
    items, img, how = source(d)
    dec = plfmt.Decoder(img)
    t = dec.root[0]
    base = pointless.Pointless(bytearray(img))
    v = base.GetRoot()
    c.note('items', items, 'type', t, 'how', how)
    L = [norm(x) for x in items]
    if how != 'image' and L:
        e = how.t if type(how) is pv.Prim else 'u8' if type(how) is bytearray else narrowest(L) if all(type(x) is int for x in L) else 'f' if all(type(x) is float for x in L) else None
        expect(TYPECODES.get(t) == e, 'element type', lambda: '%r: %r, expected %r' % (short(items), TYPECODES.get(t), e))
    # a chain of slices
    off = 0
    n = len(L)
    for _ in range(d.int(4) if d.bool() else 1):
        i, j, k = bounds(d, n)
        v = v[i:j] if k == 0 else v[slice(i, j, 1)] if k == 1 else v[i:j:None] if k == 2 else seq_slice(v, max(-n, min(2**62, i or 0)), 2**62 if j is None else j)
        a, b, _ = slice(i, j).indices(n)
        b = max(a, b)
        off, n = off + a, b - a
        expect(len(v) == n, 'length of a slice', lambda: '%r:%r of %d: %d, expected %d' % (i, j, len(L), len(v), n))
    S = L[off:off + n]
    refs = dec.vec_items(*dec.root)[off:off + n] if t in (plfmt.VALUE, plfmt.HASHABLE) else None
    c.note('slice', off, n)
    if d.int(4) == 0:
        c_level(img, dec, items, d)
    ops = 2 + d.int(8)
    for _ in range(ops):
        op = d.choice([read, iterate, contains, order, minmax, info, buffer, bisection, errors])
        c.note(op.__name__)
        op(d, v, S, t, dec, refs)
    expect(len(v) == len(S), 'len')
    if off and n and ops >= 4:
        c.nontrivial('%d %d %r' % (t, off, S), lambda: 'type %d, [%d:%d] of %s' % (t, off, off + n, short(L, 300)))


def bounds(d, n):
    def one():
        k = d.int(8)
        if k == 0:
            return None
        if k == 1:
            return d.choice([-n - 1, -n, n, n + 1, 2**31, -2**31, 2**32, 2**62, -2**62, 2**32 + 1])
        if k == 2:
            return -d.int(n + 2)
        return d.int(n + 2)
    i, j, k = one(), one(), d.int(4)
    if k == 3 and (j is not None and j < 0 or i is not None and i < 0 or i is not None and i > n):
        k = 0
    return i, j, k


def same(x, e):
    return pv.canon_open(x) == canon(e)


def read(d, v, S, t, dec, refs):
    n = len(S)
    for _ in range(4):
        i = d.choice([0, n - 1, n, -1, -n, -n - 1, d.int(n + 1), -d.int(n + 1) - 1, 2**31, 2**32, 2**63, -2**63, -2**70, 2**32 + d.int(n + 1), -2**32])
        k = d.int(4)
        if k == 3 and n and -n <= i < n:
            x = seq_item(v, i)
        else:
            j = Idx(i) if k == 2 else bool(i) if k == 1 and i in (0, 1) else i
            try:
                x = v[j]
            except IndexError:
                expect(not -n <= i < n, 'IndexError for a valid index', lambda: '%d of %d' % (i, n))
                continue
            expect(-n <= i < n, 'an index outside was accepted', lambda: '%d of %d: %s' % (i, n, short(x)))
        expect(same(x, S[i]), 'item', lambda: '[%d] %s, expected %s' % (i, short(x), short(S[i])))


def iterate(d, v, S, t, dec, refs):
    its = [(iter(v), list(S)), (reversed(v), S[::-1])]
    if d.bool():
        its.append((iter(v), list(S)))
    pos = [0] * len(its)
    for _ in range(len(its) * (len(S) + 2)):
        k = d.int(len(its)) if len(S) < 8 else _ % len(its)
        it, e = its[k]
        try:
            x = next(it)
        except StopIteration:
            expect(pos[k] == len(e), 'iteration ended early', lambda: '%d of %d' % (pos[k], len(e)))
            continue
        expect(pos[k] < len(e) and same(x, e[pos[k]]), 'iterated item', lambda: '%d: %s, expected %s' % (pos[k], short(x), short(e[pos[k]:pos[k] + 1])))
        pos[k] += 1
    if d.int(3) == 0:
        a, b = list(v), tuple(v)
        expect(len(a) == len(b) == len(S) and all(same(x, y) for x, y in zip(a, S)), 'list()')


def member(xs, q):
    return any(pv_eq(x, q) for x in xs)


def pv_eq(x, q):
    try:
        return reps.cmp(x, q) == 0
    except reps.Incomparable:
        return False


def has_table(m):
    t = type(m)
    return t in (dict, set, frozenset) or t in (list, tuple) and any(has_table(x) for x in m)


def contains(d, v, S, t, dec, refs):
    for _ in range(3):
        if S and d.int(3):
            q = S[d.int(len(S))]
            if has_table(q):
                continue
            if d.bool():
                q = reps.close(d, q)
        else:
            q = reps.g_seqval(d, 2)
        # a set or map has no order and no equality: comparing with it may be refused
        x = reps.rep(d, q)
        e = member([y for y in S if not has_table(y)], q)
        try:
            got = x in v
        except ValueError:
            expect(any(has_table(y) for y in S), 'membership raised', lambda: '%s in %s' % (short(x), short(S)))
            continue
        expect(got is e, 'membership', lambda: '%s as %s in %s: %r' % (short(q), type(x).__name__, short(S), got))


def order(d, v, S, t, dec, refs):
    if any(has_table(x) for x in S):
        return
    T = list(S)
    k = d.int(5)
    if k == 0 and T:
        i = d.int(len(T))
        T[i] = reps.close(d, T[i])
    elif k == 1:
        T = T[:d.int(len(T) + 1)]
    elif k == 2:
        T.append(reps.g_num(d, False))
    elif k == 3:
        T = [reps.g_seqval(d, 2, False) for _ in range(d.int(4))]
    T = [x for x in T if reps.storable(x)]
    w = reps.view(d, T)
    T = [norm(x) for x in T]
    # nothing is equal to NaN
    i = 0
    while i < len(S) and i < len(T) and pv_eq(S[i], T[i]):
        i += 1
    if i < len(S) and i < len(T):
        try:
            cc = None if S[i] != S[i] or T[i] != T[i] else reps.cmp(S[i], T[i])
        except reps.Incomparable:
            cc = 'type'
        if cc not in ('type', None) and has_nan(S[i]) | has_nan(T[i]):
            return
        if cc == 'type' and (type(S[i]) in (list, tuple) or type(T[i]) in (list, tuple)):
            # which items of those decide
            deep = first(S[i], T[i])
            if deep is not None and has_nan(deep):
                return
    else:
        cc = reps.sgn(len(S), len(T))
    import operator as o
    for f, fs in ((o.lt, (-1,)), (o.le, (-1, 0)), (o.eq, (0,)), (o.ne, (-1, 1)), (o.gt, (1,)), (o.ge, (0, 1))):
        try:
            got = f(v, w)
        except TypeError:
            expect(cc == 'type' and f not in (o.eq, o.ne), 'comparison raised', lambda: '%s %s %s' % (short(S), f.__name__, short(T)))
            continue
        e = (f is o.ne) if cc in ('type', None) and f in (o.eq, o.ne) else False if cc is None else None if cc == 'type' else cc in fs
        if cc == 'type' and f not in (o.eq, o.ne) and S[i] is None and T[i] is None:
            continue
        expect(got is e, 'comparison', lambda: '%s %s %s: %r, expected %r' % (short(S), f.__name__, short(T), got, e))
    expect((v == T) is False or (v == T) is True, 'comparison with a list')


def first(a, b):
    return (a, b)


def has_nan(m):
    t = type(m)
    if t is float:
        return m != m
    if t in (list, tuple):
        return any(has_nan(x) for x in m)
    return False


def minmax(d, v, S, t, dec, refs):
    prim = t not in (plfmt.VALUE, plfmt.HASHABLE)
    if not prim or not S:
        for f in (v.min, v.max, v.range):
            try:
                x = f()
            except ValueError:
                continue
            raise Fail('minimum or maximum of nothing', short(x))
        return
    lo = hi = S[0]
    for x in S[1:]:
        if x < lo:
            lo = x
        if x > hi:
            hi = x
    a, b, r = v.min(), v.max(), v.range()
    expect(same(a, lo), 'minimum', lambda: '%r of %s' % (a, short(S)))
    expect(same(b, hi), 'maximum', lambda: '%r of %s' % (b, short(S)))
    expect(type(r) is tuple and len(r) == 2 and same(r[0], lo) and same(r[1], hi), 'range', lambda: '%r of %s' % (r, short(S)))


def info(d, v, S, t, dec, refs):
    if t in TYPECODES:
        expect(v.typecode == TYPECODES[t], 'typecode', lambda: v.typecode)
    else:
        try:
            x = v.typecode
        except ValueError:
            pass
        else:
            raise Fail('typecode of a vector without one', x)
    e = all(dec.hashable(r) for r in refs) and t == plfmt.HASHABLE if refs is not None else True
    expect(v.is_hashable in (0, 1) and bool(v.is_hashable) == e, 'is_hashable', lambda: '%r, expected %r: %s' % (v.is_hashable, e, short(S)))
    if e:
        got = pointless.pyobject_hash(v)
        # items of wide integers included
        exp = plfmt.hash_model(pv.Prim(TYPECODES[t], S)) if t in TYPECODES else plfmt.hash_model(tuple(S))
        expect(got == exp, 'hash', lambda: '%d, expected %d' % (got, exp))
    else:
        try:
            pointless.pyobject_hash(v)
        except ValueError:
            pass
        else:
            raise Fail('an unhashable vector was hashed', short(S))
    expect(bool(v) == bool(S), 'truth')


def buffer(d, v, S, t, dec, refs):
    if t in (plfmt.VALUE, plfmt.HASHABLE):
        try:
            memoryview(v)
        except BufferError:
            return
        raise Fail('a buffer of a vector of values', short(S))
    fmt = 'f' if t == plfmt.FLOATV else FMT[TYPECODES[t]] if t in TYPECODES else 'B'
    with memoryview(v) as mv:
        got = bytes(mv)
        if fmt == 'f':
            ok = len(got) == 4 * len(S) and all(same(x, y) for x, y in zip(struct.unpack('<%df' % len(S), got), S))
        else:
            ok = got == struct.pack('<%d%s' % (len(S), fmt), *S)
        expect(ok and mv.nbytes == len(got), 'buffer', lambda: '%r of %s' % (got, short(S)))
        expect(mv.readonly, 'a buffer of an opened image can be written')


def bisection(d, v, S, t, dec, refs):
    x = d.choice(S) if S and d.bool() else d.choice([0, 1, 2**31, 2**32, 2**63, 2**64 - 1, d.int(50)])
    if type(x) is int and d.int(3) == 0:
        x += d.choice([1, -1])
    if t != plfmt.VEC_OF_PRIM['u64'] or type(x) is not int or not 0 <= x < 2**64:
        try:
            got = v.bisect_left(x)
        except ValueError:
            return
        raise Fail('bisection of something else', '%r in %s: %r' % (x, short(S), got))
    if S == sorted(S):
        got = v.bisect_left(x)
        expect(got == bisect.bisect_left(S, x), 'bisection', lambda: '%d in %s: %d' % (x, short(S), got))


def errors(d, v, S, t, dec, refs):
    for f, ok in ((lambda: v['a'], TypeError), (lambda: v[0.5], TypeError), (lambda: v[None], TypeError), (lambda: v[::2], ValueError), (lambda: v[::-1], ValueError), (lambda: v[1:2:0], ValueError),
                  (lambda: v['a':], TypeError), (lambda: v.bisect_left(-1), ValueError), (lambda: v.bisect_left(2**64), ValueError), (lambda: v.bisect_left(), ValueError), (lambda: v.bisect_left('a'), ValueError),
                  (lambda: v.__setitem__(0, 1), (TypeError, AttributeError)), (lambda: v.__delitem__(0), (TypeError, AttributeError)), (lambda: setattr(v, 'container_id', 3), (AttributeError, TypeError)),
                  (lambda: type(v)(), TypeError), (lambda: hash(v), TypeError)):
        try:
            x = f()
        except ok:
            continue
        except Exception as e:
            raise Fail('unexpected exception', '%s: %s' % (type(e).__name__, e))
        raise Fail('a wrong operation was accepted', short(x))


def c_level(img, dec, items, d):
    """the item accessors of C"""
    t, ref = dec.root
    with capi.Image(img) as im:
        v = capi.Value(t, ref)
        n = n_items_of(im.p, C.byref(v))
        expect(n == len(items), 'number of items in C', lambda: '%d, expected %d' % (n, len(items)))
        cv = capi.CValue()
        # one generic accessor for all element types
        e = dec.vec_items(t, ref) if t in (plfmt.VALUE, plfmt.HASHABLE) else None
        for i in range(n):
            value_case(C.byref(cv), im.p, C.byref(v), i)
            if e is not None:
                raw, ok = cv.data & 0xffffffff, (e[i][0], e[i][1] & 0xffffffff)
                expect((cv.type, raw) == ok, 'item in C', lambda: '%d: %r, expected %r' % (i, (cv.type, raw), ok))
                continue
            x = items[i]
            if t == plfmt.FLOATV:
                got = struct.unpack('<f', struct.pack('<I', cv.data & 0xffffffff))[0]
                expect(cv.type == plfmt.FLOAT and same(got, pv.f32(x)), 'item in C', lambda: '%d: %r, expected %r' % (i, got, x))
                continue
            if cv.type == plfmt.I32:
                got = C.c_int32(cv.data & 0xffffffff).value
            elif cv.type == plfmt.U32:
                got = cv.data & 0xffffffff
            elif cv.type == 27:
                got = C.c_int64(cv.data).value
            elif cv.type == 28:
                got = cv.data
            else:
                raise Fail('type of an item in C', cv.type)
            expect(got == x, 'item in C', lambda: '%d: %d, expected %d' % (i, got, x))


@divided
def example_big(c):
    """offsets beyond 16 bits, of every element size"""
    import random
    r = random.Random(c.seed)
    for k, t in enumerate(pv.PRIM_TYPES):
        if k % c.parts != c.part:
            continue
        n = 70000 + k
        xs = [pv.f32(r.random()) for _ in range(n)] if t == 'f' else [r.randint(*pv.PRIM_RANGES[t]) for _ in range(n)]
        v = pointless.Pointless(pointless.serialize_to_bytearray(pointless.PointlessPrimVector(t, sequence=xs))).GetRoot()
        for a, b in ((0, n), (65530, 65550), (65536, n), (1, 65537), (66000, n - 1)):
            s = v[a:b]
            e = xs[a:b]
            expect(len(s) == len(e) and list(s) == e and s.min() == min(e) and s.max() == max(e) and list(reversed(s)) == e[::-1], 'long slice', (t, a, b))
            expect(s[5:-3][1] == e[6] and s[len(e) - 1] == e[-1] and s[-len(e)] == e[0], 'item of a long slice', (t, a, b))
            expect(e[-1] in s and (t == 'f' or len(e) < 70000 or e[-2] in s[10:]), 'membership in a long slice', (t, a, b))
            if t == 'u64':
                w = sorted(set(e))
                u = pointless.Pointless(pointless.serialize_to_bytearray(pointless.PointlessPrimVector(t, sequence=w))).GetRoot()
                for x in (w[0], w[-1], w[len(w) // 2], w[min(100, len(w) - 1)] + 1, 0, 2**64 - 1):
                    expect(u.bisect_left(x) == bisect.bisect_left(w, x) and u[77:].bisect_left(x) == bisect.bisect_left(w[77:], x), 'bisection of a long vector', x)
