"""Histories of operations on typed vectors against Python lists."""
import ctypes as C
import math
import struct

import pointless

import pv
from harness import Fail, divided, expect, short

RULE = 'a history of at least eight successful changes of typed vectors, one of them in bulk, one removal and one operation that was refused; distinct by history'
LEVEL = 'exploration'
CONF = {'budget': 25}
LONG = {'example_huge': 240}      # seconds
ASSUMPTIONS = ['after a failed re-initialization the contents are whatever the object consistently reports', 'float items that are too large for single precision are stored as infinity']

P = pointless.PointlessPrimVector
seq_item = C.pythonapi.PySequence_GetItem
seq_item.restype, seq_item.argtypes = C.py_object, [C.py_object, C.c_ssize_t]
RANGES = dict(pv.PRIM_RANGES)
FMT = pv.PRIM_FMT
SIZE = {t: struct.calcsize(f) for t, f in FMT.items()}


class Err(Exception):
    pass


class V:
    def __init__(self, o, t, m, show=True):
        self.o, self.t, self.m, self.show = o, t, m, show


class FloatSub(float):
    pass


class IntSub(int):
    pass


def pack(t, m):
    return struct.pack('=%d%s' % (len(m), FMT[t]), *m)


def key(t, m):
    """exact contents; NaNs are alike"""
    if t == 'f':
        return [repr(x) for x in m]
    return m


def item(d, t, m):
    """a valid item and how it is passed"""
    v = d.choice(m) if m and d.int(3) == 0 else pv.g_prim_item(d, t)
    if t == 'f':
        k = d.int(8)
        if k == 0:
            return v, FloatSub(v)
        if k == 1:
            w = d.choice([0.1, 1e-50, 1e300, -1e300, 3.4028235677973366e38, 16777217.0, 2.0**-149, 1.0000000596046448, math.pi])
            return pv.f32(w), w
        return v, v
    k = d.int(12)
    if k == 0:
        return v, IntSub(v)
    if k == 1 and v in (0, 1):
        return v, bool(v)
    return v, v


def bad_item(d, t):
    """an item that is refused, with the exception"""
    if t == 'f':
        return d.choice([1, True, None, 'a', 1j, [], 2**200, b'1']), TypeError
    lo, hi = RANGES[t]
    k = d.int(3)
    if k == 0:
        return d.choice([1.0, None, 'a', '1', 1j, [], b'1', float('nan')]), TypeError
    return d.choice([x for x in (lo - 1, hi + 1, 2 * lo - 5, 2 * hi + 5, hi + 1 + d.int(2**16), -2**63 - 1, 2**64, 2**64 - 1, -2**63, 2**63, -1, 2**32, 2**32 + 1, 2**8, 2**16, -2**31 - 1, 10**30, -10**30)
                     if not lo <= x <= hi]), ValueError


class Iter:
    """hands out items and may fail at the end"""

    def __init__(self, items, fail):
        self.it, self.fail = iter(items), fail

    def __iter__(self):
        return self

    def __next__(self):
        for x in self.it:
            return x
        if self.fail:
            raise Err('iterator')
        raise StopIteration


def count(d):
    k = d.int(8)
    if k < 4:
        return d.int(5)
    if k < 7:
        return d.choice([7, 8, 12, 16, 19, 24, 26, 34, 35, 45, 57, 70, 84, 99, 115, 17, 18, 31, 32, 33])
    return d.int(400)


def items(d, t, n):
    return [pv.g_prim_item(d, t) for _ in range(n)]


def opened(d, t, m):
    """m as an opened vector, maybe a slice of a bigger one"""
    a, b = d.int(4), d.int(4)
    big = [m[0] if m else 0] * a + m + [m[-1] if m else 0] * b
    if t == 'f':
        big = [float(x) for x in big]
    v = pointless.Pointless(pointless.serialize_to_bytearray(P(t, sequence=big))).GetRoot()
    return v[a:a + len(m)] if a + b or d.bool() else v


def source(d, t, bag, self):
    """(items appended, argument, exception or None)"""
    k = d.int(10)
    if k == 0:
        return list(self.m), self.o, None
    if k == 1:
        same = [x for x in bag if x.t == t]
        x = d.choice(same)
        return list(x.m), x.o, None
    m = items(d, t, count(d))
    if k == 2:
        return m, P(t, sequence=m), None
    if k == 3:
        return m, opened(d, t, m), None
    if k == 4:
        # another type of vector, going through items
        u = d.choice(pv.PRIM_TYPES)
        w = items(d, u, count(d))
        o = P(u, sequence=w) if d.bool() else opened(d, u, w)
        if not w:
            return [], o, None
        if (u == 'f') != (t == 'f'):
            return None, o, TypeError
        if t != 'f' and not all(RANGES[t][0] <= x <= RANGES[t][1] for x in w):
            return None, o, ValueError
        return w, o, None
    if k == 5:
        x, e = bad_item(d, t)
        i = d.int(len(m) + 1)
        return None, d.choice([list, tuple, lambda z: Iter(z, False)])(m[:i] + [x] + m[i:]), e
    if k == 6:
        return None, Iter(m, True), Err
    if k == 7:
        return None, d.choice([7, None, 1.5, object()]), TypeError
    if k == 8:
        return m, Iter(m, False), None
    return m, d.choice([list, tuple, lambda z: (x for x in z)])(m), None


def create(d):
    t = d.choice(pv.PRIM_TYPES)
    k = d.int(7)
    if k == 0:
        return V(P.__new__(P), 'i8', [], None)
    if k == 1:
        return V(P(t), t, [])
    m = items(d, t, count(d))
    if k == 2:
        return V(P(t, sequence=m, allow_print=False), t, m, False)
    if k == 3:
        return V(P(buffer=P(t, sequence=m).serialize()), t, m)
    if k == 4:
        return V(P(type=t, sequence=opened(d, t, m)), t, m)
    return V(P(t, sequence=d.choice([list, tuple, iter])(m)), t, m)


def prop(d, c):
    bag = [create(d) for _ in range(1 + d.int(3))]
    its = []
    trace = []
    good, seen, refused = 0, set(), 0
    for s in range(3 + d.int(26)):
        i = d.int(len(bag))
        b = bag[i]
        k = d.int(20)
        what = None
        if k < 13:
            what = change(d, b, bag)
        elif k == 13:
            n = len(b.m)
            x, y = (d.choice([None, d.int(n + 3), -d.int(n + 3), 2**40, -2**40]) for _ in 'ab')
            if d.int(4) == 0:
                st = d.choice([2, -1, 3, 0])
                try:
                    b.o[x:y:st]
                except ValueError:
                    pass
                else:
                    raise Fail('a slice with a step was accepted', '%r' % (st,))
            r = b.o[slice(x, y, d.choice([None, 1]))]
            expect(type(r) is P, 'type of a slice')
            bag.append(V(r, b.t, b.m[x:y], b.show))
            what = ('slice', (x, y), 'ok')
        elif k == 14:
            what = remap(d, b, bag)
        elif k == 15:
            bag.append(create(d))
            what = ('new', (bag[-1].t, short(bag[-1].m, 60)), '')
        elif k == 16:
            what = reinit(d, b)
        elif k == 17:
            its.append([reversed(b.o) if d.bool() else iter(b.o), b, 0, False])
            its[-1].append(type(its[-1][0]) is type(reversed(b.o)))
        elif k == 18 and b.m:
            # writing through the buffer
            mv = memoryview(b.o)
            j = d.int(len(b.m))
            v, _ = item(d, b.t, b.m)
            z = SIZE[b.t]
            mv[j * z:(j + 1) * z] = pack(b.t, [v])
            b.m[j] = v
            mv.release()
            what = ('buffer write', (j, v), 'ok')
        else:
            bad_create(d)
        if len(bag) > 5:
            del bag[0]
        if what:
            trace.append((i, b.t) + what)
            c.note(s, trace[-1])
            if what[-1] == 'ok':
                good += 1
                seen.add(what[0])
            elif what[-1] == 'refused':
                refused += 1
        for it in its:
            step(d, it)
        for x in bag:
            look(d, x)
    for x in bag:
        look(d, x, True)
    if good >= 8 and seen & {'append_bulk', 'pop_bulk'} and seen & {'pop', 'remove', 'fast_remove'} and refused:
        c.nontrivial(repr(trace), lambda: trace)


def step(d, it):
    if d.int(3):
        return
    o, b, pos, ended, rev = it
    try:
        x = next(o)
    except StopIteration:
        expect(ended or pos >= len(b.m), 'iteration ended early', lambda: '%d of %d' % (pos, len(b.m)))
        it[3] = True
        return
    expect(not ended and pos < len(b.m), 'iteration past the end')
    e = b.m[len(b.m) - 1 - pos if rev else pos]
    expect(repr(x) == repr(e), 'iterated item', lambda: '%d: %r, expected %r' % (pos, x, e))
    it[2] += 1


def find(t, m, v):
    if t == 'f':
        for i, x in enumerate(m):
            if x == v:
                return i
        return -1
    try:
        return m.index(v)
    except ValueError:
        return -1


def query(d, t, m):
    """(argument, index or -1, exception)"""
    k = d.int(4)
    if t == 'f':
        if k == 0:
            x = d.choice([None, 'a', []])
            return x, -1, TypeError
        if k == 1:
            x = d.choice([0, 1, -1, True, 5, 2**24, 2**24 + 1, -2**31])
            return x, find(t, m, pv.f32(float(x))), ValueError
        v, x = item(d, t, m)
        return x, find(t, m, v), ValueError
    if k == 0:
        x = d.choice([None, 'a', 1.0, 0.0, -1, 255, -2**63, 2**63, 2**64 - 1, 2**64, -2**63 - 1, 2**32, 2**32 - 1, 2**31, 2**16, 2**8, 128, -128, 10**40])
        return x, (find(t, m, x) if type(x) is int else -1), ValueError
    v, x = item(d, t, m)
    if k == 1 and m:
        # the same bits as another number
        v = x = d.choice(m) + d.choice([2**8, -2**8, 2**16, -2**16, 2**32, -2**32, 2**64, -2**64])
    return x, find(t, m, v), ValueError


OPS = ('append', 'append_bulk', 'set', 'pop', 'pop_bulk', 'remove', 'fast_remove', 'clear', 'sort')


def change(d, b, bag):
    op = d.weighted([(6, 'append'), (4, 'append_bulk'), (4, 'set'), (4, 'pop'), (2, 'pop_bulk'), (3, 'remove'), (3, 'fast_remove'), (1, 'clear'), (2, 'sort')])
    o, t, m = b.o, b.t, b.m
    n = len(m)
    new = list(m)
    exc = None
    ret = None
    arg = ''
    bad = d.int(5) == 4
    if op == 'append':
        if bad:
            a, exc = bad_item(d, t)
            arg = a
        else:
            v, a = item(d, t, m)
            arg = v
            new.append(v)
        f = lambda: o.append(a)
    elif op == 'append_bulk':
        add, a, exc = source(d, t, bag, b)
        arg = (type(a).__name__, short(add, 60))
        if add is not None:
            if n + len(add) > 3000:
                return None
            new += add
        f = lambda: o.append_bulk(a)
    elif op == 'set':
        i = d.choice([0, n - 1, -1, d.int(n + 1), -d.int(n + 2), n, -n - 1, 2**31, 2**32, 2**63, -2**63, 2**32 + d.int(n + 1), -2**32])
        v, a = item(d, t, m)
        if bad:
            a, exc = bad_item(d, t)
        arg = (i, a)
        if not -n <= i < n:
            exc = (IndexError, exc) if exc else IndexError
        elif exc is None:
            new[i] = v
        k = d.int(30)
        if k == 0:
            f, exc = (lambda: o.__delitem__(i)), (TypeError, IndexError)
            new = list(m)
        elif k == 1:
            w = d.choice(['a', 1.5, None, slice(0, 1)])
            f, exc = (lambda: o.__setitem__(w, a)), TypeError
            new = list(m)
        else:
            f = lambda: o.__setitem__(i, a)
    elif op == 'pop':
        if not n:
            exc = IndexError
        else:
            ret = new.pop()
        f = o.pop
    elif op == 'pop_bulk':
        k = d.choice([0, 1, n, d.int(n + 1), n + 1, -1, 2**32, 2**63 - 1, -2**63, 2**32 + 1])
        arg = k
        if 0 <= k <= n:
            new = m[:n - k]
        else:
            exc = ValueError
        if bad:
            arg = k = d.choice(['a', None, 1.5, 2**64])
            new, exc = list(m), (TypeError, OverflowError)
        f = lambda: o.pop_bulk(k)
    elif op in ('remove', 'fast_remove'):
        a, i, exc = query(d, t, m)
        arg = a
        if i >= 0:
            exc = None
            if op == 'remove':
                del new[i]
            else:
                new[i] = new[-1]
                new.pop()
        f = lambda: getattr(o, op)(a)
    elif op == 'clear':
        new = []
        f = o.clear
    else:
        nan = t == 'f' and any(x != x for x in m)
        f = o.sort
        if not nan:
            new.sort()
    try:
        r = f()
    except Exception as e:
        if exc is None or not isinstance(e, exc):
            raise Fail('an operation raised', '%s %r on %s %s: %r' % (op, arg, t, short(m), e)) from e
        return (op, arg, 'refused')
    expect(exc is None, 'an operation that cannot be done was accepted', lambda: '%s %r on %s %s' % (op, arg, t, short(m)))
    expect(repr(r) == repr(ret), 'result', lambda: '%s %r on %s: %r' % (op, arg, short(m), r))
    if op == 'sort' and t == 'f':
        # zeros of either sign are equal, NaN has no order
        got = list(o)
        expect(sorted(map(repr, got)) == sorted(map(repr, m)), 'sort changed the items', lambda: '%s -> %s' % (short(m), short(got)))
        expect(nan or all(x <= y for x, y in zip(got, got[1:])), 'not sorted', lambda: '%s -> %s' % (short(m), short(got)))
        new = got
    b.m[:] = new
    return (op, arg, 'ok')


def remap(d, b, bag):
    n = len(b.m)
    u = d.choice(pv.PRIM_TYPES)
    k = count(d)
    if u == 'f':
        idx = [float(d.int(n + 1)) for _ in range(k)]
        ok = not idx
    else:
        lo, hi = RANGES[u]
        bad = d.int(3) == 0
        if not n:
            k = 0
        idx = [d.int(min(n, hi + 1)) for _ in range(k)]
        if bad:
            x = d.choice([x for x in (-1, n, n + 1, hi, lo, 2**32, 2**32 + d.int(n + 1), -2**32) if lo <= x <= hi])
            idx.insert(d.int(k + 1), x)
        ok = all(0 <= x < n for x in idx)
    v = P(u, sequence=idx) if d.bool() else opened(d, u, idx)
    try:
        r = P.FromRemap(b.o, v)
    except ValueError:
        expect(not ok, 'FromRemap refused', lambda: '%d %s' % (n, short(idx)))
        return ('remap', (u, short(idx, 60)), 'refused')
    expect(ok, 'FromRemap accepted', lambda: '%d %s' % (n, short(idx)))
    expect(type(r) is P, 'type of FromRemap')
    bag.append(V(r, b.t, [b.m[int(x)] for x in idx], None))
    return ('remap', (u, short(idx, 60)), 'ok')


def reinit(d, b):
    t = d.choice(pv.PRIM_TYPES)
    m = items(d, t, count(d))
    show = d.int(3) > 0
    k = d.int(5)
    try:
        if k == 0:
            b.o.__init__(buffer=P(t, sequence=m).serialize(), allow_print=show)
        elif k == 1:
            x, _ = bad_item(d, t)
            b.o.__init__(t, sequence=m + [x], allow_print=show)
            raise Fail('a bad item was accepted', short(x))
        else:
            b.o.__init__(t, sequence=m, allow_print=show)
    except (ValueError, TypeError):
        expect(k == 1, 'initialization refused')
        t, m, show = b.o.typecode, list(b.o), None
    b.t, b.show = t, show
    b.m[:] = m
    return ('init', (t, short(m, 60)), 'failed' if show is None else 'ok')


def bad_create(d):
    t = d.choice(pv.PRIM_TYPES)
    x, e = bad_item(d, t)
    m = items(d, t, d.int(5))
    f, e = d.choice([
        (lambda: P(t, sequence=m + [x]), e), (lambda: P(t, sequence=Iter(m, True)), Err), (lambda: P(), TypeError), (lambda: P(sequence=m), TypeError), (lambda: P('x'), TypeError), (lambda: P(t.upper()), TypeError),
        (lambda: P(t + '\0'), (TypeError, ValueError)), (lambda: P(''), TypeError), (lambda: P(t, sequence=7), TypeError), (lambda: P(t, buffer=P(t).serialize()), TypeError), (lambda: P(buffer=P(t).serialize(), sequence=[]), ValueError),
        (lambda: P(t, allow_print=1), TypeError), (lambda: P(5), TypeError), (lambda: P.FromRemap(P(t), [1]), ValueError), (lambda: P.FromRemap([1], P(t)), TypeError), (lambda: P(t, nothing=1), TypeError),
        (lambda: P(t).min(), ValueError), (lambda: P(t).max(), ValueError), (lambda: P(t).range(), ValueError), (lambda: P(t).append(), TypeError), (lambda: P(t).append(1, 2), TypeError)])
    try:
        r = f()
    except e:
        return
    raise Fail('a wrong call was accepted', short(r))


def text(t, m):
    if t == 'f':
        return '[' + ', '.join('%f' % x for x in m) + ']'
    return repr(m)


def look(d, b, everything=False):
    o, t, m = b.o, b.t, b.m
    n = len(m)

    def where():
        return '%s %s' % (t, short(m, 300))
    expect(len(o) == n, 'length', lambda: '%d: %s' % (len(o), where()))
    expect(o.typecode == t, 'typecode', lambda: '%r: %s' % (o.typecode, where()))
    if everything or n < 40 or d.int(8) == 0:
        got = list(o)
        expect(all(type(x) is (float if t == 'f' else int) for x in got), 'types of items', where)
        expect(key(t, got) == key(t, m), 'items', lambda: '%s: %s' % (short(got, 300), where()))
        expect(bytes(memoryview(o)) == pack(t, m) or t == 'f' and any(x != x for x in m), 'buffer', where)
    k = d.int(8)
    if everything or k == 0:
        expect(key(t, list(reversed(o))) == key(t, m[::-1]), 'reversed', where)
        expect(key(t, [o[i] for i in range(n)]) == key(t, m) and key(t, [o[i] for i in range(-n, 0)]) == key(t, m), 'indexed items', where)
        expect(key(t, [seq_item(o, i) for i in range(n)]) == key(t, m) and key(t, [seq_item(o, i) for i in range(-n, 0)]) == key(t, m), 'items of the sequence protocol', where)
        for i in (n, -n - 1, -2 * n, n + 1, 2**32, 2**32 + n - 1, -2**32, 2**63 - 1, -2**63):
            if -n <= i < n:
                continue
            try:
                x = seq_item(o, i)
            except IndexError:
                continue
            raise Fail('an item past the end by the sequence protocol', '%d: %r: %s' % (i, x, where()))
    if everything or k == 1:
        if m:
            lo, hi = min(m), max(m)
            expect(repr((o.min(), o.max(), o.range())) == repr((lo, hi, (lo, hi))), 'min, max, range', lambda: '%r %r %r: %s' % (o.min(), o.max(), o.range(), where()))
        else:
            for f in (o.min, o.max, o.range):
                try:
                    f()
                except ValueError:
                    pass
                else:
                    raise Fail('%s of an empty vector' % f.__name__, '')
    if everything or k < 3:
        x, i, e = query(d, t, m)
        try:
            r = o.index(x)
        except e:
            expect(i < 0, 'index refused', lambda: '%r: %s' % (x, where()))
        except Exception as ex:
            raise Fail('index raised', '%r %r: %s' % (x, ex, where()))
        else:
            expect(i >= 0 and r == i, 'index', lambda: '%r is %r: %s' % (x, r, where()))
        if not (t == 'f' and type(x) in (bool, int)) or abs(x) < 2**24:
            expect((x in o) is (i >= 0), 'in', lambda: '%r: %r: %s' % (x, x in o, where()))
    if everything or k == 3:
        for i in (n, -n - 1, 2**31, 2**32, 2**32 + max(n - 1, 0), -2**32, 2**63, -2**64):
            try:
                r = o[i]
            except IndexError:
                pass
            else:
                raise Fail('an index outside was accepted', '%d: %s' % (i, where()))
        for i in ('a', None, 1.0):
            try:
                o[i]
            except TypeError:
                pass
            else:
                raise Fail('a wrong index was accepted', '%r' % (i,))
    if (everything or k == 4) and b.show is not None:
        for s in (str(o), repr(o)):
            if b.show:
                expect(s == text(t, m), 'text', lambda: '%s: %s' % (short(s), where()))
            else:
                expect(s.startswith('<') and 'object at' in s, 'text of an unprintable vector', lambda: short(s))
    expect(o.__sizeof__() >= n * SIZE[t], '__sizeof__', where)


def example_growth(c):
    """every length from 0 up through many reallocations, for every type"""
    for t in pv.PRIM_TYPES:
        v = P(t)
        m = []
        lo, hi = RANGES.get(t, (0, 2**20))
        for i in range(1500):
            x = float(i) if t == 'f' else lo + i * 7919 % (hi - lo + 1)
            v.append(x)
            m.append(x)
            if i % 37 == 0:
                expect(list(v) == m, 'growth', (t, i))
        w = P(t)
        for i in range(12):
            w.append_bulk(v if i % 2 else w)
            if i == 0:
                w.append_bulk(v)
        for i in range(1500):
            expect(v.pop() == m[-1], 'pop', (t, i))
            m.pop()
        expect(len(v) == 0, 'empty again')


@divided
def example_large(c):
    """more items than 16 bits count, with one item that is different"""
    import random
    rng = random.Random(c.seed)
    for j, t in enumerate(pv.PRIM_TYPES):
        if j % c.parts != c.part:
            continue
        zero, one, two = (0.0, 1.0, 2.0) if t == 'f' else (0, 1, 2)
        for n in (65535, 65536, 65537, 70000, 131073, 200000):
            for p in sorted({0, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, n - 2, n - 1, rng.randrange(n), rng.randrange(n)}):
                if not 0 <= p < n:
                    continue
                m = [zero] * n
                m[p] = one
                m[-1] = two if p != n - 1 else one
                v = P(t, sequence=m)
                where = (t, n, p)
                expect(v.index(one) == p and v[p] == one and v[p - n] == one and one in v, 'index in a long vector', where)
                expect(v.max() == max(m) and len(v) == n, 'max of a long vector', where)
                op = rng.randrange(7)
                if op == 0:
                    v.remove(one)
                    del m[p]
                elif op == 1:
                    v.fast_remove(one)
                    m[p] = m[-1]
                    m.pop()
                elif op == 2:
                    v[p] = two
                    m[p] = two
                elif op == 3:
                    v.pop_bulk(n - p)
                    del m[p:]
                elif op == 4:
                    v = v[p - 3 if p > 3 else 0:]
                    m = m[p - 3 if p > 3 else 0:]
                elif op == 5:
                    idx = [rng.randrange(n) for _ in range(50)] + [p, 0, n - 1]
                    v = P.FromRemap(v, P('u32', sequence=idx))
                    m = [m[i] for i in idx]
                else:
                    v.sort()
                    m.sort()
                if rng.randrange(3) == 0:
                    s = P(t, sequence=m)
                    k = rng.randrange(3)
                    if k == 0:
                        v.append_bulk(s)
                        m = m + m
                    elif k == 1 and m:
                        a = rng.randrange(len(m))
                        o = pointless.Pointless(pointless.serialize_to_bytearray(s)).GetRoot()[a:]
                        v.append_bulk(o)
                        m = m + m[a:]
                    else:
                        v.append_bulk(iter(m))
                        m = m + m
                expect(len(v) == len(m) and bytes(memoryview(v)) == pack(t, m), 'contents of a long vector', lambda: '%r, operation %d' % (where, op))
                c.evals += 1
            m = [zero, one, two]
            v = P(t, sequence=m)
            for bad in ('x', None, two if t != 'f' else one):
                def items():
                    for i in range(n):
                        yield one
                    if type(bad) not in (int, float):
                        yield bad
                    raise KeyError(7)
                for src in (items(), [one] * n + ['x']):
                    try:
                        v.append_bulk(src)
                    except Exception:
                        pass
                    else:
                        raise Fail('a bulk append with an item that cannot be in the vector succeeded', repr((t, n)))
                    expect(list(v) == m, 'a long bulk append that failed left items behind', lambda: '%r: %d items' % ((t, n), len(v)))


def example_huge(c):
    """more items than 32 bits count; only in the thorough tier, as it takes a minute and 5 GB"""
    if c.tier != 'thorough' or c.variant != 'rel':
        return
    n = 2**32
    v = P('u8', sequence=bytes(range(200)) * 5)
    while len(v) * 2 <= n:
        v.append_bulk(v)
    v.append_bulk(v[:n + 2 - len(v)])
    for x in (251, 252, 253):
        v.append(x)
    where = 'vector of 2^32 items and more'
    expect(len(v) == n + 5, 'length', where)
    tail = [i % 200 for i in range(n - 3, n + 2)] + [251, 252, 253]     # copies of whole blocks, then of a beginning
    expect([v[i] for i in range(n - 3, n + 5)] == tail and [v[i - n - 5] for i in range(n - 3, n + 5)] == tail, 'items', where)
    expect((v[n + 4], v[n + 3], v[n + 2], v[-1], v[n + 2 - (n + 5)]) == (253, 252, 251, 253, 251), 'items', where)
    expect(list(v[n - 3:]) == tail and len(v[n:]) == 5 and len(v[:0]) == 0 and list(v[n:n + 9]) == tail[3:], 'slices', where)
    r = reversed(v)
    expect([next(r) for _ in range(8)] == tail[::-1], 'reversed', where)
    expect(v.index(252) == n + 3 and 253 in v and 254 not in v, 'search', where)
    for f in (v.sort, v.serialize, lambda: pointless.serialize_to_bytearray([v]), lambda: v[n + 5], lambda: v[-n - 6]):
        try:
            f()
        except (ValueError, IndexError):
            continue
        raise Fail('no error', where)
    v[n + 3] = 7
    v.remove(251)
    expect(list(v[n - 3:]) == tail[:5] + [7, 253], 'remove', where)
    v.fast_remove(253)
    expect(v.pop() == 7 and len(v) == n + 2 and v[n + 1] == tail[4], 'pop', where)
    expect(v.max() == 199 and v.min() == 0 and v.range() == (0, 199) if hasattr(v, 'range') else True, 'max', where)
    v.pop_bulk(n)
    expect(list(v) == [0, 1], 'pop_bulk', where)
