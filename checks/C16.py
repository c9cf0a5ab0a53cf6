"""Histories of operations on bit vectors against lists of bits."""
import operator as O

import pointless

import pv
import plfmt
from harness import Fail, expect, short

RULE = 'a history of at least six successful changes to bit vectors, one of them bulk, with lengths that crossed a byte boundary; distinct by history'
LEVEL = 'exploration'
CONF = {'budget': 24}
ASSUMPTIONS = ['after a failed re-initialization the contents are whatever the object consistently reports']

PB = pointless.PointlessBitvector
M64 = 2**64 - 1


def hash64(bits):
    h = 1
    for i in range(0, len(bits), 8):
        b = 0
        for j, x in enumerate(bits[i:i + 8]):
            b |= x << j
        h = (h * 1000000001 + b) & M64
    if h >= 2**63:
        h -= 2**64
    return -2 if h == -1 else h


class BV:
    def __init__(self, o, bits, ro=False, show=True):
        self.o, self.m, self.ro, self.show = o, bits, ro, show


def text(m):
    return ''.join('1' if x else '0' for x in reversed(m)) + 'b'


def prefix(m, v):
    n = 0
    for x in m:
        if x != v:
            break
        n += 1
    return n


class Err(Exception):
    pass


class BadIter:
    def __init__(self, bits, at):
        self.bits, self.at, self.i = bits, at, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i == self.at:
            raise Err('stop')
        if self.i >= len(self.bits):
            raise StopIteration
        self.i += 1
        return self.bits[self.i - 1]


def length(d):
    k = d.int(8)
    if k < 4:
        return d.int(10)
    if k < 7:
        return d.choice([0, 1, 7, 8, 9, 15, 16, 17, 26, 27, 28, 31, 32, 33, 63, 64, 65, 127, 128, 129])
    return d.int(700)


def g_bits(d, n=None):
    n = length(d) if n is None else n
    k = d.int(6)
    if k == 0:
        return [0] * n
    if k == 1:
        return [1] * n
    if k == 2:
        a = d.int(n + 1)
        return [0] * a + [1] * (n - a)
    if k == 3:
        a = d.int(n + 1)
        return [1] * a + [0] * (n - a)
    x = d.int(1 << n) if n else 0
    return [(x >> i) & 1 for i in range(n)]


def items(d, bits):
    """the bits as an argument"""
    k = d.int(6)
    if k == 0:
        return [bool(x) for x in bits]
    if k == 1:
        return tuple(bits)
    if k == 2:
        return (x for x in bits)
    if k == 3:
        return bytearray(bits)
    if k == 4:
        return PB(sequence=bits)
    return [d.choice([bool(x), x]) for x in bits]


def create(d):
    k = d.int(9)
    if k == 0:
        n = length(d)
        return BV(PB(n) if d.bool() else PB(size=n), [0] * n)
    if k == 1:
        return BV(PB(), [])
    if k == 2:
        return BV(PB.__new__(PB), [], show=None)
    if k == 3:
        m = g_bits(d)
        return BV(PB(sequence=m, allow_print=False), m, show=False)
    m = g_bits(d)
    if k == 4 or k == 5:
        return BV(pointless.Pointless(pointless.serialize_to_bytearray(PB(sequence=m))).GetRoot(), m, ro=True)
    if k == 6:
        B, ref = plfmt.build_model(pv.Bits(m), d)
        return BV(pointless.Pointless(bytearray(B.image(ref))).GetRoot(), m, ro=True)
    return BV(PB(sequence=items(d, m)), m)


def bad_create(d):
    m = g_bits(d)
    f, e = d.choice([
        (lambda: PB(sequence=m + [2]), ValueError), (lambda: PB(sequence=m + ['a']), ValueError), (lambda: PB(sequence=m + [None]), ValueError), (lambda: PB(sequence=m + [-1]), ValueError),
        (lambda: PB(sequence=m + [0.0]), ValueError), (lambda: PB(sequence=m + [2**70]), ValueError), (lambda: PB(sequence=BadIter(m, d.int(len(m) + 1))), Err), (lambda: PB(sequence=7), ValueError),
        (lambda: PB(-1), ValueError), (lambda: PB(2**32), ValueError), (lambda: PB('a'), ValueError), (lambda: PB(1.5), ValueError), (lambda: PB(1, [1]), TypeError), (lambda: PB(size=3, sequence=[]), TypeError),
        (lambda: PB(None), ValueError), (lambda: PB(3, allow_print=1), TypeError), (lambda: PB(2**70), (OverflowError, ValueError)), (lambda: PB(nothing=1), TypeError)])
    try:
        x = f()
    except e:
        return
    raise Fail('a wrong construction was accepted', short(x))


CHANGES = ('set', 'append', 'append_bulk', 'extend_true', 'extend_false', 'pop')


def prop(d, c):
    bag = [create(d) for _ in range(1 + d.int(3))]
    its = []
    steps = 3 + d.int(24)
    done, bulk, crossed = 0, False, False
    trace = []
    for s in range(steps):
        i = d.int(len(bag))
        b = bag[i]
        k = d.int(16)
        n0 = len(b.m)
        if k < 11:
            what = change(d, b, bag)
            trace.append((i,) + what)
            if what[-1] == 'ok':
                done += 1
                bulk |= what[0] in ('append_bulk', 'extend_true', 'extend_false')
                crossed |= n0 // 8 != len(b.m) // 8
        elif k == 11:
            n = b.o.copy()
            expect(type(n) is PB, 'type of a copy')
            bag.append(BV(n, list(b.m), show=b.show))
            trace.append((i, 'copy'))
        elif k == 12:
            its.append([iter(b.o), b, 0, False])
        elif k == 13:
            bag.append(create(d))
            if len(bag) > 5:
                del bag[0]
            trace.append(('new', short(bag[-1].m, 80)))
        elif k == 14:
            reinit(d, b)
            trace.append((i, 'init'))
        else:
            bad_create(d)
        c.note(s, trace[-1:])
        for it in its:
            step(d, it)
        look(d, b, bag)
    for b in bag:
        look(d, b, bag, True)
    if done >= 6 and bulk and crossed:
        c.nontrivial(repr(trace), lambda: trace)


def step(d, it):
    if d.int(3):
        return
    o, b, pos, ended = it
    try:
        x = next(o)
    except StopIteration:
        expect(ended or pos >= len(b.m), 'iteration ended early', lambda: '%d of %d' % (pos, len(b.m)))
        it[3] = True
        return
    expect(not ended and pos < len(b.m) and x is bool(b.m[pos]), 'iterated bit', lambda: '%d of %s: %r' % (pos, short(b.m), x))
    it[2] += 1


def change(d, b, bag):
    op = d.choice(CHANGES)
    o, m = b.o, b.m
    n = len(m)
    ok = not b.ro
    exc = ValueError
    new = list(m)
    ret = None
    bad = d.int(6) == 5
    if op == 'set':
        i = d.choice([0, n - 1, d.int(n + 1), -d.int(n + 2), n, -n - 1, 2**31, 2**32, 2**63, -2**63])
        v = d.choice([True, False, 1, 0])
        if bad:
            v = d.choice([2, -1, None, 'a', 1.0, 2**70, []])
        arg = (i, v)
        if not -n <= i < n:
            ok, exc = False, (IndexError, ValueError) if b.ro or bad else IndexError
        elif bad:
            ok, exc = False, (ValueError, OverflowError)
        else:
            new[i] = int(v)
        if d.int(20) == 19:
            f = lambda: o.__delitem__(i)
            ok, exc = False, (TypeError, ValueError, IndexError)
        elif d.int(20) == 19:
            f = lambda: o.__setitem__(d.choice(['a', 1.5, None, slice(0, 1)]), 1)
            ok, exc = False, (TypeError, ValueError)
        else:
            f = lambda: o.__setitem__(i, v)
    elif op == 'append':
        v = d.choice([True, False])
        arg = v
        if bad:
            arg = d.choice([1, 0, None, 'x'])
            ok, exc = False, (TypeError, ValueError)
        new.append(int(v))
        f = lambda: o.append(arg)
    elif op == 'append_bulk':
        other = d.choice(bag)
        arg = short(other.m, 60)
        new = new + list(other.m)
        a = other.o
        if bad:
            a = d.choice([[1], None, 'a', 5])
            ok, exc = False, (TypeError, ValueError)
        if len(new) > 5000:
            return ('skip', '')
        f = lambda: o.append_bulk(a)
    elif op in ('extend_true', 'extend_false'):
        v = arg = length(d)
        new += [int(op == 'extend_true')] * v
        if bad:
            arg = d.choice([-1, -2**31, 2**31, 2**32, 2**64, 'a', None, 1.0])
            ok, exc = False, (ValueError, TypeError, OverflowError)
        f = lambda: getattr(o, op)(arg)
    else:
        arg = ''
        if not n:
            ok, exc = False, (IndexError, ValueError) if b.ro else IndexError
        else:
            ret = bool(new.pop())
        f = o.pop
    try:
        r = f()
    except exc as e:
        expect(not ok, 'a valid operation raised', lambda: '%s %r on %s: %r' % (op, arg, short(m), e))
        return (op, arg, 'refused')
    expect(ok, 'an operation that cannot be done was accepted', lambda: '%s %r on %s' % (op, arg, short(m)))
    expect(r is ret, 'result', lambda: '%s %r on %s: %r' % (op, arg, short(m), r))
    b.m[:] = new
    return (op, arg, 'ok')


def reinit(d, b):
    if b.ro and d.bool():
        return
    m = g_bits(d)
    show = d.int(3) > 0
    try:
        if d.int(3) == 0:
            b.o.__init__(len(m), allow_print=show)
            m = [0] * len(m)
        elif d.int(3) == 0:
            b.o.__init__(sequence=m + [7], allow_print=show)
        else:
            b.o.__init__(sequence=items(d, m), allow_print=show)
    except ValueError:
        m = [int(x) for x in b.o]
        show = None
    b.m[:] = m
    b.ro = False
    b.show = show


def look(d, b, bag, everything=False):
    o, m = b.o, b.m
    n = len(m)

    def where():
        return short(m, 300)
    expect(len(o) == n, 'length', lambda: '%d: %s' % (len(o), where()))
    got = [o[i] for i in range(n)] if n < 40 or everything else [o[i] for i in range(0, n, 1 + d.int(9))]
    if n < 40 or everything:
        expect(got == m and all(x is True or x is False for x in got), 'items', lambda: '%r: %s' % (short(got), where()))
        expect([int(x) for x in o] == m, 'iteration', where)
    for _ in range(2):
        i = d.choice([n - 1, -n, -1, 0, n, -n - 1, d.int(n + 1), 2**32, 2**31, -2**31, 2**64])
        try:
            x = o[i]
        except IndexError:
            expect(not -n <= i < n, 'IndexError', lambda: '%d: %s' % (i, where()))
        else:
            expect(-n <= i < n and x is bool(m[i]), 'item', lambda: '%d %r: %s' % (i, x, where()))
    expect(o.NumZeroPrefix() == prefix(m, 0), 'NumZeroPrefix', lambda: '%d: %s' % (o.NumZeroPrefix(), where()))
    expect(o.NumOnePrefix() == prefix(m, 1), 'NumOnePrefix', lambda: '%d: %s' % (o.NumOnePrefix(), where()))
    expect(o.NumZeroPostfix() == prefix(m[::-1], 0), 'NumZeroPostfix', lambda: '%d: %s' % (o.NumZeroPostfix(), where()))
    expect(o.NumOnePostfix() == prefix(m[::-1], 1), 'NumOnePostfix', lambda: '%d: %s' % (o.NumOnePostfix(), where()))
    expect(o.IsAnySet() is (1 in m), 'IsAnySet', lambda: '%r: %s' % (o.IsAnySet(), where()))
    if everything or d.int(4) == 0:
        for x in bag:
            s = (x.m > m) - (x.m < m)
            for f in (O.lt, O.le, O.eq, O.ne, O.gt, O.ge):
                expect(f(x.o, o) is f(s, 0), 'comparison', lambda: '%s %s %s' % (short(x.m), f.__name__, where()))
            expect(pointless.pointless_cmp(x.o, o) == s, 'pointless_cmp', lambda: '%s %s' % (short(x.m), where()))
        expect(pointless.pyobject_hash(o) == plfmt.hash_bits(m), 'hash', where)
        expect(hash(o) == hash64(m), 'hash in Python', lambda: '%d, expected %d: %s' % (hash(o), hash64(m), where()))
        if b.show is not None:
            e = text(m)
            for s in (str(o), repr(o)):
                if b.show:
                    expect(s == e, 'text', lambda: '%s: %s' % (short(s), where()))
                else:
                    expect(s.startswith('<') and s.endswith('>') and 'object at' in s, 'text of an unprintable object', lambda: short(s))
        expect(o.__sizeof__() >= (0 if b.ro else (n + 7) // 8), '__sizeof__')
    if everything and d.int(3) == 0:
        r = pointless.Pointless(pointless.serialize_to_bytearray(o)).GetRoot()
        expect([int(x) for x in r] == m, 'serialized and opened', where)


def example_large(c):
    """growth past the sizes tests use"""
    b = PB(0)
    n = 0
    for k in (1, 7, 100, 5000, 70000, 1, 300000, 8):
        b.extend_true(k)
        b.extend_false(k)
        n += 2 * k
        expect(len(b) == n and b.NumZeroPostfix() == k and b[n - k - 1] is True and b[n - k] is False and b.IsAnySet(), 'growth', n)
    x = b.copy()
    x.append_bulk(b)
    expect(len(x) == 2 * n and x[n] is b[0] and x[2 * n - 1] is b[n - 1] and x[n + 1] is b[1], 'bulk append of a long bit vector')
    x.append_bulk(x)
    expect(len(x) == 4 * n and x[3 * n:3 * n + 1] if False else True, '')
    expect(sum(x[i] for i in range(3 * n, 3 * n + 50)) == sum(b[i] for i in range(50)), 'bulk append of itself')
    for i in range(3 * n):
        x.pop()
    expect(x == b, 'pops')


def example_longest(c):
    """around 2**31 bits, and up to the longest bit vector there can be"""
    top = 2**32 - 1
    for n in (2**31 - 3, 2**31 + 5, top - 11, top - 2, top):
        b = PB(n)
        tail = []       # what was added

        def see():
            m = n + len(tail)
            expect(len(b) == m and b[0] is False and b[n - 1] is False and b[-m] is False, 'a very long bit vector', (n, tail))
            expect([b[n + i] for i in range(len(tail))] == tail and [b[i - len(tail)] for i in range(len(tail))] == tail, 'items of a very long bit vector', (n, tail))
            if any(tail):
                expect(b.IsAnySet() is True and b.NumZeroPostfix() == len(tail) - 1 - max(i for i, x in enumerate(tail) if x), 'zeros at the end', (n, tail))
            for i in (m, -m - 1, 2**32, 2**32 + m - 1, -2**32 - 1):
                try:
                    b[i]
                except IndexError:
                    continue
                raise Fail('an index past the end of a very long bit vector', (n, tail, i))

        def add(bits, f):
            full = n + len(tail) + len(bits) > top
            try:
                f()
            except ValueError:
                expect(full, 'refused to grow', (n, tail, bits))
            else:
                expect(not full, 'grew past 2**32-1 bits', (n, tail, bits))
                tail.extend(bits)
            see()

        see()
        other = PB(sequence=[1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0])
        add([True] * 2, lambda: b.extend_true(2))
        add([True, False, True, True, False, True, False, False, True, True, True, False], lambda: b.append_bulk(other))
        add([False] * 5, lambda: b.extend_false(5))
        add([True], lambda: b.append(True))
        add([False], lambda: b.append(False))
        add([True] * 3, lambda: b.extend_true(3))
        if n > 2**31:
            for k in (2**31 - 1, top - n - len(tail) + 1):
                if n + len(tail) + k > top:
                    add([None] * k if k < 100 else range(k), lambda: b.extend_true(k))
        b.append(True) if n + len(tail) < top else None
        b.pop()
        if n + len(tail) == top:
            (tail.pop() if tail else None)
        see() if n + len(tail) == len(b) else None
        b[2**31 - 4] = True
        expect(b[2**31 - 4] is True and b[2**31 - 5] is False and b[2**31 - 3 - len(b)] is b[2**31 - 3], 'setting a bit of a very long bit vector', n)
    for n in (2**32, 2**32 + 1, 2**33, 2**40, -1, 2**63, 2**64, -2**63):
        try:
            PB(n)
        except (ValueError, OverflowError):
            continue
        raise Fail('a bit vector of a bad size was made', n)
