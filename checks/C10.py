"""Opened maps and sets against dict and set."""
import struct

import pointless

import plfmt
import pv
from harness import Fail, expect, short, divided

RULE = 'a map or set of at least two entries was compared, with lookups of present and of absent keys; distinct by image and lookups'
LEVEL = 'exploration'
CONF = {'budget': 24}


def mk(m):
    """Key under which a model dict finds a model value: numbers by value, sequences by items, no matter which object holds them."""
    t = type(m)
    if m is None:
        return 'none'
    if t in (bool, int, float):
        x = pv.f32(m) if t is float else m
        return ('num', 0 if x == 0 else x)
    if t is str:
        return ('s', m)
    if t in (tuple, list):
        return ('v',) + tuple([mk(x) for x in m])
    if t is pv.Prim:
        return ('v',) + tuple([mk(x) for x in m.items])
    if t is pv.Bits:
        return ('b', m.bits)
    raise TypeError(t)


def step_f32(x, k):
    i = struct.unpack('<i', struct.pack('<f', x))[0] + k
    y = struct.unpack('<f', struct.pack('<i', max(-2**31, min(2**31 - 1, i))))[0]
    return y if y == y else 0.5


def near(d, k):
    """A key close to k, which may equal it"""
    t = type(k)
    j = d.int(8)
    if t is bool or k is None:
        return d.choice([0, 1, 0.0, 1.0, False, True, None, '', (), pv.Bits([])])
    if t is int:
        if j == 0:
            return float(k) if pv.f32(float(k)) == k else k
        if j == 1 and k in (0, 1):
            return bool(k)
        if j == 2:
            return (k,)
        if j == 3:
            return str(k)
        if j == 4:
            return max(-2**31, min(2**32 - 1, k + d.choice([2**8, 2**16, -2**16, 2**31, -2**32, 2**32 - 1])))
        if j == 5:
            return -k if k <= 2**31 else k
        return max(-2**31, min(2**32 - 1, k + d.choice([1, -1, 0])))
    if t is float:
        if j < 2 and k == k and abs(k) < 2**31 and int(k) == k:
            return int(k)
        if j == 2:
            return k + 1e-9 if abs(k) < 1e30 else k
        if j == 3:
            return -k
        return step_f32(k, d.choice([1, -1, 2, 0])) if abs(k) < 3e38 else k
    if t is str:
        if j == 0:
            return k + d.choice(['a', '\x01', 'é', '€', '\U0001f600', ' '])
        if j == 1:
            return k[:-1]
        if j == 2 and k:
            i = d.int(len(k))
            return k[:i] + chr(max(1, (ord(k[i]) + d.choice([1, -1, 256, 65536, 128])) % 0x110000)) + k[i + 1:]
        if j == 3:
            return k[::-1]
        if j == 4:
            return tuple(k) if len(k) < 6 else (k,)
        if j == 5:
            return plfmt.hash_model(k)
        if j == 6:
            return ''.join(list(k))
        return k[1:]
    if t is tuple:
        if j == 0:
            return k + (0,)
        if j == 1:
            return k[:-1]
        if j == 2 and k:
            i = d.int(len(k))
            return k[:i] + (near(d, k[i]),) + k[i + 1:]
        if j == 3:
            return (k,)
        if j == 4:
            return k[::-1]
        if j == 5 and len(k) == 1:
            return k[0]
        if j == 6 and k and all(type(x) is int and x in (0, 1) for x in k):
            return pv.Bits(k)
        return tuple([float(x) if type(x) is int and pv.f32(float(x)) == x else x for x in k])
    if t is pv.Bits:
        b = list(k.bits)
        if j == 0:
            return pv.Bits(b + [0])
        if j == 1:
            return pv.Bits(b + [1])
        if j == 2:
            return pv.Bits(b[:-1])
        if j == 3 and b:
            i = d.int(len(b))
            b[i] ^= 1
            return pv.Bits(b)
        if j == 4:
            return tuple(b) if len(b) < 50 else tuple(b[:3])
        if j == 5:
            return pv.Bits(b[::-1])
        return pv.Bits(b)
    return 0


def as_lookup(d, k):
    """A Python object that stands for the key"""
    t = type(k)
    j = d.int(6)
    if t is tuple and k:
        if j == 0:
            # a vector of another image, or a slice of a longer one
            a, b = d.int(3), d.int(3)
            r = pointless.Pointless(pointless.serialize_to_bytearray(pv.real((9,) * a + k + (9,) * b))).GetRoot()
            return r[a:a + len(k)] if a or b else r
        if j == 1:
            if all(type(x) is int for x in k):
                ts = [pt for pt, (lo, hi) in pv.PRIM_RANGES.items() if all(lo <= x <= hi for x in k)]
                return pointless.PointlessPrimVector(d.choice(ts), sequence=k)
            if all(type(x) is float for x in k):
                return pointless.PointlessPrimVector('f', sequence=k)
        if j == 2:
            return tuple([as_lookup(d, x) for x in k])
    if t is pv.Bits:
        if j < 3:
            return pointless.Pointless(pointless.serialize_to_bytearray(pv.real(k))).GetRoot()
        if j == 3:
            b = pointless.PointlessBitvector(0)
            for x in k.bits:
                b.append(bool(x))
            return b
    if t is str and j == 0:
        class S(str):
            pass
        return S(k)
    return pv.real(k)


def many(d):
    """A set of many keys with regular structure"""
    n = d.choice([10, 30, 100, 341, 342, 343, 683, 1000, 3000])
    n = max(2, n - d.int(9))
    k = d.int(7)
    if k == 0:
        s = 1 << d.int(20)
        return [(i * s) % 2**32 for i in range(n)]
    if k == 1:
        return [str(i) for i in range(n)]
    if k == 2:
        return [chr(97 + i % 26) * (i // 26 + 1) for i in range(min(n, 500))]
    if k == 3:
        return [(i, -i) for i in range(n)]
    if k == 4:
        return [float(i) * 0.5 for i in range(n)]
    if k == 5:
        return [pv.Bits([1] * i + [0]) for i in range(min(n, 120))]
    return [d.int(2**32) for _ in range(n)]


def prop(d, c):
    g = pv.G(nodes=200)
    if d.int(12) == 11:
        keys = many(d)
    else:
        keys = []
        for _ in range(d.size(8, 60)):
            keys.append(near(d, d.choice(keys)) if keys and d.int(4) == 0 else pv.g_key(d, g))
    is_map = d.int(3) != 0
    model = {}
    for i, k in enumerate(keys):
        if has_nan(k):
            continue
        k = fix(k)
        if mk(k) not in model:
            model[mk(k)] = (k, pv.g_scalar(d, g) if d.int(4) == 3 else i)
    # the dict to serialize, in an order of its own
    entries = list(model.values())
    m = {k: v for k, v in entries} if is_map else set(k for k, _ in entries)
    if len(m) != len(model):
        # Python tells apart what the model does not
        raise Fail('harness', 'model %r' % (entries,))
    wrap = d.int(4)
    w = [m, [1, m], {'x': m}, (m, m)][wrap]
    if d.int(4) == 3 and len(m) < 200:
        B, ref = plfmt.build_model(w, d)
        img = B.image(ref)
    else:
        img = pointless.serialize_to_bytearray(pv.real(w))
    r = pointless.Pointless(bytearray(img)).GetRoot()
    x = [lambda: r, lambda: r[1], lambda: r['x'], lambda: r[0]][wrap]()
    expect(type(x) is (pv.PM if is_map else pv.PS), 'kind', type(x))
    expect(len(x) == len(model), 'len', lambda: '%d entries, expected %d' % (len(x), len(model)))
    c.note('entries', entries)
    iterate(d, x, model, is_map)
    probes = []
    ents = entries if len(entries) < 40 else [d.choice(entries) for _ in range(40)]
    for k, _ in ents:
        probes.append(k)
        if d.int(2):
            probes.append(near(d, k))
    for _ in range(4):
        probes.append(pv.g_key(d, g))
    n_abs = n_pres = 0
    for k in probes:
        if has_nan(k):
            continue
        e = model.get(mk(k))
        if e is None:
            n_abs += 1
        else:
            n_pres += 1
        look(d, x, k, e, is_map)
    if len(model) > 1 and n_abs and n_pres:
        c.nontrivial(bytes(img) + repr(len(probes)).encode(), lambda: '%s of %d entries: %s; looked up %s' % (
            'map' if is_map else 'set', len(model), short(entries, 200), short(probes, 200)))
    c.label('present', n_pres)
    c.label('absent', n_abs)


def has_nan(k):
    if type(k) is float:
        return k != k
    if type(k) is tuple:
        return any(has_nan(x) for x in k)
    return False


def fix(k):
    """only values that are stored exactly"""
    if type(k) is float:
        return pv.f32(k)
    if type(k) is tuple:
        return tuple([fix(x) for x in k])
    return k


def look(d, x, k, e, is_map):
    o = as_lookup(d, k)

    def bad(what, got, exp):
        raise Fail('%s of %s key' % (what, 'a present' if e else 'an absent'), 'key %s as %s: got %s, expected %s' % (short(k), type(o).__name__, short(got), short(exp)))

    try:
        got = o in x
    except Exception as ex:  # noqa
        bad('membership', ex, e is not None)
    if got is not (e is not None):
        bad('membership', got, e is not None)
    if not is_map:
        return
    try:
        v = x[o]
        if e is None:
            bad('item access', v, 'KeyError')
        if pv.canon_open(v) != pv.canon_model(e[1]):
            bad('item access', v, e[1])
    except KeyError as ex:
        if e is not None:
            bad('item access', ex, e[1])
    except Fail:
        raise
    except Exception as ex:  # noqa
        bad('item access', ex, 'no such exception')
    try:
        dflt = object()
        v = x.get(o, dflt)
        if e is None:
            if v is not dflt:
                bad('get with default', v, 'the default')
            v = x.get(o)
            if v is not None:
                bad('get', v, None)
        else:
            if pv.canon_open(v) != pv.canon_model(e[1]):
                bad('get with default', v, e[1])
            if pv.canon_open(x.get(o)) != pv.canon_model(e[1]):
                bad('get', x.get(o), e[1])
    except Fail:
        raise
    except Exception as ex:  # noqa
        bad('get', ex, 'no exception')


def iterate(d, x, model, is_map):
    exp = sorted(repr(pv.canon_model(k)) for k, _ in model.values())
    order = [pv.canon_open(k) for k in x]
    expect(sorted(map(repr, order)) == exp, 'iteration over keys', lambda: 'got %s expected %s' % (short(order), short(exp)))
    if d.int(2):
        # two iterators at different positions
        a, b = iter(x), iter(x)
        out_a, out_b = [], []
        while True:
            k = d.int(2)
            try:
                if k:
                    out_a.append(pv.canon_open(next(a)))
                else:
                    out_b.append(pv.canon_open(next(b)))
            except StopIteration:
                break
        for it, out in ((a, out_a), (b, out_b)):
            out += [pv.canon_open(k) for k in it]
            expect(out == order, 'interleaved iteration', lambda: short(out))
            expect(list(it) == [], 'iteration went on after its end')
    if is_map:
        ks = [pv.canon_open(k) for k in x.keys()]
        vs = [pv.canon_open(v) for v in x.values()]
        it = [(pv.canon_open(k), pv.canon_open(v)) for k, v in x.items()]
        expect(ks == order, 'keys()', lambda: short(ks))
        expect(it == list(zip(ks, vs)), 'items() against keys() and values()', lambda: short((it, ks, vs)))
        want = sorted(repr((pv.canon_model(k), pv.canon_model(v))) for k, v in model.values())
        expect(sorted(map(repr, it)) == want, 'items()', lambda: 'got %s, expected %s' % (short(it), short(want)))


def example_nul(c):
    """A string with NUL is equal to no stored string."""
    x = pointless.Pointless(pointless.serialize_to_bytearray({'a': 1, '': 2, 'é': 3, ('a', 1): 4})).GetRoot()
    for k in ('a\0', '\0', 'a\0b', 'é\0', '\0a', '€\0', ('a\0b', 1)):
        try:
            r = k in x
        except ValueError:
            continue
        expect(r is False, 'a string with NUL was found', repr(k))
        c.evals += 1


@divided
def example_exhaustive_small(c):
    """every set of small numbers, strings and booleans as a set and a map, and every lookup of them"""
    uni = [0, 1, 2, -1, 1.0, 0.5, 'a', 'b', '', None, (), (1,), (1.0, 2), pv.Bits([]), pv.Bits([1]), 2**32 - 1, 97, 12416099]
    from itertools import combinations
    n = 0
    for size in (0, 1, 2, 3):
        for ks in combinations(uni, size):
            n += 1
            if n % c.parts != c.part:
                continue
            model = {mk(k): k for k in ks}
            m = {k: 7 for k in model.values()}
            x = pointless.Pointless(pointless.serialize_to_bytearray(pv.real(m))).GetRoot()
            s = pointless.Pointless(pointless.serialize_to_bytearray(pv.real(set(m)))).GetRoot()
            for k in uni + [True, False, 0.0]:
                o = pv.real(k)
                e = mk(k) in model
                expect((o in x) is e and (o in s) is e and x.get(o, 5) == (7 if e else 5), 'small sets', lambda: '%r in %r' % (k, ks))
            c.evals += 1
