"""Model values in every representation the library knows, their order, and generators of pairs that are close."""
import pointless

import pv
import plfmt


class Incomparable(Exception):
    pass


def family(m):
    t = type(m)
    if m is None:
        return 'none'
    if t in (bool, int, float):
        return 'num'
    if t is str:
        return 'str'
    if t in (list, tuple, pv.Prim, bytearray):
        return 'seq'
    if t is pv.Bits:
        return 'bits'
    raise Incomparable(t)


def num(m):
    return pv.f32(m) if type(m) is float else m


def sgn(a, b):
    return (a > b) - (a < b)


def items(m):
    return m.items if type(m) is pv.Prim else m


def cmp(a, b):
    """-1, 0, 1 or Incomparable: the order the properties state"""
    f = family(a)
    if f != family(b):
        raise Incomparable((a, b))
    if f == 'none':
        return 0
    if f == 'num':
        x, y = num(a), num(b)
        if x != x or y != y:
            raise Incomparable((a, b))
        return sgn(x, y)
    if f == 'str':
        return sgn([ord(c) for c in a], [ord(c) for c in b])
    if f == 'bits':
        return sgn(a.bits, b.bits)
    xs, ys = items(a), items(b)
    for x, y in zip(xs, ys):
        c = cmp(x, y)
        if c:
            return c
    return sgn(len(xs), len(ys))


class S(str):
    pass


class F(float):
    pass


class I(int):
    pass


def view(d, m, key=False):
    """m as it comes out of an image"""
    k = d.int(4)
    if k == 3:
        if key:
            B = plfmt.Builder()
            ref = plfmt._build_key(m, d, B, {})
        else:
            B, ref = plfmt.build_model(m, d)
        return pointless.Pointless(bytearray(B.image(ref))).GetRoot()
    if k == 2:
        # somewhere inside of an image
        return pointless.Pointless(pointless.serialize_to_bytearray([1, pv.real(m), 'x'])).GetRoot()[1]
    if k == 1 and type(m) in (list, tuple):
        a, b = d.int(3), d.int(3)
        fill = m[0] if m and d.bool() else 9
        r = pointless.Pointless(pointless.serialize_to_bytearray(pv.real([fill] * a + list(m) + [fill] * b))).GetRoot()
        return r[a:a + len(m)]
    return pointless.Pointless(pointless.serialize_to_bytearray(pv.real(m))).GetRoot()


def storable(m):
    """whether it can be written: 64-bit integers outside of typed vectors cannot"""
    t = type(m)
    if t is int:
        return -2**31 <= m < 2**32
    if t in (list, tuple):
        return all(storable(x) for x in m)
    return True


def rep(d, m, hashable=False):
    """A Python object for the model value. hashable: no lists"""
    if type(m) is bytearray:
        m = tuple(m)
    elif type(m) is pv.Prim:
        m = tuple(m.items)
    t = type(m)
    k = d.int(6)
    if t in (list, tuple):
        if k == 0 and storable(m):
            return view(d, m, hashable)
        if k == 1 and m:
            if all(type(x) is int for x in m):
                ts = [pt for pt, (lo, hi) in pv.PRIM_RANGES.items() if all(lo <= x <= hi for x in m)]
                if ts:
                    return pointless.PointlessPrimVector(d.choice(ts), sequence=m)
            elif all(type(x) is float for x in m):
                return pointless.PointlessPrimVector('f', sequence=m)
        xs = [rep(d, x, hashable) for x in m]
        return tuple(xs) if hashable or k < 4 else xs
    if t is pv.Bits:
        if k < 3:
            return view(d, m)
        if k == 3:
            b = pointless.PointlessBitvector(0)
            for x in m.bits:
                b.append(bool(x))
            return b
        if k == 4:
            return view(d, m).copy()
        return pv.real(m)
    if k == 0:
        if t is str:
            return S(m)
        if t is float:
            return F(m)
        if t is int:
            return I(m)
    if k == 1 and storable(m):
        return view(d, m)
    return pv.real(m)


def g_num(d, wide=True):
    k = d.int(8)
    if k < 3:
        return pv.g_int(d)
    if k == 3 and wide:
        return d.choice([2**63 - 1, 2**63, 2**64 - 1, -2**63, 2**32, 2**33, -2**31 - 1, 2**53, 2**53 + 1, 2**24 + 1, 2**40, 2**62, 2**63 - 2**38, 2**64 - 2**39])
    if k == 4:
        return d.bool()
    x = pv.g_float(d, k != 7)
    return x if x == x else 1.5


def g_seqval(d, depth=3, wide=True):
    """values of the families"""
    k = d.int(10)
    if k < 4 or depth <= 0:
        return g_num(d, wide)
    if k < 6:
        return pv.g_str(d)
    if k == 6:
        return pv.g_bits(d)
    if k == 7:
        return None
    if k == 8:
        kind = d.int(4)
        n = d.size(4, 20)
        if kind == 0:
            return tuple([pv.g_int(d) for _ in range(n)])
        if kind == 1:
            return tuple([pv.f32(x) if x == x else 0.5 for x in [pv.g_float(d) for _ in range(n)]])
        if kind == 2:
            return tuple([pv.g_str(d) for _ in range(n)])
    return tuple([g_seqval(d, depth - 1, wide) for _ in range(d.size(3, 8))])


def close(d, m):
    """A value close to m: mostly of the same family, often equal"""
    t = type(m)
    k = d.int(8)
    if m is None:
        return None if k else 0
    if t is bool:
        return d.choice([m, int(m), float(m), 1 - m, not m, 0.5, -1])
    if t in (int, float):
        x = num(m)
        if k == 0:
            try:
                return float(m)
            except OverflowError:
                return m
        if k == 1 and x == x and abs(x) < 2**63 and x == int(x):
            return int(x)
        if k == 2 and abs(x) < 2**62:
            return x + d.choice([1, -1])
        if k == 3:
            from checks.C10 import step_f32
            return step_f32(pv.f32(float(x)), d.choice([1, -1])) if abs(x) < 1e38 else m
        if k == 4 and x == x and abs(x) < 2**60:
            return -x
        if k == 5:
            return d.choice([0, 0.0, -0.0, True, False, 1])
        return m
    if t is str:
        if k == 0:
            return m + d.choice(['a', '\x01', 'é', '€', '\U0001f600', '\ud800'])
        if k == 1:
            return m[:-1]
        if k < 5 and m:
            i = d.int(len(m))
            c = chr(max(1, (ord(m[i]) + d.choice([1, -1, 256, -256, 65536, 128, 127])) % 0x110000))
            return m[:i] + c + m[i + 1:]
        return ''.join(list(m))
    if t is pv.Bits:
        b = list(m.bits)
        if k == 0:
            b.append(d.int(2))
        elif k == 1:
            b = b[:-1]
        elif k < 5 and b:
            b[d.int(len(b))] ^= 1
        elif k == 5:
            b += [0] * d.int(70)
        return pv.Bits(b)
    xs = list(items(m))
    if k == 0:
        xs.append(g_num(d))
    elif k == 1:
        xs = xs[:-1]
    elif k < 6 and xs:
        i = d.int(len(xs))
        xs[i] = close(d, xs[i])
    return tuple(xs)


def long_pairs(n=70000):
    """pairs of long values which differ late, in one place, or in length"""
    for p in (65536, n - 1):
        for ch, x in (('a', 'b'), ('\u00e9', '\u20ad'), ('\u20ac', '\u20ab'), ('\U0001f600', '\U0001f601')):
            s = ch * n
            yield s, s[:p] + x + s[p + 1:]
            yield s, s[:p + 1]
        for bits in ([0] * n, [1] * n, [1, 0, 1, 1] * (n // 4)):
            b = list(bits)
            b[p] ^= 1
            yield pv.Bits(bits), pv.Bits(b)
            yield pv.Bits(bits), pv.Bits(bits[:p + 1])
        for x, y in ((5, 6), (5, 300), (-5, -70000), (0.5, 0.25), (2**31, 2**32 - 1), ('a', 'b')):
            v = (x,) * n
            yield v, v[:p] + (y,) + v[p + 1:]
            yield v, v[:p + 1]
