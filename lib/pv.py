"""Model values, their generators, and exact comparison with what the library reads back.

Model values are plain Python values, except Bits (a bit vector) and Prim (a typed vector), which real() turns into the
library's own objects. canon() gives a nested tuple that tells kinds apart (True, 1 and 1.0 differ) and is computed for
model values (canon_model), opened values (canon_open) and decoded images (plfmt.canon_image) independently.
"""
import ctypes
import math
import struct

import pointless

from harness import short

I32_MIN, U32_MAX = -2**31, 2**32 - 1

PRIM_RANGES = {'i8': (-2**7, 2**7 - 1), 'u8': (0, 2**8 - 1), 'i16': (-2**15, 2**15 - 1), 'u16': (0, 2**16 - 1),
               'i32': (-2**31, 2**31 - 1), 'u32': (0, 2**32 - 1), 'i64': (-2**63, 2**63 - 1), 'u64': (0, 2**64 - 1)}
PRIM_TYPES = list(PRIM_RANGES) + ['f']
PRIM_FMT = {'i8': 'b', 'u8': 'B', 'i16': 'h', 'u16': 'H', 'i32': 'i', 'u32': 'I', 'i64': 'q', 'u64': 'Q', 'f': 'f'}
PRIM_CODE = {'i8': 0, 'u8': 1, 'i16': 2, 'u16': 3, 'i32': 4, 'u32': 5, 'f': 6, 'i64': 7, 'u64': 8}


def f32(x):
    return ctypes.c_float(x).value


class Bits:
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = tuple(int(b) for b in bits)

    def __eq__(self, o):
        return isinstance(o, Bits) and o.bits == self.bits

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Bits', self.bits))

    def __repr__(self):
        return 'Bits(%s)' % ''.join(map(str, self.bits))


class Prim:
    __slots__ = ('t', 'items')

    def __init__(self, t, items):
        self.t, self.items = t, list(items)

    def __repr__(self):
        return 'Prim(%s, %r)' % (self.t, self.items)


def real(m, memo=None):
    """The Python object to serialize for a model value; shared and cyclic structure is kept."""
    if memo is None:
        memo = {}
    t = type(m)
    if t in (int, str, float, bool) or m is None:
        return m
    k = id(m)
    if k in memo:
        return memo[k][0]
    if t is list:
        r = []
        memo[k] = (r, m)
        r.extend([real(x, memo) for x in m])
        return r
    if t is dict:
        r = {}
        memo[k] = (r, m)
        for a, b in m.items():
            r[real(a, memo)] = real(b, memo)
        return r
    if t is set:
        r = set()
        memo[k] = (r, m)
        for a in m:
            r.add(real(a, memo))
        return r
    if t is frozenset:
        r = frozenset([real(a, memo) for a in m])
    elif t is tuple:
        r = tuple([real(x, memo) for x in m])
    elif t is Bits:
        r = pointless.PointlessBitvector(sequence=[bool(b) for b in m.bits])
    elif t is Prim:
        r = pointless.PointlessPrimVector(m.t, sequence=m.items)
    else:
        r = m
    memo[k] = (r, m)
    return r


# ---- canonical forms

def cf(x):
    if x != x:
        return ('f', 'nan')
    return ('f', struct.pack('<d', x))


def canon_model(m, memo=None):
    t = type(m)
    if m is None:
        return ('n',)
    if t is bool:
        return ('t', m)
    if t is int:
        return ('i', m)
    if t is float:
        return cf(f32(m))
    if t is str:
        return ('s', m)
    if memo is None:
        memo = {}
    k = id(m)
    if k in memo:
        return memo[k][0]
    if t in (list, tuple):
        r = ('v',) + tuple([canon_model(x, memo) for x in m])
    elif t in (set, frozenset):
        r = ('set', len(m), frozenset([canon_model(x, memo) for x in m]))
    elif t is dict:
        r = ('map', len(m), frozenset([(canon_model(a, memo), canon_model(b, memo)) for a, b in m.items()]))
    elif t is Bits:
        r = ('b', m.bits)
    elif t is Prim:
        r = ('v',) + tuple([cf(f32(x)) if m.t == 'f' else ('i', x) for x in m.items])
    elif t is bytearray:
        r = ('v',) + tuple([('i', x) for x in m])
    else:
        raise TypeError(t)
    memo[k] = (r, m)
    return r


PV, PM, PS, PB = pointless.PointlessVector, pointless.PointlessMap, pointless.PointlessSet, pointless.PointlessBitvector
PP = pointless.PointlessPrimVector


def canon_open(o):
    """Reads everything in an opened value through the ordinary read operations (acyclic values)."""
    t = type(o)
    if o is None:
        return ('n',)
    if t is bool:
        return ('t', o)
    if t is int:
        return ('i', o)
    if t is float:
        return cf(o)
    if t is str:
        return ('s', o)
    if t is PV:
        n = len(o)
        items = [o[i] for i in range(n)]
        if n < 8:
            it = [x for x in o]
            if len(it) != n:
                return ('iteration gave', len(it), 'of', n)
        return ('v',) + tuple([canon_open(x) for x in items])
    if t is PS:
        xs = [canon_open(x) for x in o]
        if len(xs) != len(o):
            return ('iteration gave', len(xs), 'of', len(o))
        return ('set', len(xs), frozenset(xs))
    if t is PM:
        xs = [(canon_open(a), canon_open(b)) for a, b in o.items()]
        if len(xs) != len(o):
            return ('iteration gave', len(xs), 'of', len(o))
        return ('map', len(xs), frozenset(xs))
    if t is PB:
        return ('b', tuple([1 if o[i] else 0 for i in range(len(o))]))
    if t is PP:
        return ('v',) + tuple([cf(x) if type(x) is float else ('i', x) for x in o])
    return ('unexpected type', t.__name__)


def diff(a, b, path='root'):
    """Where two canonical forms differ."""
    if a == b:
        return None
    if type(a) is tuple and type(b) is tuple and a and b and a[0] == b[0] == 'v':
        if len(a) != len(b):
            return '%s: %d items, expected %d' % (path, len(b) - 1, len(a) - 1)
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            if x != y:
                return diff(x, y, '%s[%d]' % (path, i))
    if type(a) is tuple and type(b) is tuple and a and b and a[0] == b[0] and a[0] in ('set', 'map'):
        m, e = a[2] - b[2], b[2] - a[2]
        return '%s: %s of %d, expected %d; missing %s; extra %s' % (path, a[0], b[1], a[1], str(sorted(map(repr, m))[:2])[:400], str(sorted(map(repr, e))[:2])[:400])
    return '%s: got %s, expected %s' % (path, repr(b)[:300], repr(a)[:300])


# ---- generators

EDGE_INTS = [0, 1, 2, 3, 5, 7, 8, 10, 31, 32, 33, 63, 64, 100, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 32766, 32767, 32768, 32769, 65534, 65535,
             65536, 65537, 2**24 - 1, 2**24, 2**24 + 1, 2**24 + 3, 2**31 - 2, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1,
             9998, 9999, 10000, 10001, -9999, -10000, -10001, -1, -2, -3, -127, -128, -129, -255, -256, -32767, -32768, -32769, -65536, -2**24, -2**24 - 1, -2**31 + 1, -2**31]


def g_int(d):
    k = d.int(10)
    if k < 4:
        return d.int(12)
    if k < 7:
        return d.choice(EDGE_INTS)
    if k == 7:
        return d.int(2**32)
    if k == 8:
        return -1 - d.int(2**31)
    return d.int(600) - 300


EDGE_FLOATS = [0.0, 1.0, -1.0, 0.5, 2.0, 1.5, -0.0, 3.25, 100.0, 16777216.0, 16777218.0, 2147483520.0, 2147483648.0, -2147483648.0, 4294967296.0,
               4294967040.0, -2147483904.0, float('inf'), float('-inf'), 1.401298464324817e-45, -1.401298464324817e-45, 3.4028234663852886e+38,
               -3.4028234663852886e+38, 1.1754943508222875e-38, 1e10, -1e10, 255.0, 256.0, -128.0, 65536.0]
assert all(f32(x) == x for x in EDGE_FLOATS)
ROUND_FLOATS = [0.1, -0.1, 1 / 3, math.pi, 1e300, -1e300, 1e-300, 16777217.0, 123456789.123, 4294967295.0, 2147483647.0, 1e-46, 3.4028235677973366e+38]


def g_float(d, exact=True, nan=False):
    k = d.int(12)
    if k < 6:
        return d.choice(EDGE_FLOATS)
    if k < 8:
        return float(d.int(40) - 20)
    if nan and k == 11:
        return float('nan')
    if not exact and k > 8:
        return d.choice(ROUND_FLOATS) if k == 9 else struct.unpack('<d', struct.pack('<Q', d.int(2**64)))[0] + 0.0
    x = struct.unpack('<f', struct.pack('<I', d.int(2**32)))[0]
    if x != x:
        return float('nan') if nan else 1.25
    return x


def fix_nan(x, nan):
    return x if x == x or nan else 0.75


CHARS = [list('abcdexyz 019_-/."\'\\\n\t'), [chr(1), chr(0x7f), '~', ' ', '\x1b'],
         [chr(c) for c in (0x80, 0xa0, 0xe9, 0xff, 0xdf, 0xb5)], [chr(c) for c in (0x100, 0x17f, 0x1234, 0x20ac, 0x2028, 0xffff, 0xfffe, 0xfeff)],
         [chr(c) for c in (0xd800, 0xdbff, 0xdc00, 0xdfff)], [chr(c) for c in (0x10000, 0x1f600, 0x2f801, 0x10ffff, 0x10fffe)]]


def g_str(d, maxlen=24, words=True):
    if words and d.int(3) == 0:
        if d.int(24) == 23:
            return g_long(d)
        if d.int(12) == 11:
            return g_collide(d)
        return d.choice(['a', 'b', 'ab', '', 'aa', 'key', 'é', 'ÿ', 'Ā', '€', '\U0001f600', 'a\U0001f600', 'ab€', 'abé', 'k1', 'k2'])
    lvl = d.int(8)
    lvl = {0: 0, 1: 0, 2: 0, 3: 1, 4: 2, 5: 3, 6: 4, 7: 5}[lvl]
    n = d.size(5, maxlen)
    out = []
    for _ in range(n):
        # mostly plain characters with some of the highest class
        pool = CHARS[lvl] if d.int(3) == 0 else CHARS[0]
        out.append(d.choice(pool))
    if lvl and n:
        out[d.int(n)] = d.choice(CHARS[lvl])
    if d.int(10) == 9:
        p = d.int(n + 1)
        out.insert(p, chr(max(1, d.int(0x110000))))
    return ''.join(out)


# strings of one hash: pairs of one hash value of the format, and texts whose bytes, of 4 or 1 a character, agree in the
# hash of the dictionary by which strings are shared (h = 31 h + byte)
TWINS = ['skwxhy', 'vwedsu', 'dwoikd', 'dpwjrc', 'laebkn', 'uzjhjn', 'spfbakhso', 'cadbuazlc', 'tqukcqbwh', 'avkacyhmh', 'azkqktosmpkt', 'upbfpgwfvhgp', 'kyanllzckvst', 'jieakpusykkg']

# strings of different widths with the same hash
MIXED_TWINS = [['ab', '\U00074067\u77f4', '\U001070bf\U000ff7fc', '\U000f8134\U00062d1d'],
               ['xy', '\u2d34\u758d', '\U00034361\U000d39f2', '\U0009c027\U00036ca4'],
               ['no', '\uc81d\u8bb2', '\U000fd961\U000f1346', '\U0001d0b0\U0006f1b5'],
               ['id', '\ua13f\u4962', '\u6ba6\U0002a8ed', '\U000eef2a\U0006cb61'],
               ['\xe91', '\u3ae8\u5af2', '\ue866\u5df8', '\U00103f46\U00078418'],
               ['\xff\xfe', '\U000f64b8\U000989eb', '\U000f9264\U000f17ef', '\U000d795b\U00015b92']]


def g_collide(d):
    k = d.int(5)
    if k == 4:
        # a common ending keeps the hashes equal
        return d.choice(MIXED_TWINS[d.choice([0, 0, 4, 1, 2, 3, 5])]) + d.choice(['', '', 'a', '\u20ac', 'xyz'])
    if k == 0:
        return d.choice(TWINS)
    w = d.choice([['a', '\u1f60'], ['\u00e9', '\u1fe8'], ['\u0141', '\u2040']]) if k < 3 else d.choice([['Aa', 'BB'], ['Aa', 'BB', 'C#'], ['aa', 'bB']])
    n = d.choice([1, 2, 3, 4, 5, 8, 9, 20, 100])
    out = [w[0]] * n
    for _ in range(d.int(3)):
        out[d.choice([0, n - 1, n // 2, d.int(n)])] = d.choice(w)
    return ''.join(out)


def g_long(d):
    """A long string, of a small family whose members share long beginnings"""
    n = d.choice([60, 100, 127, 128, 255, 256, 257, 300, 511, 1000, 1023, 2047, 4095, 5000]) if d.int(12) else d.choice([10000, 20000, 40000])
    s = d.choice(['a', 'ab', 'é', '€', '\U0001f600'])
    s = (s * n)[:n]
    k = d.int(4)
    if k == 0:
        return s
    if k == 1:
        return s + d.choice(['x', 'y', 'xy', '€', 'é'])
    i = d.choice([0, n // 2, n - 1, n - 2, min(n - 1, 255), min(n - 1, 256), d.int(n)])
    return s[:i] + d.choice(['x', 'y', '€']) + s[i + 1:]


def siblings(n, ch='a', pos=None, full=False):
    """Strings of n characters which differ in one place"""
    out = [ch * n]
    for i in sorted({0, n // 2, n - 1, n - 2, n - n % 8, 255, 256, 4095, 4096} if pos is None else pos):
        if 0 <= i < n:
            out += [ch * i + x + ch * (n - i - 1) for x in ('xyé€\U0001f600' if full else 'xy')]
    return out


def g_family(d):
    if d.int(5) == 4:
        w = d.choice([['a', '\u1f60'], ['Aa', 'BB'], ['\u0141', '\u2040']])
        n = d.choice([5, 9, 40])
        return [w[0] * (n - i) + w[1] * (i > 0) + w[0] * (i - 1) if i else w[0] * n for i in (d.int(n + 1) for _ in range(2 + d.int(5)))] + ([d.choice(TWINS[i:i + 2]) for i in (0, 0, 2, 2)] if d.bool() else [d.choice(MIXED_TWINS[0]) for _ in range(3)])
    n = d.choice([2, 9, 63, 64, 65, 128, 255, 256, 257, 1000, 1024, 4095, 4097, 8000, 20000, 65536])
    s = siblings(n, d.choice(['a', 'é', '€', '\U0001f600']), [d.int(n), n - 1, d.int(n)])
    return [d.choice(s) for _ in range(2 + d.int(5))]


def g_bits(d, maxlen=140):
    if maxlen >= 140 and d.int(60) == 59:
        n = d.choice([127, 128, 129, 255, 256, 257, 511, 1000, 1024, 2047, 4099])
        if d.int(4) == 3:
            # bytes which agree in the hash of the dictionary by which bit vectors are shared
            s = b''.join(d.choice([b'Aa', b'BB']) for _ in range(n // 16))
            return Bits([s[i // 8] >> i % 8 & 1 for i in range(8 * len(s))])
        b = [d.int(4) == 3 if d.bool() else 0] * n
        for _ in range(1 + d.int(3)):
            b[d.choice([0, 7, 8, n // 2, n - 1, n - 2, n - n % 64 - 1, d.int(n)])] ^= 1
        return Bits([int(x) for x in b])
    n = d.choice([0, 1, 2, 7, 8, 9, 15, 16, 26, 27, 28, 31, 32, 33, 35, 36, 37, 63, 64, 65]) if d.int(3) else d.int(maxlen + 1)
    k = d.int(6)
    if k == 0:
        return Bits([0] * n)
    if k == 1:
        return Bits([1] * n)
    if k == 2:
        z = d.int(n + 1)
        return Bits([0] * z + [1] * (n - z))
    if k == 3:
        z = d.int(n + 1)
        return Bits([1] * z + [0] * (n - z))
    if k == 4:
        b = [0] * n
        for _ in range(1 + d.int(2)):
            if n:
                b[d.int(n)] = 1
        return Bits(b)
    x = d.int(1 << n) if n else 0
    return Bits([(x >> i) & 1 for i in range(n)])


def g_prim_item(d, t):
    if t == 'f':
        return f32(g_float(d))
    lo, hi = PRIM_RANGES[t]
    k = d.int(6)
    if k == 0:
        return d.choice([lo, hi, lo + 1, hi - 1])
    if k < 4:
        return max(lo, d.int(20) - (5 if lo else 0))
    if k == 4:
        return min(hi, max(lo, d.choice(EDGE_INTS)))
    return lo + d.int(hi - lo + 1)


def g_prim(d, maxlen=30):
    t = d.choice(PRIM_TYPES)
    return Prim(t, [g_prim_item(d, t) for _ in range(d.size(4, maxlen))])


class G:
    """Options and node budget of a value generator."""

    def __init__(self, nodes=60, depth=6, exact=True, nan=True, bits=True, prims=True, sets=True, frozen=True, share=True, bytearrays=True, surrogates=True):
        self.nodes, self.maxdepth = nodes, depth
        self.exact, self.nan, self.bits, self.prims, self.sets, self.frozen = exact, nan, bits, prims, sets, frozen
        self.share, self.bytearrays = share, bytearrays
        self.pool = []
        self.kpool = []


def g_scalar(d, g):
    k = d.int(10)
    if k < 4:
        return g_int(d)
    if k < 7:
        return g_str(d)
    if k == 7:
        x = g_float(d, g.exact, g.nan)
        return x if x == x or g.nan else 0.75
    if k == 8:
        return d.bool()
    return None


def g_key(d, g, depth=2):
    """A hashable, non-NaN key that single precision holds exactly."""
    if g.kpool and d.int(8) == 0:
        return d.choice(g.kpool)
    k = d.int(16)
    if k < 5:
        r = g_int(d)
    elif k < 9:
        r = g_str(d)
    elif k == 9:
        r = g_float(d, True, False)
    elif k == 10:
        r = d.bool()
    elif k == 11:
        r = None
    elif k == 12 and g.bits:
        r = g_bits(d)
    elif k == 13:
        # same hash as another key, but of another kind
        import plfmt
        if not g.kpool:
            return d.int(5)
        h = plfmt.hash_model(d.choice(g.kpool))
        r = d.choice([h, h - 2**32 if h >= 2**31 else h, f32(float(h))])
    elif depth > 0:
        # items of one kind make typed vectors
        kind = d.int(4)
        n = d.size(2, 5)
        if kind == 0:
            r = tuple([g_int(d) for _ in range(n)])
        elif kind == 1:
            r = tuple([g_float(d, True, False) for _ in range(n)])
        else:
            r = tuple([g_key(d, g, depth - 1) for _ in range(n)])
    else:
        r = d.int(100)
    g.kpool.append(r)
    return r


def g_value(d, g, depth=0):
    g.nodes -= 1
    if g.nodes <= 0 or depth >= g.maxdepth:
        return g_scalar(d, g)
    k = d.int(20)
    if k < 7:
        return g_scalar(d, g)
    if g.share and g.pool and k == 7:
        return d.choice(g.pool)
    if k < 12:
        # typed or mixed vector
        kind = d.int(6)
        n = d.size(4, min(60, max(4, g.nodes)))
        g.nodes -= n // 2
        if kind == 2 and d.int(40) == 39:
            r = g_family(d)
        elif kind == 0:
            b = d.choice([(0, 255), (0, 65535), (0, U32_MAX), (-128, 127), (-32768, 32767), (I32_MIN, 2**31 - 1), (250, 260), (65530, 65540), (-130, 0), (-5, 2**31 + 5)])
            r = [d.choice([b[0], b[1], b[0] + d.int(b[1] - b[0] + 1)]) for _ in range(n)]
        elif kind == 1:
            r = [fix_nan(g_float(d, g.exact, g.nan), g.nan) for _ in range(n)]
        elif kind == 2:
            r = [g_scalar(d, g) for _ in range(n)]
        else:
            r = [g_value(d, g, depth + 1) for _ in range(n)]
        if d.int(3) == 2:
            r = tuple(r)
    elif k < 16:
        n = d.size(4, min(40, max(4, g.nodes)))
        r = {}
        for _ in range(n):
            key = g_key(d, g)
            r[key] = g_value(d, g, depth + 1)
    elif k == 16 and g.sets:
        n = d.size(4, 40)
        r = set(g_key(d, g) for _ in range(n))
        if g.frozen and d.int(4) == 3:
            r = frozenset(r)
    elif k == 17 and g.bits:
        r = g_bits(d)
    elif k == 18 and g.prims:
        r = g_prim(d)
    elif k == 19 and g.bytearrays:
        r = bytearray(d.bytes(d.size(4, 12)))
    else:
        r = [g_value(d, g, depth + 1)]
    g.pool.append(r)
    return r


def n_nodes(m):
    t = type(m)
    if t in (list, tuple, set, frozenset):
        return 1 + sum(n_nodes(x) for x in m)
    if t is dict:
        return 1 + sum(n_nodes(a) + n_nodes(b) for a, b in m.items())
    return 1


def has_container(m):
    return type(m) in (list, tuple, set, frozenset, dict) and len(m) > 0 or isinstance(m, (Bits, Prim, bytearray))


# ---- structure (sharing and cycles)

def node(x):
    """(kind, identity or None, children) of a Python object or an opened value."""
    t = type(x)
    if t in (list, tuple):
        return 'v', (id(x) if t is list and len(x) else None), list(x)
    if t in (set, frozenset):
        return 'set', (id(x) if t is set else None), list(x)
    if t is dict:
        return 'map', id(x), list(x.items())
    if t is PV:
        return 'v', (x.container_id if len(x) else None), [x[i] for i in range(len(x))]
    if t is PS:
        return 'set', x.container_id, list(x)
    if t is PM:
        return 'map', x.container_id, list(x.items())
    return None, None, None


def leaf(x):
    t = type(x)
    return canon_open(x) if t in (PB, PP, int, float, str, bool) or x is None else canon_model(x)


def iso(a, b, injective=True, limit=200000, ids=True):
    """Walks two values together. Returns what differs: contents, or the identities of containers. Keys are compared by content."""
    fwd, back, seen, keep = {}, {}, set(), []
    stack = [(a, b, 'root')]
    while stack:
        x, y, path = stack.pop()
        limit -= 1
        if limit < 0:
            return 'walk limit'
        kx, ix, cx = node(x)
        ky, iy, cy = node(y)
        if kx != ky:
            return '%s: %s against %s' % (path, short(x), short(y))
        if kx is None:
            lx, ly = leaf(x), leaf(y)
            if lx != ly:
                return '%s: %r against %r' % (path, lx, ly)
            continue
        if len(cx) != len(cy):
            return '%s: %d entries against %d' % (path, len(cx), len(cy))
        keep.append((x, y))
        if ix is not None and ids:
            if fwd.setdefault(ix, iy) != iy:
                return '%s: one container became two (%r and %r)' % (path, fwd[ix], iy)
            if injective and back.setdefault(iy, ix) != ix:
                return '%s: two containers became one (id %r)' % (path, iy)
        # views are made anew at each access: their identity is the container id
        pair = (id(x) if ix is None else (kx, len(cx), ix), id(y) if iy is None else iy)
        if pair in seen:
            continue
        seen.add(pair)
        if kx == 'v':
            for i, (p, q) in enumerate(zip(cx, cy)):
                stack.append((p, q, '%s[%d]' % (path, i)))
        elif kx == 'set':
            p, q = set(map(leafkey, cx)), set(map(leafkey, cy))
            if p != q:
                return '%s: other items' % path
        else:
            q = {leafkey(k): v for k, v in cy}
            for k, v in cx:
                lk = leafkey(k)
                if lk not in q:
                    return '%s: key %s missing' % (path, short(k))
                stack.append((v, q[lk], '%s[%s]' % (path, short(k, 40))))
    return None


def leafkey(x):
    return canon_open(x) if type(x) in (PV, PB, PP) else canon_model(x) if type(x) in (tuple, list, Bits) else leaf(x)


def is_view(x):
    return type(x) in (PV, PM, PS, PB)


def iso_content(a, b):
    """iso for Python containers that hold views: sharing between different view objects is not kept, so identities are not compared"""
    return iso(a, b, injective=False, ids=False)
