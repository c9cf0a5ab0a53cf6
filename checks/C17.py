"""All encodings of a bit vector, in memory and in images, against each other and a list of bits."""
import ctypes as C
import operator as O

import pointless

import capi
import pv
import plfmt
from capi import VP, PV as PVAL
from checks.C16 import hash64, prefix, text, g_bits
from harness import Fail, expect, short, divided

RULE = 'a bit pattern was seen in at least six forms, three of them in images; distinct by pattern'
LEVEL = 'exploration'
CONF = {'budget': 24}
CONF_THOROUGH = {'budget': 240}

PB = pointless.PointlessBitvector
u32, u64, i32 = capi.u32, capi.u64, capi.i32
DATA = C.c_uint32
n_bits_ = capi.fn('pointless_bitvector_n_bits', u32, u32, C.POINTER(u32), VP)
is_set_ = capi.fn('pointless_bitvector_is_set', u32, u32, C.POINTER(u32), VP, u32)
any_set_ = capi.fn('pointless_bitvector_is_any_set', u32, u32, C.POINTER(u32), VP)
hash32_ = capi.fn('pointless_bitvector_hash_32', u32, u32, C.POINTER(u32), VP)
hash64_ = capi.fn('pointless_bitvector_hash_64', u64, u32, C.POINTER(u32), VP)
cmp_bb_ = capi.fn('pointless_bitvector_cmp_buffer_buffer', i32, u32, C.POINTER(u32), VP, u32, C.POINTER(u32), VP)
cmp_xb_ = capi.fn('pointless_bitvector_cmp_bits_buffer', i32, u32, VP, PVAL, VP)
cmp_bx_ = capi.fn('pointless_bitvector_cmp_buffer_bits', i32, PVAL, VP, u32, VP)
hb32_ = capi.fn('pointless_bitvector_hash_buffer_32', u32, VP)
hb64_ = capi.fn('pointless_bitvector_hash_buffer_64', u64, VP)
hx32_ = capi.fn('pointless_bitvector_hash_n_bits_bits_32', u32, u32, VP)
hx64_ = capi.fn('pointless_bitvector_hash_n_bits_bits_64', u64, u32, VP)
cmp_b_ = capi.fn('pointless_bitvector_cmp_buffer', i32, VP, VP)
buffer_ = capi.fn('pointless_reader_bitvector_buffer', VP, VP, PVAL)
rd_n_ = capi.fn('pointless_reader_bitvector_n_bits', u32, VP, PVAL)
rd_set_ = capi.fn('pointless_reader_bitvector_is_set', u32, VP, PVAL, u32)


def encodings(bits, B, junk=0):
    """a reference in every encoding that can hold the bits"""
    n = len(bits)
    out = [B.bits(bits)]
    if n <= 27:
        x = n
        for i, b in enumerate(bits):
            x |= b << (5 + i)
        out.append((plfmt.PACKED, x))
        if n < 27:
            out.append((plfmt.PACKED, x | (junk % (1 << (27 - n))) << (5 + n)))
    if not any(bits):
        out.append((plfmt.BITS0, n))
    if all(bits):
        out.append((plfmt.BITS1, n))
    z = prefix(bits, 0)
    if all(bits[z:]) and z < 65536 and n - z < 65536:
        out.append((plfmt.BITS01, z | (n - z) << 16))
    o = prefix(bits, 1)
    if not any(bits[o:]) and o < 65536 and n - o < 65536:
        out.append((plfmt.BITS10, o | (n - o) << 16))
    return out


def opened(bits, junk=0):
    B = plfmt.Builder()
    refs = encodings(bits, B, junk)
    img = B.image(B.vector(plfmt.VALUE, refs))
    r = pointless.Pointless(bytearray(img)).GetRoot()
    return [('encoding %d' % t, r[i]) for i, (t, _) in enumerate(refs)]


def memory(bits, d):
    n = len(bits)
    out = [('sequence', PB(sequence=bits))]
    k = d.int(5)
    if k == 0:
        x = PB(n)
        for i, b in enumerate(bits):
            if b:
                x[i] = True
        out.append(('set', x))
    elif k == 1:
        x = PB(0)
        for b in bits:
            x.append(bool(b))
        out.append(('appended', x))
    elif k == 2:
        # ones beyond the end were removed
        x = PB(sequence=bits)
        e = 1 + d.int(20)
        x.extend_true(e)
        for _ in range(e):
            x.pop()
        out.append(('popped', x))
    elif k == 3:
        x = PB(sequence=[1] * n)
        for i, b in enumerate(bits):
            if not b:
                x[i] = 0
        out.append(('cleared', x))
    else:
        i = d.int(n + 1)
        x = PB(sequence=bits[:i])
        x.append_bulk(PB(sequence=bits[i:]))
        out.append(('joined', x))
    return out


def forms(bits, d):
    out = memory(bits, d)
    out += opened(bits, d.int(1 << 27))
    m = out[1][1]
    for norm in (True, False):
        out.append(('written, normalize=%r' % norm, pointless.Pointless(pointless.serialize_to_bytearray(m, normalize_bitvector=norm)).GetRoot()))
    i = d.int(len(out))
    out.append(('copy of ' + out[i][0], out[i][1].copy()))
    v = out[2 + d.int(len(out) - 3)]
    out.append(('rewritten ' + v[0], pointless.Pointless(pointless.serialize_to_bytearray([1, v[1]])).GetRoot()[1]))
    return out


def alike(name, o, m):
    n = len(m)

    def where():
        return '%s of %s' % (name, short(m, 300))
    expect(len(o) == n, 'length', lambda: '%d: %s' % (len(o), where()))
    got = [o[i] for i in range(n)]
    expect(got == m, 'bits', lambda: '%s: %s' % (short([int(x) for x in got]), where()))
    expect([int(x) for x in o] == m, 'iteration', where)
    expect((o.NumZeroPrefix(), o.NumOnePrefix(), o.NumZeroPostfix(), o.NumOnePostfix(), o.IsAnySet()) == (prefix(m, 0), prefix(m, 1), prefix(m[::-1], 0), prefix(m[::-1], 1), 1 in m), 'counts',
           lambda: '%r: %s' % ((o.NumZeroPrefix(), o.NumOnePrefix(), o.NumZeroPostfix(), o.NumOnePostfix(), o.IsAnySet()), where()))
    expect(pointless.pyobject_hash(o) == pointless.pyobject_hash_32(o) == plfmt.hash_bits(m), 'hash', where)
    expect(hash(o) == hash64(m), 'hash in Python', where)
    expect(str(o) == repr(o) == text(m), 'text', lambda: '%s: %s' % (short(str(o)), where()))


def pair(na, a, ma, nb, b, mb):
    s = (ma > mb) - (ma < mb)

    def where():
        return '%s of %s and %s of %s' % (na, short(ma, 200), nb, short(mb, 200))
    for f in (O.lt, O.le, O.eq, O.ne, O.gt, O.ge):
        expect(f(a, b) is f(s, 0), 'comparison', lambda: '%s: %s' % (f.__name__, where()))
    expect(pointless.pointless_cmp(a, b) == s and pointless.pointless_is_eq(a, b) is (s == 0), 'pointless_cmp', lambda: '%r: %s' % (pointless.pointless_cmp(a, b), where()))


def prop(d, c):
    a = g_bits(d)
    b = list(a)
    k = d.int(6)
    if k == 0:
        b.append(d.int(2))
    elif k == 1:
        b = b[:-1]
    elif k < 4 and b:
        b[d.int(len(b))] ^= 1
    elif k == 4:
        b = g_bits(d)
    c.note('a', a, 'b', b)
    fa, fb = forms(a, d), forms(b, d)
    for n, o in fa:
        alike(n, o, a)
    for _ in range(8):
        x, y = d.choice(fa), d.choice(fb)
        pair(x[0], x[1], a, y[0], y[1], b)
        x, y = d.choice(fa), d.choice(fa)
        pair(x[0], x[1], a, y[0], y[1], a)
    keys(d, a, b, fa, fb)
    if d.bool():
        in_c(d, a, b)
    c.nontrivial(bytes(a) + b'/', lambda: '%s in %s' % (text(a), ', '.join(n for n, _ in fa)))


def keys(d, a, b, fa, fb):
    """as keys of maps and sets"""
    other = [2, 'x', (0, 1)][:d.int(4)]
    # written by the library
    n, o = d.choice(fa)
    stored = pointless.Pointless(pointless.serialize_to_bytearray({o: 'bits', **{x: 0 for x in other}})).GetRoot()
    sets = [('written from ' + n, stored)]
    # written by us, in a chosen encoding
    B = plfmt.Builder()
    ref = d.choice(encodings(a, B, d.int(1 << 27)))
    tr = [(plfmt.hash_bits(a), ref, B.string([98, 105, 116, 115]))] + [(plfmt.hash_model(x), plfmt._build_key(x, d, B, {}), (plfmt.I32, 0)) for x in other]
    sets.append(('encoding %d' % ref[0], pointless.Pointless(bytearray(B.image(B.map_(tr)))).GetRoot()))
    B = plfmt.Builder()
    ref = d.choice(encodings(a, B, d.int(1 << 27)))
    s = pointless.Pointless(bytearray(B.image(B.set_([(plfmt.hash_bits(a), ref)])))).GetRoot()
    py = {o: 'bits'}
    for n, x in fa:
        for sn, t in sets:
            expect(x in t and t[x] == 'bits' and t.get(x) == 'bits', 'key not found', lambda: '%s in %s: %s' % (n, sn, short(a)))
        expect(x in s, 'item not found', lambda: '%s in encoding %d: %s' % (n, ref[0], short(a)))
        expect(py.get(x) == 'bits', 'key of a dict not found', lambda: '%s: %s' % (n, short(a)))
    if a != b:
        for n, x in fb:
            for sn, t in sets:
                expect(x not in t, 'absent key found', lambda: '%s of %s in %s: %s' % (n, short(b), sn, short(a)))
            expect(x not in s and x not in py, 'absent item found', lambda: '%s of %s: %s' % (n, short(b), short(a)))
        # both of them as keys, in any encodings
        t = pointless.Pointless(pointless.serialize_to_bytearray({d.choice(fa)[1]: 1, d.choice(fb)[1]: 2})).GetRoot()
        expect(len(t) == 2 and t[d.choice(fa)[1]] == 1 and t[d.choice(fb)[1]] == 2, 'two keys', lambda: '%s %s' % (short(a), short(b)))
    else:
        r = None
        try:
            r = pointless.serialize_to_bytearray({d.choice(fa)[1]: 1, d.choice(fb)[1]: 2})
        except OSError:
            pass
        if r is not None:
            expect(len(pointless.Pointless(r).GetRoot()) == 1, 'equal bit vectors became two keys', lambda: short(a))


def in_c(d, a, b):
    B = plfmt.Builder()
    ra, rb = encodings(a, B, d.int(1 << 27)), encodings(b, B)
    img = B.image(B.vector(plfmt.VALUE, ra + rb))
    s = (a > b) - (a < b)

    def raw(m):
        out = bytearray((len(m) + 7) // 8)
        for i, x in enumerate(m):
            out[i // 8] |= x << (i % 8)
        return C.create_string_buffer(bytes(out), max(1, len(out)))
    xa, xb = raw(a), raw(b)
    na, nb = len(a), len(b)
    h32, h64 = plfmt.hash_bits(a), hash64_raw(a)

    def sg(x):
        return (x > 0) - (x < 0)
    expect(hx32_(na, xa) == h32 and hx64_(na, xa) == h64, 'C hash of bits', lambda: short(a))
    with capi.Image(img) as im:
        def parts(r):
            v = capi.Value(*r)
            buf = buffer_(im.p, C.byref(v)) if r[0] == plfmt.BITS else None
            return r[0], u32(r[1]), buf, v
        for r in ra:
            t, dt, buf, v = parts(r)
            p = C.byref(dt)
            expect(n_bits_(t, p, buf) == rd_n_(im.p, C.byref(v)) == na, 'C length', lambda: '%d: %s' % (t, short(a)))
            if na < 200:
                expect([is_set_(t, p, buf, i) for i in range(na)] == a and [rd_set_(im.p, C.byref(v), i) for i in range(na)] == a, 'C bits', lambda: '%d: %s' % (t, short(a)))
            expect(bool(any_set_(t, p, buf)) == (1 in a), 'C any set', lambda: '%d: %s' % (t, short(a)))
            expect(hash32_(t, p, buf) == h32 and hash64_(t, p, buf) == h64, 'C hash', lambda: '%d: %s' % (t, short(a)))
            if buf:
                expect(hb32_(buf) == h32 and hb64_(buf) == h64, 'C hash of a buffer', lambda: short(a))
            expect(sg(cmp_bx_(C.byref(v), buf, nb, xb)) == s and sg(cmp_xb_(nb, xb, C.byref(v), buf)) == -s, 'C comparison with bits', lambda: '%d: %s and %s' % (t, short(a), short(b)))
            for q in rb:
                t2, dt2, buf2, v2 = parts(q)
                expect(sg(cmp_bb_(t, p, buf, t2, C.byref(dt2), buf2)) == s and sg(cmp_bb_(t2, C.byref(dt2), buf2, t, p, buf)) == -s, 'C comparison', lambda: '%d %d: %s and %s' % (t, t2, short(a), short(b)))
                if buf and buf2:
                    expect(sg(cmp_b_(buf, buf2)) == s, 'C comparison of buffers', lambda: '%s and %s' % (short(a), short(b)))


def hash64_raw(m):
    h = 1
    for i in range(0, len(m), 8):
        b = 0
        for j, x in enumerate(m[i:i + 8]):
            b |= x << j
        h = (h * 1000000001 + b) & (2**64 - 1)
    return h


RUNS = [0, 1, 2, 7, 8, 9, 25, 26, 27, 28, 29, 31, 32, 33, 63, 64, 65, 100]


def pattern(i):
    """all patterns by length, then pairs of runs"""
    n = 0
    while i >= 1 << n and n < 14:
        i -= 1 << n
        n += 1
    if n < 14:
        return [(i >> j) & 1 for j in range(n)]
    k = len(RUNS)
    z, o, f = i % k, i // k % k, i // (k * k)
    if f == 0:
        return [0] * RUNS[z] + [1] * RUNS[o]
    if f == 1:
        return [1] * RUNS[z] + [0] * RUNS[o]
    if f == 2:
        return [0] * RUNS[z] + [1] + [0] * RUNS[o]
    return [1] * RUNS[z] + [0] + [1] * RUNS[o]


def enum_count(tier):
    return (2**(10 if tier == 'quick' else 14) - 1) + (4 * len(RUNS)**2 if tier == 'thorough' else 0)


def enum_case(i, c):
    m = pattern(i)
    f = [('sequence', PB(sequence=m))] + opened(m, i * 7919)
    for norm in (True, False):
        f.append(('written, normalize=%r' % norm, pointless.Pointless(pointless.serialize_to_bytearray(f[0][1], normalize_bitvector=norm)).GetRoot()))
    for n, o in f:
        alike(n, o, m)
    for x in f:
        for y in f:
            pair(x[0], x[1], m, y[0], y[1], m)
    c.nontrivial(bytes(m) + b'/')


@divided
def example_runs(c):
    """pairs of runs around the limits of the encodings"""
    for i in range(2**14 - 1 + c.part, 2**14 - 1 + 4 * len(RUNS)**2, c.parts):
        enum_case(i, c)


def example_minus_one(c):
    """a bit vector whose hash would be -1"""
    m = [(x >> i) & 1 for x in bytes.fromhex('7f7e80817d80807f807f7b7f81817e818281818180828182') for i in range(8)]
    for n, o in [('sequence', PB(sequence=m))] + opened(m):
        alike(n, o, m)


@divided
def example_long(c):
    """around the 16-bit limits of the run encodings"""
    k = 0
    for n in (65534, 65535, 65536, 65537, 131070, 131071, 131073):
        for m in ([0] * n, [1] * n, [0] * 65535 + [1] * (n - 65535 if n > 65535 else 0), [1] * (n // 2) + [0] * (n - n // 2), [0] * 65536 + [1] * 3, [1] * 65536 + [0] * 2, [0] * (n - 1) + [1], [1] * (n - 1) + [0]):
            k += 1
            if k % c.parts != c.part:
                continue
            x = PB(sequence=m)
            for norm in (True, False):
                r = pointless.Pointless(pointless.serialize_to_bytearray(x, normalize_bitvector=norm)).GetRoot()
                expect(len(r) == len(m) and r == x and list(r) == m and pointless.pyobject_hash(r) == pointless.pyobject_hash(x) == plfmt.hash_bits(m) and r.IsAnySet() is (1 in m), 'long bit vector', (n, len(m), norm))
                expect((r.NumZeroPrefix(), r.NumOnePostfix()) == (prefix(m, 0), prefix(m[::-1], 1)), 'counts of a long bit vector', (n, len(m)))
