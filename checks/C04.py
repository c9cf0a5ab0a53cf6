"""Differential: all writers, repeated, with all encoding options."""
import os

import pointless

import plfmt
import pv
from harness import Fail, expect

RULE = 'the value holds a string or a bit vector and a container; distinct by image bytes'
LEVEL = 'exploration'

OPTS = [dict(unwiden_strings=a, normalize_bitvector=b) for a in (False, True) for b in (False, True)]


def prop(d, c):
    g = pv.G(nodes=d.choice([4, 12, 40, 120]), depth=4, exact=d.int(3) > 0)
    m = pv.g_value(d, g)
    if d.int(3) == 0:
        b = plain_bits(d)
        s = pv.g_str(d)
        m = [m, s, pv.Bits(b.bits), {pv.g_str(d): pv.Bits(b.bits), pv.g_bits(d): s + ''}, b, pv.g_bits(d)]
    one(m, d, c)


def plain_bits(d):
    # of no compressed form
    n = 28 + d.int(60)
    bits = [d.int(2) for _ in range(n)]
    bits[0], bits[1], bits[2] = 1, 0, 1
    return pv.Bits(bits)


def one(m, d, c):
    c.note('value', m)
    obj = pv.real(m)
    want = pv.canon_model(m)
    fn = os.path.join(c.scratch, 'c04.map')
    opts = OPTS if d.int(4) == 0 else [d.choice(OPTS)]
    imgs = []
    for o in opts + [{}]:
        a = bytes(pointless.serialize_to_bytearray(obj, **o))
        b = bytes(memoryview(pointless.serialize_to_buffer(obj, **o)).cast('B'))
        pointless.serialize(obj, fn, **o)
        with open(fn, 'rb') as f:
            e = f.read()
        expect(a == b, 'buffer and bytearray differ', lambda: where(a, b))
        expect(a == e, 'file and bytearray differ', lambda: where(a, e))
        a2 = bytes(pointless.serialize_to_bytearray(obj, **o))
        expect(a == a2, 'the second image differs from the first', lambda: where(a, a2))
        a3 = bytes(pointless.serialize_to_bytearray(pv.real(m), **o))
        expect(a == a3, 'the image of an equal value built the same way differs', lambda: where(a, a3))
        imgs.append(a)
        dec = plfmt.Decoder(a)
        got = dec.canon()
        if got != want:
            raise Fail('options change the value', '%r: %s' % (o, pv.diff(want, got)))
        got = pv.canon_open(pointless.Pointless(bytearray(a)).GetRoot())
        if got != want:
            raise Fail('options change the value read', '%r: %s' % (o, pv.diff(want, got)))
    c.label('options change the image' if len(set(imgs)) > 1 else 'one encoding')
    if pv.has_container(m):
        c.nontrivial(imgs[0], lambda: repr(m))


def where(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return 'lengths %d and %d, first difference at byte %d' % (len(a), len(b), i)
