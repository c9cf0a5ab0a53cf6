"""Path expressions against a reference parser and evaluator over the decoded image."""
import ctypes as C
import re
import struct

import pointless

import capi
import plfmt
import pv
from capi import u32, u64, i32, i64, Value, VP, PV as PVAL, P
from harness import Fail, expect, short

RULE = 'an expression of at least two subscripts whose outcome (element reached, or which subscript fails) was compared; distinct by image and expression'
LEVEL = 'exploration'
CONF = {'budget': 24}
ASSUMPTIONS = ['placeholders get arguments of their type', 'elements of 64-bit vectors that do not fit 32 bits cannot be returned as a value',
               'integer subscripts of a map are about integer keys', 'string subscripts are bytes (code points up to 255)']

NAMES = ['', '_as_u32', '_as_map', '_as_string', '_as_boolean', '_as_bitvector', '_as_vector_u8', '_as_vector_u16', '_as_vector_u32', '_as_vector_u64', '_as_vector_f', '_as_vector_value']
F = {}
for _n in NAMES:
    F[_n] = getattr(capi.lib, 'pointless_eval_get' + _n)
    F[_n].restype = C.c_int

TOKEN = re.compile(rb"[ \t\n\v\f\r]*(\[(?:'([^']*)'|([+-]?[0-9]+)|%(u32|u64|i32|i64|s))?)?", re.S)
WS = re.compile(rb'[ \t\n\v\f\r]*')


class Bad(Exception):
    pass


def parse(e):
    """Yields ('s', bytes) or ('i', int) or ('%', type) for each subscript, raises Bad where the expression is malformed"""
    pos = WS.match(e).end()
    while pos < len(e):
        m = TOKEN.match(e, pos)
        if m.group(1) is None:
            raise Bad('expected [')
        if m.group(2) is not None:
            yield ('s', m.group(2))
        elif m.group(3) is not None:
            i = int(m.group(3))
            if i >= 2**64 or i < -2**63 + 1:
                raise Bad('number')
            yield ('i', i)
        elif m.group(4) is not None:
            yield ('%', m.group(4).decode())
        else:
            raise Bad('subscript')
        pos = WS.match(e, m.end()).end()
        if e[pos:pos + 1] != b']':
            raise Bad('expected ]')
        pos = WS.match(e, pos + 1).end()


class Missing(Exception):
    pass


class Skip(Exception):
    pass


def step(dec, v, sub):
    """The element of v, as a value (type, data)"""
    t, data = v
    kind, x = sub
    if t == plfmt.MAP:
        n, hv, kv, vv = dec.map_parts(data)
        for a, b in zip(dec.vec_items(*kv), dec.vec_items(*vv)):
            if a[0] == plfmt.EMPTY:
                continue
            if kind == 's':
                if a[0] in (plfmt.STRING, plfmt.UNICODE) and list(dec.text(*a)) == list(x):
                    return b
            elif a[0] in (plfmt.I32, plfmt.U32):
                if dec.key(a)[1] == x:
                    return b
            elif a[0] in (plfmt.FLOAT, plfmt.BOOL) and dec.key(a)[1] == x:
                raise Skip
        raise Missing
    if kind == 's':
        raise Missing
    if t in plfmt.BITTYPES:
        bits = dec.bits(t, data)
        if not 0 <= x < len(bits):
            raise Missing
        return (plfmt.BOOL, bits[x])
    if t == plfmt.EMPTYV:
        raise Missing
    if t in plfmt.VECS:
        xs = dec.vec_items(t, data)
        if not 0 <= x < len(xs):
            raise Missing
        y = xs[x]
        if t == plfmt.FLOATV:
            return (plfmt.FLOAT, struct.unpack('<I', struct.pack('<f', y))[0])
        if t in plfmt.VEC_FMT:
            if not -2**31 <= y < 2**32:
                raise Missing
            return (plfmt.U32, y) if y >= 0 else (plfmt.I32, y & 0xffffffff)
        return y
    raise Missing


def subs_of(dec, v):
    """Some subscripts that exist"""
    t, data = v
    if t == plfmt.MAP:
        n, hv, kv, vv = dec.map_parts(data)
        out = []
        for a in dec.vec_items(*kv):
            if a[0] in (plfmt.I32, plfmt.U32):
                out.append(('i', dec.key(a)[1]))
            elif a[0] in (plfmt.STRING, plfmt.UNICODE):
                cps = dec.text(*a)
                if all(c < 256 for c in cps):
                    out.append(('s', bytes(cps)))
        return out
    if t in plfmt.BITTYPES:
        n = len(dec.bits(t, data))
    elif t in plfmt.VECS:
        n = dec.vec_n(data)
    else:
        n = 0
    return [('i', i) for i in range(n)]


def miss(d, dec, v):
    """A subscript that probably does not exist"""
    k = d.int(6)
    subs = subs_of(dec, v)
    n = len(subs)
    if k == 0:
        return ('i', n)
    if k == 1:
        return ('i', -1 - d.int(3))
    if k == 2:
        x = d.choice(subs)[1] if subs else 0
        if type(x) is int:
            return ('i', x + d.choice([2**32, 2**31, 2**63, -2**32, 2**64 - 2**32]))
        # a key that begins like another one, or is how another one begins
        j = d.int(3)
        if j == 0:
            return ('s', x + d.choice([b'x', b'a', b' ', b"]"]))
        i = d.choice([len(x) - 1, len(x) // 2, 255, 256, d.int(len(x) + 1)])
        return ('s', x[:max(i, 0)] if j == 1 else x[:max(i, 0)] + b'~' + x[max(i, 0) + 1:])
    if k == 3:
        return ('s', d.choice([b'', b'a', b'0', b'1', b'key']))
    if k == 4:
        return ('i', d.choice([2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**31]))
    return ('i', d.int(10))


LIMITS = {'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1)}
CT = {'u32': u32, 'u64': u64, 'i32': i32, 'i64': i64}


def ws(d):
    return b'' if d.int(6) else d.choice([b' ', b'  ', b'\t', b'\n ', b'\v\f\r'])


def render(d, sub, args):
    kind, x = sub
    ph = d.int(3) == 2
    if kind == 's':
        if ph or b"'" in x or b'\0' in x:
            args.append(('s', x))
            s = b'%s'
        else:
            s = b"'" + x + b"'"
    else:
        fits = [t for t, (lo, hi) in LIMITS.items() if lo <= x <= hi]
        if ph and fits:
            t = d.choice(fits)
            args.append((t, x))
            s = b'%' + t.encode()
        else:
            s = b'%d' % x
            if d.int(6) == 5:
                s = (b'-' if x < 0 else d.choice([b'', b'+'])) + b'0' * d.int(4) + b'%d' % abs(x)
            if x == 0 and d.int(8) == 7:
                s = b'-0'
    return b'[' + s + ws(d) + b']' + ws(d)


def prop(d, c):
    g = pv.G(nodes=d.choice([15, 40, 100]), depth=6)
    m = pv.g_value(d, g)
    if d.int(3):
        m = {d.choice(['a', 'key', 'é', "it's", '', ']', 'a]', "['x']", '%s', 1, 0, 70000, 2**31, 2**32 - 1, -1, -10001]) if d.int(12) else pv.g_long(d): pv.g_value(d, g) for _ in range(d.size(4, 12))}
        if d.int(20) == 19:
            # a long way down
            for i in range(6 + d.int(60)):
                m = [0] * d.int(3) + [m] if d.bool() else {d.choice(['a', 'key', 1, -1, 'é', 70000]): m, 'b': i}
        if d.bool():
            m = [m, pv.g_prim(d), pv.g_bits(d), [m, {'k': m}]]
    if d.int(3) == 2:
        B, ref = plfmt.build_model(m, d)
        img = B.image(ref)
    else:
        img = bytes(pointless.serialize_to_bytearray(pv.real(m)))
    dec = plfmt.Decoder(img)
    im = capi.Image(img)
    try:
        for _ in range(3):
            one(d, c, img, dec, im.p, m)
    finally:
        im.close()


def one(d, c, img, dec, p, m):
    v, subs, args = dec.root, [], []
    text = ws(d)
    far = d.int(12) == 11
    for _ in range(1 + d.int(5) if not far else 80):
        s = subs_of(dec, v)
        if not s and far:
            break
        if s and d.int(8 if not far else 200):
            sub = d.choice(s)
        else:
            sub = miss(d, dec, v)
        text += render(d, sub, args)
        subs.append(sub)
        try:
            v = step(dec, v, sub)
        except Missing:
            if d.int(2):
                break
        except Skip:
            return
    if d.int(4) == 3:
        # malformed, or another expression
        for _ in range(1 + d.int(2)):
            i = d.int(len(text) + 1)
            k = d.int(4)
            ch = bytes([d.choice(b"[]'%+-019 us\t36264ix\"\x80\xff(")])
            if k == 0:
                text = text[:i] + ch + text[i:]
            elif k == 1:
                text = text[:i] + text[i + 1:]
            elif k == 2:
                text = text[:i] + ch + text[i + 1:]
            else:
                text = text[:i]
        if b'[ ' in text or b'[\t' in text or b'["' in text or b'\0' in text:
            return
        args = None
    evaluate(d, c, img, dec, p, text, args, m)


def evaluate(d, c, img, dec, p, text, args, m):
    v, n, why, cargs, given = dec.root, 0, None, [], 0
    try:
        for kind, x in parse(text):
            if kind == '%':
                if args is not None:
                    expect(args[given][0] == x, 'harness', 'placeholder order')
                    x2 = args[given][1]
                    given += 1
                else:
                    x2 = d.choice([b'a', b'key', b'']) if x == 's' else d.int(3)
                cargs.append(C.c_char_p(x2) if x == 's' else CT[x](x2))
                kind, x = ('s' if x == 's' else 'i'), x2
            if why is None:
                n += 1
                try:
                    v = step(dec, v, (kind, x))
                except Missing:
                    why = 'subscript %d' % n
    except Bad as e:
        why = why or str(e)
    except Skip:
        return
    pad = [C.c_char_p(b'pad')] * 6
    exp = None if why else v
    c.note('model', m, 'expression', text, 'args', [a.value for a in cargs], 'expected', exp and dec.canon(exp), why)

    def bad(what, got):
        raise Fail('eval' + what, '%r with %r: got %r, expected %s' % (text, [a.value for a in cargs], got, why or short(dec.canon(exp))))

    def call(name, *outs):
        root = Value(*dec.root)
        keep = root.tup()
        r = F[name](p, C.byref(root), *(list(outs) + [C.c_char_p(text)] + cargs + pad))
        if root.tup() != keep:
            bad(name + ' changed the root', root.tup())
        return r

    out = Value(77, 77)
    r = call('', C.byref(out))
    if bool(r) != (exp is not None):
        bad('', r)
    if r:
        got = out.tup()
        if exp[0] in (plfmt.STRING, plfmt.UNICODE, plfmt.MAP, plfmt.SET) or exp[0] in plfmt.VECS or exp[0] in plfmt.BITTYPES:
            if got != exp:
                bad('', got)
        elif dec.canon(got) != dec.canon(exp):
            bad('', got)
    t = exp[0] if exp else None
    # typed variants
    x, n32 = u32(77), u32(77)
    r = call('_as_u32', C.byref(x))
    num = dec.key(exp)[1] if t in (plfmt.U32, plfmt.I32) else -1
    if r and x.value != num or num < 0 and r or (num >= 0 and not r and not signed(dec, text, exp, out)):
        bad('_as_u32', (r, x.value))
    r = call('_as_map', C.byref(out))
    if bool(r) != (t == plfmt.MAP) or (r and out.tup() != exp):
        bad('_as_map', (r, out.tup()))
    s = C.POINTER(C.c_uint8)()
    r = call('_as_string', C.byref(s))
    if bool(r) != (t == plfmt.STRING) or (r and C.string_at(s) != bytes(dec.text(*exp))):
        bad('_as_string', r)
    r = call('_as_boolean', C.byref(x))
    if bool(r) != (t == plfmt.BOOL) or (r and x.value != exp[1]):
        bad('_as_boolean', (r, x.value))
    r = call('_as_bitvector', C.byref(out), C.byref(n32))
    if bool(r) != (t in plfmt.BITTYPES) or (r and (out.tup() != exp or n32.value != len(dec.bits(*exp)))):
        bad('_as_bitvector', (r, out.tup(), n32.value))
    for name, vt in (('u8', plfmt.U8V), ('u16', plfmt.U16V), ('u32', plfmt.U32V), ('u64', plfmt.U64V), ('f', plfmt.FLOATV), ('value', None)):
        ptr = VP(77)
        r = call('_as_vector_' + name, C.byref(ptr), C.byref(n32))
        ok = t == plfmt.EMPTYV or t is not None and (t == vt if vt is not None else t in (plfmt.VALUE, plfmt.HASHABLE))
        if bool(r) != ok:
            bad('_as_vector_' + name, r)
        if r and t == plfmt.EMPTYV:
            if n32.value != 0:
                bad('_as_vector_' + name, n32.value)
        elif r:
            items = dec.vec_items(*exp)
            if vt is None:
                raw = b''.join(struct.pack('<2I', *i) for i in items)
            else:
                raw = struct.pack('<%d%s' % (len(items), plfmt.VEC_FMT[vt]), *items)
            if n32.value != len(items) or C.string_at(ptr, len(raw)) != raw:
                bad('_as_vector_' + name, n32.value)
    c.label('found' if exp else 'fails at ' + re.sub(' .*', '', why))
    if n > 1:
        c.nontrivial(img + text + repr([a.value for a in cargs]).encode(), lambda: '%r with %r of %s: %s' % (text, [a.value for a in cargs], short(m, 200), why or short(dec.canon(exp), 60)))


def signed(dec, text, exp, out):
    # stored as a signed number: the helper for unsigned ones may refuse it
    return out.type == plfmt.I32


def example_fixed(c):
    img = bytes(pointless.serialize_to_bytearray(pv.real({'a': [1, 2, {'b': pv.Bits([1, 0])}], 5: 'x', "q'": True})))
    dec = plfmt.Decoder(img)
    with capi.Image(img) as im:
        from harness import Draw
        d = Draw(tape=[])
        for t in (b'', b' ', b"['a']", b"['a'][0]", b"['a'][2]['b'][0]", b"[5]", b"[+5]", b"[-5]", b"[5", b"5]", b"[]", b"[']", b"['a'", b"['a]", b"[%]", b"[%u]", b"[%u3]", b"[%i6]",
                  b"[18446744073709551616]", b"[-9223372036854775807]", b"[-9223372036854775808]", b"['a'][18446744073709551615]", b"['a'][4294967296]", b"['a']x", b"x['a']", b"[[0]]", b"['a'] [0] "):
            evaluate(d, c, img, dec, im.p, t, None, 'fixed')
            c.evals += 1
