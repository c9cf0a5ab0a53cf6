"""Histories of the C creation interface against a model of the values they describe."""
import ctypes as C
import os
import struct

import pointless

import capi
import plfmt
import pv
from capi import u8, u32, u64, VP, ERR, P
from harness import Fail, expect, short

RULE = 'a history of at least eight calls, some of them after another container was begun, that was written out and read back, or refused for a key; distinct by the calls'
LEVEL = 'exploration'
CONF = {'budget': 28}
ASSUMPTIONS = ['each string value fits the width of its constructor and has no NUL', 'handles given to a call are handles returned before (or, for the calls that check it, numbers never returned)',
               'lists given to the library are not used afterwards, lists owned by the caller are kept until the end',
               'keys of one container that are equal but of different types (True, 1) are not generated; nor are 64-bit vectors of wide items as keys']

FAIL = 2**32 - 1
CP = VP


def f(name, *args, res=u32):
    return capi.fn('pointless_create_' + name, res, CP, *args)


begin = f('begin_64', res=None)
begin32 = f('begin_32', res=None)
end = f('end', res=None)
out_f = capi.fn('pointless_create_output_and_end_f', C.c_int, CP, C.c_char_p, ERR)
out_b = capi.fn('pointless_create_output_and_end_b', C.c_int, CP, P(VP), P(C.c_size_t), ERR)
set_root = f('set_root', u32, res=None)
c_i32, c_u32, c_float, c_null = f('i32', C.c_int32), f('u32', u32), f('float', C.c_float), f('null')
c_true, c_false, c_bool = f('boolean_true'), f('boolean_false'), f('boolean', C.c_int32)
c_uni4, c_uni2, c_uni1 = f('unicode_ucs4', VP), f('unicode_ucs2', VP), f('unicode_ascii', VP, ERR)
c_str4, c_str2, c_str1 = f('string_ucs4', VP), f('string_ucs2', VP), f('string_ascii', VP)
c_bits, c_bits_nn, c_bits_c = f('bitvector', VP, u32), f('bitvector_no_normalize', VP, u32), f('bitvector_compressed', P(capi.Value))
CT = {'i8': C.c_int8, 'u8': u8, 'i16': C.c_int16, 'u16': C.c_uint16, 'i32': C.c_int32, 'u32': u32, 'i64': C.c_int64, 'u64': u64, 'f': C.c_float}
NAME = {t: 'float' if t == 'f' else t for t in CT}
c_vec = {t: f('vector_' + NAME[t]) for t in CT}
c_vec['value'] = f('vector_value')
c_app = {t: f('vector_%s_append' % NAME[t], u32, CT[t]) for t in CT}
c_app['value'] = f('vector_value_append', u32, u32)
c_set_item = f('vector_value_set', u32, u32, u32, res=None)
c_tr_u32, c_tr_value = f('vector_u32_transfer', u32, VP, u32), f('vector_value_transfer', u32, VP, u32)
c_owner = {t: f('vector_%s_owner' % NAME[t], VP, u32) for t in CT}
c_set, c_set_add = f('set'), f('set_add', u32, u32)
c_map, c_map_add = f('map'), f('map_add', u32, u32, u32)
_malloc = capi.fn('pointless_malloc', VP, C.c_size_t)
free = capi.fn('pointless_free', None, VP)
VEC_ID = plfmt.VEC_OF_PRIM


def malloc(n):
    p = _malloc(n)
    if not p:
        raise MemoryError       # under C23
    return p


class Unhashable(Exception):
    pass


class H:
    """what a handle stands for"""
    __slots__ = ('kind', 'v', 't')

    def __init__(self, kind, v, t=None):
        self.kind, self.v, self.t = kind, v, t


def freeze(h, open_=(), depth=0):
    k = h.kind
    if k == 'scalar':
        if h.v != h.v:
            raise Unhashable
        return h.v
    if k in ('string', 'bits'):
        return h.v
    if k == 'typed':
        if any(x != x for x in h.v):
            raise Unhashable
        return tuple(h.v)
    if k == 'vec':
        if id(h) in open_ or depth > 450:
            raise Unhashable
        return tuple([freeze(x, open_ + (id(h),), depth + 1) for x in h.v])
    raise Unhashable


def flat(x):
    if type(x) is tuple:
        return ('tuple',) + tuple(map(flat, x))
    return type(x).__name__, x


class History:
    def __init__(self):
        self.c = (u8 * capi.SIZES['create'])()
        begin(self.c)
        self.h = {}
        self.keep = []
        self.calls = []
        self.order = []

    def add(self, r, h, text):
        self.calls.append(text)
        expect(r != FAIL, 'a call failed', lambda: '%s after %s' % (text, short(self.calls, 1000)))
        old = self.h.get(r)
        if old is None:
            self.h[r] = h
            self.order.append(r)
        else:
            # a handle given before: the same value, and not something that can be changed
            expect(old.kind == h.kind and old.kind in ('scalar', 'string', 'bits') and flat(old.v) == flat(h.v) and old.t == h.t and repr(old.v) == repr(h.v), 'a handle stands for two values',
                   lambda: '%s gives the handle of %r, after %s' % (text, old.v, short(self.calls, 1000)))
        return r


def text_of(d, top):
    if d.int(150) == 149:
        n = d.choice([65535, 65536, 70001])
        ch = d.choice(['a', '\xe9', '\u20ac', '\U00010000'])
        if ch <= chr(top):
            return ch * n + d.choice(['', 'x', 'y'])
    if d.int(8) == 7:
        v = pv.g_collide(d)
        if max(v) <= chr(top):
            return v
    n = d.size(5, 40)
    pool = d.int(3)
    out = []
    for _ in range(n):
        if pool == 0:
            cp = 97 + d.int(3)
        elif pool == 1:
            cp = 1 + d.int(min(top, 300))
        else:
            cp = d.choice([1, 127, 128, 255, 256, 0x7ff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 1 + d.int(top)])
        cp = min(cp, top)
        if 0xd800 <= cp < 0xe000:
            cp = 0x61
        out.append(cp)
    return ''.join(map(chr, out))


def scalar(d, s):
    k = d.int(8)
    if k <= 1:
        v = d.choice([0, 1, -1, 9999, 10000, 10001, -9999, -10000, -10001, 2**31 - 1, -2**31, 127, -128, 255, 65535, 32767, -32769]) if d.int(3) == 0 else d.int(300) - 100 if d.bool() else d.rng_int(-2**31, 2**31 - 1)
        return s.add(c_i32(s.c, v), H('scalar', v), 'i32(%d)' % v)
    if k <= 3:
        v = d.choice([0, 1, 9999, 10000, 10001, 2**31 - 1, 2**31, 2**32 - 1, 255, 256, 65535, 65536]) if d.int(3) == 0 else d.int(300) if d.bool() else d.rng_int(0, 2**32 - 1)
        return s.add(c_u32(s.c, v), H('scalar', v), 'u32(%d)' % v)
    if k == 4:
        v = pv.f32(d.choice([0.0, -0.0, 1.0, 1.5, -2.5, float('inf'), -float('inf'), 1e-40, 3e38, 16777216.0, 5.0]) if d.bool() else d.rng_int(-10**6, 10**6) / 64)
        return s.add(c_float(s.c, v), H('scalar', v), 'float(%r)' % v)
    if k == 5:
        v = d.bool()
        w = d.int(3)
        return s.add(c_bool(s.c, d.choice([1, -1, 256]) if v else 0) if w == 0 else c_true(s.c) if v else c_false(s.c), H('scalar', bool(v)), 'boolean(%r)' % v)
    if k == 6 and d.int(3) == 0:
        return s.add(c_null(s.c), H('scalar', None), 'null()')
    return string(d, s)


def array(t, items):
    return (t * max(1, len(items)))(*items)


def string(d, s):
    k = d.int(6)
    v = text_of(d, 0xff if k in (2, 3, 4, 5) else 0xffff if k == 1 else 0x10ffff)
    cps = [ord(x) for x in v] + [0]
    err = C.c_char_p()
    if k == 0:
        r = c_uni4(s.c, array(u32, cps))
    elif k == 1:
        r = c_uni2(s.c, array(C.c_uint16, cps))
    elif k == 2:
        r = c_uni1(s.c, array(u8, cps), C.byref(err))
    elif k == 3:
        r = c_str4(s.c, array(u32, cps))
    elif k == 4:
        r = c_str2(s.c, array(C.c_uint16, cps))
    else:
        r = c_str1(s.c, array(u8, cps))
    return s.add(r, H('string', v, 'unicode' if k <= 2 else 'string'), '%s(%r)' % (['unicode_ucs4', 'unicode_ucs2', 'unicode_ascii', 'string_ucs4', 'string_ucs2', 'string_ascii'][k], v))


def bits(d, s):
    b = list(pv.g_bits(d).bits)
    n = len(b)
    k = d.int(5)
    if k == 4:
        # an inline encoding
        w = d.int(4)
        if w == 0:
            n = d.choice([0, 1, 31, 32, 100, 2000])
            one = d.int(2)
            val, b = capi.Value(plfmt.BITS1 if one else plfmt.BITS0, n), [one] * n
        elif w == 1:
            n = d.int(28)
            b = [d.int(2) for _ in range(n)]
            val = capi.Value(plfmt.PACKED, n | sum(x << (5 + i) for i, x in enumerate(b)))
        else:
            x, y = d.choice([0, 1, 20, 500, 2000]), d.choice([0, 1, 30, 700])
            val = capi.Value(plfmt.BITS01 if w == 2 else plfmt.BITS10, x | y << 16)
            b = [0] * x + [1] * y if w == 2 else [1] * x + [0] * y
        r = c_bits_c(s.c, C.byref(val))
        name = 'bitvector_compressed'
    else:
        raw = bytearray((n + 7) // 8)
        for i, x in enumerate(b):
            raw[i >> 3] |= x << (i & 7)
        if n & 7 and d.bool():
            raw[-1] |= 0xff << (n & 7) & 0xff    # what is beyond the last bit does not matter
        r = (c_bits if k <= 2 else c_bits_nn)(s.c, array(u8, raw), n)
        name = 'bitvector' if k <= 2 else 'bitvector_no_normalize'
    return s.add(r, H('bits', pv.Bits(b), name), '%s(%s)' % (name, ''.join(map(str, b))[:80]))


def vector(d, s):
    t = d.choice(list(CT) + ['value'] * 9)
    how = d.int(4)
    if t == 'value':
        r = s.add(c_vec[t](s.c), H('vec', []), 'vector_value()')
        if how == 0:
            items = [pick(d, s) for _ in range(d.size(5, 30))]
            buf = malloc(max(4, 4 * len(items)))
            C.memmove(buf, array(u32, items), 4 * len(items))
            x = c_tr_value(s.c, r, buf, len(items))
            if x == FAIL:
                free(buf)
            s.calls.append('vector_value_transfer(%d, %r)' % (r, items))
            expect(x == r, 'a call failed', lambda: str(s.calls))
            s.h[r].v = [s.h[i] for i in items]
            s.h[r].t = 'given'
        elif how == 1:
            for _ in range(d.size(4, 20)):
                append(d, s, r)
        return r
    g = [pv.g_prim_item(d, t) for _ in range(d.choice([0, 1, 2, 5, 9, 30]))]
    if t == 'f':
        g = [pv.f32(x) for x in g]
    if how == 0:
        a = array(CT[t], g)
        s.keep.append(a)
        return s.add(c_owner[t](s.c, a, len(g)), H('typed', g, t), 'vector_%s_owner(%r)' % (t, g))
    r = s.add(c_vec[t](s.c), H('typed', [], t), 'vector_%s()' % t)
    if how == 1 and t == 'u32':
        buf = malloc(max(4, 4 * len(g)))
        C.memmove(buf, array(u32, g), 4 * len(g))
        x = c_tr_u32(s.c, r, buf, len(g))
        if x == FAIL:
            free(buf)
        expect(x == r, 'a call failed', lambda: str(s.calls))
        s.h[r].v = g
        s.calls.append('vector_u32_transfer(%d, %r)' % (r, g))
    elif how >= 2:
        for x in g:
            expect(c_app[t](s.c, r, x) == r, 'a call failed', lambda: str(s.calls))
            s.h[r].v.append(x)
        s.calls.append('append to %d %r' % (r, g))
    return r


def owned(h):
    return h.kind == 'typed'


def pick(d, s):
    if not s.order or d.int(4) == 0:
        return scalar(d, s)
    if d.int(3) == 0:
        return s.order[-1 - d.int(min(4, len(s.order)))]
    return d.choice(s.order)


def of_kind(d, s, kind):
    xs = [r for r in s.order if s.h[r].kind == kind]
    return d.choice(xs) if xs else None


def append(d, s, r):
    x = pick(d, s)
    expect(c_app['value'](s.c, r, x) == r, 'a call failed', lambda: str(s.calls))
    s.h[r].v.append(s.h[x])
    s.calls.append('append(%d, %d)' % (r, x))


def key(d, s, used, wild):
    """the handle of a good key that is not there yet, or of anything"""
    for _ in range(4):
        r = pick(d, s) if d.int(3) else scalar(d, s)
        if d.int(4) == 0:
            # a vector of good keys
            r = s.add(c_vec['value'](s.c), H('vec', []), 'vector_value()')
            for _ in range(d.int(4)):
                x = pick(d, s) if d.int(3) else scalar(d, s)
                try:
                    freeze(s.h[x])
                except Unhashable:
                    continue
                expect(c_app['value'](s.c, r, x) == r, 'a call failed', lambda: str(s.calls))
                s.h[r].v.append(s.h[x])
                s.calls.append('append(%d, %d)' % (r, x))
        if wild:
            return r
        try:
            if freeze(s.h[r]) in used:
                continue
        except Unhashable:
            continue
        return r
    return None


def step(d, s, wild, frozen):
    k = d.int(16)
    if k <= 3:
        scalar(d, s)
    elif k == 4:
        bits(d, s)
    elif k <= 6:
        vector(d, s)
    elif k == 7:
        r = s.add(c_set(s.c), H('set', []), 'set()')
    elif k == 8:
        r = s.add(c_map(s.c), H('map', []), 'map()')
    elif k <= 10:
        r = of_kind(d, s, 'vec')
        if r is not None and id(s.h[r]) not in frozen:
            append(d, s, r)
    elif k == 11:
        r = of_kind(d, s, 'vec')
        if r is not None and s.h[r].v and id(s.h[r]) not in frozen:
            i, x = d.int(len(s.h[r].v)), pick(d, s)
            c_set_item(s.c, r, i, x)
            s.h[r].v[i] = s.h[x]
            s.calls.append('vector_value_set(%d, %d, %d)' % (r, i, x))
    elif k == 12 and d.int(3) == 0:
        # refused calls change nothing
        r = of_kind(d, s, 'vec')
        if r is None:
            return
        bad = 2**31 + d.int(5)
        if d.bool():
            expect(c_app['value'](s.c, r, bad) == FAIL, 'a handle never given was accepted')
        else:
            items = [pick(d, s)] + ([bad] if not s.h[r].v or d.bool() else [])
            buf = malloc(4 * len(items))
            C.memmove(buf, array(u32, items), 4 * len(items))
            expect(c_tr_value(s.c, r, buf, len(items)) == FAIL, 'a handle never given was accepted, or a vector that is not empty', lambda: str(s.calls))
            free(buf)
        s.calls.append('refused call on %d' % r)
    else:
        # keys
        r = of_kind(d, s, 'set' if k == 13 else 'map')
        if r is None:
            return
        h = s.h[r]
        used = set()
        for x in h.v:
            try:
                used.add(freeze(x[0] if h.kind == 'map' else x))
            except Unhashable:
                pass
        w = wild and d.int(12) == 0
        q = key(d, s, used, w)
        if q is None:
            return
        kh = s.h[q]
        freeze_all(kh, frozen)
        if h.kind == 'set':
            expect(c_set_add(s.c, r, q) == r, 'a call failed')
            h.v.append(kh)
            s.calls.append('set_add(%d, %d)' % (r, q))
        else:
            x = pick(d, s)
            expect(c_map_add(s.c, r, q, x) == r, 'a call failed')
            h.v.append((kh, s.h[x]))
            s.calls.append('map_add(%d, %d, %d)' % (r, q, x))


def freeze_all(h, frozen):
    """vectors used as keys stay as they are, so that keys stay distinct"""
    if h.kind == 'vec' and id(h) not in frozen:
        frozen.add(id(h))
        for x in h.v:
            freeze_all(x, frozen)


def wide(h, seen=None):
    if h.kind == 'typed':
        return h.t in ('i64', 'u64') and any(abs(x) > 2**31 for x in h.v)
    seen = seen or set()
    if h.kind != 'vec' or id(h) in seen:
        return False
    seen.add(id(h))
    return any(wide(x, seen) for x in h.v)


def key_state(s):
    """'ok', 'bad' (a key that cannot be one, or two equal keys), or None: not specified"""
    state = 'ok'
    for h in s.h.values():
        if h.kind not in ('set', 'map'):
            continue
        seen = {}
        for x in h.v:
            k = x[0] if h.kind == 'map' else x
            if wide(k):
                return None
            try:
                fr = freeze(k)
            except Unhashable:
                state = 'bad'
                continue
            if fr in seen:
                if flat(seen[fr]) != flat(fr):
                    return None
                state = 'bad'
            seen[fr] = fr
    return state


def python(h, memo):
    """model for pv.iso"""
    if h.kind in ('scalar', 'string', 'bits'):
        return h.v
    if id(h) in memo:
        return memo[id(h)][0]
    if h.kind == 'typed':
        r = list(h.v)
        memo[id(h)] = (r, h)
    elif h.kind == 'vec':
        r = []
        memo[id(h)] = (r, h)
        r.extend([python(x, memo) for x in h.v])
    elif h.kind == 'set':
        r = {freeze(x) for x in h.v}
        memo[id(h)] = (r, h)
    else:
        r = {}
        memo[id(h)] = (r, h)
        for k, v in h.v:
            r[freeze(k)] = python(v, memo)
    return r


def types(dec, h, v, seen, path):
    """kinds of strings and typed vectors, in the image"""
    if (id(h), v) in seen:
        return
    seen.add((id(h), v))
    t, data = v
    if h.kind == 'string':
        expect(t == (plfmt.UNICODE if h.t == 'unicode' else plfmt.STRING), 'kind of string', lambda: path)
    elif h.kind == 'typed':
        expect(t == (VEC_ID[h.t] if h.v else plfmt.EMPTYV), 'type of vector', lambda: '%s: %d instead of %s' % (path, t, h.t))
    elif h.kind == 'vec' and t in (plfmt.VALUE, plfmt.HASHABLE):
        for i, (x, y) in enumerate(zip(h.v, dec.vec_items(t, data))):
            types(dec, x, y, seen, '%s[%d]' % (path, i))
    elif h.kind == 'scalar' and type(h.v) is float:
        expect(t == plfmt.FLOAT, 'a float became something else', lambda: path)


def run(d, c, n, wild):
    s = History()
    s.ended = False
    try:
        return history(d, s, n, wild)
    finally:
        if not s.ended:
            end(s.c)


def history(d, s, n, wild):
    frozen = set()
    for _ in range(n):
        step(d, s, wild, frozen)
    # how it ends
    w = d.int(20)
    if w == 0:
        end(s.c)
        s.ended = True
        s.calls.append('end()')
        return s, None, None
    if w == 1:
        err = C.c_char_p()
        buf, k = VP(), C.c_size_t()
        s.ended = True
        expect(out_b(s.c, C.byref(buf), C.byref(k), C.byref(err)) == 0 and err.value, 'written out without a root')
        return s, None, None
    if w <= 8 or not s.order:
        # everything hangs from the root
        items = list(s.order)
        r = s.add(c_vec['value'](s.c), H('vec', []), 'vector_value()')
        for x in items:
            expect(c_app['value'](s.c, r, x) == r, 'a call failed')
            s.h[r].v.append(s.h[x])
    else:
        xs = [r for r in s.order if s.h[r].kind in ('vec', 'set', 'map')]
        r = d.choice(xs if xs and d.int(6) else s.order)
    set_root(s.c, r)
    s.calls.append('set_root(%d)' % r)
    err = C.c_char_p()
    file = d.int(3) == 0
    s.ended = True
    if file:
        ok = out_f(s.c, b'c25.map', C.byref(err))
        img = None
        if ok:
            with open('c25.map', 'rb') as fh:
                img = fh.read()
            os.unlink('c25.map')
        else:
            expect(not os.path.exists('c25.map'), 'a file was left')
    else:
        buf, k = VP(), C.c_size_t()
        ok = out_b(s.c, C.byref(buf), C.byref(k), C.byref(err))
        img = None
        if ok:
            img = C.string_at(buf, k.value)
            free(buf)
    expect(ok or err.value, 'no error text')
    return s, r, img if ok else err.value


def prop(d, c):
    live = capi.mem_live()
    os.chdir(c.scratch)
    wild = d.int(3) == 0
    n = d.choice([3, 8, 20, 40, 80]) if d.int(20) else 400
    s, r, img = run(d, c, n, wild)
    c.note('calls', s.calls)
    now = capi.mem_live()
    expect(now == live, 'leak', lambda: '%d allocations after %s' % (now - live, short(s.calls, 1000)))
    if r is None:
        c.label('ended without output')
        return
    state = key_state(s)
    wrote = len(img) >= 32 and img[28:32] == b'\x02\0\0\0'
    if not wrote:
        expect(state != 'ok', 'could not be written out', lambda: '%r: %s' % (img, short(s.calls, 2000)))
        c.label('refused for a key')
        if len(s.calls) >= 8:
            c.nontrivial(repr(s.calls), lambda: 'refused: %s' % short(s.calls, 300))
        return
    expect(state != 'bad', 'written out with a key that is no key, or twice', lambda: short(s.calls, 2000))
    v, dec = plfmt.verdict(img)
    expect(v is not False, 'the image is malformed', lambda: '%s: %s' % (dec, short(s.calls, 2000)))
    view = pointless.Pointless(bytearray(img)).GetRoot()
    if state is None:
        c.label('keys equal across types')
        return
    m = python(s.h[r], {})
    bad = pv.iso(m, view)
    expect(not bad, 'reads back differently', lambda: '%s: %s' % (bad, short(s.calls, 2000)))
    dec = plfmt.Decoder(img)
    types(dec, s.h[r], dec.root, set(), 'root')
    c.label('written out')
    if len(s.calls) >= 8:
        c.nontrivial(repr(s.calls), lambda: short(s.calls, 300))


def example_32(c):
    """images with 32-bit offsets are no longer written"""
    live = capi.mem_live()
    x = (u8 * capi.SIZES['create'])()
    begin32(x)
    v = c_vec['value'](x)
    c_app['value'](x, v, c_i32(x, 5))
    set_root(x, v)
    err = C.c_char_p()
    buf, k = VP(), C.c_size_t()
    expect(out_b(x, C.byref(buf), C.byref(k), C.byref(err)) == 0 and err.value, 'an old version was written')
    expect(capi.mem_live() == live, 'leak')
