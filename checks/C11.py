"""The C lookup helpers against the decoded contents of generated images."""
import ctypes as C
import struct

import pointless

import capi
import plfmt
import pv
from capi import u32, i64, Value, VP, PV as PVAL, P, ERR, fn
from checks.C10 import near, has_nan, fix, mk
from harness import Fail, expect, short

RULE = 'an image with at least three entries, on which lookups both succeeded and failed; distinct by image and lookups'
LEVEL = 'exploration'
CONF = {'budget': 26}

U8P = C.c_char_p
S = 'pointless_get_mapping_string_to_'
f_u32 = fn(S + 'u32', C.c_int, VP, PVAL, U8P, P(u32))
f_i64 = fn(S + 'i64', C.c_int, VP, PVAL, U8P, P(i64))
f_set = fn(S + 'set', C.c_int, VP, PVAL, U8P, PVAL)
f_map = fn(S + 'map', C.c_int, VP, PVAL, U8P, PVAL)
f_value = fn(S + 'value', C.c_int, VP, PVAL, U8P, PVAL)
f_n = fn('pointless_get_mapping_string_n_to_value', C.c_int, VP, PVAL, VP, C.c_size_t, PVAL)
f_uni = fn('pointless_get_mapping_unicode_to_value', C.c_int, VP, PVAL, VP, PVAL)
f_uni32 = fn('pointless_get_mapping_unicode_to_u32', C.c_int, VP, PVAL, VP, P(u32))
f_int = fn('pointless_get_mapping_int_to_value', C.c_int, VP, PVAL, i64, PVAL)
f_vec = fn(S + 'vector', C.c_int, VP, PVAL, U8P, PVAL, P(u32))
f_typed = {n: fn(S + 'vector_' + n, C.c_int, VP, PVAL, U8P, P(VP), P(u32)) for n in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'float', 'value')}
in_set = fn('pointless_is_int_in_set', C.c_int, VP, PVAL, i64)
in_map = fn('pointless_is_int_in_map', C.c_int, VP, PVAL, i64)
same_sm = fn('pointless_has_same_keys_set_map', C.c_int, VP, PVAL, PVAL)
same_mm = fn('pointless_has_same_keys_map_map', C.c_int, VP, PVAL, PVAL)
set_ac = fn('pointless_is_in_set_acyclic', C.c_int, VP, PVAL, PVAL)
map_ac = fn('pointless_is_in_map_acyclic', C.c_int, VP, PVAL, PVAL)
map_hi = fn('pointless_reader_map_iter_hash_init', None, VP, PVAL, u32, VP)
map_h = fn('pointless_reader_map_iter_hash', u32, VP, PVAL, u32, P(PVAL), P(PVAL), VP)
set_hi = fn('pointless_reader_set_iter_hash_init', None, VP, PVAL, u32, VP)
set_h = fn('pointless_reader_set_iter_hash', u32, VP, PVAL, u32, P(PVAL), VP)
map_l = fn('pointless_reader_map_lookup', None, VP, PVAL, PVAL, P(PVAL), P(PVAL), ERR)
set_l = fn('pointless_reader_set_lookup', None, VP, PVAL, PVAL, P(PVAL), ERR)
EQ = C.CFUNCTYPE(u32, VP, P(capi.CValue), VP, ERR)
map_lx = fn('pointless_reader_map_lookup_ext', None, VP, PVAL, u32, EQ, VP, P(PVAL), P(PVAL), ERR)
set_lx = fn('pointless_reader_set_lookup_ext', None, VP, PVAL, u32, EQ, VP, P(PVAL), ERR)
map_it = fn('pointless_reader_map_iter', u32, VP, PVAL, P(PVAL), P(PVAL), P(u32))
set_it = fn('pointless_reader_set_iter', u32, VP, PVAL, P(PVAL), P(u32))
TYPED = {n: plfmt.VEC_OF_PRIM["f" if n == "float" else n] for n in f_typed if n != "value"}

STRS = ['a', 'b', '', 'ab', 'abc', 'key', 'é', 'ÿ', 'aé', 'k1', 'k2', 'x' * 40]


def g_k(d, g):
    k = d.int(8)
    if k < 4:
        return d.choice(STRS)
    if k == 4:
        return pv.g_str(d)
    if k == 5:
        return pv.g_int(d)
    return pv.g_key(d, g)


def g_v(d, g):
    k = d.int(8)
    if k == 0:
        return pv.g_prim(d, 12)
    if k == 1:
        return pv.g_int(d)
    if k == 2:
        return set([pv.g_key(d, g) for _ in range(d.int(3))])
    if k == 3:
        return {pv.g_key(d, g): 1 for _ in range(d.int(3))}
    if k == 4:
        return [pv.g_scalar(d, g) for _ in range(d.int(4))]
    if k == 5:
        return [pv.g_int(d) for _ in range(d.int(4))]
    return pv.g_scalar(d, g)


def keys_of(d, g, base=None):
    """A list of distinct keys, perhaps a variant of base"""
    out = {}
    if base is not None:
        for k in d.shuffle(base):
            out[mk(k)] = k
        k = d.int(6)
        if k == 1 and base:
            del out[mk(d.choice(base))]
        elif k == 2:
            x = g_k(d, g)
            out[mk(x)] = x
        elif k in (3, 4) and base:
            x = d.choice(base)
            if k == 3:
                del out[mk(x)]
            y = fix(near(d, x))
            if not has_nan(y):
                out[mk(y)] = y
        elif k == 5:
            # the same keys as other kinds of number
            for x in base:
                if type(x) is int and d.int(2) and pv.f32(float(x)) == x:
                    out[mk(x)] = d.choice([float(x), bool(x) if x in (0, 1) else float(x)])
    else:
        for _ in range(d.size(6, 40)):
            x = g_k(d, g)
            if d.int(5) == 4 and out:
                x = fix(near(d, d.choice(list(out.values()))))
            if not has_nan(x):
                out.setdefault(mk(x), x)
    return list(out.values())


def prop(d, c):
    g = pv.G(nodes=100)
    ka = keys_of(d, g)
    kb = keys_of(d, g, ka)
    kc = keys_of(d, g, ka)
    m = [{k: g_v(d, g) for k in ka}, {k: i for i, k in enumerate(kb)}, set(kc), [g_v(d, g) for _ in range(3)], ka + [near(d, k) for k in ka[:6]] + [{}, [], [[]], ({1: 2},)]]
    if d.int(3) == 2:
        B, ref = plfmt.build_model(m, d)
        img = B.image(ref)
    else:
        img = bytes(pointless.serialize_to_bytearray(pv.real(m)))
    dec = plfmt.Decoder(img)
    im = capi.Image(img)
    try:
        check(d, c, img, dec, im.p, ka, kb, kc)
    finally:
        im.close()
    if len(ka) > 2:
        c.nontrivial(img, lambda: 'map of keys %s; map of keys %s; set %s' % (short(ka, 200), short(kb, 100), short(kc, 100)))


def ref(v):
    return C.byref(Value(*v))


def check(d, c, img, dec, p, ka, kb, kc):
    top = dec.vec_items(*dec.root)
    ma, mb, sc = top[0], top[1], top[2]
    others = []
    for t in top[3:]:
        if t[0] in (plfmt.VALUE, plfmt.HASHABLE):
            others += dec.vec_items(*t)
    maps = {}
    for m in (ma, mb):
        n, hv, kv, vv = dec.map_parts(m[1])
        maps[m] = [(a, b) for a, b in zip(dec.vec_items(*kv), dec.vec_items(*vv)) if a[0] != plfmt.EMPTY]
    n, hv, kv = dec.set_parts(sc[1])
    sets = {sc: [a for a in dec.vec_items(*kv) if a[0] != plfmt.EMPTY]}
    bykey = {m: {dec.key(a): (a, b) for a, b in es} for m, es in maps.items()}
    bykey[sc] = {dec.key(a): (a, None) for a in sets[sc]}
    hit = miss = 0
    # strings
    probes = [k for k in ka if type(k) is str][:10] + [d.choice(STRS), pv.g_str(d)]
    probes += [s for s in (near(d, k) for k in list(probes)) if type(s) is str]
    for m in (ma, mb):
        for s in probes:
            e = bykey[m].get(('s', tuple(map(ord, s))))
            string(d, dec, p, m, s, e)
            hit += e is not None
            miss += e is None
    # integers
    ints = [k for k in ka if type(k) is int][:10] + [0, 1, d.choice(pv.EDGE_INTS), pv.g_int(d)]
    ints += [i + d.choice([1, -1, 2**32, -2**32, 2**31, -2**63, 2**40]) for i in ints]
    for m in (ma, mb, sc):
        for i in ints:
            if not -2**63 <= i < 2**63:
                continue
            e = bykey[m].get(('num', i))
            if e is not None and e[0][0] not in (plfmt.I32, plfmt.U32):
                # a float or boolean key: the integer helpers are about integer keys
                continue
            if m is sc:
                expect(bool(in_set(p, ref(m), i)) == (e is not None), 'pointless_is_int_in_set', lambda: '%d in %s' % (i, short(kc)))
                continue
            expect(bool(in_map(p, ref(m), i)) == (e is not None), 'pointless_is_int_in_map', i)
            out = Value(77, 77)
            r = f_int(p, ref(m), i, C.byref(out))
            expect(bool(r) == (e is not None) and (not r or out.tup() == e[1]), 'int_to_value', lambda: '%d: %d %r, expected %r' % (i, r, out.tup(), e))
    # keys in common
    for a, b, f in ((sc, ma, same_sm), (sc, mb, same_sm), (ma, mb, same_mm), (mb, ma, same_mm), (ma, ma, same_mm)):
        e = set(bykey[a]) == set(bykey[b])
        r = f(p, ref(a), ref(b))
        expect(bool(r) == e, 'same keys', lambda: '%d, expected %r: %s and %s' % (r, e, short(list(bykey[a])), short(list(bykey[b]))))
        c.label('same keys' if e else 'other keys')
    # any value as a key
    cand = others + [a for a, b in maps[ma]] + [b for a, b in maps[ma]] + sets[sc]
    for v in cand[:40]:
        hashable = dec.hashable(v)
        for m in (ma, mb, sc):
            e = bykey[m].get(dec.key(v)) if hashable else None
            r = (set_ac if m is sc else map_ac)(p, ref(m), ref(v))
            expect(bool(r) == (e is not None), 'acyclic membership', lambda: '%d, expected %r: %r in %s' % (r, e, dec.canon(v), short(list(bykey[m]))))
            kk, vv, err = PVAL(), PVAL(), C.c_char_p()
            if m is sc:
                set_l(p, ref(m), ref(v), C.byref(kk), C.byref(err))
            else:
                map_l(p, ref(m), ref(v), C.byref(kk), C.byref(vv), C.byref(err))
            expect((err.value is None) == hashable, 'lookup error', lambda: '%r of %r' % (err.value, dec.canon(v)))
            if hashable:
                expect(bool(kk) == (e is not None), 'lookup', lambda: '%r, expected %r: %r' % (bool(kk), e, dec.canon(v)))
                if e is not None:
                    expect(kk.contents.tup() == e[0] and (m is sc or vv.contents.tup() == e[1]), 'lookup gave another entry', lambda: repr(dec.canon(v)))
    # by hash
    for m in (ma, mb, sc):
        ents = maps.get(m) or [(a, None) for a in sets.get(m, [])]
        hs = [dec.hash(a) for a, _ in ents]
        for h in (hs[:8] + [d.int(100), d.int(2**32)] + [(h + d.choice([1, 2**31, 16])) & 0xffffffff for h in hs[:3]]):
            by_hash(dec, p, m, h, ents, hs, m is sc)
    # a lookup with the caller's own comparison
    for m in (ma, sc):
        ents = maps.get(m) or [(a, None) for a in sets.get(m, [])]
        if ents:
            own(d, dec, p, m, ents, m is sc)
    # full iteration
    for m in (ma, mb, sc):
        ents = maps.get(m) or [(a, None) for a in sets.get(m, [])]
        st, kk, vv, got = u32(0), PVAL(), PVAL(), []
        while True:
            ok = set_it(p, ref(m), C.byref(kk), C.byref(st)) if m is sc else map_it(p, ref(m), C.byref(kk), C.byref(vv), C.byref(st))
            if not ok:
                break
            got.append((kk.contents.tup(), None if m is sc else vv.contents.tup()))
            expect(len(got) <= len(ents), 'iteration goes on')
        expect(sorted(map(repr, got)) == sorted(map(repr, ents)), 'iteration', lambda: '%s, expected %s' % (short(got), short(ents)))
    c.label('string hits', hit)
    c.label('string misses', miss)


def string(d, dec, p, m, s, e):
    cps = list(map(ord, s))

    def bad(what, got):
        raise Fail(what, 'key %r: got %r, expected %r' % (s, got, e and (e, dec.canon(e[1]))))

    wide = (u32 * (len(cps) + 1))(*cps)
    out, n = Value(77, 77), u32(77)
    r = f_uni(p, ref(m), wide, C.byref(out))
    if bool(r) != (e is not None) or (r and out.tup() != e[1]):
        bad('unicode_to_value', (r, out.tup()))
    num = dec.key(e[1])[1] if e is not None and e[1][0] in (plfmt.I32, plfmt.U32) else None
    x = u32(77)
    r = f_uni32(p, ref(m), wide, C.byref(x))
    if bool(r) != (num is not None and num >= 0) or (r and x.value != num):
        bad('unicode_to_u32', (r, x.value))
    if cps and max(cps) > 255:
        return
    b = bytes(cps)
    # only n bytes may be looked at
    raw = b + d.choice([b'', b'\0', b'\0x', b'x', b'xyz' * 10])
    buf = C.create_string_buffer(raw, max(1, len(raw)))
    r = f_n(p, ref(m), buf, len(b), C.byref(out))
    if bool(r) != (e is not None) or (r and out.tup() != e[1]):
        bad('string_n_to_value', (r, out.tup(), raw))
    r = f_value(p, ref(m), b, C.byref(out))
    if bool(r) != (e is not None) or (r and out.tup() != e[1]):
        bad('string_to_value', (r, out.tup()))
    r = f_u32(p, ref(m), b, C.byref(x))
    if bool(r) != (num is not None and num >= 0) or (r and x.value != num):
        bad('string_to_u32', (r, x.value))
    y = i64(77)
    r = f_i64(p, ref(m), b, C.byref(y))
    if bool(r) != (num is not None) or (r and y.value != num):
        bad('string_to_i64', (r, y.value))
    for f, t in ((f_set, plfmt.SET), (f_map, plfmt.MAP)):
        r = f(p, ref(m), b, C.byref(out))
        ok = e is not None and e[1][0] == t
        if bool(r) != ok or (r and out.tup() != e[1]):
            bad('string_to_set/map', (r, out.tup()))
    vec = e is not None and (e[1][0] == plfmt.EMPTYV or e[1][0] in plfmt.VEC_FMT)
    r = f_vec(p, ref(m), b, C.byref(out), C.byref(n))
    if bool(r) != vec or (r and (out.tup() != e[1] or n.value != (0 if e[1][0] == plfmt.EMPTYV else dec.vec_n(e[1][1])))):
        bad('string_to_vector', (r, out.tup(), n.value))
    for name, f in f_typed.items():
        ptr = VP(77)
        n.value = 77
        r = f(p, ref(m), b, C.byref(ptr), C.byref(n))
        t = e[1][0] if e is not None else None
        ok = t == plfmt.EMPTYV or t is not None and (t == TYPED[name] if name != 'value' else t in (plfmt.VALUE, plfmt.HASHABLE))
        if bool(r) != ok:
            bad('string_to_vector_' + name, r)
        if not r:
            continue
        if t == plfmt.EMPTYV:
            if n.value != 0:
                bad('string_to_vector_' + name, n.value)
            continue
        exp = dec.vec_items(*e[1])
        if n.value != len(exp):
            bad('string_to_vector_' + name, n.value)
        if name == 'value':
            flat = struct.unpack('<%dI' % (2 * len(exp)), C.string_at(ptr, 8 * len(exp)))
            got = list(zip(flat[::2], flat[1::2]))
            same = got == exp
        else:
            size = plfmt.VEC_SIZE[t]
            same = C.string_at(ptr, size * len(exp)) == struct.pack('<%d%s' % (len(exp), plfmt.VEC_FMT[t]), *exp)
        if not same:
            bad('string_to_vector_%s contents' % name, None)


def by_hash(dec, p, m, h, ents, hs, is_set):
    st = C.create_string_buffer(capi.SIZES['hash_iter'])
    (set_hi if is_set else map_hi)(p, ref(m), h, st)
    kk, vv = PVAL(), PVAL()
    got = set()
    limit = 8 * len(ents) + 300
    while set_h(p, ref(m), h, C.byref(kk), st) if is_set else map_h(p, ref(m), h, C.byref(kk), C.byref(vv), st):
        got.add((kk.contents.tup(), None if is_set else vv.contents.tup()))
        limit -= 1
        expect(limit > 0, 'iteration by hash does not end', h)
    exp = set(e for e, eh in zip(ents, hs) if eh == h)
    expect(got == exp, 'iteration by hash', lambda: 'hash %d: got %r, expected %r' % (h, got, exp))


def own(d, dec, p, m, ents, is_set):
    a, b = d.choice(ents)
    seen = []

    def eq(pp, v, user, err):
        # what is compared has the hash that is looked for
        seen.append((v.contents.type, v.contents.data & 0xffffffff))
        return 1 if seen[-1] == a else 0
    cb = EQ(eq)
    kk, vv, err = PVAL(), PVAL(), C.c_char_p()
    h = dec.hash(a)
    if is_set:
        set_lx(p, ref(m), h, cb, None, C.byref(kk), C.byref(err))
    else:
        map_lx(p, ref(m), h, cb, None, C.byref(kk), C.byref(vv), C.byref(err))
    expect(bool(kk) and kk.contents.tup() == a and (is_set or vv.contents.tup() == b), 'lookup with own comparison', lambda: 'entry %r' % (a,))
    for s in seen:
        expect(dec.hash(s) == h, 'own comparison saw another hash', lambda: repr(s))
