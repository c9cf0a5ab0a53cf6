"""Generators of images: well-formed ones in any encoding, slightly broken ones, and hostile soups of references."""
import struct

import plfmt
import pv
from harness import Discard
from plfmt import (BITS, BITS0, BITS01, BITS1, BITS10, BOOL, EMPTY, EMPTYV, FLOAT, FLOATV, HASHABLE, I32, I32V, I64, I64V, MAP, NULL, PACKED, SET, STRING, U32,
                   U32V, U64V, U8V, UNICODE, VALUE)

M32 = 0xffffffff


def sound(d, nodes=None):
    """(model, builder, ref): a well-formed image of an acyclic value"""
    m = pv.g_value(d, pv.G(nodes=nodes or d.choice([3, 8, 20, 60]), depth=5))
    if d.int(4) and not isinstance(m, dict):
        m = {pv.g_key(d, pv.G()): m, 'k': [m]} if d.bool() else [m, {1: 2, 'a': None, (1, 'x'): m}]
    B, ref = plfmt.build_model(m, d)
    return m, B, ref


def layout(d, B, ref):
    order = (lambda xs: d.shuffle(xs)) if d.int(3) == 0 else None
    gap = (lambda: d.int(3)) if d.int(4) == 0 else None
    return B.image(ref, order, gap)


# ---- breaking a sound image in one or two places

def g_ref(d, B):
    """any reference, mostly to something that exists"""
    k = d.int(14)
    n = lambda kind: max(1, len(B.items[kind]))  # noqa
    if k == 0:
        return (NULL, d.choice([0, 0, 0, 1, M32]))
    if k == 1:
        return (BOOL, d.choice([0, 1, 0, 1, 2, 256, M32]))
    if k == 2:
        return (d.choice([I32, U32]), d.choice([0, 1, 5, M32, 2**31]))
    if k == 3:
        return (FLOAT, d.choice([0, 0x3f800000, 0x7fc00000, 0xff800000, 0x80000000, 0x40000000]))
    if k == 4:
        return (d.choice([STRING, UNICODE]), d.int(n('s') + 1))
    if k == 5:
        return (d.choice([PACKED, BITS01, BITS10, BITS0, BITS1]), d.choice([0, 1, 27, 28, 31, 5, 0x10001, 0x30002, 37 + (1 << 7)]))
    if k == 6:
        return (BITS, d.int(n('b') + 1))
    if k == 7:
        return (SET, d.int(n('set') + 1))
    if k == 8:
        return (MAP, d.int(n('map') + 1))
    if k == 9:
        return (EMPTYV, d.choice([0, 0, 0, 1]))
    if k == 10:
        return (EMPTY, d.choice([0, 0, 0, 1]))
    if k == 11:
        return (d.choice(list(plfmt.VEC_FMT)), d.int(n('v') + 1))
    if k == 12:
        return (d.choice([VALUE, HASHABLE]), d.int(n('v') + 1))
    return (d.choice([I64, plfmt.U64, 30, 31, 255, M32, VALUE, 2**31]), d.choice([0, 1, 2, M32]))


def edit_u32(d, buf, pos):
    old = struct.unpack_from('<I', buf, pos)[0]
    k = d.int(8)
    new = [old + 1, old - 1, 0, old ^ (1 << d.int(32)), d.int(40), M32, d.int(2**32), old * 2][k] & M32
    struct.pack_into('<I', buf, pos, new)
    return 'u32 at %d: %d -> %d' % (pos, old, new)


def break_payload(d, B):
    """Edits a heap item as a part of the structure. Returns what was done or None."""
    kinds = [k for k in B.items if B.items[k]]
    if not kinds:
        return None
    kind = d.choice(kinds)
    i = d.int(len(B.items[kind]))
    p = bytearray(B.items[kind][i])
    words = len(p) // 4
    k = d.int(6)
    if k == 0 and kind in ('v', 'set', 'map') and words >= 3:
        off = 4 if kind == 'v' else 8
        j = d.int((words * 4 - off) // 8) if words * 4 - off >= 8 else 0
        if off + 8 * j + 8 <= len(p):
            r = g_ref(d, B)
            struct.pack_into('<II', p, off + 8 * j, *r)
            what = 'reference %d of %s %d becomes %r' % (j, kind, i, r)
        else:
            return None
    elif k == 1 and words:
        what = '%s %d, length: %s' % (kind, i, edit_u32(d, p, 0))
    elif k == 2 and words:
        what = '%s %d: %s' % (kind, i, edit_u32(d, p, 4 * d.int(words)))
    elif k == 3 and p:
        n = d.int(len(p)) + 1
        what = '%s %d loses %d bytes' % (kind, i, n)
        p = p[:-n]
    elif k == 4 and p:
        j = d.int(len(p))
        p[j] = d.choice([0, p[j] ^ 1, 255, p[j] ^ 128, d.int(256)])
        what = '%s %d: byte %d is %d' % (kind, i, j, p[j])
    elif k == 5 and kind == 'v' and words >= 5:
        # two references or entries change places
        a, b = 4 + 8 * d.int((words - 1) // 2), 4 + 8 * d.int((words - 1) // 2)
        p[a:a + 8], p[b:b + 8] = bytes(p[b:b + 8]), bytes(p[a:a + 8])
        what = 'v %d: entries at %d and %d swapped' % (i, a, b)
    else:
        return None
    B.items[kind][i] = bytes(p)
    return what


def break_table(d, B, m_or_none=None):
    """Adds a map or set whose table is wrong (or not) in one way, by construction. Returns (ref, what)."""
    G = pv.G(nodes=6, depth=2)
    keys, seen = [], set()
    for _ in range(d.size(4, 20)):
        k = pv.g_key(d, G)
        if k not in seen:
            seen.add(k)
            keys.append(k)
    memo = {}
    refs = [plfmt._build_key(k, d, B, memo) for k in keys]
    hs = [plfmt.hash_model(k) for k in keys]
    how = d.int(16)
    if how == 1 and keys:
        # an equal key twice (maybe in another encoding)
        k = d.choice(keys)
        refs.append(plfmt._build_key(k, d, B, {}))
        hs.append(plfmt.hash_model(k))
    if how == 2 and keys:
        hs[d.int(len(hs))] ^= 1 << d.int(32)
    if how == 3:
        refs.append((FLOAT, 0x7fc00000))
        hs.append(0x7fc00000)
    if how == 4:
        # an unhashable key
        r = d.choice([B.vector(VALUE, [(U32, 1)]), B.set_([]), B.map_([]), B.vector(HASHABLE, [B.vector(VALUE, [])])])
        refs.append(r)
        hs.append(d.choice([0, plfmt.hash_seq([1])]))
    is_map = d.bool()
    n = len(refs)
    nb = plfmt.n_buckets(n)
    if how == 5:
        nb = d.choice([nb * 2, nb // 2, nb + 1, nb - 1 if nb else 0])
        nb = max(nb, 0)
    ht, kt, vt = [0] * nb, [(EMPTY, 0)] * nb, [(EMPTY, 0)] * nb
    for h, k in zip(hs, refs):
        if nb & (nb - 1):
            seq = list(range(nb))
        else:
            seq = []
            for j in plfmt.probe(h, nb) if nb else []:
                seq.append(j)
                if len(seq) > 4 * nb + 40:
                    break
        for j in seq:
            if kt[j][0] == EMPTY:
                ht[j], kt[j], vt[j] = h, k, g_val(d, B)
                break
    used = [j for j in range(nb) if kt[j][0] != EMPTY]
    free = [j for j in range(nb) if kt[j][0] == EMPTY]
    cnt = n
    if how == 6 and used and free:
        # a key elsewhere
        a, b = d.choice(used), d.choice(free)
        ht[a], ht[b], kt[a], kt[b], vt[a], vt[b] = ht[b], ht[a], kt[b], kt[a], vt[b], vt[a]
    if how == 7 and len(used) > 1:
        a, b = d.choice(used), d.choice(used)
        ht[a], ht[b], kt[a], kt[b], vt[a], vt[b] = ht[b], ht[a], kt[b], kt[a], vt[b], vt[a]
    if how == 8 and used:
        # removed, with or without the count
        a = d.choice(used)
        ht[a], kt[a], vt[a] = 0, (EMPTY, 0), (EMPTY, 0)
        cnt -= d.int(2)
    if how == 9:
        cnt += d.choice([1, -1, 2])
    if how == 10 and free:
        vt[d.choice(free)] = (U32, 5)
    if how == 11 and free:
        ht[d.choice(free)] = 1 + d.int(5)
    if how == 12 and free:
        kt[d.choice(free)] = (EMPTY, 1)
    if how == 13:
        for j in free:
            kt[j] = (NULL, 0)
        if d.bool():
            cnt = nb
    hv, kv, vv = B.prim(U32V, ht), B.vector(HASHABLE, kt), B.vector(VALUE, vt)
    if how == 14:
        w = d.int(3)
        bad = [(d.choice([U32V, I32V]), B.prim(U32V, ht[:-1] if d.bool() else ht)[1]), B.vector(d.choice([VALUE, HASHABLE]), kt[:-1] if d.bool() else kt), B.vector(d.choice([VALUE, HASHABLE]), vt + [(EMPTY, 0)])]
        hv, kv, vv = [bad[j] if j == w else x for j, x in enumerate((hv, kv, vv))]
    if how == 15 and used and is_map:
        vt[d.choice(used)] = (EMPTY, 0)
        vv = B.vector(VALUE, vt)
    pad = d.choice([0, 0, 0, 7])
    cnt &= M32
    if is_map:
        return (MAP, B.add('map', struct.pack('<8I', cnt, pad, *hv, *kv, *vv))), 'map of %d keys, variation %d' % (n, how)
    return (SET, B.add('set', struct.pack('<6I', cnt, pad, *hv, *kv))), 'set of %d keys, variation %d' % (n, how)


def g_val(d, B):
    k = d.int(6)
    return [(U32, d.int(9)), (NULL, 0), (BOOL, 1), (FLOAT, 0x3f000000), (EMPTYV, 0), (PACKED, 3)][k]


def soup(d):
    """Random items that refer to each other in any way; counts and shapes are mostly plausible."""
    B = plfmt.Builder()
    n = {'s': d.int(4), 'v': 1 + d.int(8), 'b': d.int(3), 'set': d.int(4), 'map': d.int(4)}
    for _ in range(n['s']):
        w = d.bool()
        cps = [d.choice([97, 98, 0xe9, 0x20ac if w else 99, 0x10ffff if w else 100]) for _ in range(d.int(5))]
        B.unicode(cps) if w else B.string(cps)
    for k in ('v', 'b', 'set', 'map'):
        for _ in range(n[k]):
            B.reserve(k)
    for i in range(n['b']):
        x = B.bits([d.int(2) for _ in range(d.int(50))])
        B.items['b'][i] = B.items['b'].pop()
        del x
    vtype = [d.choice([VALUE, HASHABLE, VALUE, HASHABLE, U32V, FLOATV, U8V, U64V]) for _ in range(n['v'])]

    def ref():
        k = d.int(12)
        if k < 6:
            j = d.int(n['v'])
            return (vtype[j] if d.int(12) else d.choice([VALUE, HASHABLE, U8V]), j)
        if k == 6 and n['set']:
            return (SET, d.int(n['set']))
        if k == 7 and n['map']:
            return (MAP, d.int(n['map']))
        if k == 8 and n['s']:
            j = d.int(n['s'])
            return (STRING if len(B.items['s'][j]) % 4 else UNICODE, j)
        if k == 9:
            return g_ref(d, B)
        return g_val(d, B)

    for i in range(n['v']):
        k = d.int(5)
        t = vtype[i]
        if t in plfmt.VEC_FMT:
            xs = [d.int(100) for _ in range(k)]
            B.prim(t, [float(x) for x in xs] if t == FLOATV else xs)
        else:
            B.vector(t, [ref() for _ in range(k)])
        B.items['v'][i] = B.items['v'].pop()
    # empty tables are easy to get right, others with one or two plain keys
    for kind in ('set', 'map'):
        for i in range(n[kind]):
            ks = d.shuffle([1, 2, 'a', None, 70000])[:d.int(4)]
            pairs = [(plfmt.hash_model(x), plfmt._build_key(x, d, B, {})) for x in ks if x not in (None,) or True]
            if kind == 'set':
                # the keys may be any vector of the soup too
                if d.int(4) == 0:
                    r = ref()
                    pairs.append((d.int(5), r))
                B.set_(pairs, idx=i)
            else:
                B.map_([(h, r, ref()) for h, r in pairs], idx=i, vtype=d.choice([VALUE, VALUE, VALUE, HASHABLE]))
    return B, ref(), 'soup'


def break_bytes(d, img):
    b = bytearray(img)
    k = d.int(8)
    n = len(b)
    if k == 0:
        cut = d.int(n + 1)
        return bytes(b[:cut]), 'truncated to %d of %d' % (cut, n)
    if k == 1:
        x = d.bytes(d.int(12))
        return bytes(b) + x, '%d bytes appended' % len(x)
    if k == 2 and n >= 4:
        p = 4 * d.int(n // 4)
        return (lambda w: (bytes(b), w))(edit_u32(d, b, p))
    if k == 3:
        p = 4 * d.int(8)
        if p + 4 <= n:
            return (lambda w: (bytes(b), 'header ' + w))(edit_u32(d, b, p))
        return bytes(b), 'as it is'
    if k == 4:
        tot = sum(struct.unpack_from('<5I', b, 8)) if n >= 32 else 0
        if tot and 32 + 8 * tot <= n:
            i = d.int(tot)
            pos = 32 + 8 * i
            old = struct.unpack_from('<Q', b, pos)[0]
            new = d.choice([old + 4, old - 4, old + 1, 2**63, 2**64 - 1, 2**64 - 4, n, n - 32 - 8 * tot, n - 32 - 8 * tot - 4, struct.unpack_from('<Q', b, 32 + 8 * d.int(tot))[0], 2**32 + old, 0]) % 2**64
            struct.pack_into('<Q', b, pos, new)
            return bytes(b), 'offset %d: %d -> %d' % (i, old, new)
        return bytes(b), 'as it is'
    if k == 5 and n:
        p = d.int(n)
        b[p] = d.int(256)
        return bytes(b), 'byte %d set to %d' % (p, b[p])
    if k == 6 and n:
        p = d.int(n)
        b[p] ^= 1 << d.int(8)
        return bytes(b), 'bit flipped in byte %d' % p
    return bytes(b), 'as it is'


def tail(d):
    """An item at the very end whose length is near a limit, and nothing after it that would end it early."""
    B = plfmt.Builder()
    n = d.int(6)
    k = d.int(4)
    if k == 0:
        ref = B.string([97 + i for i in range(n)])
    elif k == 1:
        ref = B.unicode([0x4e00 + i for i in range(n)])
    elif k == 2:
        ref = B.bits([1] * d.int(40))
    else:
        t = d.choice(list(plfmt.VEC_FMT) + [VALUE, HASHABLE])
        ref = B.vector(t, [g_val(d, B) for _ in range(n)]) if t in (VALUE, HASHABLE) else B.prim(t, [1.0 if t == FLOATV else 1] * n)
    kind = 's' if k < 2 else 'b' if k == 2 else 'v'
    p = bytearray(B.items[kind][ref[1]])
    size = struct.unpack_from('<I', p)[0]
    new = d.choice([size, size, size + 1, size + 2, size + 4, size + 8, 2**31, 2**30, 2**29, 2**28, 2**32, 2**32 - 7, 2**31 - 1, 2**30 - 1, 2**29 - 1]) + d.choice([0, size, 0, -1, -2, 1])
    struct.pack_into('<I', p, 0, new & M32)
    # no terminator
    if kind == 's' and d.int(4):
        p = p[:-1] + b'\x01' if k == 0 else p[:-4] + b'\x01\0\0\0'
        while len(p) % 4:
            p += b'\x01'
    p += d.choice([b'', b'\x01\0\0\0', b'\x01\0\0\0' * 40])
    B.items[kind][ref[1]] = bytes(p)
    last = (kind, ref[1])
    root = B.vector(VALUE, [ref]) if d.bool() else ref
    return B.image(root, lambda flat: [f for f in flat if f != last] + [last]), 'tail of type %d, length %d -> %d' % (ref[0], size, new & M32)


def g_image(d):
    """(bytes, description, model or None)"""
    k = d.int(16)
    what = []
    m = None
    if k == 0:
        m, B, ref = sound(d)
        return layout(d, B, ref), ['sound'], m
    if k < 4:
        m, B, ref = sound(d)
        img, w = break_bytes(d, layout(d, B, ref))
        if d.int(3) == 0:
            img, w2 = break_bytes(d, img)
            w += ', ' + w2
        return img, ['bytes', w], None
    if k == 7 and d.bool():
        img, w = tail(d)
        return img, [w], None
    if k < 8:
        m, B, ref = sound(d)
        for _ in range(1 + d.int(2)):
            w = break_payload(d, B)
            if w:
                what.append(w)
        if d.int(12) == 0:
            ref = g_ref(d, B)
            what.append('root %r' % (ref,))
        return layout(d, B, ref), ['item'] + what, None
    if k < 12:
        B = plfmt.Builder()
        ref, w = break_table(d, B)
        if d.int(3) == 0:
            ref = B.vector(VALUE, [ref, g_ref(d, B)])
        return layout(d, B, ref), ['table', w], None
    if k < 15:
        B, ref, w = soup(d)
        return layout(d, B, ref), [w], None
    return d.bytes(d.int(120)), ['random'], None


def guard(img, bits=1 << 22, tree=50000):
    """Discards images on which walking keys or bit vectors takes very long for reasons that are known or plain."""
    try:
        dec = plfmt.Decoder(img)
    except plfmt.Bad:
        return
    cost = {}
    seen = set()
    total = [0]
    stack = [dec.root]
    try:
        while stack:
            v = stack.pop()
            t, x = v
            if t in plfmt.BITTYPES:
                n = nbits(dec, v)
                total[0] += n
                if total[0] > bits:
                    raise Discard()
            if t not in (VALUE, HASHABLE, SET, MAP) or v in seen:
                continue
            seen.add(v)
            if t in (VALUE, HASHABLE):
                stack.extend(dec.vec_items(t, x))
            elif t == SET:
                stack.extend(dec.set_parts(x)[1:])
            else:
                stack.extend(dec.map_parts(x)[1:])
            if len(seen) > 3000:
                raise Discard()
    except plfmt.Bad:
        # refused at the latest there; what comes before is bounded by what was seen
        pass

    def size(v, depth=0):
        t, x = v
        if t in plfmt.BITTYPES:
            return nbits(dec, v) // 64 + 1
        if t not in (VALUE, HASHABLE) or depth > 600:
            return 1
        if v in cost:
            return cost[v]
        cost[v] = 1
        try:
            cost[v] = 1 + sum(size(y, depth + 1) for y in dec.vec_items(t, x))
        except plfmt.Bad:
            pass
        return cost[v]

    try:
        if sum(size(v) for v in seen) > tree:
            raise Discard()
    except RecursionError:
        raise Discard()


def nbits(dec, v):
    t, x = v
    try:
        if t == BITS:
            return dec.u32(dec.at('b', x, 4))
    except plfmt.Bad:
        return 0
    if t in (BITS0, BITS1):
        return x
    return 65536 * 2 if t in (BITS01, BITS10) else 31
