"""An independent implementation of the image format: reference hash, decoder, validator and builder.

Written from the format, in terms of Python values; nothing here calls the library under test.
"""
import ctypes
import math
import struct

M32 = 0xffffffff

(VALUE, HASHABLE, I8V, U8V, I16V, U16V, I32V, U32V, FLOATV, EMPTYV, UNICODE, BITS, BITS0, BITS1, BITS01, BITS10, PACKED, SET, MAP, EMPTY, I32, U32, FLOAT,
 BOOL, NULL, I64V, U64V, I64, U64, STRING) = range(30)

VEC_FMT = {I8V: 'b', U8V: 'B', I16V: 'h', U16V: 'H', I32V: 'i', U32V: 'I', FLOATV: 'f', I64V: 'q', U64V: 'Q'}
VEC_SIZE = {t: struct.calcsize('<' + f) for t, f in VEC_FMT.items()}
VECS = set(VEC_FMT) | {VALUE, HASHABLE}
BITTYPES = {BITS, BITS0, BITS1, BITS01, BITS10, PACKED}
VEC_OF_PRIM = {'i8': I8V, 'u8': U8V, 'i16': I16V, 'u16': U16V, 'i32': I32V, 'u32': U32V, 'i64': I64V, 'u64': U64V, 'f': FLOATV}
PRIM_OF_VEC = {v: k for k, v in VEC_OF_PRIM.items()}
MAX_DEPTH = 512


def cf(x):
    return ('f', 'nan') if x != x else ('f', struct.pack('<d', x))


# ---- reference hash

def hash_str(cps):
    x = (cps[0] << 7) & M32 if cps else 0
    for c in cps:
        x = ((1000003 * x) & M32) ^ c
    return (x ^ len(cps)) & M32


def hash_float(f):
    """f: a double that single precision holds"""
    if f == f and f not in (math.inf, -math.inf) and f == math.floor(f):
        if f < 0 and f >= -2**31:
            return int(f) & M32
        if 0 <= f <= M32:
            return int(f) & M32
    return struct.unpack('<I', struct.pack('<f', f))[0]


def hash_bits(bits):
    h = 1
    for i in range(0, len(bits), 8):
        b = 0
        for j, x in enumerate(bits[i:i + 8]):
            b |= (1 if x else 0) << j
        h = (h * 1000000001 + b) & M32
    return h


def hash_seq(hs):
    n = len(hs)
    x, mult = 0x345678, 1000003
    for h in hs:
        x = ((x ^ h) * mult) & M32
        mult = (mult + 82520 + 2 * n) & M32
    return (x + 97531) & M32


def hash_model(m):
    t = type(m)
    if m is None:
        return 0
    if t is bool:
        return 1 if m else 0
    if t is int:
        return m & M32
    if t is float:
        return hash_float(ctypes.c_float(m).value)
    if t is str:
        return hash_str([ord(c) for c in m])
    if t in (tuple, list, bytearray):
        return hash_seq([hash_model(x) for x in m])
    if t.__name__ == 'Bits':
        return hash_bits(m.bits)
    if t.__name__ == 'Prim':
        if m.t == 'f':
            return hash_seq([hash_model(float(x)) for x in m.items])
        return hash_seq([x & M32 for x in m.items])
    raise TypeError('unhashable ' + t.__name__)


def n_buckets(n):
    if n == 1:
        return 2
    k = n + n // 2
    if k > 2**31:
        return 0
    p = 1
    while p < k:
        p *= 2
    return p


def probe(h, nb):
    """The sequence of buckets visited for a hash."""
    i = pert = h
    while True:
        yield i & (nb - 1)
        i = (5 * i + pert + 1) & M32
        pert >>= 5


# ---- decoder

class Bad(Exception):
    """The image breaks a rule of the format."""


class Unspecified(Exception):
    """The format does not say."""


class Decoder:
    def __init__(self, buf):
        self.b = b = bytes(buf)
        if len(b) < 32:
            raise Bad('header missing')
        rt, rd, ns, nv, nb, nset, nmap, ver = struct.unpack_from('<8I', b)
        self.n = {'s': ns, 'v': nv, 'b': nb, 'set': nset, 'map': nmap}
        self.version = ver
        self.root = (rt, rd)
        if ver != 2:
            raise Bad('version')
        tot = ns + nv + nb + nset + nmap
        if len(b) < 32 + 8 * tot:
            raise Bad('offset tables')
        o = 32
        self.toff = {}
        for k in ('s', 'v', 'b', 'set', 'map'):
            self.toff[k] = o
            o += 8 * self.n[k]
        self.heap = o
        self.heap_len = len(b) - o

    def off(self, kind, i):
        return struct.unpack_from('<Q', self.b, self.toff[kind] + 8 * i)[0]

    def at(self, kind, i, n):
        """Position of a heap item of at least n bytes."""
        if i >= self.n[kind]:
            raise Bad('reference out of bounds: ' + kind)
        off = self.off(kind, i)
        if off + n > self.heap_len:
            raise Bad('does not fit the heap: ' + kind)
        return self.heap + off

    def u32(self, pos):
        return struct.unpack_from('<I', self.b, pos)[0]

    def text(self, t, i):
        p = self.at('s', i, 4)
        n = self.u32(p)
        w = 4 if t == UNICODE else 1
        self.at('s', i, 4 + w * (n + 1))
        cps = struct.unpack_from('<%d%s' % (n + 1, 'I' if w == 4 else 'B'), self.b, p + 4)
        if cps[-1] != 0:
            raise Bad('string not terminated')
        if 0 in cps[:-1]:
            raise Bad('embedded NUL')
        if w == 4 and n and max(cps[:-1]) > 0x10ffff:
            raise Bad('not a character')
        return cps[:-1]

    def vec_n(self, i):
        return self.u32(self.at('v', i, 4))

    def vec_items(self, t, i):
        p = self.at('v', i, 4)
        n = self.u32(p)
        if t in VEC_FMT:
            self.at('v', i, 4 + n * VEC_SIZE[t])
            return list(struct.unpack_from('<%d%s' % (n, VEC_FMT[t]), self.b, p + 4))
        self.at('v', i, 4 + 8 * n)
        flat = struct.unpack_from('<%dI' % (2 * n), self.b, p + 4)
        return list(zip(flat[::2], flat[1::2]))

    def bits(self, t, data):
        if t == BITS:
            p = self.at('b', data, 4)
            n = self.u32(p)
            self.at('b', data, 4 + (n + 7) // 8)
            raw = int.from_bytes(self.b[p + 4:p + 4 + (n + 7) // 8], 'little')
            return [(raw >> k) & 1 for k in range(n)] if n < 64 else [1 if c == '1' else 0 for c in reversed(format(raw & ((1 << n) - 1), '0%db' % n))]
        if t == BITS0:
            return [0] * data
        if t == BITS1:
            return [1] * data
        if t == PACKED:
            n = data & 31
            if n > 27:
                raise Bad('packed bits')
            return [(data >> (5 + k)) & 1 for k in range(n)]
        a, b = data & 0xffff, data >> 16
        return [0] * a + [1] * b if t == BITS01 else [1] * a + [0] * b

    def set_parts(self, i):
        p = self.at('set', i, 24)
        f = struct.unpack_from('<6I', self.b, p)
        return f[0], (f[2], f[3]), (f[4], f[5])

    def map_parts(self, i):
        p = self.at('map', i, 32)
        f = struct.unpack_from('<8I', self.b, p)
        return f[0], (f[2], f[3]), (f[4], f[5]), (f[6], f[7])

    # -- what a value is, with cycles refused
    def canon(self, v=None, memo=None, open_=None):
        if v is None:
            v = self.root
        t, d = v
        if t == NULL:
            return ('n',)
        if t == BOOL:
            return ('t', d != 0)
        if t == I32:
            return ('i', d - 2**32 if d >= 2**31 else d)
        if t == U32:
            return ('i', d)
        if t == FLOAT:
            return cf(struct.unpack('<f', struct.pack('<I', d))[0])
        if t in (UNICODE, STRING):
            return ('s', ''.join(map(chr, self.text(t, d))))
        if t == EMPTYV:
            return ('v',)
        if t in BITTYPES:
            return ('b', tuple(self.bits(t, d)))
        if t in VEC_FMT:
            xs = self.vec_items(t, d)
            return ('v',) + tuple([cf(x) if t == FLOATV else ('i', x) for x in xs])
        if memo is None:
            memo, open_ = {}, set()
        kind = 'v' if t in (VALUE, HASHABLE) else t
        if (kind, d) in memo:
            return memo[(kind, d)]
        if (kind, d) in open_:
            raise ValueError('cyclic')
        open_.add((kind, d))
        if kind == 'v':
            r = ('v',) + tuple([self.canon(x, memo, open_) for x in self.vec_items(t, d)])
        elif t == SET:
            n, hv, kv = self.set_parts(d)
            keys = [x for x in self.vec_items(*kv) if x[0] != EMPTY]
            r = ('set', n, frozenset([self.canon(x, memo, open_) for x in keys]))
        elif t == MAP:
            n, hv, kv, vv = self.map_parts(d)
            r = ('map', n, frozenset([(self.canon(a, memo, open_), self.canon(b, memo, open_)) for a, b in zip(self.vec_items(*kv), self.vec_items(*vv)) if a[0] != EMPTY]))
        elif t == EMPTY:
            raise Unspecified('empty slot as a value')
        else:
            raise Bad('type %d' % t)
        open_.discard((kind, d))
        memo[(kind, d)] = r
        return r

    # -- hash and equality of (hashable) values
    def hashable(self, v, depth=0):
        t, d = v
        if depth >= MAX_DEPTH or t in (VALUE, SET, MAP):
            return False
        if t == HASHABLE:
            return all(self.hashable(x, depth + 1) for x in self.vec_items(t, d))
        return True

    def hash(self, v):
        t, d = v
        if t in (NULL, EMPTY):
            return 0
        if t in (BOOL, I32, U32):
            return d
        if t == FLOAT:
            return hash_float(struct.unpack('<f', struct.pack('<I', d))[0]) if d & 0x7fffffff <= 0x7f800000 else d
        if t in (UNICODE, STRING):
            return hash_str(self.text(t, d))
        if t in BITTYPES:
            return hash_bits(self.bits(t, d))
        if t == EMPTYV:
            return hash_seq([])
        xs = self.vec_items(t, d)
        if t == FLOATV:
            raw = struct.unpack('<%dI' % len(xs), struct.pack('<%df' % len(xs), *xs))
            return hash_seq([hash_float(x) if x == x else r for x, r in zip(xs, raw)])
        if t in VEC_FMT:
            return hash_seq([x & M32 for x in xs])
        if t == HASHABLE:
            return hash_seq([self.hash(x) for x in xs])
        raise Bad('unhashable')

    def key(self, v):
        """A Python value, equal for two keys iff they are the same key; NaN is never equal to anything"""
        t, d = v
        if t == NULL:
            return ('n',)
        if t == EMPTY:
            raise Unspecified('empty slot inside a key')
        if t in (BOOL, U32):
            return ('num', d)
        if t == I32:
            return ('num', d - 2**32 if d >= 2**31 else d)
        if t == FLOAT:
            x = struct.unpack('<f', struct.pack('<I', d))[0]
            return ('num', x if x == x else float('nan'))
        if t in (UNICODE, STRING):
            return ('s', tuple(self.text(t, d)))
        if t in BITTYPES:
            return ('b', tuple(self.bits(t, d)))
        if t == EMPTYV:
            return ('v',)
        xs = self.vec_items(t, d)
        if t in VEC_FMT:
            return ('v',) + tuple(('num', x) for x in xs)
        return ('v',) + tuple(self.key(x) for x in xs)

    # -- validation
    def check(self):
        """Raises Bad if a rule is broken; returns quietly for a well-formed image."""
        seen = set()
        reach = []
        children = {}
        self.max_depth_seen = 0
        hashed_refs = []
        stack = [(self.root, 0)]
        empties = [False]

        def kids(v):
            t, d = v
            if t in (VALUE, HASHABLE):
                return self.vec_items(t, d)
            if t == SET:
                return list(self.set_parts(d)[1:])
            return list(self.map_parts(d)[1:])

        while stack:
            v, depth = stack.pop()
            t, d = v
            self.max_depth_seen = max(self.max_depth_seen, depth)
            if t == NULL or t == EMPTYV or t == EMPTY:
                if d != 0:
                    raise Bad('data of a null, empty vector or empty slot')
            elif t == BOOL:
                if d > 1:
                    raise Bad('boolean')
            elif t in (I32, U32, FLOAT):
                pass
            elif t in (BITS0, BITS1, BITS01, BITS10):
                pass
            elif t in (BITS, PACKED):
                if t == BITS:
                    p = self.at('b', d, 4)
                    self.at('b', d, 4 + (self.u32(p) + 7) // 8)
                elif d & 31 > 27:
                    raise Bad('packed bits')
            elif t in (UNICODE, STRING):
                self.text(t, d)
            elif t in VEC_FMT:
                self.at('v', d, 4 + self.u32(self.at('v', d, 4)) * VEC_SIZE[t])
            elif t in (VALUE, HASHABLE, SET, MAP):
                k = ('v' if t in (VALUE, HASHABLE) else t, d)
                if t == HASHABLE:
                    hashed_refs.append(k)
                if k in seen:
                    # the items are of the same size whatever the reference says
                    continue
                seen.add(k)
                if t == SET or t == MAP:
                    parts = self.set_parts(d) if t == SET else self.map_parts(d)
                    if parts[1][0] != U32V:
                        raise Bad('hash vector type')
                    if parts[2][0] != HASHABLE:
                        raise Bad('key vector type')
                    if t == MAP and parts[3][0] not in (VALUE, HASHABLE):
                        raise Bad('value vector type')
                    reach.append(v)
                ks = kids(v)
                children[k] = [('v' if x[0] in (VALUE, HASHABLE) else x[0], x[1]) for x in ks if x[0] in (VALUE, HASHABLE, SET, MAP)]
                stack.extend((x, depth + 1) for x in reversed(ks))
            else:
                raise Bad('unknown type %d' % t)
        self.n_containers = len(seen)
        # an upper bound of any depth that a walk can reach
        if len(seen) * 2 + 2 >= 250 and self.max_depth_seen >= 120:
            self.deep = True
        else:
            self.deep = False
        # no hashable vector in a cycle
        cyc = in_cycle(children)
        for k in hashed_refs:
            if k in cyc:
                raise Bad('hashable vector in a cycle')
        for v in reach:
            self.check_table(v)

    def check_table(self, v):
        if v[0] == SET:
            n, hv, kv = self.set_parts(v[1])
            vals = None
        else:
            n, hv, kv, vv = self.map_parts(v[1])
            vals = self.vec_items(*vv)
        hs, keys = self.vec_items(*hv), self.vec_items(*kv)
        if len(hs) != len(keys) or (vals is not None and len(vals) != len(keys)):
            raise Bad('hash table vectors differ in length')
        nb = n_buckets(n)
        if nb != len(keys):
            raise Bad('number of buckets')
        used = [i for i, k in enumerate(keys) if k[0] != EMPTY]
        if len(used) != n:
            raise Bad('number of items')
        if len(used) == len(keys):
            raise Bad('no empty slot')
        for i, k in enumerate(keys):
            if k[0] == EMPTY and vals is not None and vals[i][0] != EMPTY:
                raise Bad('value without key')
        for i, k in enumerate(keys):
            if not self.hashable(k):
                raise Bad('unhashable key')
            if self.hash(k) != hs[i]:
                raise Bad('wrong hash')
        mk = {i: self.key(keys[i]) for i in used}
        for i in used:
            if not same(mk[i], mk[i]):
                raise Bad('key not equal to itself')
            for j in probe(hs[i], nb):
                if keys[j][0] == EMPTY:
                    raise Bad('key cannot be found')
                if hs[j] == hs[i] and same(mk[j], mk[i]):
                    if j != i:
                        raise Bad('key is in the wrong place')
                    break


def same(a, b):
    """== with NaN different from itself even inside tuples"""
    if type(a) is tuple:
        return type(b) is tuple and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def in_cycle(children):
    """Nodes that are in a cycle: those of a component with more than one node, or with an edge to itself."""
    index, low, onst, st, out, cnt = {}, {}, set(), [], set(), 0
    for r in list(children):
        if r in index:
            continue
        work = [(r, iter(children[r]))]
        index[r] = low[r] = cnt
        cnt += 1
        st.append(r)
        onst.add(r)
        while work:
            u, it = work[-1]
            for w in it:
                if w == u:
                    out.add(u)
                if w not in index:
                    index[w] = low[w] = cnt
                    cnt += 1
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(children[w])))
                    break
                if w in onst:
                    low[u] = min(low[u], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == index[u]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    if len(comp) > 1:
                        out.update(comp)
    return out


def verdict(buf):
    """(True, decoder) if the image is well-formed, (False, reason) if not, (None, reason) if the format does not say."""
    try:
        dec = Decoder(buf)
        dec.check()
    except Bad as e:
        return False, str(e)
    except Unspecified as e:
        return None, str(e)
    except RecursionError:
        return None, 'deep'
    if dec.deep:
        return None, 'deep'
    return True, dec


# ---- builder

class Builder:
    """Lays out an image from heap items; every choice (encodings, order, spare room, duplicates) is the caller's."""

    def __init__(self):
        self.items = {'s': [], 'v': [], 'b': [], 'set': [], 'map': []}

    def add(self, kind, payload):
        self.items[kind].append(payload)
        return len(self.items[kind]) - 1

    def string(self, cps):
        return (STRING, self.add('s', struct.pack('<I', len(cps)) + bytes(cps) + b'\0'))

    def unicode(self, cps):
        return (UNICODE, self.add('s', struct.pack('<%dI' % (len(cps) + 2), len(cps), *cps, 0)))

    def prim(self, t, xs):
        return (t, self.add('v', struct.pack('<I%d%s' % (len(xs), VEC_FMT[t]), len(xs), *xs)))

    def vector(self, t, refs):
        return (t, self.add('v', self.refs(refs)))

    @staticmethod
    def refs(refs):
        return struct.pack('<I', len(refs)) + b''.join(struct.pack('<II', *r) for r in refs)

    def reserve(self, kind):
        return self.add(kind, b'')

    def bits(self, bits, room=0):
        x = sum(b << i for i, b in enumerate(bits))
        return (BITS, self.add('b', struct.pack('<I', len(bits)) + x.to_bytes((len(bits) + 7) // 8, 'little') + b'\0' * room))

    def table(self, pairs, order=None):
        """pairs: [(hash, keyref, valueref or None)] -> (hashes, keys, values) laid out by insertion in that order"""
        nb = n_buckets(len(pairs))
        hs, ks, vs = [0] * nb, [(EMPTY, 0)] * nb, [(EMPTY, 0)] * nb
        for h, k, v in pairs:
            for j in probe(h, nb):
                if ks[j][0] == EMPTY:
                    hs[j], ks[j], vs[j] = h, k, v
                    break
        return hs, ks, vs

    def set_(self, pairs, idx=None):
        hs, ks, _ = self.table([(h, k, None) for h, k in pairs])
        hv, kv = self.prim(U32V, hs), self.vector(HASHABLE, ks)
        payload = struct.pack('<6I', len(pairs), 0, *hv, *kv)
        if idx is None:
            return (SET, self.add('set', payload))
        self.items['set'][idx] = payload
        return (SET, idx)

    def map_(self, triples, idx=None, vtype=VALUE):
        hs, ks, vs = self.table(triples)
        hv, kv, vv = self.prim(U32V, hs), self.vector(HASHABLE, ks), self.vector(vtype, vs)
        payload = struct.pack('<8I', len(triples), 0, *hv, *kv, *vv)
        if idx is None:
            return (MAP, self.add('map', payload))
        self.items['map'][idx] = payload
        return (MAP, idx)

    def image(self, root, order=None, gap=None):
        """order: a permutation of the heap items; gap: a function giving spare words after each item"""
        flat = [(k, i) for k in ('s', 'v', 'b', 'set', 'map') for i in range(len(self.items[k]))]
        if order:
            flat2 = order(flat)
            assert sorted(flat2) == sorted(flat)
        else:
            flat2 = flat
        pos, heap = {}, bytearray()
        for k, i in flat2:
            pos[(k, i)] = len(heap)
            heap += self.items[k][i]
            heap += b'\0' * (-len(heap) % 4)
            if gap:
                heap += b'\xaa' * (4 * gap())
        out = bytearray(struct.pack('<8I', root[0], root[1], *[len(self.items[k]) for k in ('s', 'v', 'b', 'set', 'map')], 2))
        for f in flat:
            out += struct.pack('<Q', pos[f])
        return bytes(out + heap)


def build_model(m, d, B=None, memo=None, share=True):
    """An image reference for a model value, with the encodings drawn from d. Returns (builder, ref)."""
    if B is None:
        B, memo = Builder(), {}
    return B, _build(m, d, B, memo)


def _build_bits(bits, d, B):
    n = len(bits)
    opts = [BITS]
    if n <= 27:
        opts.append(PACKED)
    if not any(bits):
        opts.append(BITS0)
    if all(bits):
        opts.append(BITS1)
    z = 0
    while z < n and not bits[z]:
        z += 1
    if all(bits[z:]) and z < 65536 and n - z < 65536:
        opts.append(BITS01)
    o = 0
    while o < n and bits[o]:
        o += 1
    if not any(bits[o:]) and o < 65536 and n - o < 65536:
        opts.append(BITS10)
    t = d.choice(opts)
    if t == BITS:
        return B.bits(bits)
    if t in (BITS0, BITS1):
        return (t, n)
    if t == PACKED:
        # unused bits are free
        x = n
        for i, b in enumerate(bits):
            x |= b << (5 + i)
        if n < 27 and d.int(4) == 3:
            x |= (d.int(1 << (27 - n))) << (5 + n)
        return (t, x)
    a = z if t == BITS01 else o
    return (t, a | (n - a) << 16)


def _fits(xs, fmt):
    try:
        struct.pack('<%d%s' % (len(xs), fmt), *xs)
        return True
    except struct.error:
        return False


def _build(m, d, B, memo):
    t = type(m)
    if m is None:
        return (NULL, 0)
    if t is bool:
        return (BOOL, 1 if m else 0)
    if t is int:
        if m < 0:
            return (I32, m & M32)
        if m >= 2**31:
            return (U32, m)
        return (d.choice([U32, I32]), m)
    if t is float:
        return (FLOAT, struct.unpack('<I', struct.pack('<f', ctypes.c_float(m).value))[0])
    if t is str:
        if ('s', m) in memo and d.int(3) != 2:
            return memo[('s', m)]
        cps = [ord(c) for c in m]
        r = B.string(cps) if cps and max(cps) < 256 and d.int(2) or not cps and d.int(2) else B.unicode(cps)
        memo[('s', m)] = r
        return r
    if t.__name__ == 'Bits':
        return _build_bits(list(m.bits), d, B)
    k = id(m)
    if k in memo:
        return memo[k][0]
    if t.__name__ == 'Prim':
        r = B.prim(VEC_OF_PRIM[m.t], m.items)
    elif t is bytearray:
        r = B.prim(U8V, list(m))
    elif t in (list, tuple):
        if not m and d.int(2) == 0:
            r = (EMPTYV, 0)
        elif all(type(x) is int for x in m) and d.int(3) or not m and d.int(2):
            opts = [v for v, f in VEC_FMT.items() if f != 'f' and _fits(m, f)]
            r = B.prim(d.choice(opts), list(m))
        elif all(type(x) is float for x in m) and d.int(3):
            r = B.prim(FLOATV, [ctypes.c_float(x).value for x in m])
        else:
            refs = [_build(x, d, B, memo) for x in m]
            ok = all(hashable_model(x) for x in m) and d.int(2)
            r = B.vector(HASHABLE if ok and all(x[0] not in (VALUE, SET, MAP) for x in refs) else VALUE, refs)
    elif t in (set, frozenset):
        ks = d.shuffle(sorted(m, key=repr))
        r = B.set_([(hash_model(x), _build_key(x, d, B, memo)) for x in ks])
    elif t is dict:
        ks = d.shuffle(sorted(m, key=repr))
        tr = [(hash_model(x), _build_key(x, d, B, memo), _build(m[x], d, B, memo)) for x in ks]
        r = B.map_(tr)
    else:
        raise TypeError(t)
    memo[k] = (r, m)
    return r


def hashable_model(m):
    t = type(m)
    if t in (list, tuple):
        return all(hashable_model(x) for x in m)
    return t not in (dict, set, frozenset)


def _build_key(m, d, B, memo):
    """Like _build, but vectors are hashable ones."""
    if type(m) is tuple:
        if not m and d.int(2) == 0:
            return (EMPTYV, 0)
        if m and all(type(x) is int for x in m) and d.int(3):
            opts = [v for v, f in VEC_FMT.items() if f != 'f' and _fits(m, f)]
            return B.prim(d.choice(opts), list(m))
        if m and all(type(x) is float for x in m) and d.int(3):
            return B.prim(FLOATV, [ctypes.c_float(x).value for x in m])
        return B.vector(HASHABLE, [_build_key(x, d, B, memo) for x in m])
    return _build(m, d, B, memo)
