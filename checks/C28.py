"""Histories of the bundled dictionaries (Judy1, JudyL, JudySL, JudyHS) against a sorted dictionary."""
import bisect
import ctypes as C
import random

import capi
from harness import Discard, Fail, expect, short

RULE = 'a history in which at least 100 entries were inserted and 20 deleted, or strings with a common beginning; distinct by history'
LEVEL = 'exploration'
CONF = {'budget': 26}
ASSUMPTIONS = ['failing allocations are tried for insertions and deletions of integers and insertions of byte strings', 'values are set through the slot returned by the last insertion or lookup', 'strings of the string dictionary contain no zero byte']

W = C.c_uint64
VP = C.c_void_p
PW = C.POINTER(W)
TOP = 2**64 - 1
ERR = TOP       # the slot that stands for an error


def f(name, res, *args):
    return capi.fn(name, res, *args)


j1 = {'ins': f('Judy1Set', C.c_int, VP, W, VP), 'del': f('Judy1Unset', C.c_int, VP, W, VP), 'get': f('Judy1Test', C.c_int, VP, W, VP), 'count': f('Judy1Count', W, VP, W, W, VP),
      'nth': f('Judy1ByCount', C.c_int, VP, W, PW, VP), 'free': f('Judy1FreeArray', W, VP, VP), 'used': f('Judy1MemUsed', W, VP), 'active': f('Judy1MemActive', W, VP), 'array': f('Judy1SetArray', C.c_int, VP, W, VP, VP)}
jl = {'ins': f('JudyLIns', VP, VP, W, VP), 'del': f('JudyLDel', C.c_int, VP, W, VP), 'get': f('JudyLGet', VP, VP, W, VP), 'count': f('JudyLCount', W, VP, W, W, VP),
      'nth': f('JudyLByCount', VP, VP, W, PW, VP), 'free': f('JudyLFreeArray', W, VP, VP), 'used': f('JudyLMemUsed', W, VP), 'active': f('JudyLMemActive', W, VP), 'array': f('JudyLInsArray', C.c_int, VP, W, VP, VP, VP)}
for n in ('First', 'Next', 'Last', 'Prev'):
    j1[n] = f('Judy1' + n, C.c_int, VP, PW, VP)
    jl[n] = f('JudyL' + n, VP, VP, PW, VP)
    j1[n + 'Empty'] = f('Judy1%sEmpty' % n, C.c_int, VP, PW, VP)
    jl[n + 'Empty'] = f('JudyL%sEmpty' % n, C.c_int, VP, PW, VP)
js = {'ins': f('JudySLIns', VP, VP, C.c_char_p, VP), 'del': f('JudySLDel', C.c_int, VP, C.c_char_p, VP), 'get': f('JudySLGet', VP, VP, C.c_char_p, VP), 'free': f('JudySLFreeArray', W, VP, VP)}
for n in ('First', 'Next', 'Last', 'Prev'):
    js[n] = f('JudySL' + n, VP, VP, C.c_char_p, VP)
jh = {'ins': f('JudyHSIns', VP, VP, C.c_char_p, W, VP), 'del': f('JudyHSDel', C.c_int, VP, C.c_char_p, W, VP), 'get': f('JudyHSGet', VP, VP, C.c_char_p, W), 'free': f('JudyHSFreeArray', W, VP, VP)}


def word_keys(r, n):
    """keys that make every kind of node: dense and sparse at each byte"""
    k = r.randrange(9)
    if k == 0:
        return list(range(n))
    if k == 1:
        return [r.getrandbits(64) for _ in range(n)]
    if k == 2:
        return [TOP - i for i in range(n)]
    low = r.randrange(1, 9)                     # bytes that differ
    base = r.getrandbits(64) if r.randrange(3) else r.choice([0, TOP, 2**63, 2**32, 2**32 - 1, 0x0101010101010101])
    base &= ~(256**low - 1) & TOP
    if k == 3:
        s = r.choice([1, 2, 3, 7, 255, 256, 257, 65536, 2**24, 2**32 + 1, 2**40, 2**56])
        return [(base + s * i) & TOP for i in range(n)]
    if k == 4:
        return [base + r.randrange(256**low) for _ in range(n)]
    if k == 5:
        m = r.choice([4, 8, 16, 32, 64, 200, 256])
        return [base + r.randrange(min(m, 256)) * 256**r.randrange(low) for _ in range(n)]
    if k == 6:
        # a few branches, each with a dense leaf
        tops = [r.getrandbits(64) & ~0xff for _ in range(r.randrange(1, 12))]
        return [r.choice(tops) + r.randrange(r.choice([8, 40, 256])) for _ in range(n)]
    if k == 7:
        near = [0, 1, 255, 256, 65535, 65536, 2**24 - 1, 2**24, 2**32 - 1, 2**32, 2**40, 2**48, 2**56 - 1, 2**56, 2**63 - 1, 2**63, TOP]
        return [(r.choice(near) + r.randrange(-3, 4)) & TOP for _ in range(n)]
    # all of a leaf, or all but a few
    return [base + i for i in range(256) if r.randrange(40)][:max(n, 1)]


def byte_keys(r, n, zero):
    k = r.randrange(7)
    if k == 6:
        # all of one hash
        m = r.choice([1, 2, 3, 4, 5, 8, 9, 13, 40, 130])
        t = bytes(r.choice(b'xyz') for _ in range(r.randrange(3)))
        if r.randrange(2):
            # apart in one place only
            some = [i for i in range(m) if i >= m - 3 or r.randrange(m) < 4]
            return [b''.join([b'Aa'] * i + [b'BB'] + [b'Aa'] * (m - i - 1)) + t if i < m else b'Aa' * m + t for i in (r.choice(some + [m]) for _ in range(n))]
        return [b''.join(r.choice([b'Aa', b'BB', b'C#']) for _ in range(m)) + t for _ in range(n)]
    alphabet = [bytes(range(1, 256)), b'ab', b'a\xff', b'abcdefgh'][r.randrange(4)]
    if zero and r.randrange(2):
        alphabet += b'\0'
    word = lambda m: bytes(r.choice(alphabet) for _ in range(m))
    if k == 0:
        return [b'%d' % i for i in range(n)]
    if k == 1:
        pre = word(r.choice([1, 7, 8, 9, 15, 16, 17, 40, 300]))
        return [pre[:r.randrange(len(pre) + 1)] + word(r.randrange(4)) for _ in range(n)]
    if k == 2:
        m = r.randrange(1, 20)
        return [word(m) for _ in range(n)]
    if k == 3:
        return [word(r.randrange(0, 33)) for _ in range(n)]
    if k == 4:
        pre = word(r.choice([8, 16, 24]))
        return [pre + word(r.choice([0, 1, 7, 8, 9])) for _ in range(n)]
    return [bytes([r.choice(alphabet)]) * r.randrange(0, 70) for _ in range(n)]


class Arr:
    """one dictionary and its model"""

    def __init__(self, mode):
        self.mode = mode
        self.p = VP()
        self.m = {}
        self.fn = {'1': j1, 'L': jl, 'S': js, 'H': jh}[mode]
        self.log = []
        self.serial = 0
        self.rest = False

    def where(self):
        return 'Judy%s, %d entries, after %s' % (self.mode, len(self.m), short(self.log, 1500))

    def key(self, k):
        return (k, len(k)) if self.mode == 'H' else (k,)

    def insert(self, k):
        r = self.fn['ins'](C.byref(self.p), *self.key(k), None)
        new = k not in self.m
        if self.mode == '1':
            expect(r == (1 if new else 0), 'insertion', lambda: '%r: %r, %s' % (k, r, self.where()))
            self.m[k] = 1
            return
        expect(r and r != ERR, 'insertion', lambda: '%r: %r, %s' % (k, r, self.where()))
        slot = W.from_address(r)
        expect(slot.value == (0 if new else self.m[k]), 'slot of an insertion', lambda: '%r: %d, %s' % (k, slot.value, self.where()))
        self.serial += 1
        slot.value = self.m[k] = self.serial * 0x9E3779B97F4A7C15 & TOP or 1

    def delete(self, k):
        r = self.fn['del'](C.byref(self.p), *self.key(k), None)
        expect(r == (1 if k in self.m else 0), 'deletion', lambda: '%r: %r, %s' % (k, r, self.where()))
        self.m.pop(k, None)

    def fail(self, k, delete, j):
        """the j-th allocation of an insertion or deletion fails"""
        old = dict(self.m)
        capi.mem_fail(j, 0)
        r = self.fn['del' if delete else 'ins'](C.byref(self.p), *self.key(k), None)
        failed = capi.mem_failed()
        capi.mem_fail(-1, 0)
        error = r == -1 if delete or self.mode == '1' else r == ERR
        if not failed or not error:
            expect(not error, 'an error without a failure', self.where)
            if delete:
                expect(r == (1 if k in self.m else 0), 'deletion', lambda: '%r: %r, %s' % (k, r, self.where()))
                self.m.pop(k, None)
            else:
                expect(r == (1 if k not in self.m else 0) if self.mode == '1' else r, 'insertion', self.where)
                if self.mode != '1':
                    expect(W.from_address(r).value == self.m.get(k, 0), 'slot of an insertion', self.where)
                    W.from_address(r).value = 7
                self.m[k] = 1 if self.mode == '1' else 7
        # parts without an entry may remain in a dictionary of byte strings
        self.rest |= failed and error and self.mode == 'H'
        return failed and error

    def look(self, k):
        r = self.fn['get'](self.p, k, len(k)) if self.mode == 'H' else self.fn['get'](self.p, k, None)
        if self.mode == '1':
            expect(r == (1 if k in self.m else 0), 'lookup', lambda: '%r: %r, %s' % (k, r, self.where()))
            return
        expect(bool(r) == (k in self.m) and r != ERR, 'lookup', lambda: '%r: %r, %s' % (k, r, self.where()))
        if r:
            expect(W.from_address(r).value == self.m[k], 'value', lambda: '%r: %s' % (k, self.where()))

    def free(self):
        used = self.fn['used'](self.p) if self.mode in '1L' else None
        n = self.fn['free'](C.byref(self.p), None)
        if used is not None:
            expect(n == used, 'memory in use', lambda: '%d bytes freed, %d in use: %s' % (n, used, self.where()))
        expect(not self.p.value and ((n > 0) == bool(self.m) or self.rest), 'freeing', self.where)
        self.m = {}


def walk_words(a, r, full):
    fn, one = a.fn, a.mode == '1'
    ks = sorted(a.m)
    n = len(ks)

    def at(name, start):
        i = W(start)
        x = fn[name](a.p, C.byref(i), None)
        if not x:
            return None
        expect(x == 1 if one else x != ERR, name, a.where)
        if not one:
            expect(W.from_address(x).value == a.m.get(i.value), 'value by ' + name, lambda: '%d: %s' % (i.value, a.where()))
        return i.value

    def empty(name, start):
        i = W(start)
        return i.value if fn[name](a.p, C.byref(i), None) == 1 else None
    expect(fn['count'](a.p, 0, TOP, None) == n, 'count', a.where)
    if full:
        i = W(0)
        got = []
        x = fn['First'](a.p, C.byref(i), None)
        while x:
            got.append(i.value)
            if not one:
                expect(W.from_address(x).value == a.m.get(i.value), 'value', a.where)
            if len(got) > n:
                break
            x = fn['Next'](a.p, C.byref(i), None)
        expect(got == ks, 'iteration', a.where)
        i = W(TOP)
        got = []
        x = fn['Last'](a.p, C.byref(i), None)
        while x:
            got.append(i.value)
            if len(got) > n:
                break
            x = fn['Prev'](a.p, C.byref(i), None)
        expect(got == ks[::-1], 'iteration backwards', a.where)
    probe = [0, TOP]
    for _ in range(12 if full else 5):
        k = r.choice(ks) if ks and r.randrange(4) else r.getrandbits(64)
        probe += [k, (k + 1) & TOP, (k - 1) & TOP, k ^ 1 << r.randrange(64)]
    for k in probe:
        a.look(k)
        lo, hi = bisect.bisect_left(ks, k), bisect.bisect_right(ks, k)
        for name, want in (('First', ks[lo] if lo < n else None), ('Next', ks[hi] if hi < n else None), ('Last', ks[hi - 1] if hi else None), ('Prev', ks[lo - 1] if lo else None)):
            x = at(name, k)
            expect(x == want, name, lambda: '%s from %d: %s instead of %s, %s' % (name, k, x, want, a.where()))
        up = k
        while up in a.m:
            up += 1
        down = k
        while down in a.m:
            down -= 1
        up2, down2 = k + 1, k - 1
        while up2 in a.m:
            up2 += 1
        while down2 in a.m:
            down2 -= 1
        for name, want in (('FirstEmpty', up), ('NextEmpty', up2), ('LastEmpty', down), ('PrevEmpty', down2)):
            want = want if 0 <= want <= TOP else None
            x = empty(name, k)
            expect(x == want, name, lambda: '%s from %d: %s instead of %s, %s' % (name, k, x, want, a.where()))
        k2 = r.choice(probe)
        x, y = min(k, k2), max(k, k2)
        want = bisect.bisect_right(ks, y) - bisect.bisect_left(ks, x)
        z = fn['count'](a.p, x, y, None)
        expect(z == want, 'count of a range', lambda: '%d..%d: %d instead of %d, %s' % (x, y, z, want, a.where()))
        j = r.randrange(n + 2)
        i = W(0)
        x = fn['nth'](a.p, j, C.byref(i), None)
        expect(bool(x) == (1 <= j <= n) and (not x or i.value == ks[j - 1]), 'nth', lambda: '%d: %s, %s' % (j, i.value, a.where()))
        if x and not one:
            expect(W.from_address(x).value == a.m[i.value], 'value of the nth', a.where)
    expect(fn['active'](a.p) <= fn['used'](a.p) and bool(fn['used'](a.p)) == bool(n), 'memory in use', a.where)


def walk_strings(a, r, full):
    fn = a.fn
    ks = sorted(a.m)
    size = max([len(k) for k in ks] + [80]) + 16

    def at(name, start):
        b = C.create_string_buffer(start, max(size, len(start) + 9))
        x = fn[name](a.p, b, None)
        if not x:
            return None
        expect(x != ERR and W.from_address(x).value == a.m.get(b.value), name, lambda: '%s from %r: %r, %s' % (name, start, b.value, a.where()))
        return b.value
    if full:
        b = C.create_string_buffer(b'', size)
        got = []
        x = fn['First'](a.p, b, None)
        while x and len(got) <= len(ks):
            expect(W.from_address(x).value == a.m.get(b.value), 'value', a.where)
            got.append(b.value)
            x = fn['Next'](a.p, b, None)
        expect(got == ks, 'iteration', a.where)
        b = C.create_string_buffer(b'\xff' * (size - 1), size)
        got = []
        x = fn['Last'](a.p, b, None)
        while x and len(got) <= len(ks):
            got.append(b.value)
            x = fn['Prev'](a.p, b, None)
        expect(got == ks[::-1], 'iteration backwards', a.where)
    for _ in range(10):
        k = r.choice(ks) if ks and r.randrange(4) else byte_keys(r, 1, False)[0]
        w = r.randrange(5)
        k = [k, k[:-1], k + b'a', k[:r.randrange(len(k) + 1)], bytes([k[0] ^ 1 or 2]) + k[1:] if k else b'z'][w]
        a.look(k)
        lo, hi = bisect.bisect_left(ks, k), bisect.bisect_right(ks, k)
        n = len(ks)
        for name, want in (('First', ks[lo] if lo < n else None), ('Next', ks[hi] if hi < n else None), ('Last', ks[hi - 1] if hi else None), ('Prev', ks[lo - 1] if lo else None)):
            x = at(name, k)
            expect(x == want, name, lambda: '%s from %r: %r instead of %r, %s' % (name, k, x, want, a.where()))


def verify(a, r, full):
    if a.mode in '1L':
        walk_words(a, r, full)
    elif a.mode == 'S':
        walk_strings(a, r, full)
    else:
        ks = list(a.m)
        for k in ks if full else r.sample(ks, min(50, len(ks))):
            a.look(k)
        for k in byte_keys(r, 10, True) + [x[:-1] for x in ks[:10]] + [x + b'\0' for x in ks[:10]]:
            a.look(k)


def example_full(c):
    """whole ranges of 2 bytes, full but for a few"""
    for mode in '1L':
        for base, n, holes in ((0, 65536, []), (3 << 40, 65536 + 300, [0, 65535]), (TOP - 65536 - 599, 65536 + 600, [300]), (2**32 - 70000, 140000, [70000, 70256])):
            a = Arr(mode)
            ks = [base + i for i in range(n) if i not in holes]
            arr = (W * len(ks))(*ks)
            x = a.fn['array'](C.byref(a.p), len(ks), arr, None) if mode == '1' else a.fn['array'](C.byref(a.p), len(ks), arr, arr, None)
            expect(x == 1, 'made from an array', a.where)
            a.m = {k: 1 if mode == '1' else k for k in ks}
            a.log.append('%d from %d on but for %s' % (n, base, holes))
            r = random.Random(n)
            verify(a, r, True)
            for h in holes:
                a.insert(base + h)
            for i in (0, 255, 256, 65535, n - 1):
                a.delete(base + i)
            walk_words(a, r, False)
            a.free()


def prop(d, c):
    mode = d.choice('11LLLSH')
    live = capi.mem_live()
    a = Arr(mode)
    inserted = deleted = 0
    seen = []
    try:
        if mode in '1L' and d.int(6) == 0:
            r = random.Random(d.int(2**31))
            ks = sorted(set(word_keys(r, d.choice([0, 1, 5, 31, 32, 100, 1000]))))
            arr = (W * max(1, len(ks)))(*ks)
            vals = (W * max(1, len(ks)))(*[i + 1 for i in range(len(ks))])
            a.log.append('array of %d' % len(ks))
            x = a.fn['array'](C.byref(a.p), len(ks), arr, None) if mode == '1' else a.fn['array'](C.byref(a.p), len(ks), arr, vals, None)
            expect(x == 1, 'made from an array', a.where)
            a.m = {k: 1 if mode == '1' else i + 1 for i, k in enumerate(ks)}
            verify(a, r, True)
            inserted += len(ks)
            seen += ks
        for _ in range(1 + d.int(8)):
            what = d.int(9)
            n = d.choice([1, 2, 3, 5, 8, 9, 20, 32, 33, 100, 300]) if d.int(8) else d.choice([1000, 3000])
            s = d.int(2**31)
            r = random.Random(s)
            a.log.append(('keys', 'keys', 'keys', 'delete some', 'delete a range', 'delete most', 'mix', 'delete others', 'failing')[what] + ' %d %d' % (n, s))
            if what <= 2 or not a.m:
                ks = word_keys(r, n) if mode in '1L' else byte_keys(r, n, mode == 'H')
                if r.randrange(2):
                    r.shuffle(ks)
                for k in ks:
                    a.insert(k)
                inserted += len(ks)
                seen += ks
            elif what == 6:
                pool = r.sample(seen, min(len(seen), n)) + (word_keys(r, n) if mode in '1L' else byte_keys(r, n, mode == 'H'))
                seen += pool
                for _ in range(3 * n):
                    k = r.choice(pool)
                    w = r.randrange(3)
                    if w == 0:
                        a.insert(k)
                        inserted += 1
                    elif w == 1:
                        deleted += k in a.m
                        a.delete(k)
                    else:
                        a.look(k)
            elif what == 8 and mode != 'S':
                ks = list(a.m)
                new = word_keys(r, 10) if mode in '1L' else byte_keys(r, 10, mode == 'H')
                failed = 0
                for _ in range(min(n, 60)):
                    failed += a.fail(r.choice(ks if r.randrange(2) else new), mode != 'H' and r.randrange(2), r.randrange(4))
                if failed:
                    c.label('failing allocations of Judy' + mode)
                seen += new
            elif what == 7:
                for k in word_keys(r, min(n, 50)) if mode in '1L' else byte_keys(r, min(n, 50), mode == 'H'):
                    deleted += k in a.m
                    a.delete(k)
            else:
                ks = sorted(a.m)
                if what == 3:
                    ks = r.sample(ks, min(n, len(ks)))
                elif what == 4:
                    i = r.randrange(len(ks))
                    ks = ks[i:i + n]
                else:
                    r.shuffle(ks)
                    ks = ks[r.randrange(min(len(ks), 40)):]
                for k in ks:
                    a.delete(k)
                deleted += len(ks)
            verify(a, r, True)
        if d.bool():
            for k in list(a.m):
                a.delete(k)
            expect(not a.p.value or a.rest, 'not empty in the end', a.where)
    finally:
        m = a.m
        try:
            a.free()
        except Fail:
            a.fn['free'](C.byref(a.p), None)
            raise
    now = capi.mem_live()
    expect(now == live, 'leak', lambda: '%d allocations, Judy%s after %s' % (now - live, mode, a.log))
    c.label('Judy' + mode)
    if inserted >= 100 and deleted >= 20 or mode == 'S' and inserted >= 20:
        c.nontrivial(repr((mode, a.log)), lambda: 'Judy%s: %s' % (mode, short(a.log, 200)))
