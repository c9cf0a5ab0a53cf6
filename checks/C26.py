"""Histories in which Python code called back by an operation works on the same containers, and buffers are exported."""
import gc
import math
import struct

import pointless

import pv
from harness import Fail, expect, short

RULE = 'a history in which Python code called back during an operation changed, exported or re-initialised the container of that operation, and in which an operation was refused because of an exported buffer; distinct by the history'
LEVEL = 'exploration'
CONF = {'budget': 28, 'variants': ['asan', 'rel', 'asan', 'asan', 'asan', 'rel', 'asan', 'asan']}
ASSUMPTIONS = ['an operation uses the container as it is after the Python code it called has returned',
               'bulk operations that fail after their Python code changed the container may leave any consistent contents']

PV = pointless.PointlessPrimVector
BV = pointless.PointlessBitvector
FMT = pv.PRIM_FMT
SIZE = {t: struct.calcsize(f) for t, f in FMT.items()}


def pack(t, m):
    return struct.pack('=%d%s' % (len(m), FMT[t]), *m)


class Err(Exception):
    pass


class V:
    """a typed vector, its items, its exports"""

    def __init__(self, o, t, m):
        self.o, self.t, self.m = o, t, m
        self.mv = []
        self.version = 0

    @property
    def busy(self):
        return bool(self.mv)


class B:
    def __init__(self, o, m):
        self.o, self.m = o, m
        self.version = 0


class World:
    def __init__(self, d, c):
        self.d, self.c = d, c
        self.v = []
        self.b = []
        self.h = None       # an opened image
        self.views = []     # (view, items)
        self.its = []       # iterators that are under way
        self.log = []
        self.depth = 0
        self.left = d.choice([10, 25, 60])
        self.reentered = 0
        self.refused = 0
        self.busy = []      # containers of the operations that are under way

    def changed(self, x):
        x.version += 1
        if any(x is y for y in self.busy):
            self.reentered += 1

    def note(self, s):
        self.log.append('  ' * self.depth + s)

    def act(self):
        """what called back code does"""
        d = self.d
        self.depth += 1
        try:
            for _ in range(d.choice([0, 1, 1, 2]) if self.depth < 3 else 0):
                if self.left <= 0:
                    return
                if self.busy and d.int(3):
                    step(d, self, d.choice(self.busy))
                else:
                    step(d, self, None)
        finally:
            self.depth -= 1

    def check(self):
        for x in self.v:
            same(self, x)
        for x in self.b:
            expect(len(x.o) == len(x.m) and list(x.o) == x.m, 'contents of a bit vector', lambda: '%r instead of %r after\n%s' % (list(x.o)[:80], x.m[:80], self.text()))
        for o, m in self.views:
            expect(list(o) == m, 'contents of an opened vector', lambda: '%r instead of %r after\n%s' % (list(o)[:80], m[:80], self.text()))

    def text(self):
        return short('\n'.join(self.log), 3000)


def same(w, x):
    want = pack(x.t, x.m)
    expect(len(x.o) == len(x.m), 'length', lambda: '%d instead of %d after\n%s' % (len(x.o), len(x.m), w.text()))
    expect(x.o.typecode == x.t, 'type', lambda: '%s instead of %s after\n%s' % (x.o.typecode, x.t, w.text()))
    with memoryview(x.o) as mv:
        got = bytes(mv)
    expect(got == want, 'contents', lambda: '%r instead of %r after\n%s' % (got[:80], want[:80], w.text()))
    for mv in x.mv:
        got = bytes(mv)
        expect(got == want, 'contents of an exported buffer', lambda: '%r instead of %r after\n%s' % (got[:80], want[:80], w.text()))


def resync(w, x):
    """after a failure that may leave anything consistent"""
    if isinstance(x, B):
        x.m = list(x.o)
        expect(len(x.m) == len(x.o), 'length')
    else:
        x.t = x.o.typecode
        x.m = list(x.o)


# ---- objects that call back

class Idx:
    def __init__(self, w, v, fail=False):
        self.w, self.v, self.fail = w, v, fail

    def __index__(self):
        self.w.act()
        if self.fail:
            raise Err
        return self.v

    __int__ = __index__


class Flt:
    def __init__(self, w, v, fail=False):
        self.w, self.v, self.fail = w, v, fail

    def __float__(self):
        self.w.act()
        if self.fail:
            raise Err
        return self.v


class Buf:
    def __init__(self, w, v, then=None):
        self.w, self.v, self.then = w, v, then

    def __buffer__(self, flags):
        self.w.act()
        if self.then:
            self.then()
        return memoryview(self.v)


class It:
    """hands out items; the container is expected to take each before asking for the next"""

    def __init__(self, w, x, items, fail, prim, start=None):
        self.w, self.x, self.items, self.fail, self.prim = w, x, list(items), fail, prim
        self.pending = False
        self.start = start

    def __iter__(self):
        self.w.act()
        if self.start:
            self.start()
        return self

    def __next__(self):
        if self.pending:
            x = self.x
            v = self.last
            x.m.append(pv.f32(v) if self.prim and x.t == 'f' else v)
            self.w.changed_by_op(x)
            self.pending = False
        self.w.act()
        if not self.items:
            if self.fail:
                raise Err
            raise StopIteration
        self.pending = True
        self.last = self.items.pop(0)
        return self.last


def changed_by_op(self, x):
    pass


World.changed_by_op = changed_by_op


# ---- operations

def call(w, what, f, refused=None):
    """(result, exception)"""
    w.note(what)
    try:
        return f(), None
    except (Fail, RecursionError):
        raise
    except Exception as e:
        if type(e) is BufferError:
            w.refused += 1
        w.note('   %s' % type(e).__name__)
        return None, e


def bad(w, e, what):
    raise Fail('%s: unexpected %s' % (what, type(e).__name__ if isinstance(e, BaseException) else 'success'), '%r after\n%s' % (e, w.text()))


def step(d, w, x):
    w.left -= 1
    if x is None:
        pool = w.v + w.b
        x = d.choice(pool)
    if isinstance(x, B):
        bits_step(d, w, x)
    else:
        k = d.int(24)
        OPS[k % len(OPS)](d, w, x) if k < len(OPS) else misc(d, w, x)
    w.check()


def name(w, x):
    return 'v%d' % w.v.index(x) if isinstance(x, V) else 'b%d' % w.b.index(x)


def value(d, x):
    return pv.g_prim_item(d, x.t) if d.bool() or not x.m else d.choice(x.m)


def op_export(d, w, x):
    if len(x.mv) < 3:
        w.note('%s: export' % name(w, x))
        x.mv.append(memoryview(x.o))
        w.changed(x)


def op_release(d, w, x):
    if x.mv:
        w.note('%s: release' % name(w, x))
        mv = x.mv.pop(d.int(len(x.mv)))
        if d.bool():
            mv.release()
        del mv
        w.changed(x)


def op_append(d, w, x):
    v = value(d, x)
    r, e = call(w, '%s.append(%r)' % (name(w, x), v), lambda: x.o.append(v))
    if x.busy:
        if type(e) is not BufferError:
            bad(w, e, 'append to an exported vector')
        return
    if e:
        bad(w, e, 'append')
    x.m.append(pv.f32(v) if x.t == 'f' else v)
    w.changed(x)


def op_pop(d, w, x):
    r, e = call(w, '%s.pop()' % name(w, x), lambda: x.o.pop())
    if not x.m:
        if type(e) not in (IndexError, BufferError):
            bad(w, e, 'pop from an empty vector')
        return
    if x.busy:
        if type(e) is not BufferError:
            bad(w, e, 'pop from an exported vector')
        return
    if e:
        bad(w, e, 'pop')
    v = x.m.pop()
    expect(repr(r) == repr(v), 'popped item', lambda: '%r instead of %r after\n%s' % (r, v, w.text()))
    w.changed(x)


def op_clear(d, w, x):
    r, e = call(w, '%s.clear()' % name(w, x), lambda: x.o.clear())
    if x.busy:
        if type(e) is not BufferError:
            bad(w, e, 'clear of an exported vector')
        return
    if e:
        bad(w, e, 'clear')
    x.m = []
    w.changed(x)


def op_sort(d, w, x):
    if x.t == 'f' and any(v != v for v in x.m):
        return
    r, e = call(w, '%s.sort()' % name(w, x), lambda: x.o.sort())
    if e:
        bad(w, e, 'sort')
    got = list(x.o)
    expect(sorted(x.m) == got and sorted(map(repr, x.m)) == sorted(map(repr, got)), 'sorted', lambda: '%r from %r' % (got, x.m))
    x.m = got
    w.changed(x)


def maybe_index(d, w, n):
    i = d.int(2 * n + 3) - n - 1
    k = d.int(3)
    if k == 0:
        return i, i, False
    fail = d.int(8) == 0
    return Idx(w, i, fail), i, fail


def op_get(d, w, x):
    a, i, fail = maybe_index(d, w, len(x.m))
    w.busy.append(x)
    r, e = call(w, '%s[%d]%s' % (name(w, x), i, ' calling back' if a is not i else ''), lambda: x.o[a])
    w.busy.pop()
    if fail:
        if type(e) is not Err:
            bad(w, e, 'item')
    elif not -len(x.m) <= i < len(x.m):
        if type(e) is not IndexError:
            bad(w, e, 'item that is not there')
    elif e:
        bad(w, e, 'item')
    else:
        expect(repr(r) == repr(x.m[i]), 'item', lambda: '%r instead of %r after\n%s' % (r, x.m[i], w.text()))


def op_set(d, w, x):
    a, i, fail = maybe_index(d, w, len(x.m))
    t = x.t
    v = value(d, x)
    w.busy.append(x)
    m = x.m

    def go():
        x.o[a] = v
    r, e = call(w, '%s[%d] = %r%s' % (name(w, x), i, v, ' calling back' if a is not i else ''), go)
    w.busy.pop()
    n = len(x.m)
    if fail:
        if type(e) is not Err:
            bad(w, e, 'assignment')
    elif not -n <= i < n:
        if e is None:
            bad(w, e, 'assignment to an item that is not there')
    elif x.t != t and not fits(x.t, v):
        if e is None:
            bad(w, e, 'assignment')
    elif e:
        bad(w, e, 'assignment')
    else:
        x.m[i] = pv.f32(v) if x.t == 'f' else v
        w.changed(x)


def fits(t, v):
    if t == 'f':
        return type(v) is float
    lo, hi = pv.PRIM_RANGES[t]
    return type(v) is int and lo <= v <= hi


def op_slice(d, w, x):
    n = len(x.m)
    ends = []
    shown = []
    fails = False
    for _ in range(2):
        if d.int(4) == 0:
            ends.append(None)
            shown.append(None)
        else:
            a, i, fail = maybe_index(d, w, n)
            ends.append(a)
            shown.append(i)
            fails = fails or fail
    w.busy.append(x)
    r, e = call(w, '%s[%r:%r]' % (name(w, x), *shown), lambda: x.o[ends[0]:ends[1]])
    w.busy.pop()
    if fails:
        if type(e) is not Err:
            bad(w, e, 'slice')
        return
    if e:
        bad(w, e, 'slice')
    y = V(r, x.t, x.m[shown[0]:shown[1]])
    same(w, y)


def op_search(d, w, x):
    v = value(d, x)
    how = d.int(4)
    fail = False
    a = v
    if x.t == 'f' and d.int(4):
        fail = d.int(8) == 0
        a = Flt(w, v, fail)
    t = x.t
    w.busy.append(x)
    f = [lambda: x.o.index(a), lambda: x.o.remove(a), lambda: x.o.fast_remove(a), lambda: a in x.o][how]
    was_busy = x.busy
    r, e = call(w, '%s.%s(%r)%s' % (name(w, x), ['index', 'remove', 'fast_remove', 'contains'][how], v, ' calling back' if a is not v else ''), f)
    w.busy.pop()
    if how == 3:
        if e:
            bad(w, e, 'in')
        want = a is v and any(y == v for y in x.m)
        expect(r == want, 'in', lambda: '%r after\n%s' % (r, w.text()))
        return
    if was_busy and how in (1, 2):
        if type(e) is not BufferError:
            bad(w, e, 'removal from an exported vector')
        return
    if fail:
        if type(e) is not Err:
            bad(w, e, 'search')
        return
    if x.t != t:
        # it is of another type now: whatever is found, or an error
        if how in (1, 2) and e is None:
            resync(w, x)
            w.changed(x)
        return
    v = pv.f32(v) if t == 'f' else v
    i = next((i for i, y in enumerate(x.m) if y == v), None)
    if x.busy and how in (1, 2):
        if type(e) not in (BufferError, ValueError):
            bad(w, e, 'removal from an exported vector')
        return
    if i is None:
        if type(e) is not ValueError:
            bad(w, e, 'search for an item that is not there')
        return
    if e:
        bad(w, e, 'search')
    if how == 0:
        expect(r == i, 'index', lambda: '%r instead of %r after\n%s' % (r, i, w.text()))
        return
    if how == 1:
        del x.m[i]
    else:
        x.m[i] = x.m[-1]
        x.m.pop()
    w.changed(x)


def op_pop_bulk(d, w, x):
    n = d.int(len(x.m) + 3)
    fail = False
    a = n
    if d.int(3):
        fail = d.int(8) == 0
        a = Idx(w, n, fail)
    w.busy.append(x)
    r, e = call(w, '%s.pop_bulk(%d)%s' % (name(w, x), n, ' calling back' if a is not n else ''), lambda: x.o.pop_bulk(a))
    w.busy.pop()
    if fail:
        if type(e) is not Err:
            bad(w, e, 'pop_bulk')
    elif n > len(x.m):
        if e is None:
            bad(w, e, 'pop_bulk of too many')
    elif n and x.busy:
        if type(e) is not BufferError:
            bad(w, e, 'pop_bulk of an exported vector')
    elif e:
        bad(w, e, 'pop_bulk')
    elif n:
        del x.m[-n:]
        w.changed(x)


def op_append_bulk(d, w, x):
    k = d.int(6)
    if k == 0:
        y = d.choice(w.v)
        r, e = call(w, '%s.append_bulk(%s)' % (name(w, x), name(w, y)), lambda: x.o.append_bulk(y.o))
        if x.busy:
            if type(e) is not BufferError:
                bad(w, e, 'append_bulk to an exported vector')
        elif y.t != x.t and not all(fits(x.t, v) for v in y.m):
            if e is None:
                bad(w, e, 'append_bulk of items that do not fit')
        elif e:
            bad(w, e, 'append_bulk')
        else:
            x.m = x.m + [pv.f32(v) if x.t == 'f' else v for v in y.m]
            w.changed(x)
        return
    items = [value(d, x) for _ in range(d.int(5))]
    fail = d.int(6) == 0
    if d.int(8) == 0:
        items.insert(d.int(len(items) + 1), 'no item')
    it = It(w, x, items, fail, True)
    was_busy = x.busy
    version = x.version
    before = x.t, list(x.m)
    w.busy.append(x)
    r, e = call(w, '%s.append_bulk(%r%s)' % (name(w, x), items, ' and fail' if fail else ''), lambda: x.o.append_bulk(it))
    w.busy.pop()
    if was_busy:
        if type(e) is not BufferError:
            bad(w, e, 'append_bulk to an exported vector')
        return
    if e is None:
        expect(not it.pending and not it.items and not fail and 'no item' not in items, 'append_bulk succeeded early', w.text)
        w.changed(x)
        return
    if x.version == version:
        # nothing else happened to it
        x.t, x.m = before
        expect(fail and type(e) is Err or 'no item' in items, 'append_bulk: unexpected %s' % type(e).__name__, w.text)
    else:
        resync(w, x)
    w.changed(x)


def op_init(d, w, x):
    k = d.int(5)
    if k == 0:
        # from a buffer, handed out by Python code
        t = d.choice(pv.PRIM_TYPES)
        m = [pv.g_prim_item(d, t) for _ in range(d.int(5))]
        if t == 'f':
            m = [pv.f32(v) for v in m]
        a = Buf(w, bytes(PV(t, sequence=m).serialize()))
        was_busy = x.busy
        w.busy.append(x)
        r, e = call(w, '%s.__init__(buffer=%s %r)' % (name(w, x), t, m), lambda: x.o.__init__(buffer=a))
        w.busy.pop()
        if was_busy or x.busy:
            if type(e) is not BufferError:
                bad(w, e, 'initialization of an exported vector')
            return
        if e:
            bad(w, e, 'initialization from a buffer')
        x.t, x.m = t, m
        w.changed(x)
        return
    if k == 1:
        # from its own buffer
        r, e = call(w, '%s.__init__(buffer=itself)' % name(w, x), lambda: x.o.__init__(buffer=x.o))
        if type(e) is not BufferError:
            bad(w, e, 'initialization from its own buffer')
        return
    t = d.choice(pv.PRIM_TYPES)
    was_busy = x.busy
    if k == 2:
        r, e = call(w, '%s.__init__(%s)' % (name(w, x), t), lambda: x.o.__init__(t))
        if was_busy:
            if type(e) is not BufferError:
                bad(w, e, 'initialization of an exported vector')
            return
        if e:
            bad(w, e, 'initialization')
        x.t, x.m = t, []
        w.changed(x)
        return
    items = [pv.g_prim_item(d, t) for _ in range(d.int(5))]
    fail = d.int(6) == 0
    it = It(w, x, items, fail, True)
    if not was_busy:
        # it is cleared before anything is asked from the sequence
        x.t, x.m = t, []
        w.changed(x)
    w.busy.append(x)
    version = x.version
    r, e = call(w, '%s.__init__(%s, sequence=%r%s)' % (name(w, x), t, items, ' and fail' if fail else ''), lambda: x.o.__init__(t, sequence=it))
    w.busy.pop()
    if was_busy:
        if type(e) is not BufferError:
            bad(w, e, 'initialization of an exported vector')
        return
    if e is None:
        expect(not it.pending and not it.items and not fail, 'initialization succeeded early', w.text)
    else:
        expect(fail and type(e) is Err or x.version != version, 'initialization: unexpected %s' % type(e).__name__, w.text)
        resync(w, x)
    w.changed(x)


def op_through(d, w, x):
    """write through an exported buffer"""
    if not x.mv or not x.m:
        return
    mv = d.choice(x.mv)
    i = d.int(len(x.m))
    v = value(d, x)
    if x.t == 'f':
        v = pv.f32(v)
    w.note('buffer of %s[%d] = %r' % (name(w, x), i, v))
    mv[i * SIZE[x.t]:(i + 1) * SIZE[x.t]] = struct.pack('=' + FMT[x.t], v)
    x.m[i] = v
    w.changed(x)


def op_iter(d, w, x):
    if w.its and d.int(3):
        i = d.int(len(w.its))
        it, x, pos, rev = w.its[i]
        w.note('next of an iterator of %s at %d%s' % (name(w, x), pos, ' from the end' if rev else ''))
        try:
            r = next(it)
        except StopIteration:
            expect(pos >= len(x.m), 'iterator ended early', w.text)
            w.its.pop(i)
            return
        expect(pos < len(x.m), 'iterator went on', w.text)
        want = x.m[len(x.m) - 1 - pos] if rev else x.m[pos]
        expect(repr(r) == repr(want), 'item of an iterator', lambda: '%r instead of %r after\n%s' % (r, want, w.text()))
        w.its[i] = it, x, pos + 1, rev
    elif len(w.its) < 4:
        rev = isinstance(x, V) and d.bool()
        w.note('new iterator of %s' % name(w, x))
        w.its.append(((reversed if rev else iter)(x.o), x, 0, rev))


def op_new(d, w, x):
    if len(w.v) < 4:
        w.v.append(new_vector(d))
        w.note('new v%d %s %r' % (len(w.v) - 1, w.v[-1].t, w.v[-1].m))


def new_vector(d):
    t = d.choice(['f', 'f', 'f', 'i8', 'u8', 'u8', 'i64', 'u64'] + list(pv.PRIM_TYPES))
    m = [pv.g_prim_item(d, t) for _ in range(d.choice([0, 1, 3, 8]))]
    if t == 'f':
        m = [pv.f32(v) for v in m]
    return V(PV(t, sequence=m), t, m)


def misc(d, w, x):
    k = d.int(6)
    if k == 0:
        w.note('%s.serialize()' % name(w, x))
        r = x.o.serialize()
        expect(bytes(r[8:]) == pack(x.t, x.m), 'serialized', w.text)
    elif k == 1:
        # open an image held by a container that changes under it
        open_image(d, w)
    elif k == 2 and w.views:
        i = d.int(len(w.views))
        o, m = w.views[i]
        a, j, fail = maybe_index(d, w, len(m))
        r, e = call(w, 'item %d of an opened vector' % j, lambda: o[a])
        if fail:
            if type(e) is not Err:
                bad(w, e, 'item')
        elif -len(m) <= j < len(m):
            expect(e is None and r == m[j], 'item of an opened vector', w.text)
        elif type(e) is not IndexError:
            bad(w, e, 'item that is not there')
    elif k == 3 and w.views:
        w.note('drop a view')
        w.views.pop(d.int(len(w.views)))
    elif k == 4 and w.h is not None:
        r, e = call(w, 'open again', lambda: w.h.__init__(bytearray(b'xxxx')))
        if w.views:
            if type(e) is not ValueError:
                bad(w, e, 'opened again while in use')
        elif e is None:
            bad(w, e, 'opened garbage')
        else:
            w.h = None
    elif k == 5 and w.views:
        o, m = d.choice(w.views)
        r, e = call(w, '%s.append_bulk(opened vector)' % name(w, x), lambda: x.o.append_bulk(o))
        if x.busy:
            if type(e) is not BufferError:
                bad(w, e, 'append_bulk to an exported vector')
        elif all(fits(x.t, v) for v in m):
            if e:
                bad(w, e, 'append_bulk')
            x.m = x.m + m
            w.changed(x)
        elif e is None:
            bad(w, e, 'append_bulk of items that do not fit')


class Bytes(bytearray):
    pass


class Overridden(bytearray):
    """a bytearray with a buffer of its own"""

    def __buffer__(self, flags):
        return self.give(flags)


def open_image(d, w):
    m = d.choice([[1, 2, 3], [300, 7, 65535], [2**31, 5], [-5, 100], [0.5, 1.5], ['a', 1, None], [2**20] * 100])
    img = bytes(pointless.serialize_to_bytearray(m))
    k = d.int(4)
    if k == 0:
        src = bytearray(img)
        h = pointless.Pointless(src)
        src[:] = b'\xff' * len(src)
        del src[5:]
    elif k == 1:
        src = PV('u8', sequence=img)
        h = pointless.Pointless(src)
        while len(src):
            src[0] = 255
            src.pop()
    elif k == 2:
        src = Overridden(img)

        def give(flags):
            w.act()
            src.give = lambda flags: memoryview(other)
            if bytearray.__len__(src) and d.bool():
                bytearray.clear(src)
            return memoryview(other)
        other = img
        src.give = give
        h = pointless.Pointless.__new__(pointless.Pointless)
        inner = d.int(3)
        if inner == 0:
            # it is opened by the Python code that hands out the buffer
            m2 = ['inner', 12345678, [1.5]]
            img2 = pointless.serialize_to_bytearray(m2)

            def nested(flags):
                h.__init__(img2)
                w.views.append((h.GetRoot()[:2], m2[:2]))
                return give(flags)
            src.give = nested
            w.views.clear()
            w.h = None
        r, e = call(w, 'open a bytearray with its own buffer%s' % (', while it is opened' if inner == 0 else ''), lambda: h.__init__(src))
        if inner == 0:
            if type(e) is not ValueError:
                bad(w, e, 'opened while in use')
            w.h = h
            expect(h.GetRoot()[0] == 'inner', 'root', w.text)
            w.views[:] = [(h.GetRoot()[:2], m2[:2])]
            return
        if e:
            bad(w, e, 'open')
    else:
        h = pointless.Pointless(Bytes(img))
    w.note('opened %r' % m[:5])
    w.views.clear()
    w.h = h
    r = h.GetRoot()
    w.views.append((r, m))
    a = d.int(len(m) + 1)
    w.views.append((r[a:], m[a:]))


OPS = [op_export, op_release, op_append, op_append_bulk, op_append_bulk, op_append_bulk, op_pop, op_clear, op_sort, op_get, op_set, op_slice, op_search, op_search, op_search, op_pop_bulk, op_init, op_init, op_through, op_iter, op_new]


# ---- bit vectors

def bits_step(d, w, x):
    k = d.int(9)
    if k == 0:
        v = d.bool()
        r, e = call(w, '%s.append(%r)' % (name(w, x), v), lambda: x.o.append(bool(v)))
        if e:
            bad(w, e, 'append')
        x.m.append(bool(v))
        w.changed(x)
    elif k == 1:
        r, e = call(w, '%s.pop()' % name(w, x), lambda: x.o.pop())
        if not x.m:
            if type(e) is not IndexError:
                bad(w, e, 'pop')
            return
        expect(e is None and r == x.m.pop(), 'popped bit', w.text)
        w.changed(x)
    elif k == 2:
        n = d.int(12) - 1
        v = d.bool()
        fail = d.int(8) == 0
        a = Idx(w, n, fail) if d.int(3) else n
        fail = fail and a is not n
        w.busy.append(x)
        r, e = call(w, '%s.extend_%s(%d)' % (name(w, x), v, n), lambda: (x.o.extend_true if v else x.o.extend_false)(a))
        w.busy.pop()
        if fail:
            if type(e) is not Err:
                bad(w, e, 'extend')
        elif n < 0:
            if e is None:
                bad(w, e, 'extend')
        elif e:
            bad(w, e, 'extend')
        else:
            x.m = x.m + [bool(v)] * n
            w.changed(x)
    elif k == 3:
        y = d.choice(w.b)
        r, e = call(w, '%s.append_bulk(%s)' % (name(w, x), name(w, y)), lambda: x.o.append_bulk(y.o))
        if e:
            bad(w, e, 'append_bulk')
        x.m = x.m + y.m
        w.changed(x)
    elif k == 4:
        a, i, fail = maybe_index(d, w, len(x.m))
        w.busy.append(x)
        r, e = call(w, '%s[%d]' % (name(w, x), i), lambda: x.o[a])
        w.busy.pop()
        if fail:
            if type(e) is not Err:
                bad(w, e, 'bit')
        elif -len(x.m) <= i < len(x.m):
            expect(e is None and r == x.m[i], 'bit', w.text)
        elif type(e) is not IndexError:
            bad(w, e, 'bit that is not there')
    elif k == 5:
        a, i, fail = maybe_index(d, w, len(x.m))
        v = d.choice([0, 1, True, False])

        def go():
            x.o[a] = v
        w.busy.append(x)
        r, e = call(w, '%s[%d] = %r' % (name(w, x), i, v), go)
        w.busy.pop()
        if fail:
            if type(e) is not Err:
                bad(w, e, 'assignment')
        elif -len(x.m) <= i < len(x.m):
            if e:
                bad(w, e, 'assignment')
            x.m[i] = bool(v)
            w.changed(x)
        elif type(e) is not IndexError:
            bad(w, e, 'assignment to a bit that is not there')
    elif k == 6:
        op_iter(d, w, x)
    elif k == 7 and len(w.b) < 3:
        y = x.o.copy()
        w.note('b%d = %s.copy()' % (len(w.b), name(w, x)))
        w.b.append(B(y, list(x.m)))
    else:
        items = [bool(d.int(2)) for _ in range(d.choice([0, 1, 5, 20]))]
        fail = d.int(6) == 0
        if d.int(6) == 0:
            n = d.int(40)
            r, e = call(w, '%s.__init__(%d)' % (name(w, x), n), lambda: x.o.__init__(n))
            if e:
                bad(w, e, 'initialization')
            x.m = [False] * n
            w.changed(x)
            return

        def start():
            # it is cleared when the sequence has been asked for an iterator
            x.m = []
        it = It(w, x, items, fail, False, start)
        x.m = []
        w.changed(x)
        w.busy.append(x)
        r, e = call(w, '%s.__init__(sequence=%s%s)' % (name(w, x), ''.join('01'[i] for i in items), ' and fail' if fail else ''), lambda: x.o.__init__(sequence=it))
        w.busy.pop()
        if e is None:
            expect(not it.pending and not it.items and not fail, 'initialization succeeded early', w.text)
        else:
            expect(fail and type(e) in (Err, ValueError), 'initialization: unexpected %s' % type(e).__name__, w.text)
            resync(w, x)
        w.changed(x)


def prop(d, c):
    w = World(d, c)
    for _ in range(1 + d.int(2)):
        w.v.append(new_vector(d))
        w.note('v%d: %s %r' % (len(w.v) - 1, w.v[-1].t, w.v[-1].m))
    for _ in range(d.int(3)):
        m = [bool(d.int(2)) for _ in range(d.choice([0, 1, 7, 8, 30]))]
        w.b.append(B(BV(sequence=m), m))
    while w.left > 0:
        step(d, w, None)
    w.check()
    text = '\n'.join(w.log)
    c.note('history', text)
    # everything is released: all of it works again
    for x in w.v:
        x.mv.clear()
        x.o.append(x.m[0] if x.m else 0.5 if x.t == 'f' else 1)
        x.o.clear()
    c.label('called back' if w.reentered else 'not called back')
    if w.reentered and w.refused:
        c.nontrivial(text, lambda: short(text, 500))
