"""Every operation with allocations failing, against its result without failures, its state before, and a retry."""
import gc
import importlib
import os
import sys

import pointless

import capi
import pv
from checks.C22 import Dummy
from harness import Discard, Draw, Fail, expect, short

try:
    import _testcapi
except ImportError:
    _testcapi = None

RULE = 'an operation, or a case of another check, in which at least one allocation was made to fail; distinct by operation, input and failing allocations'
LEVEL = 'exploration'
CONF = {'budget': 35, 'variants': ['rel', 'asan', 'rel', 'asan', 'rel', 'asan', 'rel', 'asan']}
ASSUMPTIONS = ['allocations of the library itself (and its hash tables of indices) and, in the plain build, those of the interpreter on its behalf are made to fail']

OTHERS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C24', 'C25', 'C26']
_mods = {}


def setup(c):
    gc.disable()
    os.chdir(c.scratch)
    c.other = os.path.join(c.scratch, 'x')
    os.mkdir(c.other)
    for n in OTHERS:
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py')):
            _mods[n] = importlib.import_module('checks.' + n)


def prop(d, c):
    if d.int(4) == 0:
        return other(d, c)
    return op(d, c)


# ---- cases of other checks under failures

def other(d, c):
    names = list(_mods)
    n = names[d.int(len(names))]
    mod = _mods[n]
    x = Dummy(c.other)
    x.variant = c.variant
    start = len(d.tape)

    def run(e):
        try:
            mod.prop(e, x)
        except Discard:
            return 'discard'
        except Exception as e:
            return e if isinstance(e, Fail) else type(e)
        return None
    a0 = capi.mem_allocs()
    r0 = run(d)
    if isinstance(r0, Fail):
        raise Discard       # that check reports it
    tape = list(d.tape[start:])
    run(Draw(tape=tape))    # everything kept across cases is there now
    gc.collect()
    live = capi.mem_live()
    used = (capi.mem_allocs() - a0) // 2
    if used == 0:
        raise Discard
    c.label('cases of ' + n)
    plan = [(d.int(used), d.int(2)) for _ in range(4)]
    for k, sticky in plan:
        capi.mem_fail(k, sticky)
        try:
            run(Draw(tape=tape))
        finally:
            failed = capi.mem_failed()
            capi.mem_fail(-1, 0)
        gc.collect()
        if failed:
            now = capi.mem_live()
            expect(now <= live, 'leak after a failed allocation', lambda: 'case of %s, allocation %d failed%s: %d -> %d live allocations' % (n, k, ' and all later ones' if sticky else '', live, now))
            live = now
            c.nontrivial(repr((n, tape, k, sticky)), lambda: 'a case of %s, allocation %d of %d failed%s' % (n, k, used, ' and all later' if sticky else ''))
        r = run(Draw(tape=tape))
        expect(not isinstance(r, Fail), 'wrong after a failed allocation', lambda: 'case of %s after allocation %d failed%s: %s' % (n, k, ' and all later ones' if sticky else '', r))
        gc.collect()
        now = capi.mem_live()
        expect(now <= live, 'leak after a failed allocation', lambda: 'case of %s after allocation %d failed%s: %d -> %d live allocations' % (n, k, ' and all later ones' if sticky else '', live, now))


# ---- chosen operations

def walk(r, depth=0):
    """everything in a view, in plain Python"""
    t = type(r)
    if depth > 6:
        return '...'
    if t is pointless.PointlessVector:
        return ['v'] + [walk(x, depth + 1) for x in r]
    if t is pointless.PointlessSet:
        return ['s'] + [walk(x, depth + 1) for x in r]
    if t is pointless.PointlessMap:
        return ['m'] + [(walk(k, depth + 1), walk(v, depth + 1)) for k, v in r.items()]
    if t is pointless.PointlessBitvector:
        return ['b', list(r)]
    if t is pointless.PointlessPrimVector:
        return ['p', r.typecode, list(r)]
    return repr(r)


def prim(v):
    return (v.typecode, bytes(memoryview(v)) if len(v) else b'', [repr(x) for x in v])


def bits(v):
    return list(v)


def value(d, c):
    m = pv.g_value(d, pv.G(nodes=d.choice([3, 10, 30, 80])))
    return m, pv.real(m)


def image(d, c, at_least_list=False):
    m, r = value(d, c)
    r = [r, {'a': [1.5, 'b'], (1, ('c',)): {3, 'd'}}, {'e', 5}, pv.real(pv.Bits([1, 0, 1] * 30))]
    return bytes(pointless.serialize_to_bytearray(r)), r


def o_serialize(d, c):
    m, r = value(d, c)
    how = d.int(2)
    if d.int(5) == 0:
        r = pv.real(pv.g_prim(d)) if d.bool() else pv.real(pv.g_bits(d))
    if d.int(5) == 0:
        r = ['%d\u0101' % i for i in range(d.int(400))] + [r]

    def make():
        if how:
            return lambda: bytes(pointless.serialize_to_bytearray(r)), None
        return lambda: bytes(memoryview(pointless.serialize_to_buffer(r))), None
    return 'serialize_to_' + ('bytearray' if how else 'buffer'), make, r


def o_serialize_file(d, c):
    m, r = value(d, c)
    old = d.choice([None, b'old contents'])

    def make():
        if old is None:
            if os.path.exists('s.map'):
                os.unlink('s.map')
        else:
            with open('s.map', 'wb') as f:
                f.write(old)

        def state():
            fs = sorted(x for x in os.listdir('.') if x != 'x')
            return fs, open('s.map', 'rb').read() if 's.map' in fs else None
        return lambda: pointless.serialize(r, 's.map'), state
    return 'serialize', make, r


def o_open(d, c):
    img, r = image(d, c)
    how = d.int(4)
    if how == 0:
        with open('o.map', 'wb') as f:
            f.write(img)

    def make():
        src = ['o.map', bytearray(img), pointless.PointlessPrimVector('u8', sequence=img), memoryview(img)][how]
        return (lambda: str(pointless.Pointless(src).GetRoot())), None
    return 'open %d' % how, make, r


def o_view(d, c):
    img, r = image(d, c)
    how = d.int(9)
    keys = ['a', (1, ('c',)), 'zz', 3.5, (1, ('q', 2))]

    def make():
        h = pointless.Pointless(bytearray(img))
        v = h.GetRoot()
        f = [lambda: str(v), lambda: repr(v[1:]), lambda: walk(v), lambda: [v[1].get(k, 9) is None for k in keys] + [k in v[1] for k in keys] + [k in v[2] for k in keys], lambda: bytes(memoryview(pointless.serialize_to_buffer(v))),
             lambda: sorted(map(repr, h.GetRefs())) and len(h.GetRefs()), lambda: sys.getsizeof(h), lambda: bytes(memoryview(pointless.serialize_to_buffer([v[0:2], v[1], v[2], v]))), lambda: [pointless.pyobject_hash(x) for x in (v[3], 'a', (1, ('c',)))]][how]
        return f, lambda: walk(v)
    return 'reading %d' % how, make, r


def o_values(d, c):
    m, r = value(d, c)
    m2, r2 = value(d, c)
    how = d.int(4)

    def make():
        return [lambda: pointless.pyobject_hash(r), lambda: pointless.pyobject_hash_32(r), lambda: pointless.pointless_cmp(r, r2), lambda: pointless.pointless_is_eq(r, r2)][how], None
    return 'hash or compare %d' % how, make, (r, r2)


def o_recreate(d, c):
    img, r = image(d, c)
    with open('in.map', 'wb') as f:
        f.write(img)

    def make():
        if os.path.exists('out.map'):
            os.unlink('out.map')

        def f():
            err = capi.C.c_char_p()
            if not capi.recreate_64(b'in.map', b'out.map', capi.C.byref(err)):
                raise capi.Error(err.value)
            return open('out.map', 'rb').read()
        return f, lambda: [x for x in sorted(os.listdir('.')) if x not in ('x', 'o.map', 's.map')]
    return 'recreate', make, r


def o_prim(d, c):
    t = d.choice(pv.PRIM_TYPES)
    items = [pv.g_prim_item(d, t) for _ in range(d.choice([0, 1, 3, 4, 7, 8, 15, 16, 30, 64]))]
    more = [pv.g_prim_item(d, t) for _ in range(d.choice([0, 1, 2, 10, 50]))]
    how = d.int(16)
    typed = pointless.PointlessPrimVector(t, sequence=more)
    kind = d.int(8)
    # the same items in an image, alone and between others
    view = pointless.Pointless(bytearray(pointless.serialize_to_bytearray([typed, pointless.PointlessPrimVector(t, sequence=items + more + items)]))).GetRoot() if kind >= 6 else None
    return prim_op(t, items, more, how, kind, typed, view)


def prim_op(t, items, more, how, kind, typed, view):

    def make():
        v = pointless.PointlessPrimVector(t, sequence=items)

        def source():
            return [lambda: list(more), lambda: iter(more), lambda: pointless.PointlessPrimVector(t, sequence=more), lambda: memoryview(typed), lambda: tuple(more), lambda: v, lambda: view[0], lambda: view[1][len(items):len(items) + len(more)]][kind]()
        s = source()

        def append():
            n = 0
            for x in more:
                before = prim(v)
                try:
                    v.append(x)
                except MemoryError:
                    expect(prim(v) == before, 'contents after a failed append')
                    raise
                n += 1
        f = [append, append, lambda: v.append_bulk(s), lambda: v.append_bulk(s), lambda: prim(pointless.PointlessPrimVector(t, sequence=s)), lambda: v.__init__(t, sequence=s), lambda: prim(v[1:]), lambda: v.serialize() and bytes(memoryview(v.serialize())),
             lambda: str(v), lambda: v.sort(), lambda: bytes(memoryview(pointless.serialize_to_buffer([v, v]))), lambda: prim(pointless.PointlessPrimVector(buffer=v.serialize())), lambda: list(reversed(v)), lambda: v.insert(0, more[0]) if hasattr(v, 'insert') and more else None,
             lambda: v.fast_remove(items[0]) if items else None, lambda: prim(v[::-1]) if False else max(v) if items else None][how]
        return f, lambda: prim(v)
    # single appends that went through before a later one failed stay; so does what an iterator delivered; initialising again clears first
    return 'typed vector %d %d' % (how, kind), make, (t, items, more), how in (0, 1, 5) or (how in (2, 3, 4) and kind == 1)


def o_bits(d, c):
    items = [d.int(2) for _ in range(d.choice([0, 1, 7, 8, 31, 32, 33, 64, 100, 500]))]
    more = [d.int(2) for _ in range(d.choice([0, 1, 20, 70, 600]))]
    return bits_op(items, more, d.int(13))


def bits_op(items, more, how):
    def make():
        v = pointless.PointlessBitvector(sequence=items)
        img = pointless.serialize_to_bytearray(v)
        w = pointless.Pointless(img).GetRoot()

        def append():
            for x in more:
                before = bits(v)
                try:
                    v.append(x)
                except MemoryError:
                    expect(bits(v) == before, 'contents after a failed append')
                    raise
        other = pointless.PointlessBitvector(sequence=more)
        f = [append, lambda: v.append_bulk(other), lambda: bits(pointless.PointlessBitvector(sequence=more)), lambda: bits(pointless.PointlessBitvector(len(more))), lambda: v.__init__(sequence=more), lambda: bits(v.copy()) if hasattr(v, 'copy') else 0,
             lambda: str(v), lambda: bytes(memoryview(pointless.serialize_to_buffer([v, w, v]))), lambda: (pointless.pyobject_hash(v), pointless.pyobject_hash(w), v == w, str(w)), lambda: v.__init__(len(more)), lambda: v.extend_true(len(more)), lambda: v.extend_false(len(more)), lambda: v.append_bulk(v)][how]
        return f, lambda: (bits(v), bits(w))
    return 'bit vector %d' % how, make, (items, more), how in (0, 4, 9)


OPS = [o_serialize, o_serialize, o_serialize_file, o_open, o_view, o_view, o_values, o_recreate, o_prim, o_prim, o_bits, 'creation']


# ---- histories of the creation interface in which any one call fails for memory and is made again

def retrying(c, tape):
    m = _mods['C25']
    saved = dict(vars(m))

    def again(f):
        def g(*a):
            r = f(*a)
            if r in (m.FAIL, None) and capi.mem_failed():
                # the caller gets its memory, and goes on from here
                capi.mem_fail(-1, 0)
                r = f(*a)
            return r
        return g

    def output(f):
        def g(*a):
            before = capi.mem_failed()
            r = f(*a)
            if not r and capi.mem_failed() and not before:
                expect(a[-1]._obj.value, 'no error text')
                raise MemoryError       # this one cannot be made again
            return r
        return g
    x = Dummy(c.other)
    x.variant = c.variant
    try:
        for n, f in saved.items():
            if n in ('out_f', 'out_b'):
                setattr(m, n, output(f))
            elif n == '_malloc' or n.startswith('c_') and n not in ('c_vec', 'c_app', 'c_owner'):
                setattr(m, n, again(f))
            elif n in ('c_vec', 'c_app', 'c_owner'):
                setattr(m, n, {t: again(g) for t, g in f.items()})
        m.prop(Draw(tape=list(tape)), x)
    finally:
        for n, f in saved.items():
            setattr(m, n, f)
        os.chdir(c.scratch)


def creation(d, c, most=150):
    start = len(d.tape)
    x = Dummy(c.other)
    x.variant = c.variant
    a0 = capi.mem_allocs()
    try:
        _mods['C25'].prop(d, x)
    except (Fail, MemoryError):
        raise Discard           # C25 reports it
    finally:
        os.chdir(c.scratch)
    tape = list(d.tape[start:])
    n = capi.mem_allocs() - a0
    if not n:
        raise Discard
    c.label('creation history with a failing call')
    live = capi.mem_live()
    for k in range(n) if n <= most else sorted({(i * n // most + len(tape)) % n for i in range(most)}):
        capi.mem_fail(k, 0)
        how = lambda: 'creation history of %d calls, allocation %d of %d failed, the call made again' % (len(tape), k, n)
        try:
            retrying(c, tape)
        except Fail as e:
            raise Fail('after a failed call', '%s: %s: %s' % (how(), e.label, e.msg))
        except Exception as e:
            # output, or reading it
            expect(capi.mem_failed() and type(e) in (MemoryError, OSError), 'after a failed call', lambda: '%s: %r' % (how(), e))
        finally:
            failed = capi.mem_failed()
            capi.mem_fail(-1, 0)
        expect(capi.mem_live() <= live, 'leak after a failed allocation', lambda: '%s: %d -> %d live allocations' % (how(), live, capi.mem_live()))
        c.nontrivial(repr(('creation', tape, k)), how)


# ---- always the same: every allocation of growing a typed vector from each source, and of some histories

HISTORIES = 48
BITS = [(how, n, m) for how in (0, 1, 4, 9, 10, 11, 12) for n in (0, 3, 8, 64, 500) for m in (1, 30, 2000)]
FIXED = [(t, how, kind) for t in pv.PRIM_TYPES for how in (0, 2, 4, 5) for kind in range(8) if how or not kind]


def two(a, b, n, at):
    return [a * n] + [a * i + b + a * (n - i - 1) for i in at]


FIXED += ['bits']
# inputs for which the dictionaries of the library split, grow and collide
FIXED += [lambda: two('a', '\u1f60', 20, (0, 3, 18, 19)), lambda: two('Aa', 'BB', 20, (0, 3, 4, 7, 19)), lambda: two('\u0141', '\u2040', 5, range(5)), lambda: [('a' + '\u1f60')[x & 1] * 3 + chr(0x80 + x) for x in range(20)],
          lambda: ['%04d' % (i * 7919 % 9973) for i in range(45)], lambda: ['x' * i for i in range(70)], lambda: ['%d' % (i * i * i) + '\u0101' * (i % 3) for i in range(120)],
          lambda: [[i, [i, -i]] for i in range(40)], lambda: {i: {i} for i in range(40)}, lambda: {('k', i, (i, 'v')): [i] for i in range(36)},
          lambda: [pv.real(pv.Bits([s[i // 8] >> i % 8 & 1 for i in range(8 * len(s))])) for s in (b'Aa' * 20, b'BB' * 20, b'Aa' * 19 + b'BB', b'BB' + b'Aa' * 19)],
          lambda: [pv.real(pv.Bits([(i * j) % 5 == 1 for j in range(40 + i % 9)])) for i in range(40)]]


def enum_count(tier):
    return len(FIXED) + HISTORIES * (10 if tier == 'thorough' else 1)


def enum_case(i, c):
    if i >= len(FIXED):
        return creation(Draw(seed='C23/%d' % i), c)
    if callable(FIXED[i]):
        v = FIXED[i]()
        perform(Draw(seed=i), c, o_serialize, ('serialize_to_buffer', lambda: (lambda: bytes(memoryview(pointless.serialize_to_buffer(v))), None), v), True)
        img = bytes(pointless.serialize_to_bytearray(v))
        return perform(Draw(seed=i), c, o_open, ('open', lambda: (lambda: walk(pointless.Pointless(bytearray(img)).GetRoot()), None), v), True)
    if type(FIXED[i]) is str:
        for how, n, m in BITS:
            try:
                perform(Draw(seed=n), c, o_bits, bits_op([j % 3 & 1 for j in range(n)], [j % 5 & 1 for j in range(m)], how), True)
            except Discard:
                pass        # nothing to allocate
        return
    t, how, kind = FIXED[i]
    lo, hi = pv.PRIM_RANGES[t] if t != 'f' else (0, 1000)
    item = lambda j: (float if t == 'f' else int)(lo + j * 7 % (hi - lo))
    for a, b in ((0, 40), (3, 30), (16, 50), (5, 300)):
        items, more = [item(j) for j in range(a)], [item(j + 1000) for j in range(b)]
        typed = pointless.PointlessPrimVector(t, sequence=more)
        view = pointless.Pointless(bytearray(pointless.serialize_to_bytearray([typed, pointless.PointlessPrimVector(t, sequence=items + more + items)]))).GetRoot()
        perform(Draw(seed=i), c, o_prim, prim_op(t, items, more, how, kind, typed, view), True)


# CPython 3.12 itself can crash when a bytearray cannot be made (PyByteArray_FromStringAndSize releases one that is not set up)
BYTEARRAYS = ('serialize_to_bytearray', 'typed vector 7', 'typed vector 11')


def result(f):
    """('value', v) or ('exception', type)"""
    try:
        return 'value', f()
    except (Fail, Discard):
        raise
    except Exception as e:
        return 'exception', type(e)


class Python:
    """the interpreter's own allocations, made to fail from the k-th on"""

    @staticmethod
    def arm(k, sticky):
        if sticky:
            _testcapi.set_nomemory(k, 0)
        else:
            _testcapi.set_nomemory(k, k + 1)


def op(d, c):
    o = OPS[d.int(len(OPS))]
    if o == 'creation':
        return creation(d, c, 30)
    perform(d, c, o, o(d, c))


def perform(d, c, o, r, every=False):
    name, make, inputs = r[:3]
    partial = len(r) > 3 and r[3]
    text = lambda: '%s of %s' % (name, short(inputs, 200))
    c.note('operation', name)
    c.note('inputs', inputs)
    nothing = lambda: None

    def fresh():
        f, state = make()
        return f, state or nothing
    f, state = fresh()
    s0 = state()
    a0 = capi.mem_allocs()
    r0 = result(f)
    n = capi.mem_allocs() - a0
    s1 = state()
    if r0[0] == 'exception' and (r0[1] is MemoryError):
        raise Discard
    f = state = None
    gc.collect()
    live = capi.mem_live()
    python = not every and _testcapi is not None and c.variant == 'rel' and name.rsplit(' ', 1)[0] not in BYTEARRAYS and o is not o_recreate and d.int(4) == 0
    if python:
        n = 40
    elif n == 0:
        raise Discard
    if n <= 12 or every:
        ks = [(k, s) for k in range(n) for s in (0, 1)]
    else:
        ks = [(d.choice([d.int(n), n - 1 - d.int(min(n, 8)), d.int(min(n, 20))]), d.int(2)) for _ in range(12)]
    for k, sticky in ks:
        f, state = fresh()
        expect(state() == s0, 'not deterministic', text)
        if python:
            r = failing_python(f, k, sticky)
            failed = 1
        else:
            capi.mem_fail(k, sticky)
            try:
                r = result(f)
            finally:
                failed = capi.mem_failed()
                capi.mem_fail(-1, 0)
        now = state()
        how = lambda: '%s, %s allocation %d of %d failed%s' % (text(), 'interpreter' if python else 'library', k, n, ' and all later ones' if sticky else '')
        if failed:
            c.label(('interpreter memory: ' if python else '') + name.split(' ')[0] + (' completed' if r[0] == r0[0] else ' raised'))
            if not python or r != r0:
                c.nontrivial(repr((name, repr(inputs)[:2000], k, sticky, python)), how)
        if r[0] == 'exception' and r != r0:
            expect(failed, 'an exception without a failure', lambda: '%s: %r' % (how(), r))
            if not partial:
                expect(now == s0, 'contents after a failed allocation', lambda: '%s: %s -> %s' % (how(), short(s0, 200), short(now, 200)))
            if partial:
                r = result(f)
                expect(r[0] == r0[0], 'result when tried again', lambda: '%s: %s instead of %s' % (how(), short(r, 200), short(r0, 200)))
                expect(len(repr(state())) > 0, 'contents when tried again', how)
            else:
                r = result(f)
                expect(r == r0, 'result when tried again', lambda: '%s: %s instead of %s' % (how(), short(r, 200), short(r0, 200)))
                expect(state() == s1, 'contents when tried again', lambda: '%s: %s instead of %s' % (how(), short(state(), 200), short(s1, 200)))
        else:
            expect(r == r0, 'wrong result after a failed allocation', lambda: '%s: %s instead of %s' % (how(), short(r, 200), short(r0, 200)))
            expect(now == s1, 'wrong contents after a failed allocation', lambda: '%s: %s instead of %s' % (how(), short(now, 200), short(s1, 200)))
        r = f = state = now = None
        gc.collect()
        after = capi.mem_live()
        expect(after <= live, 'leak after a failed allocation', lambda: '%s: %d -> %d live allocations' % (how(), live, after))


def failing_python(f, k, sticky):
    v = e = None
    if sticky:
        _testcapi.set_nomemory(k, 0)
    else:
        _testcapi.set_nomemory(k, k + 1)
    try:
        v = f()
    except MemoryError as x:
        e = x
    except Exception as x:
        e = x
    finally:
        _testcapi.remove_mem_hooks()
    if e is None:
        return 'value', v
    if isinstance(e, (Fail, Discard)):
        raise e
    return 'exception', type(e)
