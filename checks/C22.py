"""Repeated operations against the number of live allocations, Python objects, references and file descriptors."""
import array
import gc
import importlib
import os
import sys

import pointless

import capi
import gimg
import plfmt
import pv
from harness import Discard, Draw, Fail, expect, short

RULE = 'a scenario (a case of another check, or at least three operations) that allocated library memory and was run at least three times; distinct by its choices'
LEVEL = 'exploration'
CONF = {'budget': 35, 'variants': ['rel', 'rel', 'rel', 'rel', 'rel', 'rel', 'asan', 'rel']}
ASSUMPTIONS = ['a leak is growth in every one of five runs of the same scenario after the first', 'Python objects are counted as interpreter memory blocks']

# checks whose cases are run again and again
OTHERS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C24', 'C25', 'C26']
_mods = {}


class Dummy:
    variant, tier, seed, worker, nworkers, verbose, evals = 'rel', 'quick', 0, 0, 1, False, 0

    def __init__(self, scratch):
        self.scratch = scratch

    def label(self, *a):
        pass
    nontrivial = note = label


def fds():
    return len(os.listdir('/proc/self/fd'))


M = array.array('q', [0] * 30)


def measure(i):
    """into M, so that the measurement itself keeps nothing"""
    gc.collect()
    M[3 * i + 2] = fds()
    M[3 * i] = capi.mem_live()
    M[3 * i + 1] = sys.getallocatedblocks()


NAMES = ('live library allocations', 'live Python memory blocks', 'open files')


def repeat(f, what, c, tape):
    """runs f until it is clear that nothing grows"""
    a0 = capi.mem_allocs()
    f()
    used = capi.mem_allocs() - a0
    good = [False] * 3
    measure(0)
    for i in range(1, 6):
        f()
        measure(i)
        for j in range(3):
            good[j] = good[j] or M[3 * i + j] <= M[3 * i - 3 + j]
        if all(good) and i > 1:
            break
    for j in range(3):
        if not good[j]:
            raise Fail('growing: ' + NAMES[j], '%s: %s' % (short(what() if callable(what) else what), list(M[j:18:3])))
    if used:
        c.nontrivial(repr((tape,)), lambda: short(what() if callable(what) else what, 200))


def setup(c):
    gc.disable()
    gc.collect()
    gc.freeze()
    os.chdir(c.scratch)
    c.other = os.path.join(c.scratch, 'x')
    os.mkdir(c.other)
    for n in OTHERS:
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py')):
            _mods[n] = importlib.import_module('checks.' + n)


def prop(d, c):
    k = d.int(3)
    if k == 0:
        return other(d, c)
    if k == 1:
        return api(d, c)
    return special(d, c)


def other(d, c):
    names = list(_mods)
    n = names[d.int(len(names))]
    mod = _mods[n]
    x = Dummy(c.other)
    start = len(d.tape)
    first = [True]

    def run():
        if first[0]:
            first[0] = False
            e = d
        else:
            e = Draw(tape=tape)
        try:
            mod.prop(e, x)
        except (Discard, Fail):
            pass
        if first[0] is False and e is d:
            tape.extend(d.tape[start:])
    tape = []
    c.label('cases of ' + n)
    c.note('case of', n)
    repeat(run, 'a case of ' + n, c, tape)


# ---- random calls of everything

class Err(Exception):
    pass


class Obj:
    """answers number and iteration protocols, sometimes with errors"""

    def __init__(self, mode):
        self.mode = mode

    def __index__(self):
        if self.mode == 0:
            raise Err
        return self.mode

    def __float__(self):
        if self.mode == 0:
            raise Err
        return float(self.mode)

    def __iter__(self):
        if self.mode == 3:
            raise Err
        return self

    def __next__(self):
        if self.mode < 2:
            raise Err
        self.mode -= 1
        return self.mode + 100000

    def __len__(self):
        return 3

    def __getitem__(self, i):
        raise Err

    def __eq__(self, o):
        raise Err

    def __hash__(self):
        if self.mode == 4:
            raise Err
        return self.mode


class SubList(list):
    pass


class SubStr(str):
    pass


IMG = None


def pool(d):
    """fresh objects of every kind"""
    global IMG
    m = [70000, {'ab': [1.5, 'x'], (1, ('y',)): {3, 'z'}}, {'k1', 5}, pv.real(pv.Bits([1, 0, 1] * 20)), pv.real(pv.Prim('i64', [2**40, 5])), [2**31, 3], [-300, 7], 'text', None, True]
    if IMG is None:
        IMG = bytes(pointless.serialize_to_bytearray(m))
    h = pointless.Pointless(bytearray(IMG))
    r = h.GetRoot()
    objs = [h, r, r[1], r[2], r[3], r[4], r[5], r[6][1:], pointless.PointlessPrimVector('i32', sequence=[70001, 70002, 70003]), pointless.PointlessPrimVector('f', sequence=[1.5, 2.5]),
            pointless.PointlessPrimVector('u8', sequence=IMG[:50]), pointless.PointlessBitvector(sequence=[1, 0, 1]), pointless.PointlessBitvector(70), iter(r), iter(r[1]), iter(r[2]), iter(r[3]), r[1].items(), r[1].keys(), r[1].values(),
            iter(pointless.PointlessPrimVector('i16', sequence=[1, 300])), reversed(pointless.PointlessPrimVector('i16', sequence=[1, 300])), reversed(r), pointless]
    args = objs[:-1] + [0, 1, -1, 70005, 2**31, 2**32 - 1, 2**63, 2**64 - 1, -2**63, 2**70, 1.5, 1e300, float('nan'), 'ab' + chr(99), 'i32', 'u8', 'f', 'ü' * 9, '\u20ac\U0001f600', 'nul\0', '\ud800x', b'bytes' * 3, bytearray(IMG), memoryview(IMG), IMG, b'', bytearray(12),
                        None, True, False, [1, 2, 70006], (70007, 'a'), {'a': [70008]}, {70009, 'b'}, [object()], {1: [object()]}, [[70010, {2: b'x'}]], ['nul\0'], [float('nan')], {float('nan'): 1}, Obj(0), Obj(1), Obj(2), Obj(3), Obj(4), [Obj(1)],
                        {Obj(5): 1}, SubList([70011]), SubStr('sub'), slice(0, 2), slice(None, None, 2), slice(1, 70012), object(), range(70013, 70016), (x for x in [70017, 'a']), m, 'out.map', 'nodir/x.map', '']
    return objs, args


BINARY = ['__eq__', '__lt__', '__contains__', '__getitem__', '__setitem__', '__delitem__', '__iter__', '__len__', '__str__', '__repr__', '__hash__', '__reversed__', '__sizeof__', '__next__', '__init__', '__call__', '__getattr__', '__buffer__', '__bool__', '__copy__']
KW = ['allow_print', 'validate', 'sequence', 'size', 'type', 'buffer', 'filename', 'filename_or_buffer', 'unwiden_strings', 'normalize_bitvector', 'object']


def api(d, c):
    """any function or method with any arguments"""
    n = 1 + d.int(6)
    calls = []
    objs, args = pool(d)
    nobj, narg = len(objs), len(args)
    for _ in range(n):
        i = d.int(nobj)
        o = objs[i]
        if o is pointless:
            names = [x for x in dir(o) if not x.startswith('_') and callable(getattr(o, x))]
        else:
            names = [x for x in dir(type(o)) if not x.startswith('__') and callable(getattr(type(o), x, None))] + [x for x in BINARY if hasattr(o, x)]
        name = d.choice(names)
        k = d.choice([0, 1, 1, 1, 2, 2, 3])
        kw = [(d.choice(KW), d.int(narg)) for _ in range(d.choice([0, 0, 0, 1, 2]))]
        calls.append((i, name, [d.int(narg) for _ in range(k)], kw, d.int(3)))
    del objs, args, o

    def run():
        objs, args = pool(d)
        for i, name, aa, kw, use in calls:
            try:
                r = getattr(objs[i], name)(*[args[a] for a in aa], **{k: args[a] for k, a in kw})
                if use == 1:
                    args[aa[0] if aa else 0] = r
                elif use == 2:
                    next(iter(r))
            except Exception:
                pass
            r = None
    c.note('calls', calls)
    c.label('random calls')
    repeat(run, lambda: 'calls %r' % (calls,), c, repr(calls))


# ---- chosen operations that fail, with the references of their inputs

def special(d, c):
    k = d.int(6)
    keep = []
    if k == 0:
        # something that cannot be stored, anywhere inside
        m = pv.g_value(d, pv.G(nodes=20))
        bad = d.choice([object(), 2**40, -2**40, 'a\0b', b'bytes', 1j, range(3), type, Obj(1), {float('nan'): 1}, {(1, 2.5, float('nan')): 2}, {float('nan')}, [2**70]])
        real = pv.real(m)
        inner = [real, bad] if d.bool() else [[bad], real] if d.bool() else {'a': real, 'b': [bad]}
        if d.int(4) == 0:
            for _ in range(600):
                inner = [inner]
        keep = [real, bad, inner]
        how = d.int(5)

        def f():
            try:
                if how == 0:
                    pointless.serialize(inner, 'bad.map')
                elif how == 1:
                    pointless.serialize_to_buffer(inner)
                elif how == 2:
                    pointless.pyobject_hash(inner)
                elif how == 3:
                    pointless.pointless_cmp(inner, [real, 5])
                else:
                    pointless.serialize_to_bytearray(inner)
            except Exception:
                pass
        what = 'a value that cannot be stored, %d: %s' % (how, short(inner, 200))
    elif k == 1:
        # an image that does not validate
        m, B, ref = gimg.sound(d)
        img = bytearray(gimg.layout(d, B, ref))
        for _ in range(1 + d.int(3)):
            i = d.int(len(img))
            img[i] = d.int(256)
        if d.int(4) == 0:
            del img[d.int(len(img) + 1):]
        img = bytearray(img)
        if plfmt.verdict(bytes(img))[0] is True and False:
            raise Discard
        with open('i.map', 'wb') as f_:
            f_.write(img)
        file = d.bool()
        keep = [img]

        def f():
            try:
                p = pointless.Pointless('i.map' if file else img)
                str(p.GetRoot())
            except Exception:
                pass
        what = 'opening %s' % short(bytes(img), 100)
    elif k == 2:
        # iterables that fail in the middle
        t = d.choice(pv.PRIM_TYPES)
        items = [pv.g_prim_item(d, t) for _ in range(d.int(30))]
        bad = d.choice([object(), 'a' + chr(98), 2**80, Obj(0), 1.25 if t != 'f' else 70018])
        pos = d.int(len(items) + 1)
        how = d.int(5)
        seq = items[:pos] + [bad] + items[pos:]
        keep = [bad, seq]
        v = pointless.PointlessPrimVector(t, sequence=items)

        def f():
            try:
                if how == 0:
                    pointless.PointlessPrimVector(t, sequence=seq)
                elif how == 1:
                    v.append_bulk(seq)
                elif how == 2:
                    v.append(bad)
                elif how == 3:
                    v.__init__(t, sequence=iter(seq))
                else:
                    bad in v
                    v.index(bad)
            except Exception:
                pass
        what = 'typed vector %s, %d: %s' % (t, how, short(seq, 100))
    elif k == 3:
        bits = [d.int(2) for _ in range(d.int(40))]
        bad = d.choice([2, 'x', None, Obj(0), object(), 1.5])
        seq = bits + [bad] + bits
        keep = [bad, seq]
        how = d.int(4)
        b = pointless.PointlessBitvector(sequence=bits)

        def f():
            try:
                if how == 0:
                    pointless.PointlessBitvector(sequence=seq)
                elif how == 1:
                    b.append(bad)
                elif how == 2:
                    b[bad] = 1
                else:
                    b.__init__(sequence=seq)
            except Exception:
                pass
        what = 'bit vector, %d' % how
    elif k == 4:
        # lookups that succeed, fail, and raise
        m = {pv.g_key(d, pv.G(nodes=5, nan=False)): [i] for i in range(1 + d.int(8))}
        h = pointless.Pointless(pointless.serialize_to_bytearray(pv.real(m)))
        r = h.GetRoot()
        x = d.choice([pv.real(d.choice(list(m))), object(), 2**60, 'no' + chr(99), [1], {}, Obj(1), (1, (2, 'a')), 'nul\0'])
        keep = [x, h, r]

        def f():
            for op in (lambda: r[x], lambda: r.get(x), lambda: r.get(x, keep), lambda: x in r, lambda: x in r.keys(), lambda: pointless.pointless_is_eq(r, x)):
                try:
                    op()
                except Exception:
                    pass
        what = 'lookups of %s' % short(x, 100)
    else:
        # views outlive the file object; iterators abandoned
        m = pv.g_value(d, pv.G(nodes=30))
        real = [pv.real(m), {'a': [1.5, 'b']}, {'c', 70019}]
        n = d.int(4)
        keep = [real]
        pointless.serialize(real, 'v.map')

        def f():
            p = pointless.Pointless('v.map')
            r = p.GetRoot()
            p.GetRefs()
            p.GetINode(), p.GetFileNo(), sys.getsizeof(p)
            its = [iter(r), iter(r[1]), iter(r[2]), r[1].items(), reversed(r)]
            del p
            for it in its[:n]:
                next(it)
            str(r)
            r[0:2]
            try:
                pointless.Pointless.__init__(r)
            except Exception:
                pass
        what = 'views and iterators'
    refs = [0] * len(keep)
    f()
    for i, x in enumerate(keep):
        refs[i] = sys.getrefcount(x)
    x = None
    c.label('chosen failures')
    c.note(what)
    repeat(f, what, c, what)
    gc.collect()
    now = [0] * len(keep)
    for i, x in enumerate(keep):
        now[i] = sys.getrefcount(x)
    expect(refs == now, 'reference counts of the inputs', lambda: '%s: %r -> %r' % (what, refs, now))
