"""Values that cannot be represented, at random places of otherwise good values."""
import os
import stat

import pointless

import plfmt
import pv
from harness import Fail, expect

RULE = 'one unrepresentable item is placed inside a generated value with at least one container around it; distinct by kind of item, place and value'
LEVEL = 'exploration'


class Evil:
    pass


class Unhashable:
    __hash__ = None


def deep(d, n, maps):
    """nested n times, in one or several kinds of container, in a short pattern"""
    pat = [d.int(4 if maps else 2) for _ in range(d.choice([1, 1, 2, 5]))]
    m = []
    for i in range(n):
        k = pat[i % len(pat)]
        m = [m] if k == 0 else (m,) if k == 1 else {i: m} if k == 2 else [1, m, 'x']
    return m


def bad_item(d):
    k = d.int(17)
    if k == 0:
        return 'int above', d.choice([2**32, 2**32 + 1, 2**33, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**64 + 5, 10**40])
    if k == 1:
        return 'int below', -d.choice([2**31 + 1, 2**31 + 2, 2**32, 2**63, 2**63 + 1, 2**64, 10**40])
    if k == 2:
        s = pv.g_str(d)
        p = d.int(len(s) + 1)
        return 'NUL', s[:p] + '\0' + s[p:]
    if k == 3:
        return 'type', d.choice([1j, b'', b'ab', range(3), object, len, ..., NotImplemented])
    if k == 4:
        return 'type', d.choice([Evil(), Unhashable(), iter([]), (x for x in []), memoryview(b'abc'), {}.keys(), {1: 2}.items(), type('T', (), {})])
    if k == 5:
        return 'deep', deep(d, 512 + d.int(40), False)
    if k == 6:
        if d.int(100) == 0:
            return 'very deep', deep(d, d.choice([20000, 100000, 400000]), True)
        m = {}
        for _ in range(512 + d.int(10)):
            m = {1: m}
        return 'deep map', m
    if k == 7:
        x = d.choice([16777217, 123456789, 2**31 - 1, -16777219])
        return 'equal after rounding', {float(x): 1, pv.f32(float(x)): 2}
    if k == 8:
        x = d.choice([0.1, 1 / 3, 1e-50, 2.5e300])
        return 'equal after rounding', {x, pv.f32(x), 7}
    if k == 9:
        return 'equal after rounding', {(1, 0.1): 0, (1, pv.f32(0.1)): 1, 'k': 2}
    if k == 10:
        return 'NaN key', d.choice([{float('nan'): 1}, {float('nan')}, {(1, float('nan')): 2}, {float('nan'), 3, 'x'}])
    if k == 11:
        return 'unhashable key', d.choice([{frozenset([1, 2]): 3}, {(1, frozenset()): 0}, {frozenset()}, {((frozenset(['x']),),)}])
    if k == 12:
        return 'int above', [1, 2, d.choice([2**32, -2**31 - 1, 2**40]), 3]
    if k == 13:
        return 'bad key', {d.choice([2**32, -2**31 - 1, 'a\0', b'x', 1j, (1, 2**35), ('ok', b'')]): 1}
    if k == 14:
        return 'bad key', {d.choice([2**32, -2**31 - 1, 'a\0', b'x', 1j, (1, 2**35), ('ok', b'')]), 5}
    if k == 15:
        return 'slot', pointless.PointlessVector if d.bool() else pointless.Pointless
    return 'NUL', {'a\0b': 1}


def plant(d, m, bad):
    """m with bad somewhere inside; m is a real (not model) value"""
    spots = []
    seen = set()

    def walk(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if type(x) is list:
            spots.append(x)
            for y in x:
                walk(y)
        elif type(x) is dict:
            spots.append(x)
            for y in x.values():
                walk(y)
        elif type(x) is tuple:
            for y in x:
                walk(y)
    walk(m)
    if not spots:
        return [m, bad]
    x = spots[d.int(len(spots))]
    if type(x) is list:
        x.insert(d.int(len(x) + 1), bad)
    else:
        x[d.choice(['the bad one', 0, 77])] = bad
    return m


GOOD = {'a': [1, 2.5, 'é', '€', None, True], (1, 'x'): {3, 4}, 'n': {}}
good_img = bytes(pointless.serialize_to_bytearray(GOOD))


def prop(d, c):
    kind, bad = bad_item(d)
    m = pv.g_value(d, pv.G(nodes=d.choice([3, 10, 40]), depth=4, share=False))
    obj = plant(d, pv.real(m), bad) if d.int(8) else bad
    c.note('kind', kind, 'bad', bad, 'value', obj if 'deep' not in kind else '...')
    how = d.int(3)
    fn = os.path.join(c.scratch, 'dest.map')
    prior = d.int(3)
    if os.path.exists(fn):
        os.unlink(fn)
    if prior:
        with open(fn, 'wb') as f:
            f.write(b'previous content' if prior == 1 else good_img)
        os.chmod(fn, 0o640)
        before = (open(fn, 'rb').read(), os.stat(fn).st_ino, os.stat(fn).st_mode)
    fds = len(os.listdir('/proc/self/fd'))
    try:
        if how == 0:
            pointless.serialize(obj, fn)
        elif how == 1:
            pointless.serialize_to_buffer(obj)
        else:
            pointless.serialize_to_bytearray(obj)
    except Exception as e:  # noqa
        if isinstance(e, (SystemError, MemoryError)):
            raise Fail('internal error instead of a refusal', repr(e))
        c.label(kind + ': ' + type(e).__name__)
    else:
        raise Fail('accepted: ' + kind, repr(bad)[:300])
    names = os.listdir(c.scratch)
    expect(set(names) <= {'dest.map'}, 'files left behind', names)
    if prior:
        after = (open(fn, 'rb').read(), os.stat(fn).st_ino, os.stat(fn).st_mode)
        expect(after == before, 'the destination changed', '%r %r' % (before, after))
    else:
        expect(not names, 'a destination appeared', names)
    expect(len(os.listdir('/proc/self/fd')) == fds, 'file descriptors left open')
    if d.int(4) == 0:
        expect(bytes(pointless.serialize_to_bytearray(GOOD)) == good_img, 'a later serialization is affected')
        if how == 0:
            pointless.serialize(GOOD, fn)
            expect(open(fn, 'rb').read() == good_img, 'a later serialization is affected')
            os.chmod(fn, 0o600)
    c.nontrivial('%s/%d/%d/%r' % (kind, how, prior, m if 'deep' in kind else obj), lambda: kind + ' in ' + (repr(obj) if 'deep' not in kind else '...'))


# what can be represented is not refused: each boundary, in each place
def places(x):
    yield x
    yield [x]
    yield (x, x)
    yield {'k': x}
    yield [[[x]], x]


def key_places(x):
    yield {x: 1}
    yield {x}
    yield {(x,): 1}
    yield {(x, (x, 1)), 5}


def example_accepts_boundaries(c):
    ok = [2**32 - 1, -2**31, 2**31, 2**31 - 1, 0, -1, True, False, None, '', '\x01', '\U0010ffff', '\ud800', 1.5, float('inf'), -float('inf'), 1e-45, 1e300, -0.0,
          float('nan'), (), [], {}, set(), frozenset(), bytearray(), bytearray(b'\0'), pv.Bits([]), pv.Bits([1]), pv.Prim('f', []), pv.Prim('u64', [2**64 - 1])]
    for x in ok:
        for v in places(x):
            img = pointless.serialize_to_bytearray(pv.real(v))
            got = pv.canon_open(pointless.Pointless(img).GetRoot())
            want = pv.canon_model(v)
            expect(got == want, 'boundary value reads back different', '%r: %r' % (v, got))
            c.evals += 1
        if type(x) in (list, dict, set, frozenset, bytearray, pv.Prim) or x != x:
            continue
        for v in key_places(x):
            img = pointless.serialize_to_bytearray(pv.real(v))
            expect(pv.canon_open(pointless.Pointless(img).GetRoot()) == pv.canon_model(v), 'boundary key reads back different', repr(v))
            c.evals += 1


def example_collections_of_colliding_keys(c):
    # different keys with one hash
    for n in (2, 3, 8, 50):
        ks = [pv.f32(struct_f(0x41000000 + i * 2 + 1)) for i in range(n)]
        ints = [0x41000000 + i * 2 + 1 for i in range(n)]
        strs = [('x', i) for i in ints]
        for m in ({k: i for i, k in enumerate(ks + ints)}, set(ks + ints), {(a, b) for a, b in zip(ks, ints)} | {(a, b) for a, b in zip(ints, ks)} | set(strs)):
            img = pointless.serialize_to_bytearray(m)
            expect(pv.canon_open(pointless.Pointless(img).GetRoot()) == pv.canon_model(m), 'colliding keys')


def struct_f(u):
    import struct
    return struct.unpack('<f', struct.pack('<I', u))[0]


def example_bad_paths(c):
    for fn in ('/nonexistent-dir/x.map', c.scratch + '/no/such/x.map', c.scratch, ''):
        try:
            pointless.serialize([1, 2], fn)
        except Exception as e:  # noqa
            expect(not isinstance(e, SystemError), 'internal error', repr(e))
        else:
            raise Fail('writing to an impossible path succeeded', fn)
    expect(os.listdir(c.scratch) == [], 'files left behind', os.listdir(c.scratch))
    for fn in ('a\0b', b'a\0b', None, 5):
        try:
            pointless.serialize([1, 2], fn)
        except Exception as e:  # noqa
            expect(not isinstance(e, SystemError), 'internal error', repr(e))
        else:
            raise Fail('a bad file name was accepted', repr(fn))
