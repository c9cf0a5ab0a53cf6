"""Copying opened values, slices and whole images."""
import ctypes
import os

import pointless

import capi
import pv
import plfmt
from checks import C02
from harness import Fail, expect

RULE = 'a container of the source image with at least one item is copied; distinct by source image, path to the container and wrapping'
LEVEL = 'exploration'

CONT = (pv.PV, pv.PM, pv.PS, pv.PB)


def source(d, c):
    """(model or None for a cyclic one, image)"""
    k = d.int(4)
    if k == 3:
        nodes = C02.graph(d, 8)
        return None, bytes(pointless.serialize_to_bytearray(pv.real(nodes[0] if d.bool() else list(nodes))))
    m = pv.g_value(d, pv.G(nodes=d.choice([6, 20, 60]), depth=5))
    if not pv.has_container(m):
        m = [m, pv.g_value(d, pv.G(nodes=8, depth=3)), m]
    if k == 2:
        B, ref = plfmt.build_model(m, d)
        order = (lambda xs: d.shuffle(xs)) if d.bool() else None
        gap = (lambda: d.int(3)) if d.int(3) == 0 else None
        return m, B.image(ref, order, gap)
    return m, bytes(pointless.serialize_to_bytearray(pv.real(m)))


def descend(d, x, path):
    """A container inside x, or x."""
    while d.int(3):
        t = type(x)
        if t is pv.PV and len(x):
            i = d.int(len(x))
            y = x[i]
            step = '[%d]' % i
        elif t is pv.PM and len(x):
            i = d.int(len(x))
            y = list(x.values())[i] if d.int(4) else list(x.keys())[i]
            step = '{%d}' % i
        elif t is pv.PS and len(x):
            i = d.int(len(x))
            y = list(x)[i]
            step = '<%d>' % i
        else:
            break
        if type(y) not in CONT:
            break
        x, path = y, path + step
    return x, path


def prop(d, c):
    m, img = source(d, c)
    p = pointless.Pointless(bytearray(img)) if d.bool() else pointless.Pointless(to_file(img, c, 'src'))
    root = p.GetRoot()
    x, path = descend(d, root, 'root')
    sliced = False
    while type(x) is pv.PV and d.int(3) == 2:
        sliced = True
        i = d.int(len(x) + 1)
        j = i + d.int(len(x) - i + 1)
        x = x[i:j]
        path += '[%d:%d]' % (i, j)
    wrap = d.int(8)
    obj = wrapped(x, wrap)
    if wrap > 5:
        # several parts of the same image, which overlap
        obj, path = parts(d, root, x, path)
        sliced = True
    c.note('model', m, 'path', path, 'wrap', wrap)
    bad = copies(obj, sliced, d)
    if bad:
        raise Fail('a copy of a part differs', '%s wrap %d: %s' % (path, wrap, bad))
    if d.int(3) == 0:
        whole(img, root, c)
    if type(x) in CONT and len(x):
        c.nontrivial('%s/%d' % (path, wrap) + str(hash(img)), lambda: '%s of %r' % (path, m if m is not None else root))


def wrapped(x, wrap):
    """what to serialize"""
    if wrap == 0:
        return [x, x, {'k': x}, (x,)]
    if wrap == 1:
        return {'a': [x], 'b': [1, 2], (1, 2): (x, 'é')}
    return x


def parts(d, root, x, path):
    parts, names = [x], [path]
    for i in range(d.int(5) + 1):
        y, name = descend(d, root, 'root') if d.int(3) == 0 else (x, path)
        while type(y) is pv.PV and d.int(4):
            # often with an end in common
            i, j = sorted((d.int(len(y) + 1), d.int(len(y) + 1)))
            i, j = d.choice([(0, j), (0, i), (i, len(y)), (i, j)])
            y = y[i:j]
            name += '[%d:%d]' % (i, j)
        parts.append(y)
        names.append(name)
    if d.int(4) == 0:
        return dict(enumerate(parts)), '{%s}' % ', '.join(names)
    return parts, ', '.join(names)


def copies(obj, sliced, d):
    img1 = pointless.serialize_to_bytearray(obj, unwiden_strings=d.bool(), normalize_bitvector=d.bool())
    a = pointless.Pointless(img1).GetRoot()
    bad = pv.iso_content(obj, a)
    if bad:
        return bad
    if pv.is_view(obj) and not sliced:
        # a slice has the container id of its vector
        bad = pv.iso(obj, a)
        if bad:
            return 'structure: ' + bad
    img2 = pointless.serialize_to_bytearray(a)
    b = pointless.Pointless(img2).GetRoot()
    bad = pv.iso(a, b)
    if bad:
        return 'second copy: ' + bad
    return None


def to_file(img, c, name):
    fn = os.path.join(c.scratch, name + '.map')
    if os.path.exists(fn):
        os.unlink(fn)
    with open(fn, 'wb') as f:
        f.write(img)
    return fn


def whole(img, root, c):
    """The C copy of a whole image."""
    a, b, e = to_file(img, c, 'in'), os.path.join(c.scratch, 'out.map'), os.path.join(c.scratch, 'out2.map')
    err = ctypes.c_char_p()
    expect(capi.recreate_64(a.encode(), b.encode(), ctypes.byref(err)), 'copying an image failed', err.value)
    with open(a, 'rb') as f:
        expect(f.read() == img, 'copying changed the source')
    with open(b, 'rb') as f:
        out = f.read()
    v, why = plfmt.verdict(out)
    expect(v is not False, 'the copy is malformed', why)
    q = pointless.Pointless(b).GetRoot()
    bad = pv.iso(root, q)
    if bad:
        raise Fail('the copied image differs', bad)
    expect(capi.recreate_64(b.encode(), e.encode(), ctypes.byref(err)), 'copying a copy failed', err.value)
    bad = pv.iso(q, pointless.Pointless(e).GetRoot())
    if bad:
        raise Fail('the copy of the copy differs', bad)


def example_slices(c):
    from harness import Draw
    d = Draw(tape=[])
    for m in ([1, 2, 3, 300], [1, 2, 3, 100, 0, 127], [-3, -2, -1, 0, 100], [1.5, 2.5, -0.0], ['a', 'b', [1], {2: 3}, None], [-1, -200, 70000], list(range(70000)), [2**31, -1, 5]):
        for v in [m] + [pv.Prim(t, m) for t, (lo, hi) in pv.PRIM_RANGES.items() if all(type(x) is int and lo <= x <= hi for x in m)]:
            p = pointless.Pointless(pointless.serialize_to_bytearray(pv.real(v)))
            r = p.GetRoot()
            n = len(r)
            for i in range(min(n, 5) + 1):
                for j in list(range(i, min(n, 5) + 1)) + [n]:
                    bad = copies(r[i:j], True, d)
                    expect(not bad, 'a copy of a part differs', bad)
                    k = pointless.Pointless(pointless.serialize_to_bytearray(r[i:j])).GetRoot()
                    expect(pv.canon_open(k) == ('v',) + pv.canon_model(v)[1:][i:j], 'slice copied wrong', '%d:%d' % (i, j))
                    c.evals += 1


def example_failed_copy(c):
    err = ctypes.c_char_p()
    out = os.path.join(c.scratch, 'o.map')
    expect(not capi.recreate_64(b'/nonexistent/x', out.encode(), ctypes.byref(err)) and err.value, 'copy of a missing file')
    bad = to_file(b'\0' * 40, c, 'bad')
    err = ctypes.c_char_p()
    expect(not capi.recreate_64(bad.encode(), out.encode(), ctypes.byref(err)) and err.value, 'copy of a bad file')
    expect(not os.path.exists(out), 'a destination appeared')
    good = to_file(bytes(pointless.serialize_to_bytearray([1, 'x', {2: 3}])), c, 'good')
    err = ctypes.c_char_p()
    expect(not capi.recreate_64(good.encode(), b'/nonexistent/dir/x', ctypes.byref(err)) and err.value, 'copy to an impossible place')
    # a file copied over itself
    err = ctypes.c_char_p()
    expect(capi.recreate_64(good.encode(), good.encode(), ctypes.byref(err)), 'copy over itself', err.value)
    expect(pv.canon_open(pointless.Pointless(good).GetRoot()) == pv.canon_model([1, 'x', {2: 3}]), 'copy over itself lost the value')
