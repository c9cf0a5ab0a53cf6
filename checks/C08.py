"""Differential: opening with validation against an independent implementation of the format's rules."""
import struct

import pointless

import capi
import gimg
import plfmt
import pv
from checks import C02
from harness import Discard, Fail, expect

RULE = 'the image passes the header and offset table checks (its structure is judged), distinct by its bytes'
LEVEL = 'exploration'
ASSUMPTIONS = ['not judged: nesting near the depth limit, empty-slot markers inside keys; an empty-slot marker as a value can not be read from Python, its container is skipped']


def accepts(img, c, d=None):
    try:
        p = pointless.Pointless(bytearray(img))
        return p, ''
    except IOError as e:
        return None, str(e)


def judge(img, what, c):
    gimg.guard(img)
    v, why = plfmt.verdict(img)
    if v is None:
        raise Discard()
    c.note('image', img.hex(), 'made by', what)
    p, err = accepts(img, c)
    if v and p is None:
        raise Fail('a well-formed image is refused', '%s: %s' % (what, err))
    if not v and p is not None:
        raise Fail('a malformed image is accepted', '%s: %s' % (what, why))
    c.label(('accepted: ' if v else 'refused: ') + (what[0] if v else why.split(':')[0]))
    if len(img) >= 40 and (v or why not in ('version', 'offset tables', 'header missing')):
        c.nontrivial(img, lambda: '%s: %s' % ('; '.join(map(str, what)), 'accepted' if v else 'refused, ' + why))
    return p, (why if v else None)


def prop(d, c):
    img, what, m = gimg.g_image(d)
    if d.int(6) == 0:
        # what the library itself writes, shared and cyclic
        img = bytes(pointless.serialize_to_bytearray(pv.real(C02.graph(d, 8)[0])))
        what, m = ['graph'], None
        for _ in range(d.int(3)):
            img, w = gimg.break_bytes(d, img)
            what.append(w)
    p, dec = judge(img, what, c)
    if p is None:
        return
    if dec.root[0] == plfmt.EMPTY:
        return
    root = p.GetRoot()
    if m is not None:
        got = pv.canon_open(root)
        expect(got == pv.canon_model(m), 'wrong content', lambda: pv.diff(pv.canon_model(m), got))
    found(root, dec, c)
    if d.int(8) == 0:
        if plfmt.EMPTY in used_types(dec):
            return
        try:
            want = dec.canon()
        except (plfmt.Unspecified, ValueError, RecursionError):
            return
        got = pv.canon_open(root)
        expect(got == want, 'content differs from the bytes', lambda: pv.diff(want, got))


def unreadable(x):
    """holds an empty-slot marker"""
    try:
        if type(x) is pv.PM:
            list(x.values())
        for _ in x:
            pass
    except ValueError as e:
        if 'type ID 19' in str(e):
            return True
        raise
    return False


def used_types(dec):
    """types of references in the vectors of values"""
    out, seen, stack = set(), set(), [dec.root]
    while stack:
        t, x = stack.pop()
        out.add(t)
        if (t, x) in seen:
            continue
        seen.add((t, x))
        if t in (plfmt.VALUE, plfmt.HASHABLE):
            stack.extend(dec.vec_items(t, x))
        elif t == plfmt.SET:
            stack.extend(y for y in dec.vec_items(*dec.set_parts(x)[2]) if y[0] != plfmt.EMPTY)
        elif t == plfmt.MAP:
            n, hv, kv, vv = dec.map_parts(x)
            for a, b in zip(dec.vec_items(*kv), dec.vec_items(*vv)):
                if a[0] != plfmt.EMPTY:
                    stack.extend([a, b])
    return out


def found(root, dec, c):
    """Each stored key is found by looking it up."""
    seen, stack, n = set(), [root], 0
    while stack and n < 400:
        x = stack.pop()
        if type(x) in (pv.PV, pv.PM, pv.PS) and unreadable(x):
            continue
        t = type(x)
        if t not in (pv.PV, pv.PM, pv.PS):
            continue
        if (t, x.container_id) in seen:
            continue
        seen.add((t, x.container_id))
        if t is pv.PV:
            stack.extend(x[i] for i in range(len(x)))
            continue
        for k in x:
            n += 1
            try:
                ok = k in x
            except ValueError:
                # a key that cannot be looked up at all: an empty slot marker inside
                continue
            expect(ok, 'a stored key is not found', lambda: '%r in %r' % (k, x))
        if t is pv.PM:
            for k, y in x.items():
                stack.append(y)


def example_fixed(c):
    """One rule broken at a time, on the smallest image that has it."""
    B = plfmt.Builder
    H = plfmt.HASHABLE

    def table(kind, n, hs, ks, vs=None, ht=plfmt.U32V, kt=H, vt=plfmt.VALUE):
        b = B()
        hv, kv = b.prim(ht, hs), b.vector(kt, ks)
        if kind == 'set':
            r = (plfmt.SET, b.add('set', struct.pack('<6I', n, 0, *hv, *kv)))
        else:
            r = (plfmt.MAP, b.add('map', struct.pack('<8I', n, 0, *hv, *kv, *b.vector(vt, vs))))
        return b.image(r)
    E, U = (plfmt.EMPTY, 0), plfmt.U32
    imgs = [
        table('set', 1, [0, 1], [E, (U, 1)]), table('set', 1, [1, 0], [(U, 1), E]), table('set', 1, [0, 2], [E, (U, 1)]),
        table('set', 2, [0, 1], [E, (U, 1)]), table('set', 0, [0, 1], [E, (U, 1)]), table('set', 0, [], []), table('set', 0, [0], [E]), table('set', 0, [0, 0], [E, E]),
        table('set', 2, [0, 1, 2, 0], [E, (U, 1), (U, 2), E]), table('set', 2, [0, 1, 1, 0], [E, (U, 1), (U, 1), E]),
        table('set', 2, [4, 1, 0, 0], [(U, 4), (U, 1), E, E]), table('set', 2, [0, 0, 0, 4], [E, E, (U, 0), (U, 4)]),
        table('set', 1, [0, 1], [E, (U, 1)], ht=plfmt.I32V), table('set', 1, [0, 1], [E, (U, 1)], kt=plfmt.VALUE),
        table('set', 1, [9, 1], [E, (U, 1)]), table('map', 1, [0, 1], [E, (U, 1)], [(U, 9), (U, 9)]), table('map', 1, [0, 1], [E, (U, 1)], [E, E]),
        table('map', 1, [0, 1], [E, (U, 1)], [E, (U, 9)]), table('map', 1, [0, 1], [E, (U, 1)], [E, (U, 9)], vt=H), table('map', 1, [0, 1], [E, (U, 1)], [E]),
        table('map', 1, [0, 1], [E, (U, 1)], [E, (U, 9), (U, 9)]), table('map', 0, [], [], []),
        table('set', 4, [4, 1, 2, 3], [(U, 4), (U, 1), (U, 2), (U, 3)]), table('set', 1, [0, 0], [E, E]),
    ]
    for n in range(0, 14):
        for bits in range(0, 33):
            imgs.append(B().image((plfmt.PACKED, bits | 0xffff0000)))
        b = B()
        imgs.append(b.image(b.set_([(i * 7, (U, i * 7)) for i in range(n)])))
    for t in range(0, 34):
        for x in (0, 1, 2, 2**32 - 1):
            imgs.append(B().image((t, x)))
            b = B()
            imgs.append(b.image(b.vector(plfmt.VALUE, [(t, x)])))
            b.string([65])
            b.bits([1, 0, 1])
            b.set_([])
            b.map_([])
            imgs.append(b.image(b.vector(plfmt.VALUE, [(t, x)])))
            imgs.append(b.image(b.vector(H, [(t, x)])))
            imgs.append(b.image(b.vector(plfmt.VALUE, [(plfmt.NULL, 0), b.vector(H, [(t, x)])])))
    for cp in (0, 1, 65, 255, 256, 0xd800, 0xdfff, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0xffffffff):
        b = B()
        imgs.append(b.image(b.unicode([65, cp, 66])))
        if cp < 256:
            b = B()
            imgs.append(b.image(b.string([65, cp, 66])))
    for img in imgs:
        for i in (img, img[:-1], img[:-4], img + b'\0' * 4):
            try:
                p, dec = judge(i, ['example'], c)
                c.evals += 1
                if p is not None and dec.root[0] != plfmt.EMPTY:
                    found(p.GetRoot(), dec, c)
            except Discard:
                pass


def example_c_agrees(c):
    """The C entry points for files and buffers take the same decision."""
    import os
    from harness import Draw
    for s in range(150):
        d = Draw(seed='c_agrees/%d' % s)
        img, what, m = gimg.g_image(d)
        try:
            gimg.guard(img)
        except Discard:
            continue
        p, _ = accepts(img, c)
        fn = os.path.join(c.scratch, 'x.map')
        if os.path.exists(fn):
            os.unlink(fn)
        with open(fn, 'wb') as f:
            f.write(img)
        for kw in (dict(data=img), dict(fname=fn)):
            try:
                capi.Image(**kw).close()
                ok = True
            except capi.Error as e:
                ok = False
                expect(str(e), 'no error text')
            expect(ok == (p is not None), 'C and Python disagree', '%r %r' % (kw.keys(), what))
        try:
            pointless.Pointless(fn)
            ok = True
        except IOError:
            ok = False
        expect(ok == (p is not None), 'file and buffer disagree', what)
        c.evals += 1
