"""Fuzzing of opening and reading untrusted images: structured and coverage-guided, under AddressSanitizer."""
import ctypes
import os
import subprocess
import sys

import pointless

import capi
import gimg
import plfmt
import pv
from checks.C08 import used_types
from harness import Discard, Draw, Fail, expect

RULE = 'the image is accepted and holds at least one container or bit vector that is then read; distinct by its bytes'
LEVEL = 'exploration'
ASSUMPTIONS = ['images whose keys take more than 50000 steps as trees, or hold more than 2^22 bits of bit vectors, are left out (see known findings)',
               'an empty-slot marker used as a value is readable from C only; the error for it is not counted as internal error']
FUZZER = 'fuzz_image'
FUZZ_JOBS = 3
CONF = {'variants': ['asan', 'asan', 'asan', 'rel', 'asan', 'asan']}
KNOWN_KEYS = ['dag-key']

OKERR = (ValueError, TypeError, IndexError, KeyError, OSError, OverflowError, BufferError, RecursionError)
read_all = capi.fn('vp_read_all', ctypes.c_int, ctypes.c_void_p, ctypes.POINTER(ctypes.c_uint64))
libc = ctypes.CDLL(None)


# the image holds an empty-slot marker as a value: Python can not show it, and says so
marker = [False]


def attempt(fn, what):
    """Runs a read operation; documented errors are fine."""
    try:
        return fn()
    except OKERR as e:
        s = str(e)
        if 'internal' in s and not marker[0]:
            raise Fail('internal error on an accepted image', '%s: %s' % (what, s))
        return None


def fuzz_seed(d):
    img, what, m = gimg.g_image(d)
    gimg.guard(img)
    return img


def deep(d):
    """Nested deeply, beyond what can be walked."""
    B = plfmt.Builder()
    n = d.choice([10, 120, 200, 253, 254, 255, 256, 257, 300, 500, 510, 511, 512, 513, 600, 2000, 20000])
    kinds = d.int(4)
    ref = gimg.g_val(d, B)
    for i in range(n):
        k = kinds if kinds < 3 else d.int(3)
        if k == 0:
            ref = B.vector(plfmt.VALUE, [ref])
        elif k == 1:
            ref = B.vector(plfmt.HASHABLE, [ref])
        else:
            ref = B.map_([(1, (plfmt.U32, 1), ref)])
    if d.int(3) == 0:
        ref = B.set_([(d.int(3), ref)])
    return B.image(ref), ['deep %d of kind %d' % (n, kinds)]


def wide(d):
    B = plfmt.Builder()
    n = d.choice([1000, 5000, 20000])
    t = d.choice(list(plfmt.VEC_FMT) + [plfmt.VALUE])
    if t == plfmt.VALUE:
        ref = B.vector(t, [gimg.g_val(d, B)] * n)
    else:
        ref = B.prim(t, [0.0 if t == plfmt.FLOATV else 1] * n)
    # length field near the limits
    if d.bool():
        p = bytearray(B.items['v'][ref[1]])
        p[0:4] = d.choice([n, n + 1, 2**31, 2**30, 2**29, 2**32 - 1, 2**29 + n]).to_bytes(4, 'little')
        B.items['v'][ref[1]] = bytes(p)
    return B.image(ref), ['wide']


def prop(d, c):
    k = d.int(12)
    if k == 11:
        img, what = deep(d)
    elif k == 10 and d.int(4) == 0:
        img, what = wide(d)
    else:
        img, what, _ = gimg.g_image(d)
    one(img, what, d, c)


def one(img, what, d, c):
    try:
        gimg.guard(img)
    except RecursionError:
        raise Discard()
    c.note('image', img.hex()[:4000], 'made by', what)
    buf = bytearray(img)
    try:
        p = pointless.Pointless(buf)
    except OSError as e:
        expect(str(e).strip() not in ('', 'None'), 'refused without a reason')
        expect(bytes(buf) == img, 'opening changed the input')
        c.label('refused')
        return
    expect(bytes(buf) == img, 'opening changed the input')
    marker[0] = plfmt.EMPTY in used_types(plfmt.Decoder(img))
    c.label('accepted: ' + what[0].split(' ')[0])
    root = attempt(p.GetRoot, 'GetRoot')
    if root is None:
        return
    got = collect(d, root)
    ops(d, got, c)
    if pv.is_view(root):
        c.nontrivial(img, lambda: '%s, %d values reached' % ('; '.join(map(str, what)), len(got)))
    if d.int(3) == 0:
        im = capi.Image(data=img)
        dig = ctypes.c_uint64()
        r = read_all(im.p, ctypes.byref(dig))
        expect(r == 0, 'oracle of the C reader is broken', r)
        im.close()
        expect(im.buf.raw[:len(img)] == img, 'reading changed the image')
    if d.int(6) == 0:
        recreate(img, root, what, c)


def recreate(img, root, what, c):
    a, b = os.path.join(c.scratch, 'a.map'), os.path.join(c.scratch, 'b.map')
    for f in (a, b):
        if os.path.exists(f):
            os.unlink(f)
    with open(a, 'wb') as f:
        f.write(img)
    err = ctypes.c_char_p()
    if capi.recreate_64(a.encode(), b.encode(), ctypes.byref(err)):
        with open(b, 'rb') as f:
            v, why = plfmt.verdict(f.read())
        expect(v is not False, 'the copy of an accepted image is malformed', '%s %s' % (why, what))
        c.label('copied')
    else:
        expect(err.value, 'copying failed without an error text')
        expect('internal' not in err.value.decode(), 'internal error while copying', err.value)
    with open(a, 'rb') as f:
        expect(f.read() == img, 'copying changed the source')


def collect(d, root):
    """Values reached from the root by all ways of reading."""
    out, stack, seen, steps = [root], [root], set(), 0
    while stack and steps < 150:
        x = stack.pop()
        t = type(x)
        steps += 1
        if t not in (pv.PV, pv.PM, pv.PS):
            continue
        key = (t, x.container_id, len(x))
        if key in seen:
            continue
        seen.add(key)
        ys = []
        n = len(x)
        if t is pv.PV:
            for i in (range(n) if n < 20 else [0, 1, n // 2, n - 1]):
                ys.append(attempt(lambda: x[i], 'item'))
                attempt(lambda: x[i - n], 'item from the end')
            if n:
                i = d.int(n)
                ys.append(attempt(lambda: x[i:], 'slice'))
                ys.append(attempt(lambda: x[:i], 'slice'))
        elif t is pv.PS:
            ys += take(x, 30)
        else:
            ys += take(x.keys(), 20)
            ys += take(x.values(), 20)
            for kv in take(x.items(), 10):
                ys.extend(kv)
            ys += take(x, 3)
        for y in ys:
            if y is not None and len(out) < 120:
                out.append(y)
                stack.append(y)
    return out


def take(it, n):
    out = []

    def go():
        k = 0
        for y in it:
            out.append(y)
            k += 1
            if k >= n:
                return
    attempt(go, 'iteration')
    return out


def ops(d, got, c):
    for _ in range(6 + d.int(12)):
        x = d.choice(got)
        t = type(x)
        k = d.int(12)
        if k == 0:
            y = d.choice(got)
            a = attempt(lambda: pointless.pointless_cmp(x, y), 'cmp')
            b = attempt(lambda: pointless.pointless_cmp(y, x), 'cmp')
            if a is not None and b is not None and a == a:
                nan = has_nan(x) or has_nan(y)
                expect(nan or (a > 0) == (b < 0), 'comparison is not antisymmetric', lambda: '%r %r %r %r' % (a, b, x, y))
            attempt(lambda: pointless.pointless_is_eq(x, y), 'is_eq')
        elif k == 1:
            attempt(lambda: pointless.pyobject_hash_32(x), 'hash32')
            attempt(lambda: pointless.pyobject_hash(x), 'hash')
        elif k == 2 and cheap(x):
            s = attempt(lambda: str(x), 'str')
            r = attempt(lambda: repr(x), 'repr')
            expect(s is None or isinstance(s, str), 'str')
        elif k == 3 and t in (pv.PM, pv.PS):
            key = d.choice(got + [0, 1, 'a', None, True, 1.0, (), (1, 'x')])
            attempt(lambda: key in x, 'in')
            if t is pv.PM:
                attempt(lambda: x.get(key, 5), 'get')
                attempt(lambda: x[key], 'map item')
        elif k == 4 and t is pv.PV:
            n = len(x)
            i, j = d.choice([0, 1, n, -1, n + 5, -n - 5, d.int(n + 1)]), d.choice([0, 1, n, -1, n + 5, d.int(n + 1), None])
            attempt(lambda: x[i], 'item')
            y = attempt(lambda: x[i:j], 'slice')
            if y is not None:
                expect(len(y) == len(range(n)[i:j]), 'length of a slice')
                got.append(y)
        elif k == 5 and t is pv.PV:
            attempt(lambda: x.max(), 'max')
            attempt(lambda: x.min(), 'min')
            attempt(lambda: x.typecode, 'typecode')
            attempt(lambda: x.is_hashable, 'hashable')
            attempt(lambda: d.choice(got) in x, 'in vector')
            attempt(lambda: x.bisect_left(5), 'bisect')
            attempt(lambda: bytes(memoryview(x))[:100], 'buffer')
            attempt(lambda: [y for y, _ in zip(reversed(x), range(10))], 'reversed')
            attempt(lambda: x.sizeof() if hasattr(x, 'sizeof') else x.__sizeof__(), 'sizeof')
        elif k == 6 and t is pv.PB:
            n = len(x)
            attempt(lambda: [x[i] for i in range(min(n, 300))], 'bits')
            attempt(lambda: x[n - 1], 'last bit')
            attempt(lambda: x[n], 'bit past the end')
            if n < 1 << 20:
                for m in ('NumZeroPrefix', 'NumZeroPostfix', 'NumOnePrefix', 'NumOnePostfix', 'IsAnySet', 'copy'):
                    if hasattr(x, m):
                        attempt(getattr(x, m), m)
                attempt(lambda: [b for b in x], 'bit iteration')
            attempt(lambda: x.append(True), 'append to a read-only bit vector')
        elif k == 7 and cheap(x):
            img = attempt(lambda: pointless.serialize_to_bytearray([x, x]), 'serialize')
            if img is not None:
                v, why = plfmt.verdict(img)
                expect(v is not False, 'a copy of a value of an accepted image is malformed', why)
                c.label('serialized again')
        elif k == 8 and t in (pv.PV, pv.PM, pv.PS):
            attempt(lambda: x.container_id, 'id')
            attempt(lambda: x == d.choice(got), '==')
            attempt(lambda: x < d.choice(got), '<')
            attempt(lambda: hash(x), 'hash')
        elif k == 9 and t is pv.PV:
            attempt(lambda: pointless.PointlessPrimVector('u32', sequence=x), 'prim of vector')
            attempt(lambda: pointless.PointlessBitvector(sequence=x), 'bits of vector')
        elif k == 10 and t is str:
            x.encode('utf-8', 'surrogatepass')
        elif k == 11 and t in (pv.PM, pv.PS) and len(x) < 200:
            for key in take(x, 60):
                ok = attempt(lambda: key in x, 'own key')
                expect(ok is None or ok, 'a stored key is not found')
            if t is pv.PM:
                for key, val in take(x.items(), 30):
                    attempt(lambda: x[key], 'own item')


def has_nan(x):
    t = type(x)
    if t is float:
        return x != x
    if t is pv.PV:
        return any(type(y) is float and y != y or type(y) is pv.PV for y in take(x, 10000))
    return False


def cheap(x):
    """not so long in text or copy"""
    n = [0]

    def go(y, depth):
        n[0] += 1
        t = type(y)
        if t is pv.PB:
            n[0] += len(y) // 8
        if n[0] > 3000 or depth > 40:
            return
        if t is pv.PV or t is pv.PS:
            for z in take(y, 3000):
                go(z, depth + 1)
        elif t is pv.PM:
            for a, b in take(y.items(), 3000):
                go(a, depth + 1)
                go(b, depth + 1)
    go(x, 0)
    return n[0] < 3000


def example_written(c):
    """Everything the library writes is accepted and reads the same in C."""
    for s in range(60):
        d = Draw(seed='c07w/%d' % s)
        m = pv.g_value(d, pv.G(nodes=40))
        one(bytes(pointless.serialize_to_bytearray(pv.real(m))), ['written'], d, c)
        c.evals += 1


def example_inputs(c):
    """Odd inputs to opening."""
    for b in (b'', b'\0', b'\0' * 31, b'\0' * 32, b'\0' * 33, b'\xff' * 32, b'\xff' * 4096):
        try:
            pointless.Pointless(bytearray(b))
            ok = True
        except OSError:
            ok = False
        expect(ok == plfmt.verdict(b)[0], 'acceptance', b)
    fn = os.path.join(c.scratch, 'e')
    for b in (b'', b'\0' * 32, b'abc'):
        if os.path.exists(fn):
            os.unlink(fn)
        with open(fn, 'wb') as f:
            f.write(b)
        try:
            pointless.Pointless(fn)
        except OSError:
            pass
    for bad in (c.scratch, os.path.join(c.scratch, 'nope'), '/dev/null'):
        try:
            pointless.Pointless(bad)
            raise Fail('opened something that is no file', bad)
        except OSError:
            pass


def dag_key(c):
    """Known finding: the key is a tuple (x, x) of such tuples, 40 deep; hashing it takes 2^40 steps."""
    B = plfmt.Builder()
    ref = (plfmt.U32, 1)
    for _ in range(40):
        ref = B.vector(plfmt.HASHABLE, [ref, ref])
    img = B.image(B.set_([(1, ref)]))
    fn = os.path.join(c.scratch, 'dag.map')
    with open(fn, 'wb') as f:
        f.write(img)
    code = 'import resource, sys\nresource.setrlimit(resource.RLIMIT_CPU, (5, 6))\nimport pointless\ntry:\n    pointless.Pointless(sys.argv[1])\nexcept OSError:\n    pass\n'
    r = subprocess.run([sys.executable, '-c', code, fn], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return 'no result in 5 s for an image of %d bytes' % len(img) if r.returncode != 0 else None


KNOWN = {'dag-key': dag_key}
