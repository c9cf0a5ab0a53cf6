"""One image read by many threads, while others open and create images."""
import os
import subprocess
import sys
import threading

import pointless

import capi
import gimg
import plfmt
import pv
import vbuild
from harness import Discard, Fail, expect, short
from checks import C02

RULE = 'an image with at least one set, map or vector that was read by at least three threads at once, all of which finished; distinct by image and threads'
LEVEL = 'exploration'
CONF = {'budget': 40}
THREADS = True
ASSUMPTIONS = ['threads synchronise with each other by starting and ending only; ThreadSanitizer sees every pair of conflicting accesses that is not ordered by that, whatever the schedule was',
               'Python threads interleave at each bytecode boundary and while images are opened and closed']
SCHEDULE_DEPENDENT = True


def setup(c):
    c.exe = vbuild.build_threads()
    os.chdir(c.scratch)
    sys.setswitchinterval(1e-5)


def prop(d, c):
    if d.int(3) == 0:
        python(d, c)
    else:
        native(d, c)


# ---- the C library, under ThreadSanitizer

def image(d):
    k = d.int(8)
    if k <= 2:
        m, B, ref = gimg.sound(d)
        return gimg.layout(d, B, ref)
    if k <= 4:
        try:
            return bytes(pointless.serialize_to_bytearray(pv.real(pv.g_value(d, pv.G(nodes=d.choice([5, 30, 100]))))))
        except (ValueError, OSError):
            raise Discard
    if k == 5:
        g = C02.graph(d)
        try:
            return bytes(pointless.serialize_to_bytearray(g[0] if type(g) in (tuple, list) else g))
        except (ValueError, OSError):
            raise Discard
    if k == 6:
        img = gimg.g_image(d)[0]
        gimg.guard(img)
        return img
    n = d.choice([50, 300, 2000])
    return bytes(pointless.serialize_to_bytearray([{i * 7 % 1009: str(i) for i in range(n)}, {str(i) for i in range(n // 3)}, list(range(n)), [float(i) for i in range(n % 77)]]))


def native(d, c):
    files = []
    for i in range(1 + d.int(3)):
        img = image(d)
        gimg.guard(img)
        files.append(img)
    n = d.choice([2, 3, 3, 4, 6])
    names = []
    for i, img in enumerate(files):
        with open('i%d' % i, 'wb') as f:
            f.write(img)
        names.append('i%d' % i)
    seed = d.rng_int(0, 10**9)
    env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'ASAN_OPTIONS')}
    env['TSAN_OPTIONS'] = 'halt_on_error=1 exitcode=66 report_thread_leaks=0'
    c.note('threads', n)
    c.note('seed', seed)
    c.note('images', [x.hex() for x in files])
    try:
        r = subprocess.run([c.exe, str(seed), str(n)] + names, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
    except subprocess.TimeoutExpired:
        raise Fail('reading by threads never ended', '')
    out = r.stdout.decode('utf-8', 'replace')
    err = r.stderr.decode('utf-8', 'replace')
    if r.returncode == 66 or 'ThreadSanitizer: data race' in err:
        raise Fail('data race', short(err, 4000))
    if r.returncode == 1:
        raise Fail('another answer in a thread', short('\n'.join(x for x in out.split('\n') if x.startswith(tuple(names))), 1000))
    expect(r.returncode == 0, 'the threads ended abnormally', lambda: 'code %d: %s %s' % (r.returncode, short(out, 500), short(err, 3000)))
    ok = [img for img in files if plfmt.verdict(img)[0]]
    c.label('native, %d threads' % n)
    for img in ok:
        if n >= 3 and plfmt.Decoder(img).root[0] not in (plfmt.I32, plfmt.U32, plfmt.FLOAT, plfmt.NULL, plfmt.BOOL):
            c.nontrivial((n, img), lambda: '%d threads, image of %d bytes' % (n, len(img)))


# ---- the Python module

def same(view, want):
    got = pv.canon_open(view)
    expect(got == want, 'reads differently in a thread', lambda: pv.diff(want, got))


def python(d, c):
    try:
        m = pv.g_value(d, pv.G(nodes=d.choice([5, 20, 60]))) if d.int(3) else [[i, str(i), {i: [i]}] for i in range(d.choice([5, 40]))]
        r = pv.real(m)
        img = bytes(pointless.serialize_to_bytearray(r))
    except (ValueError, OSError):
        raise Discard
    from_file = d.bool()
    if from_file:
        with open('p', 'wb') as f:
            f.write(img)
    h = pointless.Pointless('p' if from_file else bytearray(img))
    n = d.choice([2, 3, 4, 6])
    m2 = [[1.5, 'two', {3: 'x' * d.int(50)}] * (1 + d.int(4)), list(range(d.int(300)))]
    img2 = bytes(pointless.serialize_to_bytearray(m2))
    with open('q', 'wb') as f:
        f.write(img2)
    root = h.GetRoot()
    want, want2 = pv.canon_model(m), pv.canon_model(m2)
    text = str(root)
    try:
        hsh = pointless.pyobject_hash_32(root)
    except Exception as e:
        hsh = type(e)
    shared = iter(root) if type(root) is pointless.PointlessVector else None
    got = []
    again = pointless.Pointless.__new__(pointless.Pointless)
    moving = bytearray(img2)
    errors = []
    start = threading.Barrier(n)

    def read():
        same(h.GetRoot() if n % 2 else root, want)

    def show():
        expect(str(root) == text, 'text differs in a thread')

    def hashed():
        try:
            x = pointless.pyobject_hash_32(root)
        except Exception as e:
            x = type(e)
        expect(x == hsh, 'hash differs in a thread')

    def other():
        same(pointless.Pointless('q').GetRoot(), want2)

    def open_same():
        x = pointless.Pointless('p' if from_file else bytearray(img), validate=n % 2 == 0)
        same(x.GetRoot(), want)
        del x

    def write():
        expect(bytes(pointless.serialize_to_bytearray(r)) == img, 'writes differently in a thread')

    def copy():
        x = bytes(pointless.serialize_to_bytearray(root))
        same(pointless.Pointless(bytearray(x)).GetRoot(), want)

    def to_file():
        name = 'w%d' % threading.get_ident()
        pointless.serialize(r, name)
        with open(name, 'rb') as f:
            expect(f.read() == img, 'a file written in a thread differs')
        os.unlink(name)

    def take():
        while shared is not None:
            try:
                got.append(next(shared))
            except StopIteration:
                return

    def reopen():
        # one object opened by several threads: one of them wins, the others are told so
        try:
            again.__init__(bytearray(img2) if n % 2 else 'q')
            x = again.GetRoot()
            same(x, want2)
        except ValueError:
            pass

    def resize():
        # the input cannot be resized while it is being opened
        try:
            for _ in range(20):
                moving.append(0)
                moving.pop()
        except BufferError:
            c.label('resize refused')

    def open_moving():
        try:
            x = pointless.Pointless(moving)
        except OSError:
            return      # it had one byte more
        same(x.GetRoot(), want2)

    def prims():
        v = pointless.PointlessPrimVector('i32', sequence=[i * 7919 % 1000 for i in range(200)])
        v.sort()
        expect(list(v) == sorted(i * 7919 % 1000 for i in range(200)), 'sorts differently in a thread')

    fs = [read, read, read, show, hashed, other, open_same, write, copy, to_file, take, reopen, resize, open_moving, prims]
    plans = [[d.choice(fs) for _ in range(1 + d.int(6))] for _ in range(n)]
    c.note('plans', [[f.__name__ for f in p] for p in plans])
    c.note('value', m)

    def run(plan):
        try:
            start.wait()
            for f in plan:
                f()
        except BaseException as e:
            errors.append(e)

    ts = [threading.Thread(target=run, args=(p,), daemon=True) for p in plans]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
        if t.is_alive():
            raise Fail('a thread never ended', '')
    for e in errors:
        if isinstance(e, Fail):
            raise e
        if isinstance(e, RecursionError):
            raise Discard
        raise Fail('%s in a thread' % type(e).__name__, repr(e))
    if shared is not None and any(take in p for p in plans):
        expect(len(got) == len(root), 'an iterator shared by threads handed out too many or too few items', lambda: '%d of %d' % (len(got), len(root)))
        a, b = sorted(map(repr, got)), sorted(map(repr, list(root)))
        expect(a == b or any(' at 0x' in x for x in a), 'an iterator shared by threads handed out other items')
    del got, shared
    c.label('python, %d threads' % n)
    if n >= 3 and type(r) in (list, tuple, dict, set, frozenset):
        c.nontrivial((n, img, repr(plans)), lambda: '%d Python threads: %s' % (n, [[f.__name__ for f in p] for p in plans]))
