"""Fault enumeration on the writing of image files: every I/O call made to fail, or the process ended there."""
import ctypes
import errno
import os
import resource
import signal
import time

import pointless

import capi
import pv
from harness import Fail, expect

RULE = 'a fault was injected into (or a crash happened during) a write over a destination; distinct by image, previous state, writer and fault point'
LEVEL = 'fault_enumeration'
ASSUMPTIONS = ['faults are injected at the libc calls the library makes (linker --wrap) and by the file size limit; crashes end the process at the same calls or by SIGKILL at random times']

ERRS = [errno.EIO, errno.ENOSPC, errno.EINTR, errno.EACCES, errno.EDQUOT, errno.EAGAIN]
OLD = {'old': [1, 2, 3, 'x'], 'n': list(range(50))}
old_img = bytes(pointless.serialize_to_bytearray(OLD))


class State:
    """A destination in a directory of its own."""

    def __init__(self, c, kind):
        self.dir = os.path.join(c.scratch, 'd')
        os.makedirs(self.dir, exist_ok=True)
        self.clean()
        self.fn = os.path.join(self.dir, 'dest.map')
        self.kind = kind
        self.reset()

    def clean(self):
        for n in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, n))

    def reset(self):
        self.clean()
        self.prev = None
        if self.kind == 1:
            with open(self.fn, 'wb') as f:
                f.write(old_img)
            self.prev = old_img
        elif self.kind == 2:
            self.prev = b'\x00\x01 some other content' * 20
            with open(self.fn, 'wb') as f:
                f.write(self.prev)
            os.chmod(self.fn, 0o600)
        self.before()

    def before(self):
        self.st = os.stat(self.fn) if self.prev is not None else None

    def content(self):
        try:
            with open(self.fn, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def others(self):
        return sorted(set(os.listdir(self.dir)) - {'dest.map'})


class Writer:
    def __init__(self, m, how, c):
        self.how = how
        self.obj = pv.real(m)
        self.img = bytes(pointless.serialize_to_bytearray(self.obj))
        if how == 1:
            # the C copy of an image
            self.src = os.path.join(c.scratch, 'src.map')
            if os.path.exists(self.src):
                os.unlink(self.src)
            with open(self.src, 'wb') as f:
                f.write(self.img)
            o = os.path.join(c.scratch, 'src2.map')
            err = ctypes.c_char_p()
            expect(capi.recreate_64(self.src.encode(), o.encode(), ctypes.byref(err)), 'copying an image failed', err.value)
            with open(o, 'rb') as f:
                self.img = f.read()
            os.unlink(o)

    def __call__(self, fn):
        """True if it reports success."""
        if self.how == 0:
            try:
                pointless.serialize(self.obj, fn)
            except Exception as e:  # noqa
                if isinstance(e, SystemError):
                    raise Fail('internal error instead of a failure', repr(e))
                return False
            return True
        err = ctypes.c_char_p()
        return bool(capi.recreate_64(self.src.encode(), fn.encode(), ctypes.byref(err)))


def check_order(log, how):
    """Data must have reached the disk before the new name appears."""
    ops = [x.split(' ')[0] for x in log.strip().split('\n')]
    if 'rename' not in ops:
        return
    r = ops.index('rename')
    writes = [i for i, x in enumerate(ops) if x in ('fwrite', 'write', 'pwrite', 'ftruncate')]
    if not writes:
        return
    expect(max(writes) < r, 'data is written after publication', ops)
    last = max(writes)
    if ops[last] == 'fwrite':
        fl = [i for i in range(last, r) if ops[i] in ('fflush', 'fclose')]
        expect(fl, 'buffered data is not flushed before publication', ops)
        last = fl[0]
    expect(any(ops[i] in ('fsync', 'fdatasync') for i in range(last, r)), 'data is not synchronized before publication', ops)


def harmless(ops, k):
    """A failure of this call need not be reported: it is after publication, before the writing, or not about the data."""
    if ops[k] in ('fchmod', 'chmod', 'mmap', 'open', 'fopen', 'close', 'unlink', 'remove'):
        return True
    if 'rename' in ops and k > ops.index('rename'):
        return True
    return 'mkstemp' in ops and k < ops.index('mkstemp')


def judge(s, w, ok, where, may_leave=False):
    now = s.content()
    if ok:
        expect(now == w.img, 'success was reported without the complete new content', '%s: %s' % (where, what(now, s, w)))
    else:
        expect(now == s.prev or now == w.img, 'partial or lost destination after a failure', '%s: %s' % (where, what(now, s, w)))
        if now == s.prev and s.st is not None:
            st = os.stat(s.fn)
            expect((st.st_ino, st.st_mode, st.st_size) == (s.st.st_ino, s.st.st_mode, s.st.st_size), 'the destination was replaced or changed by a failed write', where)
    if not may_leave:
        expect(s.others() == [], 'temporary file left behind', '%s: %s' % (where, s.others()))


def what(now, s, w):
    return 'nothing' if now is None else 'old content' if now == s.prev else 'new content' if now == w.img else '%d bytes, new image has %d' % (len(now), len(w.img))


def forked(fn):
    pid = os.fork()
    if pid == 0:
        code = 50
        try:
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 2)
            code = fn()
        except BaseException:  # noqa
            code = 51
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return -os.WTERMSIG(st)
    return os.WEXITSTATUS(st)


def prop(d, c):
    m = pv.g_value(d, pv.G(nodes=d.choice([3, 10, 40]), depth=4))
    if d.int(6) == 5:
        m = [m, list(range(d.int(30000))), 'é' * d.int(9000)]
    w = Writer(m, d.choice([0, 0, 0, 1]), c)
    s = State(c, d.int(3))
    # clean run
    fds = len(os.listdir('/proc/self/fd'))
    reader, want = None, pv.canon_model(OLD)
    if s.kind == 1 and d.bool():
        reader = pointless.Pointless(s.fn)
    capi.io_arm(capi.IO_NONE, -1, 0)
    ok = w(s.fn)
    log, n = capi.io_log().decode(), capi.io_count()
    capi.io_disarm()
    expect(ok, 'writing failed without a fault')
    judge(s, w, True, 'no fault')
    check_order(log, w.how)
    if reader is not None:
        expect(pv.canon_open(reader.GetRoot()) == want, 'a reader of the old file sees other content')
        c.label('reader of the old file')
        del reader
    mode = d.int(8)
    c.note('value', m, 'previous', s.kind, 'writer', w.how, 'calls', log)
    ops = [x.split(' ')[0] for x in log.strip().split('\n')]
    if mode < 4:
        # each of some points fails
        ks = range(n) if n <= 12 and mode == 0 else sorted({d.int(n) for _ in range(3)} | {n - 1 - d.int(min(n, 6)) for _ in range(3)})
        for k in ks:
            s.reset()
            reader = pointless.Pointless(s.fn) if s.kind == 1 and d.bool() else None
            capi.io_arm(capi.IO_FAIL, k, d.choice(ERRS))
            ok = w(s.fn)
            n2 = capi.io_count()
            capi.io_disarm()
            where = '%s (call %d of %d) failing' % (ops[k], k, n)
            if n2 <= k:
                continue
            if ok:
                expect(harmless(ops, k), 'a failed call was ignored', where)
            judge(s, w, ok, where)
            if reader is not None:
                expect(pv.canon_open(reader.GetRoot()) == want, 'a reader of the old file sees other content', where)
                del reader
            c.label('fails: ' + ops[k])
            c.nontrivial('%d/%d/%d/%d/%d' % (hash(w.img), s.kind, w.how, k, mode < 4), lambda: '%s over state %d, image of %d bytes' % (where, s.kind, len(w.img)))
    elif mode < 6:
        for k in sorted({d.int(n), n - 1 - d.int(min(n, 6)), d.int(n)}):
            s.reset()
            r = forked(lambda: (capi.io_arm(capi.IO_EXIT, k, 0), w(s.fn), 40)[-1])
            where = 'process ended at %s (call %d of %d)' % (ops[k], k, n)
            expect(r in (77, 40), 'the process ended in another way', '%s: %s' % (where, r))
            judge(s, w, r == 40, where, may_leave=True)
            c.label('dies at: ' + ops[k])
            c.nontrivial('%d/%d/%d/%d/x' % (hash(w.img), s.kind, w.how, k), where)
            # what it left does not matter to the next write
            expect(w(s.fn) and s.content() == w.img, 'writing fails after an earlier crash', where)
    elif mode == 6:
        # the disk is full after some bytes
        lim = d.choice([0, 1, len(w.img) - 1, len(w.img), d.int(len(w.img))])
        s.reset()

        def go():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            return 40 if w(s.fn) else 41
        r = forked(go)
        expect(r in (40, 41), 'the process ended in another way', r)
        expect((r == 40) == (lim >= len(w.img)), 'a short write was not reported', 'limit %d of %d' % (lim, len(w.img)))
        judge(s, w, r == 40, 'no room after %d of %d bytes' % (lim, len(w.img)))
        c.label('file size limit')
        c.nontrivial('%d/%d/%d/lim%d' % (hash(w.img), s.kind, w.how, lim), 'limit %d of %d' % (lim, len(w.img)))
    else:
        # killed at any time
        s.reset()
        pid = os.fork()
        if pid == 0:
            try:
                while True:
                    w(s.fn)
            finally:
                os._exit(50)
        time.sleep(d.int(3000) / 1e6)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        judge(s, w, False if s.content() == s.prev else True, 'killed', may_leave=True)
        c.label('killed')
        c.nontrivial('%d/%d/%d/kill' % (hash(w.img), s.kind, w.how))
    expect(len(os.listdir('/proc/self/fd')) == fds or fds == 0, 'file descriptors left open')
    s.clean()


def example_every_point(c):
    """Every call of a write of a value of every kind, failing with every error and ending the process."""
    m = [{1: 2, 'a': [1, 2]}, {3, 'x'}, 'é€', [1.5], pv.Bits([1, 0] * 40), ['v', None, (1, 'q')], pv.Prim('i64', [1])]
    for how in (0, 1):
        w = Writer(m, how, c)
        for kind in (0, 1, 2):
            s = State(c, kind)
            capi.io_arm(capi.IO_NONE, -1, 0)
            w(s.fn)
            ops = [x.split(' ')[0] for x in capi.io_log().decode().strip().split('\n')]
            capi.io_disarm()
            check_order('\n'.join(ops), how)
            for k in range(len(ops)):
                for e in ERRS[:2] + [errno.EINTR]:
                    s.reset()
                    capi.io_arm(capi.IO_FAIL, k, e)
                    ok = w(s.fn)
                    capi.io_disarm()
                    if ok:
                        expect(harmless(ops, k), 'a failed call was ignored', ops[k])
                    judge(s, w, ok, '%s (call %d) failing' % (ops[k], k))
                    c.evals += 1
                s.reset()
                r = forked(lambda: (capi.io_arm(capi.IO_EXIT, k, 0), w(s.fn), 40)[-1])
                judge(s, w, r == 40, 'process ended at %s (call %d)' % (ops[k], k), may_leave=True)
                c.evals += 1
            s.clean()
