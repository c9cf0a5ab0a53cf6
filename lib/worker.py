"""Runs cases of one check in one process. Started by runner.py with the build of the wanted variant on PYTHONPATH.

  worker.py run    CHECK variant seed worker nworkers budget mincases maxcases tier out
  worker.py replay CHECK variant tapefile out
  worker.py shrink CHECK variant tapefile out seconds
  worker.py seeds  CHECK variant seed outdir n
  worker.py known  CHECK variant key out
"""
import gc
import importlib
import json
import mmap
import os
import resource
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/lib')
sys.path.insert(0, VERIF)

from harness import Ctx, Discard, Draw, Fail  # noqa: E402

CASE_CPU = 30


def load(check):
    return importlib.import_module('checks.' + check)


def describe(e):
    if isinstance(e, Fail):
        return e.label, str(e.msg)
    tb = traceback.extract_tb(e.__traceback__)
    where = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
    return 'unexpected ' + type(e).__name__, '%s at %s' % (str(e)[:600], where)


def run_case(mod, case, c):
    """case: ('tape', tape) | ('seed', s) | ('example', name) | ('enum', i). Returns None or (label, msg, tape)."""
    kind, arg = case
    d = None
    try:
        if kind == 'example':
            name, _, part = arg.partition('@')      # name@part/parts
            c.part, c.parts = map(int, (part or '0/1').split('/'))
            getattr(mod, name)(c)
        elif kind == 'enum':
            mod.enum_case(arg, c)
        else:
            d = Draw(seed=arg) if kind == 'seed' else Draw(tape=arg)
            mod.prop(d, c)
        c.evals += 1
    except Discard:
        c.discarded += 1
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa
        label, msg = describe(e)
        return label, msg, (d.tape if d else None)
    return None


def examples(mod):
    return [n for n in dir(mod) if n.startswith('example_')]


def main_run(a):
    check, variant, seed, worker, nworkers, budget, mincases, maxcases, tier, out = a
    worker, nworkers, budget, mincases, maxcases = int(worker), int(nworkers), float(budget), int(mincases), int(maxcases)
    t0 = time.monotonic()
    hbf = os.open(out + '.hb', os.O_RDWR | os.O_CREAT)
    os.ftruncate(hbf, 64)
    hb = mmap.mmap(hbf, 64)
    mod = load(check)
    scratch = out + '.scratch'
    os.makedirs(scratch, exist_ok=True)
    c = Ctx(variant, tier, int(seed), worker, nworkers, scratch=scratch)
    if hasattr(mod, 'setup'):
        mod.setup(c)

    def dump(done, failure=None):
        with open(out + '.json.tmp', 'w') as f:
            json.dump({'done': done, 'evals': c.evals, 'discarded': c.discarded, 'labels': c.labels, 'samples': c.samples,
                       'nt': c._nt_hits, 'failure': failure, 'wall': time.monotonic() - t0}, f)
        with open(out + '.keys', 'wb') as f:
            f.write(b''.join(c.keys))
        os.rename(out + '.json.tmp', out + '.json')

    part, parts = map(int, os.environ.get('VP_PART', '0/1').split('/'))    # among the workers of the variant

    def cases():
        for i, n in enumerate(examples(mod)):
            # once in each variant; those that divide their work, in all workers of the variant
            if getattr(getattr(mod, n), 'divided', False):
                yield 1, i, ('example', '%s@%d/%d' % (n, part, parts))
            elif i % parts == part:
                yield 1, i, ('example', n)
        if hasattr(mod, 'enum_count'):
            n = mod.enum_count(tier)
            for i in range(worker, n, nworkers):
                yield 2, i, ('enum', i)
        i = 0
        while True:
            yield 3, i, ('seed', '%s/%s/%d/%d' % (check, seed, worker, i))
            i += 1

    gc.collect()
    gc.freeze()
    next_dump = t0 + 3
    n = 0
    for kind, i, case in cases():
        now = time.monotonic()
        if kind == 3 and ((now - t0 >= budget and i >= mincases) or i >= maxcases):
            break
        if now > next_dump:
            next_dump = now + 3
            dump(False)
        struct.pack_into('<QQQ', hb, 0, kind, i, n)
        n += 1
        r = run_case(mod, case, c)
        if r:
            dump(True, {'label': r[0], 'msg': r[1], 'tape': r[2], 'case': list(case)})
            os._exit(10)
    if hasattr(mod, 'finish'):
        mod.finish(c)
    dump(True)
    sys.stdout.flush()
    os._exit(0)


def child(mod, variant, tier, case, verbose=False, cpu=CASE_CPU, scratch='/tmp'):
    """Runs a case in a forked child. Returns None, or (label, msg, tape, notes)."""
    if case[0] == 'example':
        cpu = getattr(mod, 'LONG', {}).get(case[1].partition('@')[0], cpu)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            signal.alarm(cpu * 8)
            if not verbose:
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 2)
                os.dup2(dn, 1)
            os.makedirs(scratch, exist_ok=True)
            c = Ctx(variant, tier, verbose=verbose, scratch=scratch)
            if hasattr(mod, 'setup'):
                mod.setup(c)
            res = run_case(mod, case, c)
            if res:
                with os.fdopen(w, 'w') as f:
                    json.dump([res[0], res[1], res[2], c.notes], f)
                code = 10
            elif verbose:
                with os.fdopen(w, 'w') as f:
                    json.dump([None, None, None, c.notes], f)
        except BaseException:  # noqa
            traceback.print_exc()
            code = 11
        os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s in (signal.SIGXCPU, signal.SIGALRM, signal.SIGKILL):
            return 'hang', 'no result after %d s of CPU time' % cpu, None, []
        return 'crash', 'ended by signal %d' % s, None, []
    code = os.WEXITSTATUS(st)
    if code == 0:
        return None
    if code == 10 and data:
        return tuple(json.loads(data))
    if code == 99:
        return 'crash', 'AddressSanitizer report', None, []
    return 'crash', 'exit status %d' % code, None, []


def main_replay(a):
    check, variant, tapefile, out = a
    mod = load(check)
    with open(tapefile) as f:
        rec = json.load(f)
    case = tuple(rec['case'])
    r = child(mod, variant, rec.get('tier', 'quick'), case, verbose=True, scratch=out + '.scratch')
    with open(out, 'w') as f:
        json.dump(r, f)
    os._exit(10 if r else 0)


def main_shrink(a):
    check, variant, tapefile, out, seconds = a
    mod = load(check)
    with open(tapefile) as f:
        rec = json.load(f)
    deadline = time.monotonic() + float(seconds)
    label = rec['label']
    tier = rec.get('tier', 'quick')
    n_try = [0]

    def fails(tape):
        n_try[0] += 1
        r = child(mod, variant, tier, ('tape', tape), scratch=out + '.scratch', cpu=10 if label == 'hang' else CASE_CPU)
        return bool(r) and (r[0] == label)

    best = rec['case'][1]

    def attempt(t):
        nonlocal best
        if time.monotonic() > deadline:
            raise TimeoutError
        if fails(t):
            best = t
            return True
        return False

    def save():
        with open(out + '.tmp', 'w') as f:
            json.dump({'tape': best, 'tries': n_try[0]}, f)
        os.rename(out + '.tmp', out)

    try:
        # trailing part first
        lo, hi = 0, len(best)
        while lo < hi:
            mid = (lo + hi) // 2
            if attempt(best[:mid]):
                hi = mid
            else:
                lo = mid + 1
        changed = True
        while changed:
            changed = False
            save()
            size = max(1, len(best) // 2)
            while size >= 1:
                i = 0
                while i < len(best):
                    if attempt(best[:i] + best[i + size:]):
                        changed = True
                    else:
                        i += size
                size //= 2
            for size in (8, 4, 2, 1):
                for i in range(0, len(best), size):
                    blk = best[i:i + size]
                    if any(blk) and attempt(best[:i] + [0] * len(blk) + best[i + size:]):
                        changed = True
            for i in range(len(best)):
                if i < len(best) and best[i] > 1:
                    lo, hi = 0, best[i]
                    while lo < hi:
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                            changed = True
                        else:
                            lo = mid + 1
            # lower an entry and drop one after it (lengths)
            for i in range(len(best)):
                if i < len(best) and best[i] > 0:
                    for k in range(i + 1, min(len(best), i + 12)):
                        if attempt(best[:i] + [best[i] - 1] + best[i + 1:k] + best[k + 1:]):
                            changed = True
                            break
    except TimeoutError:
        pass
    save()
    os._exit(0)


def main_trace(a):
    """The tape of a case that ends its process."""
    check, variant, tapefile, out = a
    mod = load(check)
    with open(tapefile) as f:
        rec = json.load(f)
    mm = mmap.mmap(-1, 1 << 24)
    pid = os.fork()
    if pid == 0:
        resource.setrlimit(resource.RLIMIT_CPU, (CASE_CPU, CASE_CPU + 5))
        signal.alarm(CASE_CPU * 8)
        d = Draw(seed=rec['case'][1])
        inner, n = d.int, [8]

        def traced(k):
            v = inner(k)
            struct.pack_into('<Q', mm, n[0], v & 0xffffffffffffffff)
            struct.pack_into('<Q', mm, 0, (n[0] - 8) // 8 + 1)
            n[0] += 8
            return v
        d.int = traced
        os.makedirs(out + '.scratch', exist_ok=True)
        c = Ctx(variant, rec.get('tier', 'quick'), scratch=out + '.scratch')
        code = 0
        try:
            if hasattr(mod, 'setup'):
                mod.setup(c)
            mod.prop(d, c)
        except BaseException:  # noqa
            code = 10
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    k = struct.unpack_from('<Q', mm, 0)[0]
    with open(out, 'w') as f:
        json.dump({'status': st, 'tape': list(struct.unpack_from('<%dQ' % k, mm, 8))}, f)
    os._exit(0)


def main_seeds(a):
    """Writes inputs for the coverage-guided fuzzer."""
    check, variant, seed, out, n = a
    mod = load(check)
    os.makedirs(out, exist_ok=True)
    for i in range(int(n)):
        try:
            b = mod.fuzz_seed(Draw(seed='seeds/%s/%s/%d' % (check, seed, i)))
        except Discard:
            continue
        if b is not None and len(b) <= 4096:
            with open(os.path.join(out, 's%d' % i), 'wb') as f:
                f.write(b)
    os._exit(0)


def main_known(a):
    check, variant, key, out = a
    mod = load(check)
    c = Ctx(variant, scratch=out + '.scratch')
    os.makedirs(c.scratch, exist_ok=True)
    r = mod.KNOWN[key](c)
    with open(out, 'w') as f:
        json.dump(r, f)
    os._exit(0)


if __name__ == '__main__':
    mode = sys.argv[1]
    {'run': main_run, 'replay': main_replay, 'shrink': main_shrink, 'trace': main_trace, 'known': main_known, 'seeds': main_seeds}[mode](sys.argv[2:])
