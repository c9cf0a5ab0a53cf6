"""Builds /repo's working tree (library, Python extension, judy) out of tree, in several variants.

Everything goes below $VERIF_BUILD (default /verif/build, git-ignored), keyed by the hash of all the sources read,
so that a changed working tree always gets a build of its own.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
EXT = 'pointless' + (sysconfig.get_config_var('EXT_SUFFIX') or '.so')
PYINC = sysconfig.get_paths()['include']

WRAPS = ('malloc calloc realloc free strdup fopen fdopen mkstemp mkstemps mkostemp open fwrite write pwrite fflush fsync '
         'fdatasync fclose close fchmod chmod rename link unlink remove ftruncate mmap').split()

ASAN = '-fsanitize=address'
UB = '-fsanitize=bounds,null,integer-divide-by-zero,return,unreachable,vla-bound'

VARIANTS = {
    # name: (cc, cflags, ldflags)
    'rel': ('gcc', '-O2 -g -DNDEBUG -std=c99 -fPIC', ''),
    'asan': ('clang', '-O1 -g -DNDEBUG -std=c99 -fPIC -fno-omit-frame-pointer %s' % (ASAN,), '-shared-libasan ' + ASAN),
    'dbg': ('gcc', '-O1 -g -fPIC', ''),
    'tsan': ('clang', '-O1 -g -DNDEBUG -std=c99 -fno-omit-frame-pointer -fsanitize=thread', ''),
    'fuzz': ('clang', '-O1 -g -DNDEBUG -std=c99 -fPIC -fno-omit-frame-pointer -fsanitize=address,fuzzer-no-link', ''),
}


class BuildError(Exception):
    pass


def _sh(cmd, cwd=None):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (cmd if isinstance(cmd, str) else ' '.join(cmd), p.stdout[-8000:]))
    return p.stdout


def repo_files():
    out = []
    for top in ('src', 'python', 'include', 'judy-1.0.5/src'):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.c', '.h')):
                    out.append(os.path.join(root, f))
    for f in sorted(os.listdir(REPO)):
        if f.endswith(('.c', '.h')) or f == 'setup.py':
            out.append(os.path.join(REPO, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in repo_files():
        if os.path.islink(f) or re.search(r'Judy[1L]Tables\.c$', f):
            continue
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    for f in sorted(glob.glob(VERIF + '/csrc/*')) + [os.path.abspath(__file__)]:
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def ext_sources():
    try:
        with open(os.path.join(REPO, 'setup.py')) as f:
            names = re.findall(r"^\s*['\"]([\w./-]+\.c)['\"]", f.read(), re.M)
    except OSError:
        names = []
    names = [n for n in names if os.path.exists(os.path.join(REPO, n))]
    if not names:
        names = ['pointless_ext.c'] + ['python/' + os.path.basename(p) for p in sorted(glob.glob(REPO + '/python/*.c'))]
    # the rest of the C library is tested through the same shared object
    return names + [n for n in lib_sources() if n not in names]


def lib_sources():
    return ['src/' + os.path.basename(p) for p in sorted(glob.glob(REPO + '/src/*.c'))]


JUDY_COMMON = {
    'ByCount': ('JudyByCount.c', '-DNOSMARTJBB -DNOSMARTJBU -DNOSMARTJLB'), 'Cascade': ('JudyCascade.c', ''),
    'Count': ('JudyCount.c', ''), 'CreateBranch': ('JudyCreateBranch.c', ''), 'Decascade': ('JudyDecascade.c', ''),
    'First': ('JudyFirst.c', ''), 'FreeArray': ('JudyFreeArray.c', ''), 'InsertBranch': ('JudyInsertBranch.c', ''),
    'MallocIF': ('JudyMallocIF.c', ''), 'MemActive': ('JudyMemActive.c', ''), 'MemUsed': ('JudyMemUsed.c', ''),
    'Next': ('JudyPrevNext.c', '-DJUDYNEXT'), 'Prev': ('JudyPrevNext.c', '-DJUDYPREV'),
    'NextEmpty': ('JudyPrevNextEmpty.c', '-DJUDYNEXT'), 'PrevEmpty': ('JudyPrevNextEmpty.c', '-DJUDYPREV'),
}
JUDY_1 = {'Unset': ('JudyDel.c', ''), 'Test': ('JudyGet.c', ''), 'SetArray': ('JudyInsArray.c', ''), 'Set': ('JudyIns.c', '')}
JUDY_L = {'Del': ('JudyDel.c', ''), 'Get': ('JudyGet.c', ''), 'InsArray': ('JudyInsArray.c', ''), 'Ins': ('JudyIns.c', '')}


def build_judy(out, ex, cc='gcc', more=()):
    """The same objects as judy's sh_build, out of tree."""
    lib = os.path.join(out, 'libJudy.a')
    if os.path.exists(lib):
        return lib
    src = os.path.join(REPO, 'judy-1.0.5/src')
    obj = os.path.join(out, 'judy.%d' % os.getpid())
    os.makedirs(obj, exist_ok=True)
    gen_base = ['gcc', '-DJU_64BIT', '-O0', '-fPIC', '-fno-strict-aliasing', '-fno-aggressive-loop-optimizations', '-w',
                '-I' + src, '-I' + src + '/JudyCommon']
    base = [cc] + [x for x in gen_base[1:] if cc == 'gcc' or x != '-fno-aggressive-loop-optimizations'] + list(more)
    jobs, objs = [], []

    def add(cfile, o, flags, inc):
        o = os.path.join(obj, o)
        objs.append(o)
        jobs.append(base + ['-I' + inc] + flags.split() + ['-c', cfile, '-o', o])

    for which, d, extra in (('Judy1', '-DJUDY1', JUDY_1), ('JudyL', '-DJUDYL', JUDY_L)):
        inc = os.path.join(src, which)
        gen = os.path.join(obj, which + 'TablesGen')
        _sh(gen_base + ['-I' + inc, d, src + '/JudyCommon/JudyTables.c', '-o', gen])
        gd = os.path.join(obj, which)
        os.makedirs(gd, exist_ok=True)
        _sh([gen], cwd=gd)
        add(os.path.join(gd, which + 'Tables.c'), which + 'Tables.o', d, inc)
        names = dict(JUDY_COMMON)
        names.update(extra)
        for n, (cf_, fl) in names.items():
            add(src + '/JudyCommon/' + cf_, which + n + '.o', d + ' ' + fl, inc)
        add(src + '/JudyCommon/JudyGet.c', 'j__ud' + which[3:] + 'Get.o', d + ' -DJUDYGETINLINE', inc)
    add(src + '/JudyCommon/JudyMalloc.c', 'JudyMalloc.o', '', src)
    add(src + '/JudySL/JudySL.c', 'JudySL.o', '', src)
    add(src + '/JudyHS/JudyHS.c', 'JudyHS.o', '', src)
    list(ex.map(_sh, jobs))
    tmp = lib + '.%d' % os.getpid()
    if os.path.exists(tmp):
        os.unlink(tmp)
    _sh(['ar', 'rcs', tmp] + objs)
    os.rename(tmp, lib)
    shutil.rmtree(obj)
    return lib


def _compile(ex, variant, names, shims, out):
    cc, cflags, _ = VARIANTS[variant]
    os.makedirs(out, exist_ok=True)
    inc = ['-I' + REPO + '/include', '-I' + REPO + '/judy-1.0.5/src', '-I' + REPO, '-I' + PYINC, '-D_GNU_SOURCE', '-w']
    jobs, objs = [], []
    for n in names:
        o = os.path.join(out, n.replace('/', '_')[:-2] + '.o')
        objs.append(o)
        jobs.append([cc] + cflags.split() + inc + ['-c', os.path.join(REPO, n), '-o', o])
    for n in shims:
        o = os.path.join(out, 'shim_' + os.path.basename(n)[:-2] + '.o')
        objs.append(o)
        jobs.append([cc] + cflags.replace('-std=c99', '-std=gnu11').split() + inc + ['-c', n, '-o', o])
    list(ex.map(_sh, jobs))
    return objs


def _locked(fn):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return fn()


def _prune(keep):
    ds = [d for d in glob.glob(BUILD + '/*-*') if os.path.isdir(d) and not os.path.basename(d).endswith(keep)]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-6]:
        shutil.rmtree(d, ignore_errors=True)


def build_ext(variant='rel'):
    """Returns the directory that holds pointless.*.so, built from /repo's working tree."""
    key = tree_hash()
    out = os.path.join(BUILD, variant + '-' + key)
    so = os.path.join(out, EXT)

    def go():
        if os.path.exists(so):
            return out
        os.makedirs(out, exist_ok=True)
        with cf.ThreadPoolExecutor(16) as ex:
            judy = build_judy(out, ex)
            objs = _compile(ex, variant, ext_sources(), [VERIF + '/csrc/shim_fault.c', VERIF + '/csrc/shim_api.c', VERIF + '/csrc/read_all.c'], out + '/obj')
        cc, cflags, ld = VARIANTS[variant]
        tmp = so + '.tmp'
        wraps = ['-Wl,--wrap=' + w for w in WRAPS]
        _sh([cc, '-shared', '-o', tmp] + objs + ['-Wl,--whole-archive', judy, '-Wl,--no-whole-archive', '-lm', '-Wl,-Bsymbolic'] + wraps + ld.split())
        os.rename(tmp, so)
        shutil.rmtree(out + '/obj')
        _prune(key)
        return out
    return _locked(go)


def build_fuzzer(name):
    """A libFuzzer target csrc/<name>.c over src/*.c, under ASan."""
    key = tree_hash()
    out = os.path.join(BUILD, 'fuzz-' + key)
    exe = os.path.join(out, name)

    def go():
        if os.path.exists(exe):
            return exe
        os.makedirs(out, exist_ok=True)
        with cf.ThreadPoolExecutor(16) as ex:
            judy = build_judy(out, ex)
            objs = _compile(ex, 'fuzz', lib_sources(), [VERIF + '/csrc/%s.c' % name], out + '/obj_' + name)
        _sh(['clang', '-fsanitize=address,fuzzer', '-o', exe + '.tmp'] + objs + [judy, '-lm'])
        os.rename(exe + '.tmp', exe)
        shutil.rmtree(out + '/obj_' + name)
        return exe
    return _locked(go)


def build_threads():
    """csrc/threads.c with src/*.c and judy, under ThreadSanitizer."""
    key = tree_hash()
    out = os.path.join(BUILD, 'tsan-' + key)
    exe = os.path.join(out, 'threads')

    def go():
        if os.path.exists(exe):
            return exe
        os.makedirs(out, exist_ok=True)
        with cf.ThreadPoolExecutor(16) as ex:
            judy = build_judy(out, ex, 'clang', ['-g', '-fsanitize=thread'])
            objs = _compile(ex, 'tsan', lib_sources(), [VERIF + '/csrc/threads.c', VERIF + '/csrc/read_all.c'], out + '/obj')
        _sh(['clang', '-fsanitize=thread', '-o', exe + '.tmp'] + objs + [judy, '-lm', '-lpthread'])
        os.rename(exe + '.tmp', exe)
        shutil.rmtree(out + '/obj')
        return exe
    return _locked(go)


def asan_env(env=None):
    env = dict(os.environ if env is None else env)
    rt = subprocess.run(['clang', '-print-file-name=libclang_rt.asan-x86_64.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    env['LD_PRELOAD'] = rt
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096'
    env['PYTHONMALLOC'] = 'malloc'
    return env


if __name__ == '__main__':
    for v in sys.argv[1:] or ['rel', 'asan']:
        print(build_ext(v))
