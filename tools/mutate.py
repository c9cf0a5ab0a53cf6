"""Mutation testing of the checks: small changes of the C sources, each tried against short runs of all checks.

  python3 tools/mutate.py N SEED [FILE-PREFIX …]      samples N mutants, prints those that no check noticed
  python3 tools/mutate.py again RESULTS               runs the survivors in RESULTS against longer runs, with AddressSanitizer too

No check reads what this writes; it serves to find what the checks do not cover.
"""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOP = os.environ.get('MU', '/tmp/mu')
os.environ.setdefault('VERIF_REPO', TOP + '/base')
os.environ.setdefault('VERIF_BUILD', TOP + '/build')
sys.path.insert(0, HERE + '/lib')
import vbuild  # noqa: E402

PY = '/opt/veriftools/pyvenv/bin/python' if os.path.exists('/opt/veriftools/pyvenv/bin/python') else 'python3-vt'
ALL = ['C%02d' % i for i in range(1, 27)]
FIRST = {'bitvector': ['C16', 'C17', 'C13', 'C26'], 'prim_vector': ['C18', 'C20', 'C19', 'C26', 'C15'], 'pyobject_cmp': ['C14', 'C15'], 'pyobject_hash': ['C13', 'C10'],
         'python/pointless_map': ['C10', 'C09', 'C21'], 'python/pointless_set': ['C10', 'C09'], 'python/pointless_vector': ['C15', 'C18'], 'print': ['C21'], 'python/pointless_create': ['C01', 'C03', 'C05', 'C02'],
         'src/pointless_create': ['C25', 'C01', 'C04', 'C06', 'C23'], 'recreate': ['C05'], 'eval': ['C12'], 'int_ops': ['C24'], 'reader_helpers': ['C11'], 'cycle': ['C08', 'C03', 'C02'], 'validate': ['C08', 'C07'],
         'src/pointless_cmp': ['C14'], 'src/pointless_hash': ['C13', 'C10', 'C11'], 'debug': ['C21'], 'custom_sort': ['C19'], 'python/pointless_object': ['C09', 'C26'], 'reader': ['C11', 'C09', 'C07'], 'unicode': ['C01', 'C25'],
         'dynarray': ['C18', 'C23'], 'walk': ['C07', 'C09']}


def order(f):
    first = []
    for k, v in FIRST.items():
        if k in f:
            first += [x for x in v if x not in first]
    return first + [x for x in ALL if x not in first]


REL = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), (' * ', ' + '),
       (' + 1', ''), (' - 1', ''), ('++', '--'), (' += ', ' -= '), (' |= ', ' &= '), (' & ', ' | '), (' << ', ' >> '), ('uint64_t ', 'uint32_t '), ('uint32_t ', 'uint16_t '), ('int64_t ', 'int32_t '), ('size_t ', 'uint16_t '),
       ('UINT32_MAX', 'INT32_MAX'), ('INT32_MAX', 'INT16_MAX'), ('UINT16_MAX', 'INT16_MAX'), ('UINT8_MAX', 'INT8_MAX'), ('SIZE_MAX', 'UINT32_MAX'), ('Py_INCREF(', '(void)('), ('Py_DECREF(', '(void)('), ('Py_XDECREF(', '(void)('),
       ('return 1;', 'return 0;'), ('return 0;', 'return 1;'), ('return -1;', 'return 0;'), ('(!', '('), ('if (', 'if (0 && '), ('if (', 'if (1 || ')]


def mutants(f, text):
    depth = 0
    comment = False
    for i, line in enumerate(text.split('\n')):
        s = line.strip()
        d0 = depth
        depth += line.count('{') - line.count('}')
        if '/*' in s:
            comment = '*/' not in s
            continue
        if comment:
            comment = '*/' not in s
            continue
        if d0 <= 0 or not s or s.startswith(('//', '#', '*', 'assert', 'printf', 'fprintf')) or 'PyErr_' in s or 'assert(' in s:
            continue
        code = line.split('//')[0]
        plain = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: 'S' * len(m.group()), code)
        for a, b in REL:
            j = plain.find(a)
            while j >= 0:
                if not (a in ('uint64_t ', 'uint32_t ', 'int64_t ', 'size_t ') and j and (plain[j - 1].isalnum() or plain[j - 1] == '_')):
                    out = code[:j] + b + code[j + len(a):]
                    if b.startswith('if ('):
                        m = re.match(r'(\s*(?:\} else )?)if \((.*)\)( \{)?\s*$', code)
                        out = '%sif (%d %s (%s))%s' % (m.group(1), b[4] == '1', b[6:8], m.group(2), m.group(3) or '') if m else None
                    if out:
                        yield f, i, out, a.strip() + ' -> ' + b.strip()
                j = plain.find(a, j + 1)
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', plain):
            yield f, i, code[:m.start()] + str(int(m.group()) + 1) + code[m.end():], m.group() + ' + 1'
        if re.match(r'^[\w\->.\[\]\*\(\) &]+ (=|\+=|-=|\|=|&=) [^{]*;$', s) and not re.match(r'^(const )?\w+\*? \*?\w+ = ', s) or re.match(r'^[\w\->.]+\(.*\);$', s) or s in ('break;', 'continue;') or re.match(r'^[\w\->.]+(\+\+|--);$', s):
            yield f, i, re.match(r'\s*', line).group() + ';', 'deleted'


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def cflags(variant, repo):
    cc, fl, ld = vbuild.VARIANTS[variant]
    fl = fl.replace('-g ', '')
    return [cc] + fl.split() + ['-I%s/include' % repo, '-I%s/judy-1.0.5/src' % repo, '-I' + repo, '-I' + vbuild.PYINC, '-D_GNU_SOURCE', '-w']


def link(variant, objs, out):
    cc, fl, ld = vbuild.VARIANTS[variant]
    return sh([cc, '-shared', '-o', out] + objs + [TOP + '/build/judy/libJudy.a', '-lm', '-Wl,-Bsymbolic'] + ['-Wl,--wrap=' + w for w in vbuild.WRAPS] + ld.split())


def prepare(variants):
    base = TOP + '/base'
    if not os.path.exists(base):
        os.makedirs(TOP, exist_ok=True)
        sh(['git', 'clone', '-q', '/repo', base])
    with cf.ThreadPoolExecutor(8) as ex:
        os.makedirs(TOP + '/build/judy', exist_ok=True)
        vbuild.build_judy(TOP + '/build/judy', ex)
        for v in variants:
            od = '%s/obj-%s' % (TOP, v)
            if os.path.exists(od + '/done'):
                continue
            os.makedirs(od, exist_ok=True)
            jobs = [cflags(v, base) + ['-c', os.path.join(base, n), '-o', '%s/%s.o' % (od, n.replace('/', '_'))] for n in vbuild.ext_sources()]
            for n in ('shim_fault', 'shim_api', 'read_all'):
                jobs.append([x.replace('-std=c99', '-std=gnu11') for x in cflags(v, base)] + ['-c', '%s/csrc/%s.c' % (HERE, n), '-o', '%s/%s.o' % (od, n)])
            for r in ex.map(sh, jobs):
                assert r.returncode == 0, r.stdout
            open(od + '/done', 'w').close()


def build(mu, d, variant):
    """'same', 'bad', or None"""
    f, i, out, what = mu
    base = TOP + '/base'
    with open(os.path.join(base, f), encoding='latin-1', newline='') as fh:
        lines = fh.read().split('\n')
    lines[i] = out
    src = os.path.join(d, 'm.c')
    with open(src, 'w', encoding='latin-1', newline='') as fh:
        fh.write('\n'.join(lines))
    od = '%s/obj-%s' % (TOP, variant)
    mine = os.path.join(od, f.replace('/', '_') + '.o')
    o = os.path.join(d, 'm.o')
    # includes are found as from the original place
    if sh(cflags(variant, base) + ['-I' + os.path.dirname(os.path.join(base, f)), '-c', src, '-o', o]).returncode:
        return 'bad'
    strip = lambda x: sh(['objdump', '-d', '-r', '-s', '-j', '.text', '-j', '.rodata', '-j', '.data', x]).stdout.split(b'\n', 3)[3]
    if variant == 'rel' and strip(o) == strip(mine):
        return 'same'
    os.makedirs(d + '/' + variant, exist_ok=True)
    objs = [o if x == mine else x for x in sorted(glob.glob(od + '/*.o'))]
    r = link(variant, objs, '%s/%s/%s' % (d, variant, vbuild.EXT))
    return None if r.returncode == 0 else 'bad'


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (2**32, 2**32))
    resource.setrlimit(resource.RLIMIT_DATA, (6 * 2**30, 6 * 2**30))


def check(d, variant, name, budget, seed, worker, nworkers):
    env = dict(os.environ)
    if variant == 'asan':
        env = vbuild.asan_env(env)
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='%s/%s:%s/lib:%s' % (d, variant, HERE, HERE), VP_LIB='%s/%s' % (d, variant), VP_PART='%d/%d' % (seed % 4, 4))
    w = d + '/work'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    out = w + '/o'
    p = subprocess.Popen([PY, HERE + '/lib/worker.py', 'run', name, variant, str(seed), str(worker), str(nworkers), str(budget), '0', '1000000000', 'quick', out], cwd=w, env=env, stdin=subprocess.DEVNULL,
                         stdout=open(w + '/log', 'wb'), stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=limits)
    try:
        rc = p.wait(budget * 2 + 90)
    except subprocess.TimeoutExpired:
        rc = 'hang'
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()
    if rc == 0:
        return None
    label = ''
    try:
        with open(out + '.json') as f:
            label = (json.load(f)['failure'] or {}).get('label', '')
    except (OSError, ValueError):
        pass
    return '%s:%s:%s' % (name, rc, label)


def one(args):
    k, mu, budget, variants, nworkers = args
    d = '%s/m%d' % (TOP, k)
    os.makedirs(d, exist_ok=True)
    t = time.time()
    try:
        res = 'survived'
        for v in variants:
            r = build(mu, d, v)
            if r:
                return k, mu, r, 0
        for v in variants:
            for n in order(mu[0]):
                for w in range(1 if nworkers > 1 else 2):
                    r = check(d, v, n, budget, k + 1 + w * 1000, (k + w) % nworkers, nworkers)
                    if r:
                        return k, mu, r + (':asan' if v == 'asan' else ''), time.time() - t
        return k, mu, res, time.time() - t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    again = a[0] == 'again'
    variants = ['rel', 'asan'] if again else ['rel']
    prepare(variants)
    base = TOP + '/base'
    if again:
        todo = [tuple(x['mutant']) for x in map(json.loads, open(a[1])) if x['result'] == 'survived']
        log = a[1] + '.again'
        budget, nw = 10, 1
    else:
        n, seed = int(a[0]), int(a[1])
        ms = []
        for f in vbuild.ext_sources():
            if len(a) > 2 and not f.startswith(tuple(a[2:])):
                continue
            with open(os.path.join(base, f), encoding='latin-1', newline='') as fh:
                ms += list(mutants(f, fh.read()))
        random.Random(seed).shuffle(ms)
        print(len(ms), 'mutants')
        todo = ms[:n]
        log = '%s/results-%d.jsonl' % (TOP, seed)
        budget, nw = 4, 8
    done = {}
    with open(log, 'a') as lf, cf.ProcessPoolExecutor(int(os.environ.get('JOBS', 8))) as ex:
        for k, mu, r, t in ex.map(one, [(i, m, budget, variants, nw) for i, m in enumerate(todo)]):
            lf.write(json.dumps({'mutant': mu, 'result': r, 'seconds': round(t, 1)}) + '\n')
            lf.flush()
            key = r.split(':')[0]
            done[key] = done.get(key, 0) + 1
            if r == 'survived':
                print('%s:%d %s | %s' % (mu[0], mu[1] + 1, mu[3], mu[2].strip()), flush=True)
    print(done)


main()
