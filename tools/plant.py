#!/usr/bin/env python3
"""Write and confirm planted bugs.

  plant.py [-n] [-k] [-j N] [ID ...]     specs are read from tools/bugs/*.py (each defines BUGS = [...])

A spec is a dict: id, property, edits=[(file, old, new), ...], demo (shell body or python body), kind ('py'|'c'|'sh'),
files={name: text} laid beside the demo, needs, breaks, also=[other property ids whose checks are run too].
Each is confirmed in a scratch copy of /repo bind-mounted over /repo in a mount namespace of its own:
build, demo exits 0; patch applied: the 32 stable tests pass, the demo fails; then the property's quick check is run.
"""
import sys, os, json, subprocess, glob, runpy, shutil, re, threading
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
BASE = '0c4f27b'
SC = '/tmp/p'

PY = '''#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo/_build/lib PYTHONDONTWRITEBYTECODE=1
cd "$D" && timeout 200 /opt/vp/venv/bin/python - "$HERE" <<'EOF'
%s
EOF
'''
C = '''#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$D" || exit 3
gcc -O1 -w -fcommon -D_GNU_SOURCE -I/repo/include -I/repo/judy-1.0.5/src "$HERE/demo.c" /repo/src/*.c /repo/judy-1.0.5/src/libJudy.a -lm -lpthread -o demo || exit 3
timeout 200 ./demo "$D"
'''

def specs():
    out = []
    for f in sorted(glob.glob(V + '/tools/bugs/*.py')):
        out += runpy.run_path(f)['BUGS']
    ids = [b['id'] for b in out]
    assert len(ids) == len(set(ids)), 'duplicate ids'
    return out

LOCK = threading.Lock()
RESULTS = V + '/tools/bugs/results.json'

def record(b, res):
    # which checks reported it (last run of each check and seed); shown in DESIGN.md by mkdesign.py
    r = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    e = r.setdefault(b['id'], {})
    for m in re.finditer(r'(C\d\d) s(\d+): (CAUGHT|MISSED) ?(.*?)(?= \|\| |$)', res, re.S):
        e.setdefault(m[1], {})[m[2]] = m[3].lower()
    json.dump(r, open(RESULTS, 'w'), indent=1, sort_keys=True)

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, encoding='latin-1', **k)

def one(b, keep, quickonly, seeds):
    id = b['id']
    log = []
    d = f'{SC}/{id}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        r = sh(f'cp -a /repo {d}/repo')
        repo = d + '/repo'
        if r.returncode: return id, 'copy failed ' + r.stderr
        sd = f'{V}/seeded/{id}'
        if not b.get('patch'):
            for f, old, new in b['edits']:
                p = f'{repo}/{f}'
                s = open(p, encoding='latin-1').read()
                if s.count(old) != 1: return id, f'SPEC {f}: old text occurs {s.count(old)} times'
                # every removed line is one of the base's
                at = s[:s.index(old)].count('\n') + 1
                n = old.rstrip('\n').count('\n') + 1
                bl = sh(f'git -C {repo} blame -s -L {at},{at+n-1} HEAD -- {f}').stdout.splitlines()
                open(p, 'w', encoding='latin-1').write(s.replace(old, new))
            diff = sh(f'git -C {repo} diff').stdout
            # removed lines must be base lines
            bad = []
            for f in {e[0] for e in b['edits']}:
                dd = sh(f'git -C {repo} diff -U0 -- {f}').stdout
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', dd, re.M):
                    a, n = int(m[1]), int(m[2] or 1)
                    if n:
                        for l in sh(f'git -C {repo} blame -s -L {a},{a+n-1} HEAD -- {f}').stdout.splitlines():
                            if not l.startswith('^'): bad.append(l[:100])
            if bad: log.append('NOT-BASE-LINES ' + ' | '.join(bad))
            sh(f'git -C {repo} checkout -- .')
        else:
            diff = b['patch']
        os.makedirs(sd, exist_ok=True)
        open(sd + '/patch.diff', 'w', encoding='latin-1').write(diff)
        kind = b.get('kind', 'py')
        body = {'py': PY % b['demo'].strip() if kind == 'py' else '', 'c': C, 'sh': b['demo']}[kind]
        open(sd + '/demo.sh', 'w').write(body)
        os.chmod(sd + '/demo.sh', 0o755)
        if kind == 'c': open(sd + '/demo.c', 'w').write(b['demo'].strip() + '\n')
        for n, t in b.get('files', {}).items(): open(f'{sd}/{n}', 'w').write(t)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(sd + '/meta.json', 'w'), indent=1)
        # demos run from a copy without the diff and meta
        sh(f'mkdir -p {d}/demo && cp {sd}/* {d}/demo/ && rm -f {d}/demo/*.diff {d}/demo/meta.json')
        def ns(cmd, t=900):
            return sh(f"timeout {t} unshare -m bash -c 'mount --bind {repo} /repo && cd /repo && {cmd}'")
        r = ns('bash /opt/vp/build.sh')
        if r.returncode: return id, 'clean build failed ' + r.stdout[-300:]
        r = ns(f'bash {d}/demo/demo.sh')
        if r.returncode: return id, f'DEMO-FAILS-CLEAN rc={r.returncode} ' + (r.stdout + r.stderr)[-600:]
        r = sh(f'git -C {repo} apply {sd}/patch.diff')
        if r.returncode: return id, 'apply failed ' + r.stderr
        r = ns('bash /opt/vp/build.sh')
        if r.returncode: return id, 'BUILD-FAILS ' + r.stdout[-800:] + r.stderr[-800:]
        r = ns(f'bash {d}/demo/demo.sh')
        if r.returncode == 0: return id, 'DEMO-PASSES-WITH-BUG'
        log.append(f'demo rc={r.returncode}: ' + (r.stdout + r.stderr).strip()[-150:].replace('\n', ' / '))
        if r.returncode == 3: return id, 'DEMO broken ' + log[-1]
        if not quickonly:
            r = ns(f'bash /opt/vp/test.sh {d}/out.json >{d}/test.log 2>&1')
            o = json.load(open(f'{d}/out.json'))
            want = json.load(open('/opt/vp/BASELINE.json'))
            want = want['stable']
            missing = [t for t in want if t not in o['passed']]
            if missing: return id, f'TESTS-FAIL {missing[:5]} ' + log[-1]
        for pid in [b['property']] + list(b.get('also', ())):
            for seed in seeds:
                sh(f'test -d {d}/verif || (mkdir {d}/verif && cd {V} && cp -a check checks lib csrc tools known_findings.txt {d}/verif/ && mkdir {d}/verif/evidence {d}/verif/replay)')
                r = ns(f'mount --bind {d}/verif {V}; cd {V}; VERIF_SEED={seed} ./check {pid} quick 2>&1 | cut -c1-300 | tail -5')
                ls = r.stdout.strip().splitlines()
                hit = [l for l in ls if l.startswith(f'VIOLATION property={pid}')]
                log.append(f"{pid} s{seed}: " + ('CAUGHT ' if hit else 'MISSED ') + (ls[-2][:160] if hit and len(ls) > 1 else ' / '.join(ls[-2:])[:200]))
        return id, ' || '.join(log)
    finally:
        if not keep: shutil.rmtree(d, ignore_errors=True)

def main():
    a = sys.argv[1:]
    keep = '-k' in a; quick = '-n' in a
    j = 3
    seeds = [1]
    if '-j' in a: i = a.index('-j'); j = int(a[i+1]); del a[i:i+2]
    if '-s' in a: i = a.index('-s'); seeds = [int(x) for x in a[i+1].split(',')]; del a[i:i+2]
    ids = [x for x in a if not x.startswith('-')]
    bs = [b for b in specs() if not ids or any(b['id'] == i or b['id'].startswith(i) for i in ids)]
    with ThreadPoolExecutor(j) as ex:
        def go(b):
            try: id, res = one(b, keep, quick, seeds)
            except Exception as e: id, res = b['id'], f'EXC {e!r}'
            ok = ' s%d: ' % seeds[0] in res
            if not ok: shutil.rmtree(f'{V}/seeded/{id}', ignore_errors=True)
            if ok:
                with LOCK: record(b, res)
            print(('ok  ' if ok else 'BAD ') + f'{id}: {res}', flush=True)
        list(ex.map(go, bs))
main()
