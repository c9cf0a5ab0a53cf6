"""Runs one check: builds /repo, spreads cases over workers, shrinks and confirms a failure, writes the evidence."""
import glob
import importlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/lib')
sys.path.insert(0, VERIF)
import vbuild  # noqa: E402

PY = shutil.which('python3-vt') or sys.executable
WORKER = VERIF + '/lib/worker.py'
HANG_CPU = 45.0


def env_for(variant, dirs):
    env = dict(os.environ)
    env.pop('LD_PRELOAD', None)
    if variant == 'asan':
        env = vbuild.asan_env(env)
    env['PYTHONPATH'] = dirs[variant] + ':' + VERIF + '/lib:' + VERIF
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    return env


def cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


def known_findings():
    """(property, key) -> description, from the lines "known: property=<id> key=<key> <what fails>"."""
    out = {}
    try:
        with open(VERIF + '/known_findings.txt') as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
                if m:
                    out[(m.group(1), m.group(2))] = m.group(3)
    except OSError:
        pass
    return out


class Run:
    def __init__(self, check, tier):
        self.check, self.tier = check, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.monotonic()
        self.tmp = tempfile.mkdtemp(prefix='vp_%s_' % check)
        self.mod = None

    def log(self, *a):
        print(*a, flush=True)

    # -- one worker process
    def spawn(self, variant, args, logname, part='0/1'):
        lf = open(os.path.join(self.tmp, logname), 'wb')
        p = subprocess.Popen([PY, WORKER] + [str(x) for x in args], cwd=self.tmp, env=dict(env_for(variant, self.dirs), VP_PART=part),
                             stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        p.logfile = lf.name
        lf.close()
        return p

    def call(self, variant, args, logname, timeout):
        p = self.spawn(variant, args, logname)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.kill(p)
            return None
        return p.returncode

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    def run_workers(self):
        conf = dict(budget=25, min_cases=0, max_cases=10**9, variants=['rel', 'asan'] * 4)
        conf.update(getattr(self.mod, 'CONF', {}))
        if self.tier == 'thorough':
            conf['budget'] = 420
            conf.update(getattr(self.mod, 'CONF_THOROUGH', {}))
        if os.environ.get('VERIF_BUDGET'):
            conf['budget'] = float(os.environ['VERIF_BUDGET'])
        vs = conf['variants']
        ws = []
        for i, v in enumerate(vs):
            out = os.path.join(self.tmp, 'w%d' % i)
            part = '%d/%d' % (vs[:i].count(v), vs.count(v))
            p = self.spawn(v, ['run', self.check, v, self.seed, i, len(vs), conf['budget'], conf['min_cases'], conf['max_cases'], self.tier, out], 'w%d.log' % i, part)
            ws.append(dict(p=p, variant=v, part=part, out=out, hb=None, hb_cpu=0.0, hb_wall=time.monotonic(), state='running'))
        hard = time.monotonic() + conf['budget'] * 3 + 240
        self.fuzz_start(conf)
        failures = []
        while any(w['state'] == 'running' for w in ws):
            time.sleep(0.05)
            now = time.monotonic()
            for w in ws:
                if w['state'] != 'running':
                    continue
                rc = w['p'].poll()
                if rc is not None:
                    w['state'] = 'done'
                    w['rc'] = rc
                    if rc != 0:
                        failures.append(self.failure_of(w, rc))
                    continue
                hb = self.heartbeat(w['out'])
                cpu = cpu_of(w['p'].pid)
                if hb != w['hb']:
                    w['hb'], w['hb_cpu'], w['hb_wall'] = hb, cpu, now
                elif hb and hb[0] and (cpu - w['hb_cpu'] > self.limit(hb) or now - w['hb_wall'] > max(240, 2 * self.limit(hb))):
                    self.kill(w['p'])
                    w['state'] = 'done'
                    f = self.failure_of(w, 'hang')
                    f['label'] = 'hang'
                    f['msg'] = 'no result after %.0f s of CPU time, %.0f s' % (cpu - w['hb_cpu'], now - w['hb_wall'])
                    failures.append(f)
                elif now > hard:
                    self.kill(w['p'])
                    w['state'] = 'done'
            if failures and any(w['state'] == 'running' for w in ws):
                # give the others a moment, simpler failures may turn up
                end = time.monotonic() + 2
                while time.monotonic() < end and any(w['state'] == 'running' and w['p'].poll() is None for w in ws):
                    time.sleep(0.05)
                for w in ws:
                    if w['state'] == 'running':
                        rc = w['p'].poll()
                        if rc is None:
                            self.kill(w['p'])
                        elif rc != 0:
                            failures.append(self.failure_of(w, rc))
                        w['state'] = 'done'
        self.workers = ws
        self.fuzz_end(conf, bool(failures))
        return failures

    # -- coverage-guided fuzzing of a C target, next to the workers
    def fuzz_start(self, conf):
        self.fuzzers, self.fuzz_findings, self.fuzz_units, self.fuzz_corpus = [], [], 0, 0
        name = getattr(self.mod, 'FUZZER', None)
        if not name:
            return
        self.fuzz_exe = vbuild.build_fuzzer(name)
        seeds = os.path.join(self.tmp, 'seeds')
        self.call('rel', ['seeds', self.check, 'rel', self.seed, seeds, 600], 'seeds.log', 120)
        for i in range(getattr(self.mod, 'FUZZ_JOBS', 2)):
            cor = os.path.join(self.tmp, 'corpus%d' % i)
            os.makedirs(cor, exist_ok=True)
            lf = os.path.join(self.tmp, 'fuzz%d.log' % i)
            with open(lf, 'wb') as f:
                p = subprocess.Popen([self.fuzz_exe, '-max_total_time=%d' % max(5, conf['budget']), '-seed=%d' % (self.seed * 100 + i + 1), '-max_len=4096', '-timeout=25',
                                      '-rss_limit_mb=4096', '-print_final_stats=1', '-close_fd_mask=1', '-artifact_prefix=%s/art%d_' % (self.tmp, i), cor, seeds],
                                     cwd=self.tmp, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
            self.fuzzers.append((p, lf, cor))

    def fuzz_end(self, conf, stop):
        end = time.monotonic() + 60
        for i, (p, lf, cor) in enumerate(self.fuzzers):
            if not stop:
                try:
                    p.wait(max(1, end - time.monotonic()))
                except subprocess.TimeoutExpired:
                    pass
            if p.poll() is None:
                self.kill(p)
            log = self.tail(lf, 20000)
            m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', log) or re.findall(r'#(\d+)\s', log)[-1:]
            if m:
                self.fuzz_units += int(m[-1])
            self.fuzz_corpus += len(os.listdir(cor))
            for art in sorted(glob.glob('%s/art%d_*' % (self.tmp, i))):
                if not os.path.basename(art).split('_', 1)[1].startswith(('crash', 'timeout', 'oom')):
                    continue
                with open(art, 'rb') as f:
                    self.fuzz_findings.append(f.read())

    def fuzz_run(self, data, name='fz'):
        """Runs one input in the fuzz target; the text of the failure or None."""
        fn = os.path.join(self.tmp, name)
        with open(fn, 'wb') as f:
            f.write(data)
        try:
            p = subprocess.run([self.fuzz_exe, '-timeout=25', '-rss_limit_mb=4096', '-close_fd_mask=1', '-artifact_prefix=%s/again_' % self.tmp, fn], cwd=self.tmp, timeout=90,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            return 'hang', 'no result'
        if p.returncode == 0:
            return None
        out = p.stdout.decode('utf-8', 'replace')
        m = re.search(r'ERROR: (\S+: .*)', out)
        o = re.search(r'^(ORACLE.*|refused without.*|the input was.*)$', out, re.M)
        return 'fuzz target: ' + (o.group(1) if o else m.group(1)[:300] if m else 'exit status %d' % p.returncode), out[:5000]

    def fuzz_handle(self):
        for data in self.fuzz_findings[:3]:
            r = self.fuzz_run(data)
            if not r or not self.fuzz_run(data):
                continue
            # smaller, by dropping blocks and clearing bytes
            deadline = time.monotonic() + 20
            size = max(1, len(data) // 2)
            while size >= 1 and time.monotonic() < deadline:
                i = 0
                while i < len(data) and time.monotonic() < deadline:
                    t = data[:i] + data[i + size:]
                    rr = self.fuzz_run(t)
                    if rr and rr[0].split(' on ')[0] == r[0].split(' on ')[0]:
                        data, r = t, rr
                    else:
                        i += size
                size //= 2
            return {'property': self.check, 'variant': 'fuzz', 'tier': self.tier, 'case': ['fuzz', data.hex()], 'label': r[0], 'message': 'input of %d bytes: %s' % (len(data), data[:200].hex()),
                    'notes': [], 'log': r[1], 'replay': './check %s replay <this file>' % self.check}
        return None

    def heartbeat(self, out):
        try:
            with open(out + '.hb', 'rb') as f:
                b = f.read(24)
            return struct.unpack('<QQQ', b) if len(b) == 24 else None
        except OSError:
            return None

    def limit(self, hb):
        return getattr(self.mod, 'LONG', {}).get(self.examples[hb[1]], HANG_CPU) if hb[0] == 1 else HANG_CPU

    def failure_of(self, w, rc):
        i = int(os.path.basename(w['out'])[1:])
        log = self.tail(w['p'].logfile)
        if rc == 10:
            with open(w['out'] + '.json') as f:
                fl = json.load(f)['failure']
            return dict(variant=w['variant'], worker=i, label=fl['label'], msg=fl['msg'], case=fl['case'], tape=fl['tape'], log=log)
        hb = self.heartbeat(w['out'])
        case = None
        if hb and hb[0] == 1:
            name = self.examples[hb[1]]
            case = ['example', name + ('@' + w['part'] if name in self.mod.DIVIDED else '')]
        elif hb and hb[0] == 2:
            case = ['enum', hb[1]]
        elif hb and hb[0] == 3:
            case = ['seed', '%s/%s/%d/%d' % (self.check, self.seed, i, hb[1])]
        if rc == 99 or 'AddressSanitizer' in log:
            m = re.search(r'ERROR: (AddressSanitizer: .*)', log)
            msg = m.group(1)[:300] if m else 'AddressSanitizer report'
        elif isinstance(rc, int) and rc < 0:
            msg = 'ended by signal %d' % -rc
        else:
            msg = 'exit status %s' % rc
        return dict(variant=w['variant'], worker=i, label='crash', msg=msg, case=case, tape=None, log=log)

    def tail(self, path, n=6000):
        try:
            with open(path, 'rb') as f:
                b = f.read()
            return (b[:n] + (b'\n...\n' + b[-n:] if len(b) > 2 * n else b[n:])).decode('utf-8', 'replace')
        except OSError:
            return ''

    # -- failures
    def replay_once(self, variant, case, k=0):
        tf = os.path.join(self.tmp, 'rp%d.in' % k)
        out = os.path.join(self.tmp, 'rp%d.out' % k)
        with open(tf, 'w') as f:
            json.dump({'case': case, 'tier': self.tier}, f)
        if os.path.exists(out):
            os.unlink(out)
        rc = self.call(variant, ['replay', self.check, variant, tf, out], 'rp%d.log' % k, 600)
        r = None
        if os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
        if rc == 0:
            return None if not (r and r[0]) else r
        if r and r[0]:
            return r + [self.tail(os.path.join(self.tmp, 'rp%d.log' % k))]
        if r is not None and r[0] is None:
            return None
        return ['crash', 'replay ended with %s' % rc, None, [], self.tail(os.path.join(self.tmp, 'rp%d.log' % k))]

    def handle_failure(self, f, shrink_s):
        """Confirms in fresh processes and shrinks. Returns the replay record, or None if it does not reproduce."""
        if f['case'] is None:
            return None
        case = list(f['case'])
        label = f['label']
        if case[0] == 'seed':
            tape = f['tape']
            if tape is None:
                tf, out = os.path.join(self.tmp, 'tr.in'), os.path.join(self.tmp, 'tr.out')
                with open(tf, 'w') as fh:
                    json.dump({'case': case, 'tier': self.tier}, fh)
                self.call(f['variant'], ['trace', self.check, f['variant'], tf, out], 'tr.log', 600)
                try:
                    with open(out) as fh:
                        tape = json.load(fh)['tape']
                except (OSError, ValueError):
                    tape = None
            if tape is not None:
                case = ['tape', tape]
        r = self.replay_once(f['variant'], case)
        if not r:
            r = self.replay_once(f['variant'], case)
        if not r and not getattr(self.mod, 'SCHEDULE_DEPENDENT', False):
            return None
        if r:
            label = r[0]
            if case[0] == 'tape' and shrink_s > 0:
                tf, out = os.path.join(self.tmp, 'sh.in'), os.path.join(self.tmp, 'sh.out')
                with open(tf, 'w') as fh:
                    json.dump({'case': case, 'label': label, 'tier': self.tier}, fh)
                self.call(f['variant'], ['shrink', self.check, f['variant'], tf, out, shrink_s], 'sh.log', shrink_s + 200)
                try:
                    with open(out) as fh:
                        small = ['tape', json.load(fh)['tape']]
                    if self.replay_once(f['variant'], small):
                        case = small
                except (OSError, ValueError):
                    pass
            hits = 0
            for k in range(3):
                rr = self.replay_once(f['variant'], case, k)
                if rr:
                    hits += 1
                    r = rr
            if hits < 2 and not getattr(self.mod, 'SCHEDULE_DEPENDENT', False):
                return None
        else:
            r = [label, f['msg'], None, [], f['log']]
        return {'property': self.check, 'variant': f['variant'], 'tier': self.tier, 'case': case, 'label': r[0], 'message': r[1],
                'notes': r[3] if len(r) > 3 else [], 'log': (r[4] if len(r) > 4 else f['log'])[:8000],
                'replay': './check %s replay <this file>' % self.check}

    def main(self):
        self.dirs = {v: vbuild.build_ext(v) for v in ('rel', 'asan')}
        # examples are listed without importing the check (it needs the extension)
        self.mod, self.examples = load_meta(self.check)
        if getattr(self.mod, 'THREADS', False):
            vbuild.build_threads()
        built = time.monotonic() - self.t0
        failures = self.run_workers()
        violations = []
        unconfirmed = []
        if failures:
            # a worker whose failure has a tape, and the smaller one, first
            failures.sort(key=lambda f: (f['case'] is None, f['label'] == 'hang', len(f['tape'] or []) or 10**6))
            per = 45 if self.tier == 'quick' else 150
            for f in failures[:4]:
                rec = self.handle_failure(f, per)
                if rec:
                    violations.append(self.save(rec))
                    break
                unconfirmed.append(f)
            if not violations:
                # the state built up by earlier cases may matter: repeat the worker's whole run
                for f in failures[:2]:
                    rec = self.rerun(f)
                    if rec:
                        violations.append(self.save(rec))
                        break
        if self.fuzz_findings and not violations:
            rec = self.fuzz_handle()
            if rec:
                violations.append(self.save(rec))
        kf = known_findings()
        self.known_lines = []
        for key in getattr(self.mod, 'KNOWN_KEYS', []):
            out = os.path.join(self.tmp, 'known.out')
            if os.path.exists(out):
                os.unlink(out)
            self.call('rel', ['known', self.check, 'rel', key, out], 'known.log', 120)
            try:
                with open(out) as fh:
                    still = json.load(fh)
            except (OSError, ValueError):
                still = 'the process ended'
            if still:
                if (self.check, key) in kf:
                    self.known_lines.append('KNOWN-FINDING: property=%s %s' % (self.check, kf[(self.check, key)]))
                else:
                    violations.append(self.save({'property': self.check, 'variant': 'rel', 'case': ['known', key], 'label': key, 'message': str(still)}))
        self.evidence(violations, unconfirmed, built)
        for line in self.known_lines:
            self.log(line)
        for f in unconfirmed:
            self.log('note: a failure of worker %d (%s: %s) was not reproduced' % (f['worker'], f['label'], f['msg'][:500]))
            if violations or os.environ.get('VERIF_DEBUG'):
                self.log(f['log'][-3000:])
        shutil.rmtree(self.tmp, ignore_errors=True)
        if violations:
            for path, rec in violations:
                self.log('%s: %s' % (rec['label'], rec['message'][:3000]))
                for n in rec.get('notes', [])[:60]:
                    self.log('   ' + n[:800])
                if 'Sanitizer' in rec.get('log', ''):
                    self.log(rec['log'][:3500])
                self.log('VIOLATION property=%s replay=%s' % (self.check, path))
            return 1
        return 0

    def rerun(self, f):
        n = len(self.workers)
        w = f['worker']
        out = os.path.join(self.tmp, 'rr%d' % w)
        last = self.heartbeat(os.path.join(self.tmp, 'w%d' % w))
        lim = (last[1] + 1) if last and last[0] == 3 else 0
        hits = 0
        for k in range(2):
            rc = self.call(f['variant'], ['run', self.check, f['variant'], self.seed, w, n, 0, lim, lim, self.tier, out], 'rr%d.log' % w, 400)
            if rc not in (0, None):
                hits += 1
        if hits == 2:
            return {'property': self.check, 'variant': f['variant'], 'tier': self.tier, 'label': f['label'], 'message': f['msg'], 'notes': [],
                    'case': ['worker', w, n, lim, self.seed], 'log': f['log'][:8000], 'replay': './check %s replay <this file>' % self.check}
        return None

    def save(self, rec):
        os.makedirs(VERIF + '/replay', exist_ok=True)
        path = os.path.join(VERIF, 'replay', '%s-%s-%d-%d.json' % (self.check, self.tier, self.seed, int(time.time() * 1000) % 10**9))
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        return path, rec

    def evidence(self, violations, unconfirmed, built):
        ev = {'evals': 0, 'discarded': 0, 'nt': 0}
        labels, samples, keys = {}, [], set()
        per_variant = {}
        for w in self.workers:
            try:
                with open(w['out'] + '.json') as f:
                    s = json.load(f)
                with open(w['out'] + '.keys', 'rb') as f:
                    kb = f.read()
            except (OSError, ValueError):
                continue
            for k in ev:
                ev[k] += s[k]
            per_variant[w['variant']] = per_variant.get(w['variant'], 0) + s['evals']
            for k, v in s['labels'].items():
                labels[k] = labels.get(k, 0) + v
            samples.append(s['samples'])
            keys.update(kb[i:i + 8] for i in range(0, len(kb), 8))
        flat = []
        for i in range(12):
            for s in samples:
                if i < len(s) and len(flat) < 12:
                    flat.append(s[i])
        if not flat:
            flat = ['(none)']
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        doc = {'property': self.check, 'tier': self.tier, 'seed': self.seed, 'level': getattr(self.mod, 'LEVEL', 'exploration'),
               'coverage': {'evaluations': ev['evals'] + self.fuzz_units, 'distinct_nontrivial': len(keys), 'rule': self.mod.RULE, 'samples': flat},
               'assumptions': list(getattr(self.mod, 'ASSUMPTIONS', [])) + [
                   'cases per build variant: ' + ', '.join('%s %d' % kv for kv in sorted(per_variant.items())),
                   'classes of generated cases: ' + ', '.join('%s %d' % kv for kv in sorted(labels.items())),
                   ] + (['coverage-guided fuzzing of the C target: %d executions, %d inputs kept for new coverage' % (self.fuzz_units, self.fuzz_corpus)] if self.fuzzers else []) + [
                   'discarded %d, non-trivial (with repetitions) %d, unconfirmed failures %d, known findings shown %d, build %.1f s' % (
                       ev['discarded'], ev['nt'], len(unconfirmed), len(self.known_lines), built)],
               'violations': [{'replay': p, 'label': r['label'], 'message': r['message'][:2000]} for p, r in violations],
               'wall_s': round(time.monotonic() - self.t0, 2)}
        tmp = VERIF + '/evidence/.%s.%d' % (self.check, os.getpid())
        with open(tmp, 'w') as f:
            json.dump(doc, f, indent=1)
        os.rename(tmp, VERIF + '/evidence/%s.json' % self.check)
        self.log('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (self.check, self.tier, self.seed, ev['evals'] + self.fuzz_units, len(keys), time.monotonic() - self.t0))


class Meta:
    pass


def load_meta(check):
    """The plain constants of a check and the names of its examples, without importing it."""
    import ast
    with open(VERIF + '/checks/%s.py' % check) as f:
        tree = ast.parse(f.read())
    m, ex = Meta(), []
    m.RULE, m.DIVIDED = '', set()
    for node in tree.body:
        if isinstance(node, ast.FunctionDef) and node.name.startswith('example_'):
            ex.append(node.name)
            if any(isinstance(x, ast.Name) and x.id == 'divided' for x in node.decorator_list):
                m.DIVIDED.add(node.name)
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                setattr(m, node.targets[0].id, ast.literal_eval(node.value))
            except ValueError:
                pass
    return m, sorted(ex)


def replay(check, path):
    r = Run(check, 'quick')
    r.dirs = {v: vbuild.build_ext(v) for v in ('rel', 'asan')}
    r.mod, r.examples = load_meta(check)
    if getattr(r.mod, 'THREADS', False):
        vbuild.build_threads()
    with open(path) as f:
        rec = json.load(f)
    r.tier = rec.get('tier', 'quick')
    if rec['case'][0] == 'fuzz':
        r.fuzz_exe = vbuild.build_fuzzer(r.mod.FUZZER)
        res = r.fuzz_run(bytes.fromhex(rec['case'][1]))
        if res:
            print(res[0])
            print(res[1])
    elif rec['case'][0] == 'worker':
        _, w, n, lim, seed = rec['case']
        rc = r.call(rec['variant'], ['run', check, rec['variant'], seed, w, n, 0, lim, lim, r.tier, r.tmp + '/rr'], 'rr.log', 400)
        print(r.tail(r.tmp + '/rr.log'))
        res = rc not in (0, None)
    elif rec['case'][0] == 'known':
        r.call('rel', ['known', check, 'rel', rec['case'][1], r.tmp + '/k'], 'k.log', 120)
        res = not os.path.exists(r.tmp + '/k') or json.load(open(r.tmp + '/k'))
    else:
        res = r.replay_once(rec['variant'], rec['case'])
        if res:
            print('%s: %s' % (res[0], res[1]))
            for n in res[3]:
                print('   ' + n)
            print(res[4] if len(res) > 4 else '')
    shutil.rmtree(r.tmp, ignore_errors=True)
    if res:
        print('VIOLATION property=%s replay=%s' % (check, path))
        return 1
    print('passes')
    return 0


if __name__ == '__main__':
    check, mode = sys.argv[1], sys.argv[2]
    if mode == 'replay':
        sys.exit(replay(check, os.path.abspath(sys.argv[3])))
    sys.exit(Run(check, mode).main())
