#!/usr/bin/env python3
"""Driver of the runtime monitors:  run.py <property> [quick|thorough]
Builds the monitor of one property against /repo's current working tree (several build variants), runs its
workload in parallel shards, turns monitor reports, sanitizer reports, aborts and confirmed hangs into
VIOLATION lines, and writes evidence/<property>.json.  Exit: 0 held, 1 violated, 2 the check itself failed."""
import sys, os, subprocess, json, time, struct, glob, shutil, re, threading, traceback
from concurrent.futures import ThreadPoolExecutor, wait, FIRST_COMPLETED

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TOMSOLVER_REPO', '/repo')
sys.path.insert(0, VERIF)
import checks_conf as conf

SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
FLAGS = {
    'asan': ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS'] + SAN,
    'rel': ['-O2', '-g1', '-DNDEBUG'],
    'dbg': ['-O1', '-g', '-D_GLIBCXX_ASSERTIONS'],
    'vg': ['-O1', '-g', '-DUNDER_VALGRIND'],
    'cov': ['-O1', '-g1', '-DNDEBUG', '-fsanitize-coverage=trace-pc'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread', '-DNO_NEW_OVERRIDE'],
}
ENV = dict(os.environ, LC_ALL='C',
           ASAN_OPTIONS='abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=0:allocator_may_return_null=1:hard_rss_limit_mb=6000:malloc_context_size=12:symbolize=1',
           UBSAN_OPTIONS='print_stacktrace=1:abort_on_error=1',
           TSAN_OPTIONS='halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4')
STALL = float(os.environ.get('MON_STALL', '60'))

class CheckError(Exception):
    pass

class Variant:
    def __init__(self, name, index):
        self.name, self.index = name, index
        self.bin = self.cwd = None
        self.dist, self.mode = name.split('-')
        self.stats = []
        self.evals = 0

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.c = conf.CHECKS[pid]
        self.thorough = tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.dir = os.path.join(VERIF, 'build', pid)
        self.replay = os.path.join(VERIF, 'replay', pid)
        for d in (self.dir, self.replay):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        names = list(self.c.get('variants', conf.DEFAULT_VARIANTS))
        if self.thorough:
            names += [v for v in self.c.get('thorough_variants', conf.THOROUGH_VARIANTS) if v not in names]
        self.variants = [Variant(n, i) for i, n in enumerate(names)]
        self.violations, self.notes, self.known = [], [], []
        self.lock = threading.Lock()
        self.hangs = 0
        self.verif, self.repo = VERIF, REPO
        self.extra = {}
        self.t0 = time.time()

    # ---------------------------------------------------------------- build
    def compile_jobs(self, v):
        jobs = []
        d = os.path.join(self.dir, v.name)
        os.makedirs(d)
        fl = ['-std=c++14', '-w', '-pthread'] + FLAGS[v.mode] + self.c.get('flags', [])
        inc = ['-I', os.path.join(REPO, 'src' if v.dist == 'src' else 'single/include'), '-I', os.path.join(VERIF, 'src')]
        srcs = [os.path.join(VERIF, 'src', f) for f in [self.c['file']] + self.c.get('more_files', [])]
        if v.dist == 'src':
            srcs += sorted(glob.glob(os.path.join(REPO, 'src/tomsolver/*.cpp')))
        objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(d, '%d_%s.o' % (i, os.path.basename(s)[:-4]))
            objs.append(o)
            jobs.append(['g++'] + fl + inc + ['-c', s, '-o', o])
        v.bin = os.path.join(d, 'mon')
        v.link = ['g++'] + fl + objs + ['-o', v.bin] + self.c.get('libs', [])
        v.cwd = d
        return jobs

    def sh(self, cmd, timeout=800):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if r.returncode:
            raise CheckError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode('utf-8', 'replace')[-3000:]))
        return r.stdout.decode()

    # ---------------------------------------------------------------- run
    def shards(self, v):
        out = self.sh([v.bin, '--count']).split()
        total = int(out[1 if self.thorough else 0])
        if v.mode == 'vg':
            total = max(8, int(total * self.c.get('vg_fraction', 0.05)))
        n = self.c.get('shards', 4)
        return [(v, k, n, total) for k in range(n)]

    def args(self, v, extra):
        seed = self.seed * 16 + (0 if self.c.get('same_seed') else v.index)
        return [v.bin, '--seed', str(seed), '--thorough', '1' if self.thorough else '0'] + extra

    def spawn(self, v, extra, errpath):
        pre = []
        if self.c.get('stack_kb'):
            pre = ['bash', '-c', 'ulimit -s %d; exec "$@"' % self.c['stack_kb'], 'x']
        if v.mode == 'vg':
            pre = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=full', '--errors-for-leak-kinds=definite', '--show-leak-kinds=definite', '--num-callers=20', '--undef-value-errors=yes']
        return subprocess.Popen(pre + self.args(v, extra), cwd=v.cwd, env=ENV, stdin=subprocess.DEVNULL,
                                stdout=subprocess.DEVNULL if not self.c.get('stdout') else open(errpath + '.stdout', 'ab'),
                                stderr=open(errpath, 'wb'))

    def state(self, path):
        try:
            b = open(path, 'rb').read(24 + 4096)
            idx, done, beat = struct.unpack('QQQ', b[:24])
            return idx, done, beat, b[24:].split(b'\0')[0].decode('utf-8', 'replace')
        except Exception:
            return 0, 0, 0, ''

    def run_shard(self, v, k, n, total):
        base = os.path.join(v.cwd, 's%d' % k)
        start, attempt, crashes = k, 0, 0
        while start < total:
            st, err = '%s.%d.state' % (base, attempt), '%s.%d.err' % (base, attempt)
            stats, hs = '%s.%d.stats' % (base, attempt), '%s.%d.hashes' % (base, attempt)
            extra = ['--start', str(start), '--step', str(n), '--end', str(total), '--state', st, '--out', base + '.out',
                     '--stats', stats, '--hashes', hs]
            if self.c.get('trace'):
                extra += ['--trace', base + '.trace']
            budget = self.c.get('budget_thorough', 600) if self.thorough else self.c.get('budget', 240)
            extra += ['--budget', str(budget)]
            p = self.spawn(v, extra, err)
            last, lastt = None, time.time()
            hung = False
            while True:
                try:
                    p.wait(timeout=0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                b = self.state(st)[2]
                if b != last:
                    last, lastt = b, time.time()
                elif time.time() - lastt > STALL:
                    hung = True
                    p.kill()
                    p.wait()
                    break
            rc = p.returncode
            idx, done, beat, text = self.state(st)
            if rc == 0:
                return
            if hung or rc == -9:
                verdict = self.confirm(v, idx, 3 * STALL)
                if verdict is None:
                    with self.lock:
                        self.notes.append('case %d of %s stalled once and completed when rerun: inconclusive' % (idx, v.name))
                else:
                    self.add(v, idx, verdict[0], verdict[1], text)
                crashes += 1
            elif rc == 2:
                raise CheckError('monitor %s failed to run: %s' % (v.name, open(err, 'rb').read()[-2000:]))
            else:
                key, msg = self.classify(err, rc)
                self.add(v, idx, key, msg, text)
                crashes += 1
            if crashes >= 3:
                with self.lock:
                    self.notes.append('shard %d of %s stopped after %d crashes' % (k, v.name, crashes))
                return
            start = idx + n
            attempt += 1

    def confirm(self, v, idx, limit):
        with self.lock:
            self.hangs += 1
            if self.hangs > 2:
                return None
        err = os.path.join(v.cwd, 'confirm%d.err' % idx)
        p = self.spawn(v, ['--only', str(idx), '--out', err + '.out'], err)
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return ('hang', 'no result within %d s, twice' % limit)
        if p.returncode == 0:
            return None
        if p.returncode == -9:
            return ('killed', 'the process was killed twice on this case (memory exhaustion)')
        return self.classify(err, p.returncode)

    def classify(self, err, rc):
        t = open(err, 'rb').read().decode('utf-8', 'replace')
        t = re.sub(r'(?m)^==\d+== ?', '', t)
        m = (re.search(r'SUMMARY: (\w+Sanitizer: [^\n]*)', t) or re.search(r'(runtime error: [^\n]*)', t) or re.search(r"(Assertion [^\n]*)", t)
             or re.search(r'((?:Conditional jump|Use of uninit|Invalid (?:read|write|free)|Mismatched free|Syscall param|\d+ bytes in|Source and dest|Argument )[^\n]*)', t) or re.search(r'(terminate called[^\n]*(?:\n[^\n]*what[^\n]*)?)', t))
        d = m.group(1) if m else 'signal/exit %d' % rc
        d = re.sub(r'0x[0-9a-f]+', '0x..', d)
        d = re.sub(r'/\S*/', '', d)
        return 'crash', d[:300] + '\n' + t[-4000:]

    def add(self, v, idx, key, msg, text):
        with self.lock:
            self.violations.append(dict(variant=v.name, index=v.index, idx=idx, key=key, msg=msg, case=text))

    # ---------------------------------------------------------------- main flow
    def run(self):
        with ThreadPoolExecutor(8) as ex:
            pend = {}
            left = {}
            for v in self.variants:
                jobs = self.compile_jobs(v)
                left[v.name] = len(jobs)
                # longest first: the monitor itself
                for j in jobs:
                    pend[ex.submit(self.sh, j)] = ('c', v)
            while pend:
                done, _ = wait(list(pend), return_when=FIRST_COMPLETED)
                for f in done:
                    kind, v = pend.pop(f)
                    f.result()
                    if kind == 'c':
                        left[v.name] -= 1
                        if not left[v.name]:
                            pend[ex.submit(self.sh, v.link)] = ('l', v)
                    elif kind == 'l':
                        for a in self.shards(v):
                            pend[ex.submit(self.run_shard, *a)] = ('r', v)
        post = self.c.get('post')
        if post:
            post(self)

    def collect(self):
        ev, samples, hashes, evals, perv = {}, [], set(), 0, {}
        for v in self.variants:
            ve = 0
            if not v.cwd:
                continue
            for f in sorted(glob.glob(v.cwd + '/*.out')):
                for line in open(f):
                    o = json.loads(line)
                    self.violations.append(dict(variant=v.name, index=v.index, idx=o['idx'], key=o['key'], msg=o['msg'], case=o['case']))
            for f in sorted(glob.glob(v.cwd + '/*.stats')):
                o = json.load(open(f))
                ve += o['evals']
                for k, n in o['events'].items():
                    ev[k] = ev.get(k, 0) + n
                if len(samples) < 12:
                    samples += o['samples'][:3]
            for f in glob.glob(v.cwd + '/*.hashes'):
                b = open(f, 'rb').read()
                if len(hashes) < 3000000:
                    hashes.update(struct.unpack('%dQ' % (len(b) // 8), b))
            perv[v.name] = ve
            evals += ve
        cov = dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=self.c['rule'], samples=samples or ['(none)'],
                   events=ev, per_build=perv)
        cov.update(self.extra)
        if self.notes:
            cov['notes'] = self.notes
        return cov

    def known_findings(self):
        res = []
        p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'known: property=(\S+) key=(\S+) case=(.*?) what=(.*)$', line.strip())
                if m and m.group(1) == self.pid:
                    res.append(m.groups())
        return res

    def finish(self):
        cov = self.collect()
        fresh = []
        listed = self.known_findings()
        for x in self.violations:
            if not any(k == x['key'] and c == x['case'] for _, k, c, _ in listed):
                fresh.append(x)
        for _, k, c, w in listed:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
                  assumptions=self.c.get('assumptions', conf.ASSUMPTIONS), wall_s=round(time.time() - self.t0, 1), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        seen = {}
        for x in fresh:
            key = (x['key'], x['variant'])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 1 or len(seen) > 8:
                continue
            path = os.path.join(self.replay, '%s-%s-%s.txt' % (x['variant'], re.sub(r'\W+', '_', x['key'])[:40], x['idx']))
            v = next((q for q in self.variants if q.name == x['variant']), None)
            with open(path, 'w') as f:
                f.write('property %s build %s case %s key %s\n' % (self.pid, x['variant'], x['idx'], x['key']))
                f.write('case: %s\n\n%s\n\n' % (x['case'], x['msg']))
                if v and v.bin:
                    f.write('replay (after a run of this check): %s\n' % ' '.join(self.args(v, ['--only', str(x['idx'])])))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  %s [%s] case %s: %s' % (x['key'], x['variant'], x['idx'], (x['case'] + ' | ' + x['msg'])[:600].replace('\n', ' ')))
        print('%s %s seed=%d: %d evaluations, %d distinct, %d violation reports, %.1f s' % (
            self.pid, self.tier, self.seed, cov['evaluations'], cov['distinct_nontrivial'], len(fresh), time.time() - self.t0))
        if fresh:
            return 1
        if cov['evaluations'] < self.c.get('min_evals', 100) or cov['distinct_nontrivial'] < self.c.get('min_distinct', 20):
            print('inconclusive: the workload observed too little')
            return 2
        return 0

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = Check(pid, tier)
    try:
        c.run()
        rc = c.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
        try: # what was already observed still counts
            if c.violations or any(os.path.getsize(f) for v in c.variants for f in glob.glob(os.path.join(c.dir, v.name, '*.out'))):
                rc = 1 if c.finish() == 1 else 2
        except Exception:
            traceback.print_exc()
    keep = os.environ.get('MON_KEEP')
    if not keep and rc == 0:
        shutil.rmtree(c.dir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

if __name__ == '__main__':
    main()
