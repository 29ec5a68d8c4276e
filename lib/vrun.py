"""Check driver: builds the instrumented harnesses from /repo's working tree, runs
them over a range of generated cases, collects what the monitors observed, applies
the known-findings file, writes the evidence file and decides the exit status.

usage: python3 /verif/check.py <property> [quick|thorough] [--replay CASEFILE]
"""
import json, os, re, subprocess, sys, threading, time, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/lib')
import vbuild
from props import PROPS

OUT = VERIF + '/out'
ENV_BASE = {
    'ASAN_OPTIONS': 'detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=12',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77',
    'LSAN_OPTIONS': 'exitcode=78:print_suppressions=0',
    'TSAN_OPTIONS': f'exitcode=66:halt_on_error=0:second_deadlock_stack=1:history_size=4:suppressions={VERIF}/lib/tsan.supp',
    'LC_ALL': 'C', 'TZ': 'UTC',
}


class Job:
    def __init__(self, spec, tier):
        self.h = spec['h']
        self.v = spec.get('v', 'asan')
        self.args = spec.get('args', '').split()
        self.cases = spec[tier] if tier in spec else spec['quick']
        self.chunk = spec.get('chunk', 500)
        self.kinds = re.compile('^(' + spec.get('kinds', '.*') + '|crash|hang|leak)$')
        self.tmo = spec.get('tmo', 150)          # per chunk
        self.seeded = spec.get('seeded', True)
        self.label = ' '.join([self.h] + self.args)
        self.serial = spec.get('serial', False)
        self.faults = spec.get('crash', True)


def sanitizer_summary(err):
    m = re.search(r'SUMMARY: (.*)', err)
    if m:
        return m.group(1)[:300]
    m = re.search(r'(runtime error: .*)', err)
    if m:
        return m.group(1)[:300]
    m = re.search(r"(terminate called.*(?:\n.*what\(\).*)?)", err)
    if m:
        return m.group(1).replace('\n', ' ')[:300]
    t = [x for x in err.strip().split('\n') if x]
    return (t[-1] if t else 'no output')[:300]


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.stats, self.sigs, self.samples, self.viol = {}, set(), [], []
        self.other = {}
        self.lock = threading.Lock()
        self.started = 0
        self.skipped = 0
        self.broken = []
        self.t0 = time.time()

    def env(self):
        e = dict(os.environ)
        e.update(ENV_BASE)
        e['VERIF_SCRATCH'] = self.scratch
        return e

    def once(self, exe, job, first, n, tmo):
        cmd = [exe] + job.args + ['--seed', str(self.seed), '--first', str(first), '--cases', str(n)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo,
                               env=self.env(), cwd=self.scratch, stdin=subprocess.DEVNULL)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, out, err = None, x.stdout or b'', x.stderr or b''
        return cmd, rc, out.decode('utf8', 'replace'), err.decode('utf8', 'replace')

    def record(self, job, kind, case, msg, cmd, err):
        with self.lock:
            if job.kinds.match(kind):
                self.viol.append(dict(kind=kind, case=case, msg=msg, cmd=cmd, err=err[-12000:], label=job.label))
            else:
                self.other[kind] = self.other.get(kind, 0) + 1

    def chunk(self, exe, job, first, n):
        end = first + n
        restarts = 0
        while first < end:
            cmd, rc, out, err = self.once(exe, job, first, end - first, job.tmo)
            last, done, cur = None, False, ''
            for line in out.split('\n'):
                t = line.split(' ', 1)
                if t[0] == 'CASE':
                    last = t[1]
                elif t[0] == 'VIOL':
                    _, k, c, m = (line.split(' ', 3) + [''])[:4]
                    self.record(job, k, c, m, cmd, err)
                elif t[0] == 'STAT':
                    _, k, v = line.split(' ')
                    with self.lock:
                        if k.startswith('max_'):
                            self.stats[k] = max(self.stats.get(k, 0), int(v))
                        else:
                            self.stats[k] = self.stats.get(k, 0) + int(v)
                elif t[0] == 'SIG':
                    with self.lock:
                        self.sigs.add(job.h + t[1])
                elif t[0] == 'SAMPLE':
                    with self.lock:
                        if len(self.samples) < 12:
                            self.samples.append(t[1][:900])
                elif t[0] == 'DONE':
                    done = True
            if done:
                if rc == 78 or (rc not in (0, None) and 'LeakSanitizer' in err):
                    self.record(job, 'leak', f'{job.label}:{first}+{end-first}', sanitizer_summary(err), cmd, err)
                elif rc != 0 and rc is not None:
                    self.record(job, 'crash', f'{job.label}:{first}+{end-first}', 'after the last case: ' + sanitizer_summary(err), cmd, err)
                elif rc is None:
                    self.record(job, 'hang', f'{job.label}:{first}+{end-first}', 'process did not end', cmd, err)
                return
            # died or hung inside a case
            try:
                idx = int(last.rsplit(':', 1)[1])
            except Exception:
                with self.lock:
                    self.broken.append((cmd, rc, err[-2000:]))
                return
            if rc is None:
                c2, rc2, out2, err2 = self.once(exe, job, idx, 1, 120)
                if rc2 is None:
                    self.record(job, 'hang', last, 'case did not end (twice)', c2, err)
                elif 'DONE' not in out2:
                    self.record(job, 'crash', last, sanitizer_summary(err2), c2, err2)
            elif rc == 3:
                with self.lock:       # the harness itself could not go on
                    self.broken.append((cmd, rc, err[-2000:]))
                return
            else:
                self.record(job, 'crash', last, sanitizer_summary(err), cmd[:-4] + ['--first', str(idx), '--cases', '1'], err)
            with self.lock:
                self.stats['cases'] = self.stats.get('cases', 0) + idx - first + 1
            restarts += 1
            if restarts > 2 or self.enough():
                return
            first = idx + 1

    def enough(self):
        """Enough violations seen; hangs count more because each one costs minutes."""
        return len(self.viol) + 6 * sum(v['kind'] == 'hang' for v in self.viol) > 20

    def run(self):
        spec = PROPS[self.prop]
        jobs = [Job(s, self.tier) for s in spec['jobs']]
        self.scratch = f'{OUT}/scratch-{self.prop}-{os.getpid()}'
        os.makedirs(self.scratch, exist_ok=True)
        exes = {}
        for v in sorted({j.v for j in jobs}):
            hs = sorted({j.h for j in jobs if j.v == v})
            b = vbuild.build(v, hs)
            for h in hs:
                exes[(v, h)] = b[h]
        self.build_s = time.time() - self.t0
        budget = spec.get('budget', {}).get(self.tier, 500 if self.tier == 'quick' else 3 * 3600)
        deadline = time.time() + budget
        q = []
        for j in jobs:
            k = 0
            while k < j.cases:
                n = min(j.chunk, j.cases - k)
                q.append((k / j.cases, j, k, n))
                k += n
        q.sort(key=lambda x: x[0])      # interleave the jobs
        qq = queue.Queue()
        for x in q:
            qq.put(x)

        def worker():
            while True:
                try:
                    _, j, k, n = qq.get_nowait()
                except queue.Empty:
                    return
                if time.time() > deadline or self.enough():
                    with self.lock:
                        self.skipped += n
                    continue
                try:
                    self.chunk(exes[(j.v, j.h)], j, k, n)
                except Exception as e:      # pragma: no cover
                    with self.lock:
                        self.broken.append((j.label, 'driver', repr(e)))
        nthreads = spec.get('workers', min(8, os.cpu_count() or 4))
        ts = [threading.Thread(target=worker) for _ in range(nthreads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        subprocess.run(['rm', '-rf', self.scratch])


def load_known(prop):
    out = []
    f = VERIF + '/known-findings.txt'
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def vkey(v):
    """Stable name of a violation: the kind and, for a directed case, its name."""
    c = v['case']
    m = re.search(r'directed:([\w.-]+)', c)
    return f"{v['kind']}/{m.group(1) if m else c}"


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        sys.exit('usage: check.py <property> [quick|thorough]; properties: ' + ' '.join(sorted(PROPS)))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    r = Runner(prop, tier, seed)
    r.run()
    spec = PROPS[prop]
    known = load_known(prop)
    new, seen_known = [], {}
    for v in r.viol:
        k = vkey(v)
        hit = None
        for kk, text in known:
            if kk == k:
                hit = kk
        if hit:
            seen_known[hit] = seen_known.get(hit, 0) + 1
        else:
            new.append(v)
    for kk, text in known:
        print(f'KNOWN-FINDING: property={prop} {kk}: {text}')
    wall = time.time() - r.t0
    nontriv = len(r.sigs)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
        'coverage': {
            'evaluations': r.stats.get('cases', 0),
            'distinct_nontrivial': nontriv,
            'rule': spec['rule'],
            'samples': r.samples or ['(none)'],
            'observed': dict(sorted(r.stats.items())),
            'jobs': [{'harness': s['h'], 'build': s.get('v', 'asan'), 'args': s.get('args', ''), 'cases_planned': s.get(tier, s['quick'])} for s in spec['jobs']],
            'cases_skipped_for_time': r.skipped,
            'violations_of_other_properties_seen': r.other,
            'known_findings_observed': seen_known,
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop} {tier}: {r.stats.get("cases", 0)} cases, {nontriv} distinct behaviours, build {r.build_s:.0f}s, total {wall:.0f}s, other-property alarms {r.other or 0}')
    keep = ['transitions', 'events', 'checks', 'steps', 'evals']
    print('  observed: ' + ', '.join(f'{k}={v}' for k, v in sorted(r.stats.items())))
    for i, v in enumerate(new[:10]):
        path = f'{OUT}/{prop}-{i}.txt'
        with open(path, 'w') as f:
            f.write(f"property {prop}\nkind {v['kind']}\ncase {v['case']}\nmessage {v['msg']}\n")
            f.write('replay: build with "python3 /verif/lib/vbuild.py <variant> <harness>" and run\n  ')
            f.write(' '.join(v['cmd']) + '\n(the case number is the last part of the case name: --first N --cases 1)\n\n')
            f.write(v['err'])
        print(f"  {v['kind']} {v['case']}: {v['msg']}"[:400])
        print(f'VIOLATION property={prop} replay={path}')
    if new:
        sys.exit(1)
    if r.broken:
        for b in r.broken[:3]:
            print('HARNESS FAILURE', b)
        sys.exit(2)
    for name, floor in spec.get('floor', {}).items():
        if r.stats.get(name, 0) < floor:
            print(f'INSUFFICIENT OBSERVATION: {name}={r.stats.get(name, 0)} < {floor}')
            sys.exit(2)
    sys.exit(0)
