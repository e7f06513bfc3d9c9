#!/usr/bin/env python3
"""Decides one property: builds the instrumented library and harness from /repo's working tree, runs the
workloads of the property's plan under the monitors, and reports what the monitors saw.

  check.py C03 [quick|thorough]

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the check could not give an answer."""
import json, os, queue, re, shutil, struct, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from plans import PLANS

VERIF = B.VERIF
EVID = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
CPUS = os.cpu_count() or 8
BASE_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=97:detect_stack_use_after_return=1:handle_abort=1:strict_string_checks=0:max_allocation_size_mb=2000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=97',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=97:second_deadlock_stack=1:history_size=4',
    'MSAN_OPTIONS': 'exitcode=97',
    'LC_ALL': 'C', 'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'VH_CORPUS': B.REPO + '/test',
}

def read_findings(prop):
    """known: property=Cxx mode=<mode> key=<key> match=<regex> :: description"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r'known: property=(\S+) mode=(\S+) key=(\S+) match=(.*?) :: (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append({'mode': m.group(2), 'key': m.group(3), 're': re.compile(m.group(4)), 'text': m.group(5)})
    return out

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLANS[prop]
        self.t0 = time.time()
        self.deadline = self.t0 + (self.plan.get('quick_s', 150) if tier == 'quick' else self.plan.get('thorough_s', 780))
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.lock = threading.Lock()
        self.violations, self.errors, self.notes = [], [], []
        self.findings, self.seen_findings = read_findings(prop), {}
        self.stats = {'cases': 0, 'distinct': set(), 'counts': {}, 'max': {}, 'states': {}, 'allocs': 0, 'samples': [], 'modes': {}}
        self.skipped = 0

    def env(self, extra=None):
        e = dict(BASE_ENV); e.update(extra or {}); return e

    def cmd(self, exe, job, extra):
        c = list(job.get('exe') or [exe]) + ['--mode', job['mode'], '--seed', str(self.seed), '--cpu', str(job.get('cpu', 20))]
        if job.get('mem'): c.append('--mem')
        if self.tier == 'thorough': c.append('--thorough')
        return c + extra

    def classify(self, rc, err):
        m = re.search(r'^VHFAIL (\S+) :: (.*)$', err, re.M)
        if m: return m.group(1), m.group(2)
        if 'VHHANG' in err or rc == 4: return 'hang', 'the case does not end within its CPU limit'
        m = re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: .*|WARNING: ThreadSanitizer: .*|WARNING: MemorySanitizer: .*|ERROR: LeakSanitizer.*)', err)
        if m:
            w = re.search(r'#\d+ \S+ in (\S+) (%s/\S+)' % re.escape(B.REPO), err)
            return 'sanitizer', m.group(1) + (' in %s %s' % (w.group(1), os.path.basename(w.group(2))) if w else '')
        if rc < 0: return 'signal', 'killed by signal %d' % -rc
        return 'exit', 'ended with code %d' % rc

    def record(self, out, mode):
        try:
            s = json.load(open(out))
        except Exception:
            return
        with self.lock:
            st = self.stats
            st['cases'] += s['cases']; st['allocs'] += s['allocs']; st['distinct'].update((mode, d) for d in s['distinct'])
            st['modes'][mode] = st['modes'].get(mode, 0) + s['cases']
            for k, v in s['counts'].items(): st['counts'][mode + '.' + k] = st['counts'].get(mode + '.' + k, 0) + v
            for k, v in s['max'].items(): st['max'][mode + '.' + k] = max(st['max'].get(mode + '.' + k, 0), v)
            for k, v in s['states'].items(): st['states'].setdefault(mode + '.' + k, set()).update(v)
            for x in s['samples']:
                if len(st['samples']) < 8 and sum(1 for y in st['samples'] if y.startswith(mode + ':')) < 3: st['samples'].append(mode + ': ' + x)

    def single(self, exe, job, case, tag, extra=()):
        d = os.path.join(self.scratch, 'one-%s-%d-%s' % (job['mode'], case, tag)); os.makedirs(d, exist_ok=True)
        c = self.cmd(exe, job, ['--only', str(case), '--scratch', d] + list(extra))
        i = c.index('--cpu'); c[i + 1] = str(2 * int(c[i + 1]))
        try:
            p = subprocess.run(c, env=self.env(job.get('env')), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=300, cwd=d)
            rc, err = p.returncode, p.stderr.decode('utf8', 'replace')
        except subprocess.TimeoutExpired as x:
            rc, err = 4, 'VHHANG wall limit\n' + (x.stderr or b'').decode('utf8', 'replace')
        shutil.rmtree(d, ignore_errors=True)
        return rc, err, c

    def report(self, exe, job, case, rc, err, confirmed_by):
        key, msg = self.classify(rc, err)
        for f in self.findings:
            if f['mode'] == job['mode'] and f['key'] == key and f['re'].search(msg):
                with self.lock: self.seen_findings[f['text']] = self.seen_findings.get(f['text'], 0) + 1
                return True
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        path = os.path.join(EVID, 'replay', '%s-%s-%d-%d.txt' % (self.prop, job['mode'], self.seed, case))
        _, verbose, c = self.single(exe, job, case, 'v', ['--verbose'])
        with open(path, 'w') as f:
            f.write('property %s\nmode %s, seed %d, case %d\nkey %s\n%s\n%s\nreplay (after tools/build.py): %s\n\n--- report\n%s\n--- trace of the case\n%s\n' % (
                self.prop, job['mode'], self.seed, case, key, msg, confirmed_by, ' '.join(c), err[-20000:], verbose[-60000:]))
        with self.lock: self.violations.append((path, job['mode'], case, key, msg))
        return False

    def worker(self, exe, q, idx):
        while True:
            try: job, start, n = q.get_nowait()
            except queue.Empty: return
            if self.violations or self.errors or time.time() > self.deadline:
                with self.lock: self.skipped += n
                continue
            d = os.path.join(self.scratch, 'w%d' % idx)
            at, end = start, start + n
            while at < end and not self.violations:
                shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                out, status = os.path.join(d, 'out.json'), os.path.join(d, 'status')
                c = self.cmd(exe, job, ['--start', str(at), '--cases', str(end - at), '--out', out, '--status', status, '--scratch', d])
                left = max(30, self.deadline - time.time() + 60)
                try:
                    p = subprocess.run(c, env=self.env(job.get('env')), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=left, cwd=d)
                    rc, so, err = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
                except subprocess.TimeoutExpired:
                    cur = struct.unpack('QQ', open(status, 'rb').read(16)) if os.path.exists(status) else (at, 0)
                    with self.lock:
                        self.stats['cases'] += cur[1]; self.skipped += end - at - cur[1]; self.notes.append('%s: out of time at case %d' % (job['mode'], cur[0]))
                    break
                if rc == 0 and 'VHDONE' in so:
                    self.record(out, job['mode']); break
                if 'VHERROR' in err or rc == 9:
                    with self.lock: self.errors.append(err[-2000:])
                    return
                case = struct.unpack('QQ', open(status, 'rb').read(16))[0] if os.path.exists(status) else at
                self.record(out, job['mode'])
                if job.get('races'):
                    if self.report(exe, job, case, rc, err, 'reported by the race detector in a run of cases %d..%d' % (at, end)): at = case + 1; continue
                    break
                rc2, err2, _ = self.single(exe, job, case, 'c')
                if rc2 != 0:
                    if self.report(exe, job, case, rc2, err2, 'confirmed: the case fails again when run alone'): at = case + 1; continue
                    break
                # depends on the cases before it
                d2 = d + 'r'; shutil.rmtree(d2, ignore_errors=True); os.makedirs(d2)
                p = subprocess.run(self.cmd(exe, job, ['--start', str(at), '--cases', str(case - at + 1), '--scratch', d2]), env=self.env(job.get('env')), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=d2)
                shutil.rmtree(d2, ignore_errors=True)
                if p.returncode != 0:
                    if self.report(exe, job, case, p.returncode, p.stderr.decode('utf8', 'replace'), 'confirmed: cases %d..%d run in one process fail again' % (at, case)): at = case + 1; continue
                    break
                with self.lock: self.notes.append('not confirmed: %s case %d: %s' % (job['mode'], case, self.classify(rc, err)))
                at = case + 1
            shutil.rmtree(d, ignore_errors=True)

    def run(self):
        jobs = self.plan['jobs']
        for flavour in sorted(set(j.get('flavour', 'asan') for j in jobs)):
            mine = [j for j in jobs if j.get('flavour', 'asan') == flavour]
            files = None
            exe = None if all(j.get('python') for j in mine) else B.build(flavour, modes=files)
            env_knife = None
            q = queue.Queue(); chunks = []
            for j in mine:
                if j.get('knife') and env_knife is None:
                    env_knife = B.build('asan', knife=True)
                if j.get('knife'): j = dict(j, env={'VH_KNIFE': env_knife, 'VH_KNIFE_ASAN': BASE_ENV['ASAN_OPTIONS']})
                if j.get('python'):
                    j = dict(j, exe=[B.build_python(), os.path.join(VERIF, 'pyaxl', 'drive.py')],
                             env={'PYTHONMALLOC': 'malloc', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'PYTHONUTF8': '1'})
                n = j['quick'] if self.tier == 'quick' else j['thorough']
                per = max(1, n // (CPUS * 4))
                chunks += [(k / n, (j, k, min(per, n - k))) for k in range(0, n, per)]
            chunks.sort(key=lambda x: x[0])         # every mode advances at the same pace
            for _, x in chunks: q.put(x)
            nthr = max(1, min(CPUS // (2 if any(j.get('races') for j in mine) else 1), len(chunks)))
            ts = [threading.Thread(target=self.worker, args=(exe, q, i)) for i in range(nthr)]
            for t in ts: t.start()
            for t in ts: t.join()
            if self.violations or self.errors: break

    def finish(self):
        st = self.stats
        counts = dict(sorted(st['counts'].items()))
        cov = {
            'evaluations': st['cases'], 'distinct_nontrivial': len(st['distinct']), 'rule': self.plan['rule'], 'samples': st['samples'],
            'cases_per_workload': st['modes'], 'events_observed': counts, 'largest': dict(sorted(st['max'].items())),
            'distinct_states_seen': {k: len(v) for k, v in sorted(st['states'].items())},
            'monitors': self.plan['monitors'],
        }
        if st['allocs']: cov['allocations_followed'] = st['allocs']
        if self.skipped: cov['cases_not_run_for_lack_of_time'] = self.skipped
        if self.notes: cov['notes'] = self.notes[:20]
        if self.seen_findings: cov['known_findings_seen'] = self.seen_findings
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': self.plan.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.prop + '.json'))
        for f in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['text']))
        if self.violations:
            for path, mode, case, key, msg in self.violations[:3]:
                print('%s: workload %s case %d: %s: %s' % (self.prop, mode, case, key, msg[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0][0]))
            return 1
        if self.errors:
            print('the check failed: %s' % self.errors[0]); return 2
        missing = [k for k in self.plan.get('must_see', []) if not counts.get(k)]
        # read() is hooked: a library that reads files in another way makes these faults impossible, not the check wrong
        soft = [k for k in missing if k.split('.')[-1] in ('short_reads', 'read_errors', 'reads', 'file with short reads')]
        if soft: print('note: no read() of the library was observed: %s' % ', '.join(soft))
        missing = [k for k in missing if k not in soft]
        if not st['cases'] or missing:
            print('the monitors did not observe: %s' % (', '.join(missing) or 'anything')); return 2
        print('%s held: %d cases, %d distinct, %.1f s%s' % (self.prop, st['cases'], len(st['distinct']), time.time() - self.t0, ' (%d not run)' % self.skipped if self.skipped else ''))
        return 0

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if prop not in PLANS or tier not in ('quick', 'thorough'):
        print('usage: check.py PROPERTY [quick|thorough]'); return 2
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    r = Run(prop, tier, seed % (1 << 32))
    try:
        r.run()
        return r.finish()
    except B.BuildError as e:
        print('the check could not build the tree:\n%s' % e); return 2
    finally:
        shutil.rmtree(r.scratch, ignore_errors=True)

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
