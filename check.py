#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the library from /repo's working tree with the monitors of /verif/harness, runs the workloads of one property and
judges what the monitors and sanitizers observed.

exit 0: the property held on everything explored; exit 1 and a line 'VIOLATION property=<id> replay=<path>': it is broken;
exit 2: no answer (build error, workload that observed nothing, watchdog)."""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build  # noqa: E402
from jobs import PROPERTIES  # noqa: E402

WORKERS = max(2, os.cpu_count() or 4)
STALL = 40          # seconds without CPU use and without a new case: nothing can move any more
CASE_LIMIT = 150    # seconds one case may compute
ENOUGH = 240        # seconds after which a run that has already found a violation ends
RESTARTS = 12       # crashes after which a shard is given up

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:detect_leaks=1:detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=66:max_allocation_size_mb=8192:malloc_context_size=12',
    'LSAN_OPTIONS': 'exitcode=67',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1',
}


def cpu_time(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return int(p[11]) + int(p[12])
    except (OSError, IndexError, ValueError):
        return None


def read_crumb(path):
    try:
        with open(path, 'rb') as f:
            return f.read().split(b'\0', 1)[0].decode('latin-1')
    except OSError:
        return ''


FRAME = re.compile(r'^\s*#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.+?)(?: \(.*\+0x|\s+/|\s+<null>|$)')


def short_name(f):
    """function name without arguments, template arguments and offsets"""
    f = f.strip()
    d = 0
    out = []
    for ch in f:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out).strip()[:120]


def lib_frame(lines):
    """the innermost function of the library in a stack"""
    first = None
    for l in lines:
        if not re.match(r'^\s*#\d+ ', l):
            continue
        m = FRAME.match(l)
        name = short_name(m.group(1)) if m else '?'
        if first is None:
            first = name
        if build.SRC + '/' in l:
            return name
    return first or '?'


def sanitizer_reports(text):
    """(signature, excerpt) of every report of a sanitizer in a log"""
    res = []
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', l)
        if m:
            res.append(('asan/%s/%s' % (m.group(1), lib_frame(lines[i + 1:i + 25])), '\n'.join(lines[i:i + 40])))
            i += 40
            continue
        if 'ERROR: LeakSanitizer' in l:
            res.append(('leak/%s' % lib_frame(lines[i + 1:i + 25]), '\n'.join(lines[i:i + 40])))
            i += 40
            continue
        m = re.search(r'runtime error: (.*)', l)
        if m:
            kind = re.sub(r'0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?', 'N', m.group(1))[:70].strip()
            res.append(('ubsan/%s/%s' % (kind, lib_frame(lines[i + 1:i + 15])), '\n'.join(lines[i:i + 25])))
            i += 10
            continue
        m = re.search(r'WARNING: ThreadSanitizer: ([^(]*)', l)
        if m:
            j = i + 1
            while j < len(lines) and not lines[j].startswith('SUMMARY') and j < i + 120:
                j += 1
            block = lines[i:j + 1]
            tops = []
            for k, b in enumerate(block):
                if re.match(r'^\s+(Write|Read|Previous|Atomic|Mutex|As if)', b):
                    tops.append(lib_frame(block[k + 1:k + 14]))
            res.append(('tsan/%s/%s' % (m.group(1).strip(), ' | '.join(sorted(set(tops))[:2])), '\n'.join(block)))
            i = j
        i += 1
    return res


class Known:
    def __init__(self):
        self.items = []
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'finding: property=(\S+) sig=(\S.*?) :: (.*)', l.strip())
                if m:
                    self.items.append(m.groups())
        self.seen = set()

    def match(self, prop, sig):
        for k, (p, s, what) in enumerate(self.items):
            if p == prop and s == sig:
                self.seen.add(k)
                return True
        return False


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = PROPERTIES[prop]
        self.violations = []   # dicts
        self.vsigs = {}
        self.inconclusive = []
        self.counters = {}
        self.samples = []
        self.distinct = set()
        self.evaluations = 0
        self.commands = []
        self.lock = threading.Lock()
        self.abort = threading.Event()
        self.known = Known()
        self.tmp = tempfile.mkdtemp(prefix='vf_%s_' % prop)
        self.t0 = time.time()

    def violation(self, sig, text, cmd, env):
        with self.lock:
            if self.known.match(self.prop, sig):
                return
            self.vsigs[sig] = self.vsigs.get(sig, 0) + 1
            if self.vsigs[sig] > 1:
                return
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
            v = {'property': self.prop, 'sig': sig, 'what': text[:6000], 'cmd': cmd, 'env': env, 'seed': self.seed, 'tier': self.tier}
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            v['replay'] = path
            self.violations.append(v)

    def run_proc(self, cmd, env, crumb, limit, cwd):
        """run to the end; returns (rc, text, state) with state in ok, stalled, slow-case, limit"""
        logp = crumb + '.log'
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env)
        with open(logp, 'wb') as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=cwd, start_new_session=True)
        t0 = time.time()
        last, last_cpu, since_move, since_case = None, None, t0, t0
        cpu_case = 0
        state = 'ok'
        while True:
            try:
                p.wait(timeout=0.25 if time.time() - t0 < 3 else 1.0)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            c = read_crumb(crumb)
            cpu = cpu_time(p.pid)
            if c != last:
                last, since_case, since_move, cpu_case = c, now, now, cpu or 0
                last_cpu = cpu
            elif cpu is not None and (last_cpu is None or cpu - last_cpu > 5):
                last_cpu, since_move = cpu, now
            if now - since_move > STALL:
                state = 'stalled'
            elif now - since_case > CASE_LIMIT and cpu is not None and cpu - cpu_case > CASE_LIMIT * 50:
                state = 'slow-case'
            elif now - t0 > limit:
                state = 'limit'
            elif self.abort.is_set() or (self.violations and now - self.t0 > ENOUGH):
                state = 'aborted'
            else:
                continue
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
        with open(logp, 'rb') as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 4000000))
            text = f.read().decode('latin-1')
        return p.returncode, text, state

    def judge(self, job, cmd, env, crumb, rc, text, state, single=False):
        """record what a finished process shows; returns (crashed, case)"""
        for m in re.finditer(r'^FAIL case=(\d+) sig=(.*?) :: (.*)$', text, re.M):
            self.violation(m.group(2), m.group(3), self.only(cmd, m.group(1)), env)
        note = read_crumb(crumb)
        m = re.match(r'case=(\d+)', note)
        case = int(m.group(1)) if m else None
        reports = sanitizer_reports(text)
        for sig, ex in reports:
            self.violation(sig, note + '\n' + ex, self.only(cmd, case) if 'tsan' not in sig else cmd, env)
        finished = 'DONE evaluations=' in text
        if state == 'stalled':
            what = 'nothing moved for %d s (no CPU time used, same case): a call or wait never ends. %s' % (STALL, note)
            self.violation('hang/' + self.op_of(note), what, self.only(cmd, case), env)
            if self.violations:
                self.abort.set()  # every further hang would cost as much time
            return True, case
        if state == 'slow-case':
            what = 'one case computed for more than %d s: it does not end. %s' % (CASE_LIMIT, note)
            self.violation('endless/' + self.op_of(note), what, self.only(cmd, case), env)
            if self.violations:
                self.abort.set()
            return True, case
        if state == 'aborted':
            return False, case
        if state == 'limit':
            self.inconclusive.append('time limit of %s' % ' '.join(cmd))
            return False, case
        if not finished:
            if rc == 3:
                self.inconclusive.append('workload error: ' + text[-500:])
                return False, case
            if not reports:
                how = 'signal %d' % -rc if rc < 0 else 'exit code %d' % rc
                tail = text[-1500:]
                self.violation('crash/%s/%s' % (how, self.op_of(note)), 'the process ended with %s at: %s\n%s' % (how, note, tail), self.only(cmd, case), env)
            return True, case
        if rc not in (0, 1) and not reports:
            self.violation('exit/%d' % rc, 'the process ended with exit code %d after its workload\n%s' % (rc, text[-1500:]), cmd, env)
        return False, case

    @staticmethod
    def op_of(note):
        n = re.sub(r'^case=\d+ ?', '', note)
        return re.sub(r'[^A-Za-z_:~ ].*', '', n).strip().replace(' ', '_')[:80] or '?'

    @staticmethod
    def only(cmd, case):
        c = list(cmd)
        for opt in ('--shard', '--shards', '--from', '--out', '--crumb', '--secs'):
            while opt in c:
                k = c.index(opt)
                del c[k:k + 2]
        if case is not None:
            c += ['--only', str(case)]
        return c

    def shard(self, job, exe, k, n):
        count = job['quick'] if self.tier == 'quick' else job['thorough']
        name = '%s_%s_%s_%s_%s_%d' % (job['name'], job['flavor'], job['mode'], job.get('id', ''), job.get('arg', ''), k)
        wd = os.path.join(self.tmp, name)
        os.makedirs(wd, exist_ok=True)
        env = dict(job.get('env', {}))
        start = 0
        t_shard = time.time()
        for attempt in range(RESTARTS):
            out = os.path.join(self.tmp, '%s_%d.json' % (name, attempt))
            crumb = os.path.join(self.tmp, '%s_%d.crumb' % (name, attempt))
            cmd = [exe, '--mode', job['mode'], '--seed', str(self.seed), '--tier', self.tier, '--count', str(count), '--shard', str(k), '--shards', str(n), '--from', str(start),
                   '--out', out, '--crumb', crumb]
            if job.get('arg'):
                cmd += ['--arg', job['arg']]
            secs = job.get('secs', 200 if self.tier == 'quick' else 2400)
            left = secs - (time.time() - t_shard)
            if attempt and left < 5:
                break
            cmd += ['--secs', '%d' % max(left, 1)]
            limit = secs + 250
            rc, text, state = self.run_proc(cmd, env, crumb, limit, wd)
            crashed, case = self.judge(job, cmd, env, crumb, rc, text, state)
            self.merge(out)
            if not crashed:
                break
            if case is None or case + 1 >= count:
                break
            start = max(case + 1, start + 1)
            if len(self.vsigs) >= 25 or self.abort.is_set():
                break
        shutil.rmtree(wd, ignore_errors=True)

    def merge(self, out):
        try:
            with open(out) as f:
                d = json.load(f)
        except (OSError, ValueError):
            return
        with self.lock:
            self.evaluations += d['evaluations']
            for a, b in d['counters'].items():
                self.counters[a] = self.counters.get(a, 0) + b
            for s in d['samples']:
                if len(self.samples) < 8:
                    self.samples.append(s)
            self.distinct.update(d['distinct'])

    def run(self):
        jobs = self.spec['jobs']
        targets = sorted({(j['name'], j['flavor']) for j in jobs if j['name'] != 'python'})
        exes = build.build(targets) if targets else {}
        build_s = time.time() - self.t0
        todo = []
        for j in jobs:
            if j['name'] == 'python':
                todo.append((j, None, 0, 1))
                continue
            n = j.get('shards', WORKERS)
            for k in range(n):
                todo.append((j, exes[(j['name'], j['flavor'])], k, n))
        todo.sort(key=lambda t: -t[0].get('weight', 1))
        sem = threading.Lock()

        def worker():
            while True:
                with sem:
                    if not todo or self.abort.is_set():
                        return
                    j, exe, k, n = todo.pop(0)
                try:
                    if j['name'] == 'python':
                        j['run'](self, j)
                    else:
                        self.shard(j, exe, k, n)
                except Exception as e:  # the check itself failed
                    self.inconclusive.append('%s: %r' % (j['name'], e))

        ts = [threading.Thread(target=worker) for _ in range(min(WORKERS, len(todo), self.spec.get('parallel', WORKERS)))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return build_s

    def finish(self, build_s):
        need = self.spec.get('need', {})
        if not self.violations:
            if self.evaluations < self.spec.get('min_evaluations', 1) or len(self.distinct) < 2:
                self.inconclusive.append('observed only %d evaluations, %d distinct cases' % (self.evaluations, len(self.distinct)))
            for c, m in need.items():
                if self.counters.get(c, 0) < m:
                    self.inconclusive.append('observed %s only %d times, expected at least %d' % (c, self.counters.get(c, 0), m))
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': self.evaluations,
                'distinct_nontrivial': len(self.distinct),
                'rule': self.spec['rule'],
                'samples': self.samples,
                'observed': dict(sorted(self.counters.items())),
                'workloads': [{k: v for k, v in j.items() if k in ('name', 'flavor', 'mode', 'quick', 'thorough', 'arg')} for j in self.spec['jobs']],
                'build_s': round(build_s, 1),
                'inconclusive': self.inconclusive,
            },
            'wall_s': round(time.time() - self.t0, 1),
            'assumptions': self.spec.get('assumptions', []),
            'violations': [{'sig': v['sig'], 'what': v['what'][:1500], 'replay': v['replay'], 'times': self.vsigs[v['sig']]} for v in self.violations],
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d evaluations, %d distinct, build %.0f s, total %.0f s' % (self.prop, self.evaluations, len(self.distinct), build_s, time.time() - self.t0))
        for k, (p, s, what) in enumerate(self.known.items):
            if p == self.prop:
                print('KNOWN-FINDING: property=%s %s' % (p, what) + ('' if k in self.known.seen else ' (not met in this run)'))
        for v in self.violations[:10]:
            print('  [%s] %s' % (v['sig'], v['what'][:700]))
            print('VIOLATION property=%s replay=%s' % (self.prop, v['replay']))
        for i in self.inconclusive:
            print('INCONCLUSIVE: ' + i)
        if self.violations:
            return 1
        return 2 if self.inconclusive else 0


def replay(path):
    v = json.load(open(path))
    spec = PROPERTIES[v['property']]
    exe = os.path.basename(v['cmd'][0]).rsplit('-', 1)[0]
    flavor = os.path.basename(os.path.dirname(v['cmd'][0]))[2:]
    exes = build.build([(exe, flavor)])
    cmd = [exes[(exe, flavor)]] + v['cmd'][1:]
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(v.get('env', {}))
    print('+ ' + ' '.join(cmd))
    with tempfile.TemporaryDirectory(prefix='vf_replay_') as d:
        return subprocess.run(cmd, env=e, cwd=d).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    if a.property not in PROPERTIES:
        print('unknown property ' + a.property)
        sys.exit(2)
    d = os.path.join(VERIF, 'replays')
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith(a.property + '-'):
                os.unlink(os.path.join(d, f))
    c = Check(a.property, a.tier, a.seed)
    try:
        try:
            b = c.run()
        except build.BuildError as e:
            print('BUILD ERROR\n' + str(e))
            sys.exit(2)
        rc = c.finish(b)
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
