#!/usr/bin/env python3
"""Driver of every check:  check.py C12 [--replay replays/x.json]

Compiles /verif/harness/<ID>.cpp against the current working tree of the repository, runs the workload in shards, and
turns what the monitors reported into a verdict. Exit 0: held on everything observed. Exit 1 + VIOLATION line: broken.
Exit 2: the check could not decide (did not build, observed nothing, ...)."""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
sys.argv = [a for a in sys.argv if a != '--thorough']
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
NCPU = os.cpu_count() or 4

SAN = ['-O0', '-gline-tables-only', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
SAN1 = ['-O1'] + SAN[1:]
TSAN = ['-O1', '-gline-tables-only', '-fsanitize=thread', '-fno-omit-frame-pointer']
PLAIN = ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS']

with open(os.path.join(VERIF, 'checks.json')) as f:
    CONFIG = json.load(f)

FLAVOURS = {'san': SAN, 'san1': SAN1, 'tsan': TSAN, 'plain': PLAIN}


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.exit(2)


def compile_one(job, out, log):
    src = os.path.join(VERIF, 'harness', job['src'])
    cmd = ['clang++', '-std=c++17', '-w', '-fno-color-diagnostics'] + FLAVOURS[job['flavour']] + [
        '-DVF_' + job['flavour'].upper(),
        '-include', os.path.join(VERIF, 'harness', 'compat', 'msvc_compat.hpp'),
        '-I' + os.path.join(REPO, 'src', 'ml'), '-I' + os.path.join(REPO, 'src', 'lang', 'statements'),
        '-I' + os.path.join(VERIF, 'harness', 'compat'), '-I' + os.path.join(VERIF, 'harness'),
        '-I' + os.path.join(REPO, 'src'),
        '-DVF_REPO="' + REPO + '"', src, '-o', out] + job.get('flags', []) + ['-ltbb', '-pthread']
    with open(log, 'w') as lf:
        return subprocess.call(cmd, stdout=lf, stderr=lf)


def classify(err):
    """a stable short name for a crash, from the sanitizer's or the runtime's own words"""
    m = re.search(r'SUMMARY: (\w+): ([\w-]+)', err)
    kind = ''
    if m:
        kind = m.group(2)
    if 'runtime error:' in err:
        kind = 'ub:' + re.sub(r'[^a-z]+', '-', re.search(r'runtime error: ([^\n]*)', err).group(1).lower())[:50].strip('-')
    elif not kind and 'terminate called' in err:
        kind = 'terminate'
    elif not kind and 'ssertion' in err:
        kind = 'assertion'
    return kind or 'abnormal-exit'


class Shard(threading.Thread):
    def __init__(self, job, binary, n, total, scratch, deadline, only=None):
        super().__init__()
        self.job, self.binary, self.n, self.total, self.deadline, self.only = job, binary, n, total, deadline, only
        self.dir = os.path.join(scratch, 'run-%s-%d' % (os.path.basename(binary), n))
        os.makedirs(self.dir)
        self.report = os.path.join(scratch, 'report-%s-%d' % (os.path.basename(binary), n))
        self.crashes, self.problem, self.hangs = [], None, []
        self.finished = False

    def launch(self, start, only):
        env = dict(os.environ)
        work = os.path.join(self.dir, 'w')
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        cur = os.path.join(self.dir, 'cur')
        open(cur, 'w').close()
        env.update(VERIF_SEED=str(SEED), VERIF_TIER=TIER, VF_SHARD=str(self.n), VF_SHARDS=str(self.total),
                   VF_START=str(start), VF_REPORT=self.report, VF_CUR=cur, VF_ONLY=only or '',
                   TMPDIR=self.dir, HOME=self.dir, LC_ALL='C.UTF-8',
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:max_allocation_size_mb=2048:'
                                'allocator_may_return_null=0:detect_stack_use_after_return=0:symbolize=%d:color=never' %
                                (1 if self.job.get('symbolize', True) else 0),
                   UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77:color=never',
                   TSAN_OPTIONS='halt_on_error=1:exitcode=66:second_deadlock_stack=1:color=never')
        errp = os.path.join(self.dir, 'stderr')
        with open(errp, 'wb') as ef, open(os.devnull, 'r+b') as nul:
            p = subprocess.Popen([self.binary], cwd=work, env=env, stdin=nul, stdout=nul, stderr=ef,
                                 start_new_session=True)
        last, since = None, time.time()
        hang = False
        limit = self.job.get('case_timeout', 150)
        while p.poll() is None:
            time.sleep(0.05)
            with open(cur, 'rb') as f:
                now = f.read(2100)
            if now != last:
                last, since = now, time.time()
            if time.time() - since > limit or time.time() > self.deadline:
                hang = time.time() <= self.deadline
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                if not hang:
                    self.problem = 'ran out of time (inconclusive)'
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        with open(errp, 'rb') as f:
            err = f.read()[-20000:].decode('utf-8', 'replace')
        with open(cur, 'rb') as f:
            raw = f.read(4096)
        head = raw[:2048].split(b'\0')[0].decode('utf-8', 'replace').split('\n')
        ordinal = raw[2048:2112].split(b'\0')[0].decode() or '-1'
        return p.returncode, hang, err, head, int(ordinal)

    def run(self):
        start = 0
        while True:
            rc, hang, err, head, ordinal = self.launch(start, self.only)
            if self.problem:
                return
            if rc == 0 and not hang:
                self.finished = True
                return
            section = head[0] if head else '?'
            index = head[1] if len(head) > 1 else '0'
            probe = head[2] if len(head) > 2 else ''
            if not section:
                self.problem = 'harness failed before its first case: rc=%s %s' % (rc, err[-2000:])
                return
            if rc in range(91, 96) and 'ERROR' not in err:
                self.problem = 'harness error exit %d in %s:%s %s' % (rc, section, index, err[-1000:])
                return
            name = probe or section
            if hang:
                rc2, hang2, err2, _, _ = self.launch(0, '%s:%s' % (section, index))
                if self.problem:
                    return
                if hang2:
                    self.hangs.append(section)
                    self.crashes.append(dict(key='hang:' + name, section=section, i=int(index),
                                             detail='the case did not finish in %ds, twice' % self.job.get('case_timeout', 150)))
                    if len(self.hangs) >= 1:
                        self.finished = True
                        return
                elif rc2 != 0:
                    self.crashes.append(dict(key='crash:%s' % name, section=section, i=int(index),
                                             detail=classify(err2) + '\n' + err2[-3000:]))
            else:
                tail = err
                k = err.find('ERROR: ')
                k2 = err.find('runtime error:')
                k = min([x for x in (k, k2) if x >= 0], default=-1)
                if k >= 0:
                    tail = err[max(0, k - 200):k + 3500]
                self.crashes.append(dict(key='crash:%s' % name, section=section, i=int(index),
                                         detail='%s (exit %s)\n%s' % (classify(err), rc, tail[-3800:])))
            if self.only:
                self.finished = True
                return
            start = ordinal + 1
            if len(self.crashes) >= 12:
                self.finished = True
                return


def load_known(pid):
    known = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CONFIG:
        die('usage: check.py <property> [--replay FILE]; properties: ' + ' '.join(sorted(CONFIG)))
    pid = sys.argv[1]
    cfg = CONFIG[pid]
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        global SEED, TIER
        r = json.load(open(sys.argv[3]))
        SEED, TIER = r['seed'], r['tier']
        only = '%s:%d' % (r['section'], r['i'])
    t0 = time.time()
    budget = cfg.get('budget', {}).get(TIER, 800 if TIER == 'quick' else 3600)
    deadline = t0 + budget
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    os.chmod(scratch, 0o755)
    try:
        code = run(pid, cfg, only, t0, deadline, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def run(pid, cfg, only, t0, deadline, scratch):
    jobs = cfg['builds']
    bins, threads, rcs = [], [], {}
    for k, job in enumerate(jobs):
        out = os.path.join(scratch, 'h%d-%s' % (k, job['flavour']))
        bins.append(out)
        th = threading.Thread(target=lambda j=job, o=out: rcs.__setitem__(o, compile_one(j, o, o + '.log')))
        th.start()
        threads.append(th)
    for th in threads:
        th.join()
    for b in bins:
        if rcs[b] != 0:
            text = open(b + '.log').read()
            die('harness of %s does not build against %s:\n%s' % (pid, REPO, text[:6000]))
    build_s = time.time() - t0
    viols, shards = [], []
    per = cfg.get('shards', NCPU)
    if len(jobs) > 1:
        per = max(1, per // len(jobs))
    for job, b in zip(jobs, bins):
        n = 1 if only else job.get('shards', per)
        for k in range(n):
            shards.append(Shard(job, b, k, n, scratch, deadline, only))
    for s in shards:
        s.start()
    for s in shards:
        s.join()
    counters, required, samples, hashes, evals, rules = {}, {}, [], set(), 0, []
    for s in shards:
        if os.path.exists(s.report):
            for line in open(s.report, errors='replace'):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d['t'] == 'viol':
                    viols.append(d)
                elif d['t'] == 'stats':
                    evals += d['evals']
                    hashes.update(d['hashes'])
                    for k, v in d['counters'].items():
                        counters[k] = counters.get(k, 0) + v
                    required.update(d['required'])
                    if d['rule'] and d['rule'] not in rules:
                        rules.append(d['rule'])
                    samples += d['samples']
        for c in s.crashes:
            viols.append(c)
    problems = [s.problem for s in shards if s.problem]
    known = load_known(pid)
    seen_known, fresh = {}, {}
    for v in viols:
        if v['key'] in known:
            seen_known[v['key']] = v
        else:
            fresh.setdefault(v['key'], []).append(v)
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, known[k], k))
    status = 0
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for k in sorted(fresh):
        v = fresh[k][0]
        name = '%s-%s.json' % (pid, hashlib.sha1(k.encode()).hexdigest()[:10])
        path = os.path.join(VERIF, 'replays', name)
        with open(path, 'w') as f:
            json.dump(dict(property=pid, key=k, seed=SEED, tier=TIER, section=v['section'], i=v['i'],
                           detail=v['detail'], times=len(fresh[k]),
                           replay='VERIF_SEED=%d VERIF_TIER=%s /verif/check.py %s --replay %s' % (SEED, TIER, pid, path)),
                      f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s at %s:%s: %s' % (k, v['section'], v['i'], v['detail'][:1500].replace('\n', '\n    ')))
        status = 1
    missing = [] if only else ['%s (%d < %d)' % (k, counters.get(k, 0), n) for k, n in sorted(required.items())
                               if counters.get(k, 0) < n]
    if status == 0 and not only:
        if problems:
            print('CHECK-ERROR: ' + '; '.join(problems[:4]))
            status = 2
        elif missing:
            print('CHECK-ERROR: the workload did not reach what it must: ' + ', '.join(missing))
            status = 2
        elif evals == 0:
            print('CHECK-ERROR: nothing was observed')
            status = 2
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=pid, tier=TIER, seed=SEED, level='exploration', wall_s=round(time.time() - t0, 2),
                  violations=len(fresh),
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=' '.join(rules),
                                samples=samples[:30], monitors=dict(sorted(counters.items())),
                                builds=['%s:%s' % (j['src'], j['flavour']) for j in jobs], build_s=round(build_s, 1),
                                known_findings_seen=sorted(seen_known), shards=len(shards),
                                crashed_cases=sum(len(s.crashes) for s in shards)),
                  assumptions=cfg.get('assumptions', []))
        if status == 2:
            ev['coverage']['inconclusive'] = problems[:4] + missing
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle checks, %d known findings, %d violations, %.0fs'
          % (pid, TIER, SEED, evals, len(hashes), counters.get('oracle_checks', 0), len(seen_known), len(fresh),
             time.time() - t0))
    return status


main()
