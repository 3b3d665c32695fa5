"""Runs harness jobs, attributes failures, writes evidence, decides the verdict."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = int(os.environ.get('VERIF_JOBS', '8'))
MAX_REPORT = 8

class HarnessError(Exception):
    pass

def scratch_root():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    try:
        return tempfile.mkdtemp(prefix='ferret_verif_', dir=base)
    except OSError:
        return tempfile.mkdtemp(prefix='ferret_verif_')

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=1:'
                    'max_allocation_size_mb=4096:detect_stack_use_after_return=0:symbolize=1:print_legend=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1',
}

def san_key(text):
    """A stable name for a sanitizer report: kind and the innermost repository frame."""
    kind = None
    m = re.search(r'^==\d+== ((?:Invalid|Conditional|Use of|Syscall|Source and|Mismatched|Argument|realloc)[^\n]*)((?:\n==\d+==    [^\n]*)*)', text, re.M)
    if m:           # memcheck
        fs = re.findall(r'(?:at|by) 0x[0-9A-F]+: (\w+) \((?!in |vg_)', m.group(2))
        return 'crash:%s:%s' % (re.sub(r'\W+', '-', m.group(1))[:60], fs[0] if fs else '')
    m = re.search(r'SUMMARY: (\w+): ([\w-]+)', text)
    if m:
        kind = m.group(2)
    m2 = re.search(r'runtime error: ([^\n]*)', text)
    if m2:
        kind = 'ub:' + re.sub(r'-?\d+|0x[0-9a-f]+', 'N', m2.group(1))[:60]
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (?:\S*/)?((?:c/src|ext|h)/[\w.]+):\d+', text)
    fn = ''
    for f, path in frames:
        if not path.startswith('h/'):
            fn = f
            break
    if not fn and frames:
        fn = 'harness:' + frames[0][0]
    if kind is None:
        if 'Error occurred' in text or 'Exception' in text or 'exiting' in text.lower():
            m = re.search(r'Error occurred in \S+?:\d+ - (\S+)', text)
            kind, fn = 'uncaught-exception', (m.group(1) if m else '')
        else:
            return None
    return 'crash:%s:%s' % (kind, fn)

class Job:
    """cases [0, n) of one harness mode, optionally with environment overrides."""
    def __init__(self, exe, mode, cases, env=None, case_timeout=60, wrapper=None, chunk=None, tag=None, args=None):
        self.exe, self.mode, self.cases = exe, mode, cases
        self.env = env or {}
        self.case_timeout = case_timeout
        self.wrapper = wrapper or []
        self.chunk = chunk
        self.tag = tag or mode
        self.args = args or []

class Result:
    def __init__(self):
        self.hang_deadline = float('inf')
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []   # dicts: tag, mode, case, key, msg, trace
        self.inconclusive = []
        self.lock = threading.Lock()
        self.truncated = False

    def merge_done(self, d, tag):
        with self.lock:
            self.evals += d['evals']
            for x in d['distinct']:
                self.distinct.add(tag + x)
            for k, v in d['counters'].items():
                self.counters[k] = self.counters.get(k, 0) + v
            if len(self.samples) < 6:
                self.samples.extend(('%s: %s' % (tag, s)) for s in d['samples'][:2])

def run_proc(job, frm, to, seed, tier, scratch, outp, verbose=False):
    """Runs one process; returns (rc or None on stall, stderr, last_started, done, violations)."""
    env = dict(os.environ)
    env.update(SAN_ENV)
    env['LC_ALL'] = 'C.UTF-8'
    env.update(job.env)
    if os.path.exists(outp):
        os.unlink(outp)
    errp = outp + '.err'
    cmd = job.wrapper + [job.exe, '--mode', job.mode, '--seed', str(seed), '--from', str(frm), '--to', str(to),
                         '--out', outp, '--scratch', scratch, '--tier', tier, '--verbose', '1' if verbose else '0'] + job.args
    stalled = False
    with open(errp, 'wb') as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=scratch,
                             start_new_session=True)
        last_size, last_t = -1, time.time()
        while True:
            try:
                p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                try:
                    sz = os.path.getsize(outp)
                except OSError:
                    sz = 0
                if sz != last_size:
                    last_size, last_t = sz, time.time()
                elif time.time() - last_t > job.case_timeout:
                    stalled = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    started, done, viols = None, None, []
    if os.path.exists(outp):
        with open(outp, errors='replace') as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d['t'] == 'start':
                    started = d['case']
                elif d['t'] == 'done':
                    done = d
                elif d['t'] == 'violation':
                    viols.append(d)
    with open(errp, 'rb') as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 60000))
        err = f.read().decode(errors='replace')
    for q in (outp, errp):
        try:
            os.unlink(q)
        except OSError:
            pass
    return (None if stalled else p.returncode), err, started, done, viols

def run_chunk(job, frm, to, seed, tier, scratch, res, deadline, ident):
    cur = frm
    sub = os.path.join(scratch, 'w%s' % ident)
    os.makedirs(sub, exist_ok=True)
    outp = os.path.join(scratch, 'out_%s' % ident)
    crashes = 0
    while cur < to:
        if time.time() > min(deadline, res.hang_deadline):
            res.truncated = True
            return
        rc, err, started, done, viols = run_proc(job, cur, to, seed, tier, sub, outp)
        with res.lock:
            for v in viols:
                v.update(tag=job.tag, mode=job.mode)
                res.violations.append(v)
        if done is not None and rc == 0 and 'WARNING: ThreadSanitizer' not in err:
            res.merge_done(done, job.tag)
            return
        if done is not None and 'WARNING: ThreadSanitizer' in err:
            # the races were reported, the cases all ran
            res.merge_done(done, job.tag)
            with res.lock:
                for key, txt in tsan_reports(err):
                    res.violations.append(dict(tag=job.tag, mode=job.mode, case=cur, key=key, msg=txt, trace=[], job=job))
            return
        if started is None:
            raise HarnessError('harness %s did not start: rc=%s\n%s' % (job.exe, rc, err[-2000:]))
        if rc == 4:
            raise HarnessError('harness error: ' + err[-2000:])
        k = started
        # attribute to case k; re-run it alone to get the trace and to confirm
        rc2, err2, st2, done2, v2 = run_proc(job, k, k + 1, seed, tier, sub, outp, verbose=True)
        if rc in (None, -9, -15) and rc2 == 0 and done2 is not None:        # no progress, or killed from outside
            with res.lock:
                res.inconclusive.append('%s case %d: stalled or was killed once, completed on re-run' % (job.tag, k))
        else:
            if rc is None and rc2 is None:
                key, msg = 'hang', 'case made no progress for %d s, twice' % job.case_timeout
                crashes = 99
                res.hang_deadline = min(res.hang_deadline, time.time() + 60)      # each further one would cost minutes
            else:
                src = err2 if (done2 is None and rc2 not in (0,)) else err
                races = tsan_reports(src) or tsan_reports(err)
                key = races[0][0] if races else san_key(src)
                if key is None and rc is not None and rc < 0:
                    key = 'crash:signal%d' % -rc
                if key is None:
                    key = 'crash:exit%s' % rc
                msg = src[-6000:]
            with res.lock:
                res.violations.append(dict(tag=job.tag, mode=job.mode, case=k, key=key, msg=msg,
                                           trace=[l[4:] for l in err2.splitlines() if l.startswith('  | ')][-80:]))
        with res.lock:
            res.evals += k + 1 - cur
        crashes += 1
        if crashes > 6:
            res.truncated = True
            return
        cur = k + 1

def tsan_reports(err):
    out = {}
    for block in re.split(r'={18}\n', err):
        m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]+)', block)
        if not m:
            continue
        frames = re.findall(r'#\d+ (\S+) (?:\S*/)?((?:c/src|include|h)/[\w.]+):\d+', block)
        tops = []
        for part in re.split(r'\n\s*\n', block):
            fs = re.findall(r'#\d+ (\S+) (?:\S*/)?((?:c/src|c/include|h)/[\w.]+)(?::\d+)?', part)
            if fs and (re.search(r'(Write|Read|read|write) of size', part)):
                tops.append(fs[0][0])
        key = 'race:%s:%s' % (m.group(1).strip().replace(' ', '-'), '/'.join(sorted(tops[:2])) or (frames[0][0] if frames else '?'))
        out.setdefault(key, block[:5000])
    return sorted(out.items())

def brief(t):
    ls = [l for l in t.splitlines() if re.match(r'\s+#\d|==\d+==ERROR|SUMMARY|.*runtime error', l)]
    return '\n     '.join(l[:150] for l in ls[:14]) or t[-600:]

def summary(res):
    groups = {}
    for v in res.violations:
        groups.setdefault(v['key'], []).append(v)
    print('evals %d distinct %d truncated %s' % (res.evals, len(res.distinct), res.truncated), res.inconclusive[:3])
    print({k: v for k, v in sorted(res.counters.items())})
    for k, vs in sorted(groups.items(), key=lambda kv: -len(kv[1])):
        vs.sort(key=lambda v: len(v['trace']))
        print('== %s: %d  cases %s\n     %s' % (k, len(vs), [v['case'] for v in vs[:6]], brief(vs[0]['msg']) if k.startswith('crash') else vs[0]['msg'][:900]))

def run_jobs(jobs, seed, tier, budget_s=600):
    res = Result()
    scratch = scratch_root()
    deadline = time.time() + budget_s
    try:
        work = []
        n = 0
        for j in jobs:
            chunk = j.chunk or max(1, (j.cases + NCPU - 1) // NCPU)
            for f in range(0, j.cases, chunk):
                work.append((j, f, min(j.cases, f + chunk), n))
                n += 1
        with ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(run_chunk, j, f, t, seed, tier, scratch, res, deadline, i) for j, f, t, i in work]
            for f in futs:
                f.result()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res

# ---------------------------------------------------------------- verdict
def load_known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', line.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out

def finish(prop, tier, seed, level, rule, res, t0, extra=None, assumptions=None, min_distinct=2):
    known = [k for k in load_known() if k[0] == prop]
    fresh, hit = [], {}
    for v in sorted(res.violations, key=lambda v: (v['tag'], v['case'])):
        kf = next((k for k in known if k[1] == v['key']), None)
        if kf:
            hit[kf[1]] = kf
        else:
            fresh.append(v)
    cov = dict(evaluations=res.evals, distinct_nontrivial=len(res.distinct), rule=rule,
               samples=res.samples[:6] or ['(none recorded)'], observed=dict(sorted(res.counters.items())))
    if res.inconclusive:
        cov['inconclusive'] = res.inconclusive[:20]
    if res.truncated:
        cov['truncated'] = 'the time budget ended the run before every planned case was executed'
    if extra:
        cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(fresh))
    ev['assumptions'] = assumptions or []
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    print('%s: %d executions, %d distinct non-trivial, %d violation(s), %.1f s' %
          (prop, res.evals, len(res.distinct), len(fresh), time.time() - t0))
    if fresh:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        seen = set()
        for v in fresh:
            if v['key'] in seen or len(seen) >= MAX_REPORT:
                continue
            seen.add(v['key'])
            name = '%s_%s.json' % (prop, re.sub(r'[^\w.-]+', '_', v['key'])[:80])
            path = os.path.join(d, name)
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, mode=v['mode'], tag=v['tag'], case=v['case'],
                               key=v['key'], msg=v['msg'], trace=v['trace'],
                               how='./check.py %s --seed %d --only %s:%d' % (prop, seed, v['tag'], v['case'])), f, indent=1)
            print('  %s case %s: %s: %s' % (v['tag'], v['case'], v['key'], v['msg'][:400].replace('\n', ' / ')))
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, VERIF)))
        return 1
    if len(res.distinct) < min_distinct:
        print('ERROR: the monitors observed too little (%d distinct non-trivial cases): inconclusive' % len(res.distinct))
        return 3
    return 0
