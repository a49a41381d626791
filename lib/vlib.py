"""Shared machinery: run the code under test in guarded child processes, record traces, run TLC, judge."""
import json, mmap, os, pickle, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('NLC_REPO', '/repo'))
SPEC = VERIF / 'spec'
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'


class MachineryError(Exception):
    """Something is wrong with the check itself, not with the code under test."""


class CaseTimeout(BaseException):
    """Not an Exception, so that the code under test is unlikely to swallow it."""


def setup_repo_path():
    os.environ.update(PYTHONDONTWRITEBYTECODE='1', PYSPARK_PYTHON=PY, PYSPARK_DRIVER_PYTHON=PY,
                      SPARK_LOCAL_IP='127.0.0.1', SPARK_LOCAL_HOSTNAME='localhost', LANG='C.UTF-8')
    os.environ['PYTHONPATH'] = f'{REPO}:{VERIF}'
    sys.dont_write_bytecode = True
    if sys.path[0] != str(REPO):
        sys.path.insert(0, str(REPO))
    import logging
    logging.disable(logging.CRITICAL)


def quiet_fds():
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)


def cps(text):
    """text as a sequence of code points"""
    return [ord(c) for c in text]


def _alarm(signum, frame):
    raise CaseTimeout()


def _guarded(fn, case, timeout):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return ('ok', fn(case))
    except CaseTimeout:
        return ('hang', f'no result within {timeout}s')
    except MachineryError as e:
        return ('machinery', f'{e}')
    except Exception as e:
        return ('exc', type(e).__name__ + ': ' + str(e)[:300] + ' @ ' + traceback.format_exc()[-700:])
    except SystemExit as e:
        return ('exc', f'SystemExit: {e.code}')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


# hangs seen so far, shared with the forked children: a run in which the code loops forever still has to answer
HANGS = mmap.mmap(-1, 1)
MAX_HANGS = 6


def run_cases(fn, cases, timeout=20, procs=6, chunk=None):
    """
    fn(case) in forked children, `procs` at a time. -> list of (status, value): ok | exc | hang | died.
    An exception escaping fn is a finding about the case (drivers catch those they expect).
    """
    cases = list(cases)
    out = [('died', 'child process died')] * len(cases)
    if not cases:
        return out
    chunk = chunk or max(1, min(200, (len(cases) + procs * 3 - 1) // (procs * 3)))
    todo = [range(i, min(i + chunk, len(cases))) for i in range(0, len(cases), chunk)]
    tmp = Path(tempfile.mkdtemp(prefix='vcase'))
    running = {}
    n = 0
    try:
        while todo or running:
            while todo and len(running) < procs:
                rng = todo.pop(0)
                n += 1
                f = tmp / f'{n}.pkl'
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        quiet_fds()
                        with open(f, 'wb') as fh:
                            for i in rng:
                                if HANGS[0] >= MAX_HANGS:
                                    pickle.dump((i, ('hang', 'not run: so many others hang')), fh)
                                    continue
                                random.seed(SEED * 1000003 + i)
                                try:
                                    import numpy
                                    numpy.random.seed((SEED * 1000003 + i) % 2**32)
                                except ImportError:
                                    pass
                                res = _guarded(fn, cases[i], timeout)
                                if res[0] == 'hang':
                                    HANGS[0] = min(200, HANGS[0] + (MAX_HANGS if timeout > 90 else 1))
                                pickle.dump((i, res), fh)
                                fh.flush()
                        os._exit(0)
                    except BaseException:
                        os._exit(9)
                running[pid] = (rng, f, time.time())
            pid, status = 0, 0
            for p in running:   # not -1: TLC and other threads have children of their own
                pid, status = os.waitpid(p, os.WNOHANG)
                if pid:
                    break
            if pid == 0:
                now = time.time()
                for p, (rng, f, t0) in list(running.items()):
                    # outer guard: a child blocked where SIGALRM cannot reach it
                    if now - t0 > timeout * len(rng) + 15 or (
                            f.exists() and now - max(t0, f.stat().st_mtime) > timeout + 15):
                        os.killpg(p, signal.SIGKILL)
                time.sleep(0.01)
                continue
            try:
                os.killpg(pid, signal.SIGKILL)  # leftovers of the case, e.g. pool workers
            except OSError:
                pass
            rng, f, t0 = running.pop(pid)
            done = set()
            if f.exists():
                with open(f, 'rb') as fh:
                    while True:
                        try:
                            i, r = pickle.load(fh)
                        except Exception:
                            break
                        out[i] = r
                        done.add(i)
            rest = [i for i in rng if i not in done]
            if rest:  # the first of the rest killed or blocked the child
                sig = status & 0x7f
                if sig == 9:
                    HANGS[0] = min(200, HANGS[0] + 1)
                out[rest[0]] = ('hang', 'blocked') if sig == 9 else ('died', f'status {status}')
                if len(rest) > 1:
                    todo.append(rest[1:])
    finally:
        for p in running:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    for s, v in out:
        if s == 'machinery':
            raise MachineryError(v)
    return out


def check_json(x):
    """TLC: ints are 32 bit; no null, no float; text goes as code points"""
    if isinstance(x, bool) or isinstance(x, str):
        if isinstance(x, str) and not x.isascii():
            raise MachineryError(f'non-ascii string in trace: {x!r}')
        return
    if isinstance(x, int):
        if not -2**31 < x < 2**31:
            raise MachineryError(f'integer out of range of TLC: {x}')
        return
    if isinstance(x, (list, tuple)):
        for y in x:
            check_json(y)
        return
    if isinstance(x, dict):
        if not x:
            raise MachineryError('empty record in trace')
        for k, y in x.items():
            check_json(k)
            check_json(y)
        return
    raise MachineryError(f'{type(x)} in trace: {x!r}')


EVAL_ERROR = re.compile(r'Evaluating (?:an )?(?:invariant|expression|assumption)|The error occurred when TLC was evaluating|TLC threw an unexpected exception|Attempted to |The (?:first|second|third) argument of|Overflow when computing')


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated, self.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        if not m:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            if m:
                self.generated = self.distinct = int(m[-1].replace(',', ''))
        self.printed = [l for l in out.splitlines() if l.startswith('<<"') or l.startswith('"')]


def tlc(module, cfg=None, env=None, workers=4, extra=(), timeout=600, heap='3g', specdir=SPEC, deadlock=False):
    meta = tempfile.mkdtemp(prefix='vtlc')
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss16m', '-cp', JARS, 'tlc2.TLC',
           '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg or f'{module}.cfg']
    if not deadlock:
        cmd.append('-deadlock')
    cmd += list(extra) + [module]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=specdir, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        raise MachineryError(f'TLC {module} exceeded {timeout}s')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(out, rc, time.time() - t0)


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.states = self.transitions = self.traces = 0
        self.evaluations = 0
        self.behaviours = 0  # model -> code
        self.violations = []  # (what, replay dict)
        self.samples = []
        self.design = []
        self.notes = {}
        self.assumptions = []
        self.lock = threading.Lock()
        self.jobs = []
        self.errors = []
        (VERIF / 'evidence').mkdir(exist_ok=True)
        self.known = self._load_known()
        self.known_hit = set()

    def _load_known(self):
        f = VERIF / 'known_findings.json'
        if not f.exists():
            return []
        return [k for k in json.loads(f.read_text())['findings'] if k.get('property') == self.pid]

    # -- running things side by side
    def spawn(self, fn, *a, **kw):
        def run():
            try:
                fn(*a, **kw)
            except BaseException as e:
                self.errors.append(''.join(traceback.format_exception(e)))
        t = threading.Thread(target=run, daemon=True)
        t.start()
        self.jobs.append(t)

    def join(self):
        for t in self.jobs:
            t.join()
        self.jobs = []
        if self.errors:
            raise MachineryError(self.errors[0])

    # -- the design itself
    def design_check(self, module, cfg=None, workers=3, timeout=600, extra=(), min_states=2, env=None,
                     simulate=False):
        r = tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, env=env)
        ok = ('No error has been found' in r.out) or (simulate and r.rc == 0)
        if not ok or r.distinct < min_states:
            raise MachineryError(f'design check {module}/{cfg} failed (rc={r.rc}):\n' + r.out[-2500:])
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.design.append(dict(module=module, cfg=cfg or f'{module}.cfg', distinct=r.distinct,
                                    generated=r.generated, wall_s=round(r.wall, 1)))
        return r

    def design_refuted(self, module, cfg, invariant, workers=2, timeout=300):
        """the same design with a known mistake must violate the invariant: the invariant is not vacuous"""
        r = tlc(module, cfg, workers=workers, timeout=timeout)
        if f'Invariant {invariant} is violated' not in r.out and f'Postcondition {invariant} ' not in r.out:
            raise MachineryError(f'{module}/{cfg}: {invariant} should be violated\n' + r.out[-2000:])
        with self.lock:
            self.design.append(dict(module=module, cfg=cfg, refuted=invariant, wall_s=round(r.wall, 1)))

    # -- behaviours exported by TLC:  lines  "BEHAVIOUR {json}"
    def behaviours_from(self, module, cfg=None, workers=1, timeout=600, env=None, extra=()):
        r = self.design_check(module, cfg, workers=workers, timeout=timeout, env=env, extra=extra)
        res = []
        for l in r.out.splitlines():
            if l.startswith('"BEHAVIOUR '):
                res.append(json.loads(json.loads(l)[len('BEHAVIOUR '):]))
        if not res:
            raise MachineryError(f'{module}: no behaviours exported\n' + r.out[-3000:])
        return res

    def _tlc_traces(self, module, traces, cfg, workers, timeout, heap, depth=0):
        """-> (distinct states, {trace number: (event number, clause)}, seconds)"""
        tmp = Path(tempfile.mkdtemp(prefix='vtrace'))
        try:
            f = tmp / 'traces.ndjson'
            with open(f, 'w') as fh:
                for t in traces:
                    fh.write(json.dumps({k: v for k, v in t.items() if k != '_py'}) + '\n')
            r = tlc(module, cfg, env={'TRACES': str(f)}, workers=workers, timeout=timeout, heap=heap)
            rej = {}
            for line in r.printed:
                if line.startswith('"REJECT '):
                    tid, l, clause = json.loads(json.loads(line)[len('REJECT '):])
                    rej[tid] = (l, clause)
            if 'No error has been found' not in r.out:
                if EVAL_ERROR.search(r.out) and depth < 14:
                    # the specification is not even defined for some event: find the trace
                    if len(traces) == 1:
                        return 1, {1: (1, 'an event outside of the specification: ' + ' '.join(r.out[EVAL_ERROR.search(r.out).start():].split())[:300])}, r.wall
                    h = len(traces) // 2
                    d1, r1, w1 = self._tlc_traces(module, traces[:h], cfg, workers, timeout, heap, depth + 1)
                    if any('outside of the spec' in c for l, c in r1.values()):     # one is enough
                        return d1, r1, w1
                    d2, r2, w2 = self._tlc_traces(module, traces[h:], cfg, workers, timeout, heap, depth + 1)
                    r1.update({k + h: v for k, v in r2.items()})
                    return d1 + d2, r1, w1 + w2
                (VERIF / 'out').mkdir(exist_ok=True)
                shutil.copy(f, VERIF / 'out' / f'{self.pid}.failed.ndjson')
                raise MachineryError(f'trace check {module} failed (rc={r.rc}):\n' + r.out[-2500:])
            want = sum(len(t['ev']) + 1 for i, t in enumerate(traces, 1) if i not in rej) + \
                sum(l + 1 for l, c in rej.values())
            if r.distinct != want:
                raise MachineryError(f'trace check {module}: {r.distinct} states, expected {want}\n' + r.out[-3000:])
            return r.distinct, rej, r.wall
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    # -- traces of the code
    def validate(self, module, traces, cfg=None, timeout=600, shards=None, heap='4g', workers=4):
        """traces: list of dicts with 'ev' (events) (+ header). Rejected ones are recorded as violations."""
        if not traces:
            return []
        good = []
        for t in traces:
            try:
                check_json({k: v for k, v in t.items() if k != '_py'})
                good.append(t)
            except MachineryError as e:     # e.g. an id that is no integer: no behaviour of the specification
                self.violation('values outside of the specification', dict(module=module, detail=str(e), trace=repr(t)[:20000]))
        traces = good
        if not traces:
            return []
        rejects = []
        distinct, rej, r = self._tlc_traces(module, traces, cfg, workers, timeout, heap)
        with self.lock:
            self.states += distinct
            self.transitions += max(distinct - len(traces), 0)
            self.traces += len(traces)
            self.design.append(dict(module=module, role='trace validation', traces=len(traces), states=distinct,
                                    rejected=len(rej), wall_s=round(r, 1)))
            for tid, (l, clause) in sorted(rej.items()):
                t = traces[tid - 1]
                self.violation(clause, dict(module=module, clause=clause, event_index=l, event=t['ev'][l - 1] if t['ev'] else None,
                                            trace={k: v for k, v in t.items() if k != '_py'}, py=repr(t.get('_py'))[:20000]))
                rejects.append((t, l, clause))
            if traces and len(self.samples) < 6:
                s = json.dumps(traces[0])
                self.samples.append(s if len(s) < 1500 else s[:1500] + '...')
        return rejects

    def violation(self, what, replay):
        for k in self.known:
            if k.get('clause') == what and k.get('match', '') in json.dumps(replay):
                self.known_hit.add(k['id'])
                return
        self.violations.append((what, replay))

    def case_failures(self, cases, results, where, allowed=()):
        """cases on which the code raised, hung or died although the input is legal"""
        for c, (s, v) in zip(cases, results):
            if s != 'ok':
                self.violation(f'{where}: {s}', dict(where=where, case=repr(c)[:20000], status=s, detail=v))
        return [v for s, v in results if s == 'ok']

    def finish(self, rule='', exhaustive=False, min_traces=1):
        self.join()
        if self.traces < min_traces and not self.violations:
            raise MachineryError('no traces validated')
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:6] or ['-'], runs=self.design, rule=rule)
        if self.behaviours:
            cov['behaviours_replayed_on_impl'] = self.behaviours
        if self.evaluations:
            cov['evaluations'] = self.evaluations
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        (VERIF / 'evidence' / f'{self.pid}.json').write_text(json.dumps(ev, indent=1) + '\n')
        for k in self.known:
            if k['id'] in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if self.violations:
            out = VERIF / 'out'
            out.mkdir(exist_ok=True)
            what, rep = self.violations[0]
            f = out / f'{self.pid}.replay.json'
            f.write_text(json.dumps(dict(property=self.pid, seed=SEED, tier=TIER, n_violations=len(self.violations),
                                         clauses=sorted({w for w, _ in self.violations}),
                                         violations=[dict(what=w, **r) for w, r in self.violations[:20]]),
                                    indent=1, default=repr))
            for w in sorted({w for w, _ in self.violations}):
                print(f'  {self.pid}: clause "{w}" x{sum(1 for a, _ in self.violations if a == w)}')
            print(f'VIOLATION property={self.pid} replay={f}')
            return 1
        print(f'OK {self.pid}: {self.states} states, {self.transitions} transitions, {self.traces} traces of the '
              f'implementation validated, {self.behaviours} behaviours replayed, {time.time() - self.t0:.1f}s')
        return 0
