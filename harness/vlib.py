"""Running TLC, judging verdicts, evidence, known findings."""
import os, sys, json, time, subprocess, tempfile, shutil, traceback, importlib, re, hashlib, contextlib, io
from . import clock
clock.install()

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    """Something of ours failed; never a verdict about the code."""


def repo_import():
    """import GPyOpt from /repo's working tree"""
    import warnings
    warnings.simplefilter('ignore')
    with quiet():
        import GPyOpt
    if not os.path.realpath(GPyOpt.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise Machinery('GPyOpt imported from ' + GPyOpt.__file__)
    return GPyOpt


@contextlib.contextmanager
def quiet():
    """swallow what the library prints"""
    o, e = sys.stdout, sys.stderr
    sys.stdout = io.StringIO(); sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


class Scratch:
    """one scratch directory per check run, removed at the end"""
    path = None

    @classmethod
    def get(cls):
        if cls.path is None:
            cls.path = tempfile.mkdtemp(prefix='verif_gpyopt_')
        return cls.path

    @classmethod
    def sub(cls, name):
        return tempfile.mkdtemp(prefix=name + '_', dir=cls.get())

    @classmethod
    def clean(cls):
        if cls.path and os.path.basename(cls.path).startswith('verif_gpyopt_'):
            shutil.rmtree(cls.path, ignore_errors=True)
            cls.path = None


def run_tlc(module, cfg, env=None, args=(), timeout=600, workers=8, heap='4g'):
    """run TLC on spec/<module>.tla with the configuration text or file cfg; returns (rc, output)"""
    d = Scratch.sub('tlc')
    if '\n' in cfg:
        cfgfile = os.path.join(d, module + '.cfg')
        with open(cfgfile, 'w') as h:
            h.write(cfg)
    else:
        cfgfile = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d, '-cp', CP, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', os.path.join(d, 'meta'), '-workers', str(workers),
           '-config', cfgfile] + list(args) + [os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           universal_newlines=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b''
        return -9, out.decode('utf8', 'replace') if isinstance(out, bytes) else out
    finally:
        shutil.rmtree(d, ignore_errors=True)


_STATS = re.compile(r'^([\d,]+) states generated,? ?(?:\(.*?\), )?([\d,]+) distinct states found', re.M)
_SIM = re.compile(r'number of states generated: ([\d,]+)|The number of states generated: ([\d,]+)')


def stats(out):
    m = _STATS.findall(out)
    if m:
        g, d = m[-1]
        return int(d.replace(',', '')), int(g.replace(',', ''))
    m = re.findall(r'[Tt]he number of states generated: ([\d,]+)', out)
    if m:
        n = int(m[-1].replace(',', ''))
        return n, n
    return 0, 0


def jsonlines(out):
    """values printed with PrintT(ToJson(..))"""
    r = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"{') and line.endswith('}"'):
            try:
                r.append(json.loads(json.loads(line)))
            except ValueError:
                # TLC escapes only quotes and backslashes
                r.append(json.loads(line[1:-1].replace('\\"', '"').replace('\\\\', '\\')))
    return r


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = self.traces = 0
        self.samples, self.bad, self.known, self.notes = [], [], [], []
        self.hits = {}
        self.extra = {}
        self.t0 = clock.real()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def left(self):
        return (780 if not self.thorough else 6 * 3600) - (clock.real() - self.t0)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, clock.real() - self.t0), *a, flush=True)

    # ---------- exhaustive model checking of a design ----------
    def mc(self, module, cfg=None, timeout=600, workers=8, args=(), heap='4g', must_finish=True):
        cfg = cfg or module + '.cfg'
        rc, out = run_tlc(module, cfg, timeout=timeout, workers=workers, args=args, heap=heap)
        d, g = stats(out)
        self.states += d; self.transitions += g
        if rc == -9 and not must_finish:
            self.log('TLC %s: stopped after %ds' % (cfg if '\n' not in cfg else module, timeout))
            return
        if rc != 0 or 'Model checking completed. No error has been found.' not in out:
            raise Machinery('TLC on %s/%s failed (rc %s):\n%s' % (module, cfg, rc, out[-4000:]))
        self.log('TLC %s: %d distinct states, %d generated, no error' % (cfg if '\n' not in cfg else module, d, g))
        self.extra.setdefault('model_checked', []).append({'config': cfg if '\n' not in cfg else module, 'distinct': d, 'generated': g})

    def mc_fails(self, module, cfg, what, timeout=300, label=None):
        """the specification can tell the good design from a bad one: TLC must find the error"""
        rc, out = run_tlc(module, cfg, timeout=timeout)
        if what not in out or 'No error has been found' in out:
            raise Machinery('TLC found no error in the broken variant %s (rc %s):\n%s' % (cfg, rc, out[-3000:]))
        d, g = stats(out)
        cfg = label and module + '/' + label or cfg
        self.log('TLC %s: the broken variant is refuted (%s)' % (cfg, what))
        self.extra.setdefault('refuted_variants', []).append(cfg)

    # ---------- behaviours generated by a specification ----------
    def gen(self, module, cfg=None, num=100, depth=60, timeout=300, simulate=True, env=None, seed=None, aril=None):
        cfg = cfg or module + '.cfg'
        args = []
        if simulate:
            args = ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(self.seed if seed is None else seed)]
        rc, out = run_tlc(module, cfg, timeout=timeout, workers=1 if simulate else 8, args=args, env=env)
        r = jsonlines(out)
        if rc != 0 or not r:
            raise Machinery('TLC generation %s failed (rc %s):\n%s' % (module, rc, out[-4000:]))
        d, g = stats(out)
        self.states += d; self.transitions += g
        self.log('TLC %s: %d behaviours/cases generated from the specification' % (module, len(r)))
        return r

    # ---------- traces of the implementation against a specification ----------
    def validate(self, module, traces, timeout=600, chunk=400, cfg=None):
        """traces: list of dicts (JSON, each with at least 'c' and 'ev'). returns list of verdict dicts (same order)"""
        verdicts = [None] * len(traces)
        todo = list(range(len(traces)))
        tmp = Scratch.sub('traces')
        fn = os.path.join(tmp, 'traces.json')
        guard = 0
        while todo:
            part = todo[:chunk]
            with open(fn, 'w') as h:
                json.dump([traces[i] for i in part], h)
            rc, out = run_tlc(module, cfg or module + '.cfg', env={'TRACE': fn}, timeout=timeout)
            got = jsonlines(out)
            for v in got:
                if v.get('id') is not None and verdicts[part[v['id'] - 1]] is None:
                    verdicts[part[v['id'] - 1]] = v
            d, g = stats(out)
            self.states += d; self.transitions += g
            if rc == 0 and all(verdicts[i] is not None for i in part):
                todo = todo[chunk:]
                continue
            # an evaluation error: the observation of one trace is not even well-typed
            m = re.findall(r'^/\\ tid = (\d+)', out, re.M) or re.findall(r'tid = (\d+)', out)
            guard += 1
            if rc in (-9,) or not m or guard > 200:
                raise Machinery('TLC trace validation %s failed (rc %s):\n%s' % (module, rc, out[-6000:]))
            k = part[int(m[-1]) - 1]
            err = re.findall(r'Error: (.*(?:\n.*){0,6})', out)
            verdicts[k] = {'id': int(m[-1]), 'bad': [['%s.malformed' % self.prop, 0]], 'hit': [], 'error': (err[0] if err else out[-800:])[:800]}
            todo = [i for i in todo if verdicts[i] is None]
        shutil.rmtree(tmp, ignore_errors=True)
        self.traces += len(traces)
        for v in verdicts:
            for n in v.get('hit', []):
                self.hits[n] = self.hits.get(n, 0) + 1
        return verdicts

    def judge(self, traces, verdicts, prefixes=None, label='', describe=None, known=None):
        """turn rejected traces into violations.  prefixes: clause-name prefixes that count for this check."""
        prefixes = prefixes or (self.prop,)
        n = 0
        for t, v in zip(traces, verdicts):
            bad = [b for b in v['bad'] if any(b[0].startswith(p) for p in prefixes) or b[0].endswith('.malformed')]
            if not bad:
                continue
            if known:
                rest = [b for b in bad if not known(t, b)]
                if not rest:
                    continue
                bad = rest
            n += 1
            self.violation(label, {'clauses': bad, 'error': v.get('error'), 'trace': t,
                                   'scenario': describe(t) if describe else t.get('meta')})
        self.log('%s: %d traces validated, %d rejected' % (label or 'traces', len(traces), n))
        return n

    def sample(self, x, k=3):
        if len(self.samples) < k:
            self.samples.append(x)

    def violation(self, label, data):
        self.bad.append((label, data))

    def check(self, cond, label, data):
        if not cond:
            self.violation(label, data)
        return cond

    def need_hits(self, names):
        """vacuity guard: these clauses must have been exercised"""
        miss = [n for n in names if not self.hits.get(n)]
        if miss and not self.bad:
            raise Machinery('clauses never exercised: %s' % miss)

    def finding(self, fid, what):
        if fid in known_findings(self.prop):
            if fid not in [k for k, _ in self.known]:
                self.known.append((fid, what))
            return True
        return False


def known_findings(prop):
    fn = os.path.join(VERIF, 'known-findings.txt')
    r = set()
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r'known: property=(\S+) id=(\S+)', line)
            if m and m.group(1) == prop:
                r.add(m.group(2))
    return r


def pmap(fn, items, procs=8, timeout=None):
    """run fn over items in forked worker processes (order kept)"""
    import multiprocessing as mp
    items = list(items)
    if len(items) < 2 or procs < 2:
        return [fn(i) for i in items]
    with mp.get_context('fork').Pool(min(procs, len(items))) as p:
        r = p.map_async(_Safe(fn), items, chunksize=max(1, min(8, len(items) // (16 * procs))))
        try:
            out = r.get(timeout)
        except mp.TimeoutError:
            p.terminate()
            raise Machinery('worker pool timed out after %s s' % timeout)
    for x in out:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == '__machinery__':
            raise Machinery('in a worker:\n' + x[1])
    return out


class _Safe:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, x):
        try:
            return self.fn(x)
        except Exception:
            return ('__machinery__', traceback.format_exc())


def corrupt(ctx, module, traces, mutate, k=6, prefix=None):
    """the binding is real: corrupting a recorded field gets the trace rejected"""
    if ctx.bad:
        return
    out = []
    for i, t in enumerate(traces):
        u = mutate(t, i)
        if u is not None:
            out.append(u)
        if len(out) >= k:
            break
    n0, h0 = ctx.traces, dict(ctx.hits)
    v = ctx.validate(module, out) if out else []
    ctx.traces, ctx.hits = n0, h0
    rej = sum(1 for x in v if any(b[0].startswith(prefix or ctx.prop) for b in x['bad']))
    ctx.extra['corrupted_traces_rejected'] = '%d of %d' % (rej, len(out))
    if rej == 0 or rej < len(out) // 2:
        raise Machinery('corrupted traces are accepted')


LEVEL = 'model_checking'


def finish(ctx):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.traces,
           'samples': ctx.samples or ['none'], 'clauses_exercised': dict(sorted(ctx.hits.items()))}
    cov.update(ctx.extra)
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': LEVEL, 'coverage': cov,
          'assumptions': ctx.notes, 'wall_s': round(clock.real() - ctx.t0, 1), 'violations': len(ctx.bad)}
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1, default=str)
    for fid, what in ctx.known:
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, what))
    if ctx.bad:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        fn = os.path.join(VERIF, 'replays', '%s.json' % ctx.prop)
        with open(fn, 'w') as h:
            json.dump([{'label': l, 'data': d} for l, d in ctx.bad[:20]], h, indent=1, default=str)
        for l, d in ctx.bad[:3]:
            txt = json.dumps({k: v for k, v in d.items() if k != 'trace'}, default=str) if isinstance(d, dict) else str(d)
            print('rejected [%s] %s' % (l, txt[:1500]))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, fn))
        return 1
    print('OK property=%s states=%d traces=%d wall=%.1fs' % (ctx.prop, ctx.states, ctx.traces, clock.real() - ctx.t0))
    return 0


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = Ctx(prop, tier, seed)
    rc = 2
    try:
        from . import registry
        fn = registry.CHECKS[prop]
        os.chdir(Scratch.sub('cwd'))            # optimizers write files into the working directory
        fn(ctx)
        rc = finish(ctx)
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s: the check could not be completed' % prop)
        rc = 2
    finally:
        Scratch.clean()
    sys.stdout.flush()
    os._exit(rc)
