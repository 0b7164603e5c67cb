"""Conformance of batch evaluation with spec/EvalObs.tla (C12): fault schedules replayed with real processes."""
import os, sys, json, time, signal, copy, tempfile, shutil
import numpy as np
from . import vlib, clock
from .stubs import ObjectiveError
from .loop import kind_of
from GPyOpt.core.task.objective import SingleObjective
from GPyOpt.methods import BayesianOptimization

VALUES = [0.0, -1.5, 2.25, 1e300, -1e-300, 1 / 3., 7.0, 7.0, -0.5, 1e6, 2. ** -40, 12.0]
DEADLINE = 40.0


class Log:
    """evaluations seen by any process"""
    def __init__(self, d):
        self.fn = os.path.join(d, 'evals')
        open(self.fn, 'w').close()

    def add(self, *x):
        fd = os.open(self.fn, os.O_WRONLY | os.O_APPEND)
        os.write(fd, (' '.join(map(str, x)) + '\n').encode())
        os.close(fd)

    def read(self):
        return [tuple(map(int, l.split())) for l in open(self.fn)]


def eval_case(case, d):
    n, P = case['n'], case['P']
    log, me = Log(d), os.getpid()
    x = np.array([[i, i / 2. + 1] for i in range(1, n + 1)], dtype=float)

    def f(z):
        z = np.atleast_2d(z)
        i = int(round(z[0, 0]))
        here = os.getpid() == me
        log.add(os.getpid(), i)
        k = case['k'][i - 1]
        if case['t'][i - 1]:
            time.sleep(0.01 * case['t'][i - 1])
        if k == 'err':
            raise ObjectiveError()
        if not here and k == 'die':
            os._exit(3 if i % 2 else 0)
        if not here and k == 'raise':
            raise ValueError('in a worker')
        v = VALUES[case['v'][i - 1] - 1] if z.shape == (1, 2) and z[0, 1] == i / 2. + 1 else -99.
        return [np.array([[v]]), v, np.array([v])][case['seed'] % 3]
    o = SingleObjective(f, num_cores=P)
    res, outcome = None, 'ok'
    try:
        res = o.evaluate(x)
    except ObjectiveError:
        outcome = 'error'
    except BaseException as ex:
        outcome = kind_of(ex)
    ev = log.read()
    intern = {}
    num = lambda v: intern.setdefault(repr(float(v)), len(intern) + 1)
    want = [num(VALUES[v - 1]) for v in case['v']]
    out, cols = [], 0
    if res is not None:
        Y = np.asarray(res[0])
        out, cols = [num(v) for v in Y.reshape(-1)], Y.shape[1] if Y.ndim == 2 else 0
    child = [sum(1 for p, i in ev if p != me and i == j) for j in range(1, n + 1)]
    return {'op': 'eval', 'n': n, 'P': P, 'err': [k == 'err' for k in case['k']],
            'fault': any(k in ('die', 'raise') for k in case['k']), 'slow': case['slow'], 'outcome': outcome,
            'out': out, 'cols': cols, 'want': want, 'child': child, 'caller': [i for p, i in ev if p == me],
            'pids': len({p for p, i in ev if p != me})}


def big_case(case, d):
    """many locations: the results do not fit into the buffer of a pipe"""
    n, P = case['n'], case['P']
    x = np.arange(n, dtype=float)[:, None]
    o = SingleObjective(lambda z: np.atleast_2d(z) * 2 + 1, num_cores=P)
    Y = o.evaluate(x)[0]
    ok = np.array_equal(np.asarray(Y), x * 2 + 1)
    return {'op': 'eval', 'n': 1, 'P': 1, 'err': [False], 'fault': False, 'slow': False, 'outcome': 'ok', 'out': [1 if ok else 0],
            'cols': 1, 'want': [1], 'child': [0], 'caller': [1], 'pids': 0}


def run_case_e2e(case, d):
    """a whole run with num_cores=P against one with a single process"""
    res = []
    me = os.getpid()
    for k, P in enumerate((1, case['P'])):
        sub = os.path.join(d, str(k)); os.makedirs(sub)
        log = Log(sub)
        state = {'batch': 0}

        def f(z):
            z = np.atleast_2d(z)
            log.add(os.getpid(), int(round(z[0, 0] * 1000)))
            time.sleep(0.03)
            return np.array([[float(((z[0] - 0.3) ** 2).sum())]])
        np.random.seed(case['seed'])
        X0 = np.random.rand(4, 2)
        Y0 = ((X0 - 0.3) ** 2).sum(1)[:, None]
        marks = []
        bo = BayesianOptimization(f, [{'name': 'x', 'type': 'continuous', 'domain': (0, 1), 'dimensionality': 2}], X=X0, Y=Y0,
                                  num_cores=P, batch_size=case['b'], evaluator_type=case['ev'], max_iters=10, optimize_restarts=1)
        inner = bo.evaluate_objective

        def evaluate():
            a = len(log.read())
            inner()
            b = log.read()[a:]
            marks.append((len({p for p, _ in b if p != me}), len(np.atleast_2d(bo.suggested_sample)), len(b)))
        bo.evaluate_objective = evaluate
        bo.run_optimization(2, eps=-1)
        res.append((bo.X.copy(), bo.Y.copy(), marks))
    (Xa, Ya, _), (Xb, Yb, m) = res
    return {'op': 'run', 'P': case['P'], 'sameX': bool(np.array_equal(Xa, Xb)), 'sameY': bool(np.array_equal(Ya, Yb)),
            'n': len(Xb) - 4, 'total': sum(k[2] for k in m), 'pids': [k[0] for k in m], 'sizes': [k[1] for k in m]}


FN = {'eval': eval_case, 'big': big_case, 'run': run_case_e2e}


def _child(case, d):
    os.setsid()
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1); os.dup2(dn, 2)
    try:
        with vlib.quiet():
            r = FN[case['kind']](case, d)
    except BaseException as ex:
        r = {'op': 'raise', 'what': kind_of(ex)}
    with open(os.path.join(d, 'result.tmp'), 'w') as h:
        json.dump(r, h)
    os.rename(os.path.join(d, 'result.tmp'), os.path.join(d, 'result'))


def run_all(cases, procs=6):
    """each case in its own process group, which is killed when the deadline passes"""
    todo, live, out, late = list(enumerate(cases)), {}, {}, 0
    while todo or live:
        while todo and len(live) < procs:
            i, case = todo.pop(0)
            d = vlib.Scratch.sub('par')
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    _child(case, d)
                finally:
                    os._exit(0)
            live[pid] = (i, case, d, clock.real())
        time.sleep(0.003)
        for pid, (i, case, d, t0) in list(live.items()):
            done = os.waitpid(pid, os.WNOHANG)[0] == pid
            if not done and clock.real() - t0 < DEADLINE * (4 if case['kind'] != 'eval' else 1):
                continue
            try:
                os.killpg(pid, signal.SIGKILL)      # the session this process created, nothing else
            except (ProcessLookupError, PermissionError):
                pass
            if not done:
                os.waitpid(pid, 0)
                late += 1
                n = case['n'] if case['kind'] == 'eval' else 1
                out[i] = {'op': 'eval', 'n': n, 'P': case['P'], 'err': [False] * n, 'fault': False, 'slow': False, 'outcome': 'timeout',
                          'out': [], 'cols': 0, 'want': [0] * n, 'child': [0] * n, 'caller': [], 'pids': 0}
                if late >= 4:
                    todo = []
            else:
                fn = os.path.join(d, 'result')
                out[i] = json.load(open(fn)) if os.path.exists(fn) else {'op': 'raise', 'what': 'the calling process died'}
            shutil.rmtree(d, ignore_errors=True)
            del live[pid]
    return [dict(ev=[out[i]], meta=cases[i]) for i in sorted(out)]


def check(ctx):
    q = not ctx.thorough
    ctx.mc('ParallelEval', 'ParallelEval.cfg', timeout=300)
    ctx.mc_fails('ParallelEval', 'ParallelEval_joinfirst.cfg', 'Temporal property Ends was violated')
    ctx.mc_fails('ParallelEval', 'ParallelEval_noeof.cfg', 'Temporal property Ends was violated')
    if not q:
        ctx.mc('ParallelEval', 'ParallelEval_big.cfg', timeout=3600)
    cases = ctx.gen('Gen_ParallelEval', num=3 if q else 30, depth=101)
    r = np.random.RandomState(ctx.seed)
    runs = [{'kind': 'run', 'P': P, 'b': b, 'ev': ev, 'seed': int(r.randint(10 ** 6))}
            for P, b, ev in ([(2, 3, 'random'), (4, 2, 'random'), (3, 1, 'sequential'), (1, 3, 'local_penalization'), (2, 2, 'local_penalization'), (3, 4, 'thompson_sampling')] * (1 if q else 4))]
    big = [{'kind': 'big', 'P': 2, 'n': 20001}, {'kind': 'big', 'P': 3, 'n': 30000}] * (1 if q else 2)
    tr = run_all(runs + big + cases)
    v = ctx.validate('Trace_EvalObs', tr, timeout=900)
    ctx.judge(tr, v, label='batch evaluations')
    ctx.sample(tr[-1])
    vlib.corrupt(ctx, 'Trace_EvalObs', tr[8:], _mutate)
    ctx.need_hits(['C12.' + n for n in ('ends', 'value', 'error', 'once', 'procs', 'fallback', 'sequential', 'run')])
    ctx.notes.append('a batch that takes more than %d s counts as not ending' % DEADLINE)


def _mutate(t, k):
    u = copy.deepcopy(t)
    e = u['ev'][0]
    if e['op'] != 'eval' or e['n'] < 2 or any(e['err']):
        return None
    if k % 2:
        e['out'] = e['out'][1:] + [77]
    else:
        e['child'][0] += 2
    return u
