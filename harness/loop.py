"""Conformance of the optimisation loop with spec/BOLoop.tla (C01 - C05)."""
import numpy as np, random
from . import clock, vlib
from .stubs import *                                    # noqa
from .stubs import Num, Scale, View, ScriptModel, ScriptEvaluator, DetModel, RecEvaluator
from GPyOpt.core.task.space import Design_space
from GPyOpt.core.task.objective import SingleObjective
from GPyOpt.methods import BayesianOptimization, ModularBayesianOptimization
from GPyOpt.acquisitions import AcquisitionEI
from GPyOpt.optimization import AcquisitionOptimizer

LIMIT = 80


class ObjLinAlg(ObjectiveError, np.linalg.LinAlgError):
    """an objective may raise anything, also what the library itself uses"""


class ObjExplored(ObjectiveError, FullyExploredOptimizationDomainError):
    pass


class ObjStop(ObjectiveError, StopIteration):
    pass


class ObjConfig(ObjectiveError, InvalidConfigError):
    pass


ERRORS = [ObjectiveError, ObjLinAlg, ObjExplored, ObjStop, ObjConfig]
# outputs are off + y * scale, exactly (.5: whole numbers now and then)
SPACE_KINDS = [1, 2, 4, 3, 1, 5]
SCALES = [(0., 1.), (0., .5), (0., 1.), (0., .5), (1024., 2. ** -30), (0., 2. ** -40), (-4096., 2. ** -12), (0.1, 0.), (2. ** 40, 2. ** 10), (0., 2. ** -54), (0., 2. ** 70)]


class Affine:
    """integer outputs <-> floats (exact); anything else becomes a fresh number"""
    def __init__(self, off, scale):
        self.off, self.scale, self.other, self.known = off, scale, Num(1), {}

    def out(self, y, sign=1):
        v = sign * (self.off + y * self.scale)
        self.known[v] = sign * y
        self.known[-v] = -sign * y
        return v

    def __call__(self, v):
        try:
            return self.known[float(v)]
        except Exception:
            return self.other(float('inf')) if v is None else self.other(np.asarray(v).reshape(-1)[0] * 1.37 + 1e5)

    def col(self, A):
        return [self(v) for v in np.asarray(A).reshape(-1)]


class Recorder:
    """records one execution; scripted answers come from a generated behaviour"""
    def __init__(self, c, script=None, variant=0):
        self.c, self.U = c, c['U']
        # coordinates are o + s * v / U (codes of categories are not scaled), mapped back exactly
        kind = SPACE_KINDS[(variant // 7) % len(SPACE_KINDS)] if script else 1
        if kind in (2, 3) and any(v['t'] == 'categorical' for v in c['space']):
            kind = 4
        self.sc = Scale(c['space'], c['U'], kind)
        num = Num(c['U'])
        self.q, self.qe = View(c, kind, num, 'raw'), View(c, kind, num, 'enc')
        self.yq = Affine(*SCALES[(variant // 15) % len(SCALES)]) if script else Num(1)
        self.ev, self.variant = [], variant
        self.calls = 0
        ev = script or []
        self.evals = [(e['ok'], e['y'], e['dt']) for e in ev if e['op'] == 'eval']
        self.fits = [(e['fail'], e['dt']) for e in ev if e['op'] == 'fit']
        self.props = []
        for i, e in enumerate(ev):
            if e['op'] == 'batch':
                self.props.append(e['z'])
            elif e['op'] in ('runraise', 'sugraise') and e['kind'] == 'explored':
                self.props.append('explored')
        self.buffer = np.zeros((1, 1))

    def tick(self):
        self.calls += 1
        if self.calls > 6 * LIMIT:
            raise Runaway()

    # --- the objective ---
    def f(self, x):
        self.tick()
        x = np.asarray(x)
        ok, y, dt = self.evals.pop(0) if self.evals else (True, self.calls % 5, 1)
        if getattr(self.yq, 'scale', 1) == 0:
            y = 0
        e = {'op': 'eval', 'x': self.q.rows(x)[0] if x.ndim == 2 and x.shape[0] == 1 else self.q.col(x) + [-999999],
             'ok': bool(ok), 'y': int(y), 'dt': int(dt)}
        self.ev.append(e)
        clock.advance(dt)
        if not ok:
            raise ERRORS[(self.variant // 3) % len(ERRORS)]('scripted failure')
        y = self.yq.out(y) if isinstance(self.yq, Affine) else float(y)
        if self.variant % 3 == 1:
            self.buffer[0, 0] = y          # the objective reuses one output buffer
            return self.buffer
        if self.variant % 3 == 2:
            return np.array([y])
        return np.array([[y]])

    def fneg(self, x):
        return -np.array(self.f(x))

    # --- the surrogate ---
    def on_fit(self, X, Y):
        self.tick()
        fail, dt = self.fits.pop(0) if self.fits else (False, 0)
        self.ev.append({'op': 'fit', 'X': self.qe.rows(X), 'Y': self.yq.col(Y),
                        'z': [int(round(1000 * v)) if abs(v) < 1e5 else 99999999 for v in Y.reshape(-1)],
                        'fail': bool(fail), 'dt': int(dt)})
        clock.advance(dt)
        if fail:
            raise np.linalg.LinAlgError('scripted: not positive definite')

    # --- the batch method ---
    def on_batch(self):
        self.tick()
        z = self.props.pop(0) if self.props else None
        if z == 'explored':
            raise FullyExploredOptimizationDomainError('scripted: domain fully explored')
        if z is None:
            z = [enc_low(self.c)]
        self.ev.append({'op': 'batch', 'z': z})
        return self.qe.real(z)

    def results(self, bo):
        r = {}
        if hasattr(bo, 'fx_opt') and hasattr(bo, 'x_opt'):
            r = {'xopt': self.q.col(bo.x_opt), 'fx': self.yq(bo.fx_opt), 'ybest': self.yq.col(bo.Y_best)}
        return r

    def obs(self, bo, **kw):
        X, Y = bo.get_evaluations()
        e = dict(op='obs', X=self.q.rows(X), Y=self.yq.col(Y), **kw)
        e.update(self.results(bo))
        self.ev.append(e)


def enc_low(c):
    z = []
    for v in c['space']:
        for _ in range(v['dim']):
            if v['t'] == 'categorical':
                z += [c['U']] + [0] * (len(v['dom']) - 1)
            else:
                z.append(v['dom'][0])
    return z


def kind_of(ex):
    if isinstance(ex, ObjectiveError):
        return 'objective'
    if isinstance(ex, FullyExploredOptimizationDomainError):
        return 'explored'
    if isinstance(ex, np.linalg.LinAlgError):
        return 'linalg'
    return '%s: %s' % (type(ex).__name__, str(ex)[:80])


def limit(v):
    return {-1: None, -2: np.inf}.get(v, v)


def build(rec, c, e, variant):
    """construct the optimizer the way event e describes it"""
    U = c['U']
    X0 = rec.q.real(e['X0']) if e['X0'] else None
    Y0 = np.array([rec.yq.out(c['sign'] * y, c['sign']) for y in e['Y0']], dtype=float).reshape(-1, 1) if e['Y0'] else None
    if X0 is not None and variant % 3 != 1 and np.all(X0 == np.round(X0)) and np.abs(X0).max() < 1e9:
        X0 = X0.astype([np.int64, np.float32, int][variant % 3])       # data of any numerical type
    if Y0 is not None and variant % 4 != 1 and np.all(Y0 == np.round(Y0)) and np.abs(Y0).max() < 1e6:
        Y0 = Y0.astype([np.int64, float, np.float32, np.int32][variant % 4])
    model = ScriptModel(rec)
    dom = gp_domain(c['space'], U, rec.sc)
    modular = e['lazy'] or (Y0 is not None and variant % 2 == 1)
    if modular:
        space = Design_space(dom)
        acq = AcquisitionEI(model, space, AcquisitionOptimizer(space))
        return ModularBayesianOptimization(model, space, SingleObjective(rec.f if c['sign'] == 1 else rec.fneg), acq,
                                           ScriptEvaluator(rec, acq), X0, Y_init=Y0, normalize_Y=c['norm'],
                                           model_update_interval=c['iv'])
    bo = BayesianOptimization(rec.f, domain=dom, model=model, X=X0, Y=Y0, normalize_Y=c['norm'], maximize=c['sign'] == -1,
                              initial_design_numdata=max(e['n0'], 1), model_update_interval=c['iv'])
    bo.evaluator = ScriptEvaluator(rec, bo.acquisition)
    return bo


def replay(beh, variant=0):
    """replay a generated behaviour into the code; returns the recorded trace"""
    c = beh['c']
    rec = Recorder(c, beh['ev'], variant)
    np.random.seed(variant)
    clock.start()
    bo = None
    try:
        with vlib.quiet():
            for e in beh['ev']:
                if e['op'] == 'new':
                    e = {k: e[k] for k in ('op', 'X0', 'Y0', 'n0', 'lazy')}
                    if rec.yq.scale == 0:
                        e['Y0'] = [0] * len(e['Y0'])
                    rec.ev.append(e)
                    try:
                        bo = build(rec, c, e, variant)
                    except Runaway:
                        raise
                    except Exception as ex:
                        rec.ev.append({'op': 'newraise', 'kind': kind_of(ex)})
                        break
                    rec.ev.append({'op': 'newend'})
                elif e['op'] == 'run':
                    do_run(rec, bo, e['mi'], e['mt'], e['eps'])
                elif e['op'] == 'sug':
                    kw = {}
                    if (variant // 2) % 2:         # the scripted batch method ignores them, the library must not keep them
                        bo.de_duplication = variant % 5 != 0
                        kw = {'pending_X': rescaled(rec, low_init(c['space'], c['U'], 1 + variant % 2, variant))}
                        if variant % 3:
                            kw['ignored_X'] = rescaled(rec, low_init(c['space'], c['U'], 2, variant + 1))
                        if variant % 7 < 3:
                            kw['context'] = some_context(c['space'], c['U'], rec.sc)
                    do_sug(rec, bo, **kw)
                    rec.obs(bo, after='sug')
                elif e['op'] == 'obs':
                    rec.obs(bo)
            if bo is not None and getattr(bo, 'Y', None) is not None:
                rec.obs(bo)
    except Runaway:
        rec.ev.append({'op': 'runraise', 'kind': 'runaway'})
    finally:
        clock.stop()
    return {'c': c, 'ev': rec.ev, 'meta': {'variant': variant}}


def some_context(space, U, sc):
    v = space[-1]
    return {v['name'] + ('_1' if v['dim'] > 1 else ''): sc.num(v['dom'][0], v['t'] == 'categorical')}


def rescaled(rec, A):
    return rec.q.real(np.round(A * rec.U))


def do_run(rec, bo, mi, mt, eps, **kw):
    rec.ev.append({'op': 'run', 'mi': mi, 'mt': mt, 'eps': eps})
    try:
        bo.run_optimization(max_iter=limit(mi), max_time=limit(mt), eps=rec.sc.s * eps / rec.U if eps else 1e-8, **kw)
    except Runaway:
        raise
    except Exception as ex:
        rec.ev.append({'op': 'runraise', 'kind': kind_of(ex)})
        return
    e = {'op': 'runend', 'X': rec.q.rows(bo.X), 'Y': rec.yq.col(bo.Y)}
    e.update(rec.results(bo))
    rec.ev.append(e)


def do_sug(rec, bo, **kw):
    rec.ev.append({'op': 'sug'})
    try:
        r = bo.suggest_next_locations(**kw)
    except Runaway:
        raise
    except Exception as ex:
        rec.ev.append({'op': 'sugraise', 'kind': kind_of(ex)})
        return None
    rec.ev.append({'op': 'sugend', 'rows': rec.q.rows(r)})
    return r


# ------------------------------------------------------------------ real components, recorded
FREE_SPACES = [
    [dict(name='x', t='continuous', dom=[-4, 8], arms=[], dim=1)],
    [dict(name='x', t='continuous', dom=[0, 4], arms=[], dim=2), dict(name='d', t='discrete', dom=[-2, 1, 6], arms=[], dim=1)],
    [dict(name='k', t='categorical', dom=[0, 4, 8], arms=[], dim=1), dict(name='x', t='continuous', dom=[-4, 4], arms=[], dim=1)],
    [dict(name='d', t='discrete', dom=[0, 2, 8], arms=[], dim=2), dict(name='k', t='categorical', dom=[0, 4], arms=[], dim=1),
     dict(name='x', t='continuous', dom=[-2, 6], arms=[], dim=1)],
    [dict(name='b', t='bandit', dom=[], arms=[[0, 0], [4, 2], [-3, 5], [1, 7], [8, 8]], dim=1)],
]


class FreeRecorder(Recorder):
    """the real components propose; the objective is an integer-valued function of the location"""
    def __init__(self, c, seed):
        Recorder.__init__(self, c)
        self.seed, self.nb = seed, 0
        r = np.random.RandomState(seed)
        self.w = r.randint(-9, 10, size=12)

    def value(self, x):
        x = np.asarray(x, dtype=float).reshape(-1)
        t = sum(self.w[i] * v + self.w[(i + 3) % 12] * v * v for i, v in enumerate(x))
        return int(np.clip(np.round(t), -60, 60))

    def f(self, x):
        self.evals = [(True, self.value(x), 0)]
        return Recorder.f(self, x)

    def before_batch(self, a, k):
        self.nb += 1
        self.tick()
        np.random.seed(1000 * self.seed + self.nb)

    def after_batch(self, z):
        self.ev.append({'op': 'batch', 'z': self.qe.rows(z)})


def attach(rec, bo):
    inner = bo.model.updateModel

    def upd(X, Y, *a):
        rec.on_fit(np.array(X, copy=True), np.array(Y, copy=True))
        return inner(X, Y, *a)
    bo.model.updateModel = upd
    bo.evaluator = RecEvaluator(rec, bo.evaluator)


def free_run(k, seed):
    """one recorded execution with the library's own surrogate / acquisition / batch methods"""
    r = random.Random(1000003 * seed + k)
    space = FREE_SPACES[k % len(FREE_SPACES)]
    c = dict(space=space, U=4, iv=r.choice([1, 1, 2, 3]), norm=r.random() < .5, sign=r.choice([1, 1, -1]), lat=False, seemodel=True)
    rec = FreeRecorder(c, seed * 100 + k)
    ev, bs = r.choice([('sequential', 1), ('random', 2), ('random', 3), ('thompson_sampling', 2), ('local_penalization', 2)])
    kw = dict(model_type=r.choice(['GP', 'GP', 'sparseGP']), acquisition_type=r.choice(['EI', 'MPI', 'LCB']), evaluator_type=ev, batch_size=bs,
              max_iters=15, optimize_restarts=1, de_duplication=r.random() < .4, exact_feval=r.random() < .3,
              verbosity_model=False, num_inducing=3)
    np.random.seed(seed * 77 + k)
    n = r.choice([2, 3, 5])
    meta = dict(k=k, seed=seed, **{a: str(b) for a, b in kw.items()})
    dom = gp_domain(space, 4)
    try:
        with vlib.quiet():
            rec.ev.append({'op': 'new', 'X0': [], 'Y0': [], 'n0': n, 'lazy': False})
            bo = BayesianOptimization(rec.f, domain=dom, normalize_Y=c['norm'], maximize=c['sign'] == -1, initial_design_numdata=n,
                                      initial_design_type=r.choice(['random', 'latin', 'sobol']) if space[0]['t'] != 'bandit' else 'random',
                                      model_update_interval=c['iv'], **kw)
            attach(rec, bo)
            rec.ev.append({'op': 'newend'})
            for _ in range(r.choice([2, 3, 4])):
                what = r.choice(['run', 'run', 'sug', 'obs'])
                ctx = None
                if r.random() < .4 and space[0]['t'] != 'bandit':
                    v = r.choice(space)
                    ctx = {v['name'] + ('_1' if v['dim'] > 1 else ''): v['dom'][0] / 4.0}
                if what == 'run':
                    rec.ev.append({'op': 'run', 'mi': 2, 'mt': -2, 'eps': 0})
                    try:
                        bo.run_optimization(max_iter=2, eps=0., context=ctx)
                    except Exception as ex:
                        rec.ev.append({'op': 'runraise', 'kind': kind_of(ex)})
                        continue
                    e = {'op': 'runend', 'X': rec.q.rows(bo.X), 'Y': rec.yq.col(bo.Y)}
                    e.update(rec.results(bo))
                    rec.ev.append(e)
                elif what == 'sug':
                    P = np.array(bo.X[:1]) if r.random() < .5 else None
                    do_sug(rec, bo, context=ctx, pending_X=P)
                rec.obs(bo, **({'after': 'sug'} if what == 'sug' else {}))
    except Runaway:
        rec.ev.append({'op': 'runraise', 'kind': 'runaway'})
    except Exception as ex:
        rec.ev.append({'op': 'newraise', 'kind': kind_of(ex)})
    return {'c': c, 'ev': rec.ev, 'meta': meta}


# ------------------------------------------------------------------ pairs of executions that must agree
def det_bo(rec, c, model, X, Y, f, maximize=False, ev='sequential', bs=1, acq='EI', dedup=False):
    bo = BayesianOptimization(f, domain=gp_domain(c['space'], c['U']), X=X, Y=Y, model=model, normalize_Y=c['norm'],
                              maximize=maximize, acquisition_type=acq, evaluator_type=ev, batch_size=bs, de_duplication=dedup)
    bo.evaluator = RecEvaluator(rec, bo.evaluator)
    return bo


def low_init(space, U, n, seed):
    r = np.random.RandomState(seed)
    rows = []
    for _ in range(n):
        row = []
        for v in space:
            if v['t'] == 'bandit':
                row += [a / U for a in v['arms'][r.randint(len(v['arms']))]]
            else:
                for _ in range(v['dim']):
                    row.append((v['dom'][0] + r.randint(0, v['dom'][1] - v['dom'][0] + 1)) / U if v['t'] == 'continuous'
                               else v['dom'][r.randint(len(v['dom']))] / U)
        rows.append(row)
    return np.array(rows, dtype=float)


class FitLog(DetModel):
    def __init__(self):
        DetModel.__init__(self)
        self.log = []

    def updateModel(self, X, Y, *a):
        self.log.append([[int(round(1e3 * v)) for v in row] for row in np.hstack([X, Y])])
        return DetModel.updateModel(self, X, Y, *a)


def pair_run(k, seed, what):
    """ask-tell against the built-in loop, suggestions between runs, maximising against minimising the negation"""
    r = random.Random(7919 * seed + k)
    space = FREE_SPACES[k % len(FREE_SPACES)]
    c = dict(space=space, U=4, iv=1, norm=r.random() < .5, sign=1, lat=False, seemodel=True)
    ev, bs = r.choice([('sequential', 1), ('sequential', 1), ('random', 2), ('thompson_sampling', 2)])
    acq = r.choice(['EI', 'LCB', 'MPI'])
    dd = r.random() < .3
    T, n0 = r.choice([(3, 3), (3, 3), (2, 1), (7, 3), (2, 26), (2, 60)])
    X0 = low_init(space, 4, n0, k)
    meta = dict(k=k, seed=seed, T=T, n0=n0, what=what, ev=ev, bs=bs, acq=acq, dedup=dd)
    q = Num(4)

    def recorder():
        return FreeRecorder(c, seed * 10 + k)
    evs = []
    try:
        with vlib.quiet():
            ra, rb = recorder(), recorder()
            f0 = lambda x: np.array([[float(ra.value(row))] for row in np.atleast_2d(x)])
            Y0 = f0(X0)
            if what == 'C04.same_as_loop':
                ma, m = FitLog(), FitLog()
                a = det_bo(ra, c, ma, X0.copy(), Y0.copy(), f0, ev=ev, bs=bs, acq=acq, dedup=dd)
                a.run_optimization(max_iter=T, eps=-1.)
                A = a.X
                X, Y = X0.copy(), Y0.copy()
                for t in range(T):
                    b = det_bo(rb, c, m, X.copy(), Y.copy(), None, ev=ev, bs=bs, acq=acq, dedup=dd)
                    x = b.suggest_next_locations()
                    X, Y = np.vstack([X, x]), np.vstack([Y, f0(x)])
                B = X
                # what each of them showed the surrogate before proposing (the loop fits once more when it stops)
                evs.append({'op': 'pair', 'clause': 'C04.same_fit', 'A': ma.log[:T], 'B': m.log})
            elif what == 'C04.interposed':
                a = det_bo(ra, c, DetModel(), X0.copy(), Y0.copy(), f0, ev=ev, bs=bs, acq=acq, dedup=dd)
                for t in range(T):
                    a.run_optimization(max_iter=1, eps=-1.)
                A = a.X
                calls = []
                def f1(x):
                    calls.append(1)
                    return f0(x)
                b = det_bo(rb, c, DetModel(), X0.copy(), Y0.copy(), f1, ev=ev, bs=bs, acq=acq, dedup=dd)
                for t in range(T):
                    n0, X1, Y1 = len(calls), b.X.copy(), b.Y.copy()
                    for j in range(r.choice([1, 2])):
                        nb = rb.nb
                        v = space[0]
                        kw = {}
                        if v['t'] != 'bandit' and r.random() < .6:
                            kw['context'] = {v['name'] + ('_1' if v['dim'] > 1 else ''): v['dom'][-1] / 4.}
                        if r.random() < .5:
                            kw['pending_X'] = low_init(space, 4, r.choice([2, 2, 40]), k + 50)
                        if r.random() < .5:
                            kw['ignored_X'] = low_init(space, 4, r.choice([2, 2, 40]), k + 60)
                        try:
                            b.suggest_next_locations(**kw)
                        except FullyExploredOptimizationDomainError:
                            pass
                        rb.nb = nb
                    evs.append({'op': 'pair', 'clause': 'C04.noeval', 'A': len(calls), 'B': n0})
                    evs.append({'op': 'pair', 'clause': 'C04.history', 'A': [q.rows(X1), q.col(Y1)], 'B': [q.rows(b.X), q.col(b.Y)]})
                    b.run_optimization(max_iter=1, eps=-1.)
                B = b.X
            else:
                fn = lambda x: -f0(x)
                a = det_bo(ra, c, DetModel(), X0.copy(), None, f0, maximize=True, ev=ev, bs=bs, acq=acq, dedup=dd)
                b = det_bo(rb, c, DetModel(), X0.copy(), None, fn, ev=ev, bs=bs, acq=acq, dedup=dd)
                for o in (a, b):
                    o.run_optimization(max_iter=T, eps=-1.)
                A = np.hstack([a.X, a.Y, np.asarray(a.Y_best).reshape(-1, 1)]); B = np.hstack([b.X, b.Y, np.asarray(b.Y_best).reshape(-1, 1)])
                evs.append({'op': 'pair', 'clause': 'C03.negation', 'A': [q.col(a.x_opt), q(a.fx_opt)], 'B': [q.col(b.x_opt), q(b.fx_opt)]})
                evs.append({'op': 'pair', 'clause': 'C03.maximises', 'A': q(a.fx_opt), 'B': q(-max(f0(a.X))[0])})
            evs.append({'op': 'pair', 'clause': what, 'A': q.rows(A), 'B': q.rows(B)})
    except FullyExploredOptimizationDomainError:
        pass
    except Exception as ex:
        evs.append({'op': 'pair', 'clause': what, 'A': ['no error'], 'B': [kind_of(ex)]})
    return {'c': c, 'ev': evs, 'meta': meta}


def pair_case(a):
    return pair_run(*a)


# ------------------------------------------------------------------ checks
def check(ctx):
    prop = ctx.prop
    q = not ctx.thorough
    ctx.mc('MC_BOLoop', 'MC_BOLoop.cfg', timeout=240)
    if not q:
        ctx.mc('MC_BOLoop', 'MC_BOLoop_big.cfg', timeout=3600, heap='16g')
    g = ctx.gen('Gen_BOLoop', num=600 if q else 20000, depth=150, timeout=900)
    tr = [replay(b, ctx.seed + i) for i, b in enumerate(g)]
    v = ctx.validate('Trace_BOLoop', tr, timeout=1500, chunk=2000)
    ctx.judge(tr, v, label='replayed behaviours')
    ctx.sample(tr[0])
    need = {'C01': ['C01.inputs', 'C01.outputs', 'C01.eval_input', 'C01.propagate'],
            'C02': ['C02.may_start', 'C02.must_stop'], 'C03': ['C03.value', 'C03.location', 'C03.curve', 'C03.negation'],
            'C04': ['C04.history', 'C04.results', 'C04.batch', 'C04.same_as_loop', 'C04.same_fit', 'C04.interposed'],
            'C05': ['C05.once', 'C05.inputs', 'C05.outputs', 'C05.fresh']}[prop]
    nf = {'C01': 20, 'C02': 5, 'C03': 10, 'C04': 10, 'C05': 20}[prop] * (1 if q else 12)
    tf = [free_run(k, ctx.seed) for k in range(nf)]
    v = ctx.validate('Trace_BOLoop', tf)
    # a failed request or run with the library's own components is a violation of the property under test
    ctx.judge(tf, v, prefixes=(prop, 'C01.propagate', 'C04.raise') + (('C01',) if prop == 'C04' else ()), label='recorded runs of the library')
    ctx.sample(tf[0])
    whats = {'C04': ['C04.same_as_loop', 'C04.interposed'], 'C03': ['C03.negation']}.get(prop, [])
    tp = vlib.pmap(pair_case, [(k, ctx.seed, w) for w in whats for k in range(60 if q else 600)]) if whats else []
    if tp:
        v = ctx.validate('Trace_BOLoop', tp)
        ctx.judge(tp, v, label='paired executions')
    bind_demo(ctx, tr)
    ctx.need_hits(need)


def bind_demo(ctx, tr):
    """the binding is real: corrupting one recorded field gets the trace rejected"""
    import copy
    if ctx.bad:
        return
    out = []
    for t in tr:
        for i, e in enumerate(t['ev']):
            u = None
            if ctx.prop in ('C01', 'C04') and e['op'] == 'obs' and e['Y'] and 'fx' in e:
                u = copy.deepcopy(t)
                if ctx.prop == 'C01':
                    u['ev'][i]['Y'][0] += 1
                else:
                    u['ev'][i]['fx'] += 1
            elif ctx.prop == 'C03' and e['op'] == 'runend' and 'fx' in e:
                u = copy.deepcopy(t); u['ev'][i]['fx'] += 1
            elif ctx.prop == 'C05' and e['op'] == 'fit':
                u = copy.deepcopy(t); u['ev'][i]['X'][0][0] += 1
            elif ctx.prop == 'C02' and e['op'] == 'run' and e['mi'] > 0:
                u = copy.deepcopy(t); u['ev'][i]['mi'] = 0
                if not any(x['op'] == 'batch' for x in t['ev'][i:]):
                    u = None
            if u:
                out.append(u); break
        if len(out) >= 5:
            break
    n0 = ctx.traces
    v = ctx.validate('Trace_BOLoop', out)
    ctx.traces = n0
    rej = sum(1 for x in v if any(b[0].startswith(ctx.prop) for b in x['bad']))
    ctx.extra['corrupted_traces_rejected'] = '%d of %d' % (rej, len(out))
    if rej == 0:
        raise vlib.Machinery('corrupted traces are accepted')
