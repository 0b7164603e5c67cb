"""Conformance of evaluation costs with spec/CostLearning.tla (C13)."""
import copy, math
from types import SimpleNamespace
import numpy as np
from . import clock, vlib
from .stubs import gp_domain, Num, DetModel, ObjectiveError, Runaway, FullyExploredOptimizationDomainError
from .loop import kind_of
from .suggest import expand, objective_of, len_model
import GPyOpt
from GPyOpt.models import GPModel
from GPyOpt.methods import BayesianOptimization, ModularBayesianOptimization
from GPyOpt.core.task.cost import CostModel
from GPyOpt.core.task.objective import SingleObjective
from GPyOpt.core.task.space import Design_space
from GPyOpt.core.evaluators import RandomBatch, Sequential
from GPyOpt.optimization import AcquisitionOptimizer
from GPyOpt import acquisitions as A

ACQ = {'EI': A.AcquisitionEI, 'MPI': A.AcquisitionMPI, 'LCB': A.AcquisitionLCB, 'EI_MCMC': A.AcquisitionEI_MCMC,
       'MPI_MCMC': A.AcquisitionMPI_MCMC, 'LCB_MCMC': A.AcquisitionLCB_MCMC}
FP = 100000


class DetMCMC(DetModel):
    """several deterministic surrogates standing for samples of the hyper-parameters"""
    MCMC_sampler = True

    def __init__(self, grad=True):
        DetModel.__init__(self, grad=grad)
        self.parts = [DetModel(ell=l, grad=grad) for l in (0.7, 1.0, 1.6)]

    def updateModel(self, X, Y, a, b):
        for p in self.parts:
            p.updateModel(X, Y, a, b)
        self.X = self.parts[0].X

    def predict(self, X):
        r = [p.predict(X) for p in self.parts]
        return [x[0] for x in r], [x[1] for x in r]

    def predict_withGradients(self, X):
        r = [p.predict_withGradients(X) for p in self.parts]
        return tuple([x[i] for x in r] for i in range(4))

    def get_fmin(self):
        return [p.get_fmin() for p in self.parts]


class Fake:
    """stands for the Gaussian process over log durations: an integer multiple of log 2 with integer gradients / log 2"""
    def __init__(self, w):
        self.w = np.array(w)

    def mean(self, x):
        x = np.atleast_2d(x)
        t = np.abs(np.round(4 * x)).astype(int).dot(np.abs(self.w[np.arange(x.shape[1]) % 8]))
        return t % 4

    def grad(self, x):
        x = np.atleast_2d(x)
        k = self.mean(x)
        return np.array([[int(self.w[(d + k[i]) % 8]) for d in range(x.shape[1])] for i in range(len(x))]).reshape(len(x), -1)

    def user(self, x):
        return (self.mean(x) + 1.0)[:, None], self.grad(x) * 1.0


def exact(v):
    v = float(v)
    return int(round(v)) if abs(v) < 1e6 and abs(v - round(v)) < 1e-7 * max(1, abs(v)) else 7654321


def fixed(v):
    v = float(v)
    return int(round(v * FP)) if abs(v * FP) < 2e6 else (2000001 if v > 0 else -2000001 if v < 0 else 1999999)


def run_case(case):
    c = case['c']
    U = float(c['U'])
    e = expand(c['space'])
    q = Num(c['U'])
    fake = Fake(case['w'])
    value = objective_of(case['seed'])
    ev, nev = [], [0]
    real = case['real'] and c['kind'] == 'time'

    def f(x):
        nev[0] += 1
        if nev[0] > 200:
            raise Runaway()
        k = case['ks'][(nev[0] - 1) % len(case['ks'])]
        clock.advance(2.0 ** (k - case['off']))
        if nev[0] == case['fails']:
            raise ObjectiveError()
        ev.append({'op': 'eval', 'x': q.rows(x)[0], 'k': k - case['off']})
        return np.array([[float(value(x))]])
    saved = {n: getattr(GPModel, n) for n in ('updateModel', 'predict_withGradients', 'predict')}

    def update(self, X, Y, *a):
        Lg = [exact(v / math.log(2)) for v in np.asarray(Y).reshape(-1)] if np.asarray(Y).shape == (len(X), 1) else [-77]
        ev.append({'op': 'train', 'X': q.rows(X), 'L': Lg})
        if real:
            self.max_iters, self.optimize_restarts, self.verbose = 5, 1, False
            return saved['updateModel'](self, X, Y, *a)
        self.model = SimpleNamespace(X=np.array(X, copy=True), Y=np.array(Y, copy=True))

    def pwg(self, X):
        return fake.mean(X)[:, None] * math.log(2), np.ones((len(X), 1)), fake.grad(X) * 1.0, np.zeros(np.shape(X))
    np.random.seed(case['seed'])
    clock.start()
    GPModel.updateModel = update
    if not real:
        GPModel.predict_withGradients = pwg
        GPModel.predict = lambda self, X, *a, **k: pwg(self, X)[:2]
    try:
        with vlib.quiet():
            try:
                bo = build(case, f, fake, U)
                ev.append({'op': 'done'})
            except ObjectiveError:
                bo = None
                ev.append({'op': 'fail', 'expected': True})
            if bo is not None:
                for o in case['ops']:
                    step(case, bo, o, ev, e, U, fake, real)
    except Runaway:
        ev.append({'op': 'raise', 'what': 'runaway'})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    finally:
        clock.stop()
        for n, g in saved.items():
            setattr(GPModel, n, g)
    return {'c': dict(c), 'ev': ev, 'meta': {k: case[k] for k in ('acq', 'b', 'modular', 'given', 'haveY', 'seed', 'real', 'off')}}


def build(case, f, fake, U):
    c = case['c']
    dom = gp_domain(c['space'], c['U'])
    model = DetMCMC() if case['acq'].endswith('MCMC') else DetModel(grad=True)
    cost = {'time': 'evaluation_time', 'user': fake.user, 'none': None}[c['kind']]
    X0 = np.array(case['X0'], dtype=float) / U
    Y0 = np.arange(len(X0), dtype=float)[:, None] if case['haveY'] else None
    ev = 'random' if case['b'] > 1 else 'sequential'
    if case['modular']:
        space = Design_space(dom)
        cm = CostModel(cost)
        acq = ACQ[case['acq']](model, space, AcquisitionOptimizer(space, model=model), cm.cost_withGradients)
        return ModularBayesianOptimization(model, space, SingleObjective(f), acq, RandomBatch(acq, case['b']) if case['b'] > 1 else Sequential(acq),
                                           X0, Y_init=Y0, cost=cm)
    kw = dict(cost_withGradients=cost, model=model, acquisition_type=case['acq'], evaluator_type=ev, batch_size=case['b'])
    if case['given']:
        return BayesianOptimization(f, dom, X=X0, Y=Y0, **kw)
    return BayesianOptimization(f, dom, initial_design_numdata=case['n0'],
                                initial_design_type='random' if c['space'][0]['t'] == 'bandit' else case['design'], **kw)


def step(case, bo, o, ev, e, U, fake, real):
    c = case['c']
    ctx = None
    if o['op'] in ('run', 'sug'):
        if o['op'] == 'sug' and bo.Y is None:
            return                                         # a modular optimizer that has not evaluated its initial data
        if o['ctx'] and e[0]['t'] != 'bandit':
            ctx = {e[-1]['name']: e[-1]['dom'][0] / U}
        try:
            if o['op'] == 'run':
                bo.run_optimization(max_iter=o['mi'], context=ctx)
            else:
                bo.suggest_next_locations(context=ctx)
            ev.append({'op': 'done'})
        except ObjectiveError:
            ev.append({'op': 'fail', 'expected': True})
        except FullyExploredOptimizationDomainError:
            ev.append({'op': 'fail', 'expected': True})
        return
    if bo.Y is None or bo.model.X is None:
        return                                             # nothing evaluated / fitted yet
    x = bo.space.unzip_inputs(np.array(o['X'], dtype=float) / U)
    uc, ud = fake.user(x)
    m, dm = fake.mean(x), fake.grad(x)
    if o['op'] == 'query':
        if real:
            return
        for fn in (bo.cost.cost_withGradients, bo.acquisition.cost_withGradients) if not case['acq'].startswith('LCB') else (bo.cost.cost_withGradients,):
            v, g = fn(x.copy())
            v, g = np.asarray(v), np.asarray(g)
            if v.shape != (len(x), 1) or g.shape != x.shape:
                raise ValueError('shape of the cost: %s %s' % (v.shape, g.shape))
            ev.append({'op': 'query', 'cost': [exact(t) for t in v[:, 0]], 'dcost': [[exact(t) for t in r] for r in g],
                       'm': m.tolist(), 'dm': dm.tolist(), 'uc': [int(t) for t in uc[:, 0]], 'ud': ud.astype(int).tolist()})
        return
    if real:
        return
    x = x[:1] + 0.013
    uc, ud, m, dm = uc[:1], ud[:1], fake.mean(x), fake.grad(x)
    uc, ud = fake.user(x)
    a = bo.acquisition
    ref = type(a)(bo.model, bo.space, None)
    f0, d0 = ref.acquisition_function_withGradients(x)
    f1, d1 = a.acquisition_function_withGradients(x)
    fv = a.acquisition_function(x)
    if max([abs(t) for t in np.ravel(d0)] + [abs(t) for t in np.ravel(d1)] + [abs(float(np.ravel(f0)[0]))]) * FP > 1.9e6:
        return                                             # beyond the fixed-point range
    ev.append({'op': 'acq', 'weighted': not case['acq'].startswith('LCB'), 'f': fixed(np.ravel(f0)[0]), 'df': [fixed(t) for t in np.ravel(d0)],
               'a': fixed(np.ravel(f1)[0]), 'a1': fixed(np.ravel(fv)[0]), 'da': [fixed(t) for t in np.ravel(d1)],
               'm': m.tolist(), 'dm': dm.tolist(), 'uc': [int(t) for t in uc[:, 0]], 'ud': ud.astype(int).tolist()})


def check(ctx):
    q = not ctx.thorough
    ctx.mc('MC_CostLearning', 'MC_CostLearning.cfg', timeout=300)
    if not q:
        ctx.mc('MC_CostLearning', 'MC_CostLearning_big.cfg', timeout=3600)
    cases = ctx.gen('Gen_CostLearning', num=4 if q else 40, depth=101, timeout=900)
    tr = vlib.pmap(run_case, cases)
    v = ctx.validate('Trace_CostLearning', tr, timeout=1500, chunk=500)
    ctx.judge(tr, v, label='evaluation costs')
    ctx.sample(tr[0])
    vlib.corrupt(ctx, 'Trace_CostLearning', tr, _mutate, k=12)
    ctx.need_hits(['C13.' + n for n in ('train', 'settled', 'cost', 'gradient', 'user', 'one', 'learnt', 'perunit', 'ignored', 'expected')])
    ctx.notes.append('durations are powers of two on a scripted clock; acquisition values compared in fixed point (1e-5)')


def _mutate(t, k):
    u = copy.deepcopy(t)
    for e in u['ev']:
        if k % 2 and e['op'] == 'train':
            e['L'][-1] += 1
            return u
        if k % 2 == 0 and e['op'] == 'query':
            e['cost'][0] += 1
            return u
    return None
