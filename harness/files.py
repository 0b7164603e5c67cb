"""Conformance of saved files and reports with spec/SavedFiles.tla (C14)."""
import copy, csv, os, shutil
import numpy as np
from . import clock, vlib
from .stubs import gp_domain, DetModel, Runaway, FullyExploredOptimizationDomainError
from .loop import kind_of
from .suggest import expand, objective_of
from .cost import Fake
import GPy, GPyOpt
from GPyOpt.methods import BayesianOptimization, ModularBayesianOptimization
from GPyOpt.core.task.objective import SingleObjective
from GPyOpt.core.task.space import Design_space
from GPyOpt.core.evaluators import RandomBatch, Sequential
from GPyOpt.optimization import AcquisitionOptimizer
from GPyOpt.models.base import BOModel
from GPyOpt import acquisitions as A


class ParModel(DetModel):
    """parameters change with every fit, with values that need all their digits"""
    def __init__(self):
        DetModel.__init__(self, grad=True)
        self.n = 0

    def updateModel(self, *a):
        self.n += 1
        DetModel.updateModel(self, *a)

    def get_model_parameters(self):
        return np.array([[self.n / 3., np.pi * 10. ** -self.n, -1e17 * self.n - 7.]])

    def get_model_parameters_names(self):
        return ['a third', 'b', 'noise.variance']


class Bare(BOModel):
    """only what every surrogate has to offer"""
    def __init__(self):
        self.inner = DetModel(grad=True)

    def updateModel(self, *a):
        self.inner.updateModel(*a)

    def predict(self, X):
        return self.inner.predict(X)

    def get_fmin(self):
        return self.inner.get_fmin()


class Intern:
    def __init__(self):
        self.m = {}

    def __call__(self, v):
        v = float(v)
        return self.m.setdefault(repr(0.0 if v == 0 else v), len(self.m) + 1)

    def rows(self, M):
        return [[self(v) for v in r] for r in np.atleast_2d(np.asarray(M, dtype=float))]


def fixed(v):
    v = float(v) * 1000
    return int(round(v)) if abs(v) < 2e9 else 2000000000


def decimal(v):
    """m * 10^x with seven significant digits"""
    v = float(v)
    if v == 0:
        return [0, 0]
    m, x = ('%.6e' % v).split('e')
    return [int(m.replace('.', '')), int(x) - 6]


def output(kind, v):
    """outputs whose digits all matter: differing in the last places, tiny, huge or whole"""
    w = v / 3. + 1e-9 * v ** 2
    return {'thirds': w, 'close': 5. + w * 1e-12, 'tiny': w * 1e-11, 'huge': w * 1e21 + 1e17, 'whole': float(round(7 * v))}[kind]


def read_table(fn, q):
    with open(fn, newline='') as h:
        T = list(csv.reader(h, delimiter='\t'))
    rows = []
    for r in T[1:]:
        k = float(r[0])
        rows.append({'n': int(k) if k == int(k) else -1, 'v': [q(v) for v in r[1:]]})
    return T[0] if T else [], rows


LABELS = [('Problem name:', 'name'), ('Problem dimension:', 'dim'), ('Number continuous variables', 'ncont'), ('Number discrete variables', 'ndisc'),
          ('Number bandits', 'nbandit'), ('Noiseless evaluations:', 'exact'), ('Cost used:', 'cost'), ('Constraints:', 'cons'),
          ('Normalized outputs:', 'norm'), ('Model type:', 'model'), ('Model update interval:', 'interval'), ('Acquisition type:', 'acq'),
          ('Acquisition optimizer:', 'opt'), ('Evaluator type (batch size):', 'ev'), ('Cores used:', 'cores'), ('Value at minimum:', 'value')]


def read_report(fn):
    txt = open(fn).read()
    e = {'op': 'report'}
    for lab, key in LABELS:
        for line in txt.splitlines():
            if line.startswith(lab):
                e[key] = line[len(lab):].strip()
                break
    for key in ('dim', 'ncont', 'ndisc', 'nbandit'):
        e[key] = int(e[key])
    e['value'] = decimal(e['value'])
    t = txt.split('Best found minimum location:')[1].split('-----')[0]
    e['loc'] = [fixed(v) for v in t.replace('[', ' ').replace(']', ' ').split()]
    t = txt.split('Optimization completed:')[1].splitlines()[0]
    e['completed'] = t.split(',')[0].strip()
    e['samples'] = int(t.split(',')[1].split()[0])
    return e


def build(case, f, U):
    dom = gp_domain(case['space'], case['U'])
    e = expand(case['space'])
    width = sum(len(v['dom']) if v['t'] == 'categorical' else len(v['arms'][0]) if v['t'] == 'bandit' else 1 for v in e)
    m = case['model']
    X0 = Y0 = None
    n0 = case['n0']
    if case['long'] and m in ('script', 'noparams') and case['cost'] != 'time':      # a long history given by the caller
        n0 = case['long']
        X0 = GPyOpt.experiment_design.initial_design('random', Design_space(dom), n0)
        Y0 = np.vstack([f(x[None, :], count=False) for x in X0])
    elif case['given'] or case['modular']:
        r = np.random.RandomState(case['seed'])
        space = Design_space(dom)
        X0 = GPyOpt.experiment_design.initial_design('random', space, case['n0'])
    cost = {'none': None, 'user': Fake([1, 1, 2, 0, 1, 1, 2, 0]).user, 'time': 'evaluation_time'}[case['cost']]
    acq = case['acq'] + ('_MCMC' if m.startswith('GP_MCMC') else '')
    kw = dict(normalize_Y=case['norm'], model_update_interval=case['iv'], cost_withGradients=cost)
    if m == 'script':
        kw['model'] = ParModel()
    elif m == 'noparams':
        kw['model'] = Bare()
    elif m.startswith('GP_MCMC'):
        kw.update(model_type='GP_MCMC', n_samples=2, n_burnin=2, subsample_interval=1, step_size=0.05, leapfrog_steps=3)
        if m.endswith('ard'):
            kw['kernel'] = GPy.kern.RBF(width, ARD=True)
    else:
        kw.update(model_type=m[:2] if m.startswith('GP') else m, ARD=m == 'GPard', num_inducing=3)
    cons = [{'name': 'c', 'constraint': 'x[:,0] - 1000'}] if case['cons'] and case['space'][0]['t'] == 'continuous' else None
    modular = case['modular'] and 'model' in kw and cons is None
    c = {k: case[k] for k in ('space', 'U', 'norm', 'exact', 'acq', 'ev', 'b', 'cores', 'iv', 'name')}
    c.update(params=m not in ('noparams', 'warpedGP'), hascons=cons is not None, opt='lbfgs', acq=acq,
             cost={'none': 'Constant cost', 'user': 'User defined cost', 'time': 'evaluation_time'}[case['cost']],
             model='User defined model used.' if 'model' in kw else kw['model_type'], modular=modular)
    if modular:
        c.update(exact=False, model='*', acq='*', ev='*', cons=False, cores=1)
        space = Design_space(dom)
        a = getattr(A, 'Acquisition' + case['acq'])(kw['model'], space, AcquisitionOptimizer(space, model=kw['model']))
        ev = RandomBatch(a, case['b']) if case['b'] > 1 else Sequential(a)
        bo = ModularBayesianOptimization(kw['model'], space, SingleObjective(f, 1, case['name']), a, ev, X0, Y0, cost=cost,
                                         normalize_Y=case['norm'], model_update_interval=case['iv'])
    else:
        bo = BayesianOptimization(f, dom, constraints=cons, X=X0, Y=Y0, initial_design_numdata=n0, acquisition_type=acq, exact_feval=case['exact'],
                                  evaluator_type=case['ev'], batch_size=case['b'], num_cores=case['cores'], maximize=case['maximize'],
                                  objective_name=case['name'], max_iters=8, optimize_restarts=1, verbosity_model=False, **kw)
    return bo, c


def run_case(case):
    U = float(case['U'])
    q = Intern()
    value = objective_of(case['seed'])
    ev, calls = [], [0]
    d = vlib.Scratch.sub('files')
    c = {k: case[k] for k in ('space', 'U')}

    def f(x, count=True):
        calls[0] += count
        if calls[0] > 260:
            raise Runaway()
        clock.advance(1.0)
        return np.array([[output(case['yk'], value(x))]])
    np.random.seed(case['seed'])
    clock.start()
    try:
        with vlib.quiet():
            bo, c = build(case, f, U)
            attach(bo, ev, q)
            if bo.Y is not None:
                hist(bo, ev, q)
                models(bo, ev, q, d, c)
            for o in case['ops']:
                step(case, c, bo, o, ev, q, d)
    except Runaway:
        ev.append({'op': 'raise', 'what': 'runaway'})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    finally:
        clock.stop()
        shutil.rmtree(d, ignore_errors=True)
    c.setdefault('params', False)
    return {'c': c, 'ev': ev, 'meta': {k: case[k] for k in ('model', 'acq', 'ev', 'b', 'iv', 'modular', 'seed', 'cost', 'exact')}}


def attach(bo, ev, q):
    up, cb = bo.model.updateModel, bo.evaluator.compute_batch

    def update(*a, **k):
        r = up(*a, **k)
        if hasattr(bo.model, 'get_model_parameters'):
            ev.append({'op': 'fit', 'par': q.rows(bo.model.get_model_parameters())[0]})
        return r

    def batch(*a, **k):
        ev.append({'op': 'batch'})
        return cb(*a, **k)
    bo.model.updateModel, bo.evaluator.compute_batch = update, batch


def hist(bo, ev, q):
    X, Y = bo.get_evaluations()
    ev.append({'op': 'hist', 'X': q.rows(X), 'Y': [q(v) for v in Y.reshape(-1)], 'XF': [[fixed(v) for v in r] for r in X],
               'YD': [decimal(v) for v in Y.reshape(-1)], 'YR': [int(k) + 1 for k in np.unique(Y.reshape(-1), return_inverse=True)[1].reshape(-1)]})


def step(case, c, bo, o, ev, q, d):
    p = {k: os.path.join(d, k) for k in 'emr'}
    for fn in p.values():
        if os.path.exists(fn):
            os.unlink(fn)
    if o['op'] == 'run':
        ask = [k for k in o['ask'] if k != 'm' or c['params']]
        ev.append({'op': 'begin', 'mi': o['mi']})
        kw = dict(max_iter=o['mi']) if o['mi'] >= 0 else dict(max_iter=np.inf, max_time=1.5)
        for k, name in (('e', 'evaluations_file'), ('m', 'models_file'), ('r', 'report_file')):
            if k in ask:
                kw[name] = p[k]
        try:
            bo.run_optimization(**kw)
        except FullyExploredOptimizationDomainError:
            return
        ev.append({'op': 'end'})
        hist(bo, ev, q)
        ev.append({'op': 'files', 'asked': ask, 'found': [k for k in 'emr' if os.path.exists(p[k])]})
        if 'e' in ask:
            evals(ev, q, p['e'])
        if 'm' in ask:
            models(bo, ev, q, d, c, p['m'])
        if 'r' in ask:
            report(ev, c, p['r'])
        bo.last_was_run = True
    elif bo.Y is None:
        return
    elif o['op'] == 'sug':
        ev.append({'op': 'begin', 'mi': 0})
        bo.suggest_next_locations()
        bo.last_was_run = False
    elif o['op'] == 'saveevals':
        bo.save_evaluations(p['e'])
        evals(ev, q, p['e'])
    elif o['op'] == 'savemodels':
        models(bo, ev, q, d, c)
    elif getattr(bo, 'last_was_run', False):
        bo.save_report(p['r'])
        report(ev, c, p['r'])


def evals(ev, q, fn):
    h, rows = read_table(fn, q)
    ev.append({'op': 'evals', 'header': h, 'rows': rows})


def models(bo, ev, q, d, c, fn=None):
    if fn is None:
        fn = os.path.join(d, 'm')
        if os.path.exists(fn):
            os.unlink(fn)
        try:
            bo.save_models(fn)
        except ValueError:
            ev.append({'op': 'refused', 'written': os.path.exists(fn)})
            return
    if not hasattr(bo.model, 'get_model_parameters'):
        ev.append({'op': 'mustrefuse'})
        return
    h, rows = read_table(fn, q)
    ev.append({'op': 'models', 'header': h, 'rows': rows, 'names': [str(n) for n in bo.model.get_model_parameters_names()],
               'nparams': int(np.atleast_2d(bo.model.get_model_parameters()).shape[1])})


def report(ev, c, fn):
    e = read_report(fn)
    if c['modular']:                 # nothing is promised about how the components of a modular optimizer are called
        e.update(model='*', acq='*', ev='* (%d)' % c['b'])
    ev.append(e)


def check(ctx):
    q = not ctx.thorough
    ctx.mc('MC_SavedFiles', 'MC_SavedFiles.cfg', timeout=300)
    if not q:
        ctx.mc('MC_SavedFiles', 'MC_SavedFiles_big.cfg', timeout=3600)
    cases = ctx.gen('Gen_SavedFiles', num=3 if q else 30, depth=101, timeout=900)
    tr = vlib.pmap(run_case, cases)
    v = ctx.validate('Trace_SavedFiles', tr, timeout=1500, chunk=500)
    ctx.judge(tr, v, label='saved files')
    ctx.sample(tr[0])
    vlib.corrupt(ctx, 'Trace_SavedFiles', tr, _mutate, k=12)
    ctx.need_hits(['C14.' + n for n in ('evals', 'evalheader', 'models', 'modelheader', 'refused', 'files', 'samples', 'value', 'location',
                                        'completed', 'problem', 'setup')])


def _mutate(t, k):
    u = copy.deepcopy(t)
    for e in u['ev']:
        if k % 3 == 0 and e['op'] == 'evals':
            e['rows'][-1]['v'][0] += 1000
            return u
        if k % 3 == 1 and e['op'] == 'models' and len(e['rows']) > 1:
            e['rows'].pop(0)
            return u
        if k % 3 == 2 and e['op'] == 'report':
            e['samples'] += 1
            return u
    return None
