"""Conformance of optimizers built with every kind of options with spec/Options.tla (C17)."""
import copy
import numpy as np
from . import vlib
from .stubs import DetModel
import GPyOpt, GPy
from GPyOpt.methods import BayesianOptimization
from GPyOpt.models.base import BOModel
from GPyOpt.acquisitions import AcquisitionEI, AcquisitionLCB, AcquisitionLP
from GPyOpt.acquisitions.base import AcquisitionBase
from GPyOpt.optimization import optimizer as gopt, anchor_points_generator as ganch
from GPyOpt.optimization.acquisition_optimizer import AcquisitionOptimizer
from GPyOpt.core.task.space import Design_space

DOMS = {
    'cont1': [{'name': 'x', 'type': 'continuous', 'domain': (-1., 2.)}],
    'cont2': [{'name': 'x', 'type': 'continuous', 'domain': (-1., 2.), 'dimensionality': 2}],
    'mixed': [{'name': 'x', 'type': 'continuous', 'domain': (0., 3.)}, {'name': 'd', 'type': 'discrete', 'domain': (0., 1., 2., 5., 7., 8.)}],
    'disc': [{'name': 'd', 'type': 'discrete', 'domain': tuple(float(i) for i in range(30))}],
    'bandit': [{'name': 'b', 'type': 'bandit', 'domain': np.array([[float(i), float((7 * i) % 5)] for i in range(25)])}],
    'mixbandit': [{'name': 'b', 'type': 'bandit', 'domain': np.array([[0., 1.], [1., 1.], [2., 0.]])}, {'name': 'x', 'type': 'continuous', 'domain': (0., 1.)}],
    'ragged': [{'name': 'b', 'type': 'bandit', 'domain': [[0., 1.], [1.], [2., 0.]]}],
    'nodomain': [{'name': 'x', 'type': 'continuous'}],
    'badtype': [{'name': 'x', 'type': 'integer', 'domain': (0, 3)}],
}
GIVEN = {'cont1': [[-1.], [0.], [.5], [2.]], 'cont2': [[-1., 0.], [0., 1.], [.5, 2.], [2., -1.]], 'mixed': [[0., 1.], [1., 8.], [2.5, 0.], [3., 5.]],
         'disc': [[0.], [3.], [17.], [29.]], 'bandit': [[0., 0.], [1., 2.], [5., 0.], [9., 3.]]}


class Sampled(BOModel):
    """a user-defined surrogate with two samples of hyper-parameters"""
    MCMC_sampler = True
    analytical_gradient_prediction = True

    def __init__(self):
        self.ms = [DetModel(1.0), DetModel(2.0)]

    def updateModel(self, X, Y, a, b):
        for m in self.ms:
            m.updateModel(X, Y, a, b)

    def predict(self, X):
        r = [m.predict(X) for m in self.ms]
        return [x[0] for x in r], [x[1] for x in r]

    def predict_withGradients(self, X):
        r = [m.predict_withGradients(X) for m in self.ms]
        return tuple([x[i] for x in r] for i in range(4))

    def get_fmin(self):
        return [m.get_fmin() for m in self.ms]


class UserAcq(AcquisitionBase):
    analytical_gradient_prediction = True

    def _compute_acq(self, x):
        return -np.sum((x - .3) ** 2, axis=1)[:, None] + 50.

    def _compute_acq_withGradients(self, x):
        return self._compute_acq(x), -2 * (x - .3)


class NoGradAcq(UserAcq):
    analytical_gradient_prediction = False


def fobj(x):
    x = np.atleast_2d(x)
    return (np.sin(x).sum(1) + .1 * (x ** 2).sum(1))[:, None] + .25


def user_cost(x):
    x = np.atleast_2d(x)
    return np.full((len(x), 1), 3.25), np.zeros(x.shape)


class Rec:
    """records which library components do the work"""
    def __enter__(self):
        self.saved, self.opts, self.anch, self.fits, self.hmc = [], set(), set(), [], []
        R = self
        self.depth = 0

        def cls_patch(cls, name, make):
            old = cls.__dict__.get(name)
            if old is None:
                return
            self.saved.append((cls, name, old))
            setattr(cls, name, make(old))

        def mk_opt(cls):
            def make(old):
                def optimize(self, x0, f=None, df=None, f_df=None):
                    R.opts.add(type(self).__name__)
                    x = np.atleast_2d(x0)
                    v = f(x) if f is not None else f_df(x)[0]
                    return x, np.atleast_2d(v)
                return optimize
            return make
        for c in (gopt.OptLbfgs, gopt.OptCma):
            cls_patch(c, 'optimize', mk_opt(c))

        def mk_anchor(old):
            def get(self, *a, **k):
                R.anch.add(type(self).__name__)
                return old(self, *a, **k)
            return get
        cls_patch(ganch.AnchorPointsGenerator, 'get', mk_anchor)
        import paramz
        P = paramz.Model

        def mk_optz(old):
            def optimize(self, optimizer=None, start=None, messages=False, max_iters=1000, **k):
                if R.depth == 0:
                    R.fits.append((optimizer, max_iters, 1))
                return old(self, optimizer=optimizer, start=start, messages=False, max_iters=min(max_iters, 3), **k)
            return optimize

        def mk_restarts(old):
            def optimize_restarts(self, num_restarts=10, robust=False, verbose=True, parallel=False, num_processes=None, optimizer=None, max_iters=1000, **k):
                R.fits.append((optimizer, max_iters, num_restarts))
                R.depth += 1
                try:
                    return old(self, num_restarts=1, robust=robust, verbose=False, optimizer=optimizer, max_iters=3, **k)
                finally:
                    R.depth -= 1
            return optimize_restarts
        cls_patch(P, 'optimize', mk_optz)
        cls_patch(P, 'optimize_restarts', mk_restarts)
        # GPy models override optimize
        cls_patch(GPy.core.GP, 'optimize', lambda old: (lambda self, optimizer=None, start=None, messages=False, max_iters=1000, **k:
                                                        P.optimize(self, optimizer=optimizer, start=start, messages=messages, max_iters=max_iters)))
        H = GPy.inference.mcmc.HMC

        def mk_sample(old):
            def sample(self, num_samples=1000, hmc_iters=20):
                R.hmc.append((getattr(self, 'stepsize', None), num_samples, hmc_iters))
                return old(self, num_samples=num_samples, hmc_iters=1)
            return sample
        cls_patch(H, 'sample', mk_sample)
        return self

    def __exit__(self, *a):
        for cls, name, old in self.saved:
            setattr(cls, name, old)


def yn(b):
    return 'yes' if b else 'no'


def i1000(v):
    try:
        return str(int(round(float(v) * 1000)))
    except Exception:
        return repr(v)


def run_case(case):
    o = case['c']
    np.random.seed(case['seed'])
    with Rec() as R, vlib.quiet():
        ev = [_run(o, R)]
    return {'c': o, 'ev': ev, 'meta': {k: v for k, v in o.items()}}


def _run(o, R):
    e = {'op': 'build', 'built': False, 'used': 'no', 'got': {'x': 'x'}}
    dom = copy.deepcopy(DOMS[o['dom']])
    d = 1 if o['dom'] in ('cont1', 'disc') else 2
    kw = {}

    def opt(key, name, scale=None, dflt=-1):
        if o[key] != dflt:
            kw[name] = o[key] / scale if scale else o[key]
    opt('n0', 'initial_design_numdata'); opt('design', 'initial_design_type', dflt='default')
    opt('transform', 'acquisition_transformation', dflt='default'); opt('anchors', 'type_anchor_points_logic', dflt='default')
    opt('noise', 'noise_var', 1000.); opt('mopt', 'model_optimizer_type', dflt='default'); opt('iters', 'max_iters'); opt('restarts', 'optimize_restarts')
    opt('inducing', 'num_inducing'); opt('ns', 'n_samples'); opt('nb', 'n_burnin'); opt('sub', 'subsample_interval'); opt('step', 'step_size', 1000.)
    opt('leap', 'leapfrog_steps'); opt('jitter', 'acquisition_jitter', 1000.); opt('weight', 'acquisition_weight', 1000.)
    opt('interval', 'model_update_interval'); opt('cores', 'num_cores'); opt('name', 'objective_name', dflt='default')
    # flags are given only when they differ from the documented default, or (every other time) always
    for key, name, dflt in (('ARD', 'ARD', False), ('exact', 'exact_feval', False), ('verbm', 'verbosity_model', False), ('norm', 'normalize_Y', True),
                            ('maxi', 'maximize', False), ('dedup', 'de_duplication', False)):
        if o[key] != dflt or o['b'] % 2:
            kw[name] = o[key]
    for key, name, dflt in (('model', 'model_type', 'GP'), ('ev', 'evaluator_type', 'sequential'), ('acq', 'acquisition_type', 'EI'), ('b', 'batch_size', 1), ('opt', 'acquisition_optimizer_type', 'lbfgs')):
        if o[key] != dflt or o['norm']:
            kw[name] = None if o[key] == 'None' else o[key]
    kern = None
    if o['kernel']:
        kern = kw['kernel'] = GPy.kern.RBF(d, variance=1.5)
    if o['cost'] != 'none':
        kw['cost_withGradients'] = user_cost if o['cost'] == 'user' else 'evaluation_time'
    if o['cons']:
        kw['constraints'] = [{'name': 'c1', 'constraint': 'x[:,0] - 1.5'}]
    um = {'none': lambda: None, 'gp': lambda: GPyOpt.models.GPModel(max_iters=5, optimize_restarts=1, verbose=False), 'det': lambda: DetModel(grad=True), 'mcmc': Sampled}[o['modelobj']]()
    if um is not None:
        kw['model'] = um
    ua = None
    if o['acqobj'] != 'none':
        sp = Design_space(copy.deepcopy(DOMS[o['dom']] if o['dom'] in GIVEN else DOMS['cont1']), kw.get('constraints'))
        m = um if um is not None else DetModel(grad=True)
        ua = {'ei': lambda *a: AcquisitionEI(*a, jitter=.5), 'lcb': lambda *a: AcquisitionLCB(*a, exploration_weight=1.5), 'stub': UserAcq, 'nograd': NoGradAcq}[o['acqobj']](m, sp, AcquisitionOptimizer(sp))
        kw['acquisition'] = ua
    calls = []

    def f(x):
        calls.append(1)
        return fobj(x)
    X = np.array(GIVEN.get(o['dom'], GIVEN['cont1']))
    Y = fobj(X) * 2 + 1
    if o['data'] in ('X', 'XY'):
        kw['X'] = X.copy()
    if o['data'] in ('Y', 'XY'):
        kw['Y'] = Y.copy()
    try:
        bo = BayesianOptimization(f=f if o['f'] else None, domain=dom, **kw)
    except Exception as ex:
        e['why'] = '%s: %s' % (type(ex).__name__, str(ex)[:120])
        return e
    e['built'] = True
    g = e['got'] = {'x': 'x'}

    def look(pairs):
        for k, fn in pairs:
            try:
                g[k] = str(fn())
            except Exception as ex:
                g[k] = 'missing (%s)' % type(ex).__name__
    m, a, ev = bo.model, bo.acquisition, bo.evaluator
    if um is not None:
        look([('model.cls', lambda: 'user' if m is um else type(m).__name__)])
    else:
        look([('model.cls', lambda: type(m).__name__), ('model.noise', lambda: -1 if m.noise_var is None else i1000(m.noise_var)), ('model.exact', lambda: yn(m.exact_feval)),
              ('model.kernel', lambda: 'default' if m.kernel is None else 'user' if m.kernel is kern else 'other'), ('model.verbose', lambda: yn(m.verbose))])
        for n in ('n_samples', 'n_burnin', 'subsample_interval', 'leapfrog_steps', 'optimizer', 'max_iters', 'optimize_restarts', 'num_inducing'):
            if hasattr(m, n):
                look([('model.' + n, lambda: getattr(m, n))])
        for n in ('ARD', 'sparse'):
            if hasattr(m, n):
                look([('model.' + n, lambda: yn(getattr(m, n)))])
        if hasattr(m, 'step_size'):
            look([('model.step_size', lambda: i1000(m.step_size))])
    if ua is not None:
        look([('acq.cls', lambda: 'user' if a is ua else type(a).__name__)])
    else:
        look([('acq.cls', lambda: type(a).__name__), ('acq.own', lambda: yn(a.model is bo.model and a.space is bo.space and a.optimizer is bo.acquisition_optimizer)),
              ('acq.cost', lambda: cost_kind(a.cost_withGradients, bo, X))])
        if hasattr(a, 'jitter'):
            look([('acq.jitter', lambda: i1000(a.jitter))])
        if hasattr(a, 'exploration_weight'):
            look([('acq.weight', lambda: i1000(a.exploration_weight))])
    look([('eval.cls', lambda: type(ev).__name__), ('eval.size', lambda: ev.batch_size),
          ('eval.acq', lambda: 'same' if ev.acquisition is a else 'wrapped' if isinstance(ev.acquisition, AcquisitionLP) and ev.acquisition.acq is a
           and ev.acquisition.model is bo.model and ev.acquisition.space is bo.space else 'other')])
    if isinstance(ev.acquisition, AcquisitionLP):
        look([('eval.transform', lambda: ev.acquisition.transform)])
    look([('bo.norm', lambda: yn(bo.normalize_Y)), ('bo.interval', lambda: bo.model_update_interval), ('bo.dedup', lambda: yn(bo.de_duplication)),
          ('bo.cost', lambda: cost_kind(bo.cost.cost_withGradients, bo, X)), ('bo.constraints', lambda: len(bo.space.constraints or [])),
          ('opt.name', lambda: bo.acquisition_optimizer.optimizer_name), ('opt.anchors', lambda: bo.acquisition_optimizer.type_anchor_points_logic),
          ('data.rows', lambda: len(bo.X)), ('data.design', lambda: bo.initial_design_type), ('data.evaluated', lambda: yn(len(calls) > 0 or (o['cores'] > 1 and o['data'] == 'X' and bo.Y is not None))),
          ('data.x', lambda: 'given' if np.array_equal(bo.X, X) else 'other'), ('data.y', lambda: 'given' if np.array_equal(bo.Y, Y) else 'other'),
          ('data.sign', lambda: sign(bo))])
    if bo.objective is None:
        g['obj'] = 'none'
    else:
        look([('obj.cores', lambda: bo.objective.n_procs), ('obj.name', lambda: bo.objective.objective_name)])
    if not o['use']:
        return e
    R.opts.clear(); R.anch.clear(); R.fits.clear(); R.hmc.clear()
    seen = []
    old = bo.model.updateModel
    bo.model.updateModel = lambda X_all, Y_all, *r: (seen.append(np.array(Y_all, copy=True)), old(X_all, Y_all, *r))[1]
    try:
        s = bo.suggest_next_locations()
    except Exception as ex:
        e['used'], e['why'] = 'error', '%s: %s' % (type(ex).__name__, str(ex)[:120])
        return e
    finally:
        del bo.model.updateModel
    e['used'] = 'yes'
    bo_fit = [x for x in R.fits]
    look([('use.rows', lambda: len(s)), ('use.norm', lambda: normed(seen[-1], bo.Y)), ('use.optimizer', lambda: '+'.join(sorted(R.opts))), ('use.anchors', lambda: '+'.join(sorted(R.anch & {'ObjectiveAnchorPointsGenerator', 'ThompsonSamplingAnchorPointsGenerator'})))])
    if um is None:
        gp = bo.model.model
        look([('use.noise', lambda: 'fixed' if gp.Gaussian_noise.is_fixed and abs(float(gp.Gaussian_noise.variance[0]) - 1e-6) < 1e-12 else 'free'),
              ('use.kernel', lambda: 'user' if gp.kern is kern else gp.kern.name), ('use.lengthscales', lambda: gp.kern.lengthscale.size), ('use.gp', lambda: type(gp).__name__),
              ('use.fit', lambda: 'none' if not bo_fit else '/'.join(str(x) for x in bo_fit[-1])),
              ('use.hmc', lambda: '%s/%d/%d' % (i1000(R.hmc[-1][0]), R.hmc[-1][1], R.hmc[-1][2])), ('use.samples', lambda: len(bo.model.hmc_samples)),
              ('use.inducing', lambda: 'min' if gp.Z.shape[0] == min(int(kw.get('num_inducing', 10)), len(bo.X)) else gp.Z.shape[0])])
    return e


def cost_kind(c, bo, X):
    if getattr(c, '__self__', None) is bo.cost:
        return 'time'
    v, gr = c(X[:2])
    v = np.asarray(v, float)
    return 'user' if np.all(v == 3.25) else 'none' if np.all(v == 1.) else 'other'


def sign(bo):
    y = fobj(bo.X)
    return 'plus' if np.allclose(bo.Y, y) else 'minus' if np.allclose(bo.Y, -y) else 'other'


def normed(Y, raw):
    if np.array_equal(Y, raw):
        return 'no'
    return 'yes' if np.allclose(Y, (raw - raw.mean()) / (raw.std() if np.ptp(raw) > 0 else 1.)) else 'other'


def check(ctx):
    q = not ctx.thorough
    ctx.mc('MC_Options', 'MC_Options.cfg', timeout=600)
    for v in ('fallthrough', 'first', 'pairs'):
        ctx.mc_fails('MC_Options', open(vlib.SPEC + '/MC_Options.cfg').read().replace('"none"', '"%s"' % v), 'is violated', label=v)
    cases = ctx.gen('Gen_Options', num=12 if q else 150, depth=101, timeout=900)
    tr = vlib.pmap(run_case, cases)
    v = ctx.validate('Trace_Options', tr, timeout=1500, chunk=500)
    ctx.judge(tr, v, label='option combinations')
    ctx.sample(tr[0])
    vlib.corrupt(ctx, 'Trace_Options', [t for t in tr if t['ev'][0]['used'] == 'yes' and t['c']['ev'] not in ('None', 'thompson_sampling')], _mutate)
    ctx.need_hits(['C17.' + n for n in ('accept', 'rest', 'use', 'model.user', 'acq.user', 'eval.Sequential', 'eval.RandomBatch', 'eval.ThompsonBatch', 'eval.LocalPenalization')]
                  + ['C17.model.' + n for n in ('GP', 'sparseGP', 'GP_MCMC')] + ['C17.acq.' + n for n in ('EI', 'MPI', 'LCB', 'EI_MCMC', 'MPI_MCMC', 'LCB_MCMC')])


def _mutate(t, k):
    u = copy.deepcopy(t)
    g = u['ev'][0]['got']
    key = ['use.rows', 'bo.norm', 'eval.size', 'opt.name', 'bo.interval', 'acq.cls'][k % 6]
    g[key] = 'other'
    return u
