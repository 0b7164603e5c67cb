"""Conformance of the surrogates with spec/SurrogateUse.tla (C20)."""
import copy, hashlib
import numpy as np
from . import vlib
from .loop import kind_of
from . import stubs                                    # noqa: F401
import GPy
from GPyOpt.models import GPModel
from GPyOpt.models.gpmodel import GPModel_MCMC
from GPyOpt.models.warpedgpmodel import WarpedGPModel


class Ids:
    """numbers for array results; the same number when equal up to rounding"""
    def __init__(self):
        self.seen = {}

    def __call__(self, *arrays):
        A = [np.asarray(a, float) for a in arrays]
        key = tuple(a.shape for a in A)
        L = self.seen.setdefault(key, [])
        for i, B in L:
            if all(np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True) for a, b in zip(A, B)):
                return i
        i = sum(len(v) for v in self.seen.values()) + 1
        L.append((i, A))
        return i


def digest(*arrays):
    h = hashlib.sha256()
    for a in arrays:
        a = np.ascontiguousarray(np.asarray(a, float))
        h.update(repr(a.shape).encode()); h.update(a.tobytes())
    return h.hexdigest()[:12]


def make(kind, dim, samples):
    kw = dict(max_iters=15, optimize_restarts=2, verbose=False, optimizer='lbfgs')
    if kind.startswith('mcmc'):
        k = dict(n_samples=samples, n_burnin=2, subsample_interval=2, step_size=.05, leapfrog_steps=3)
        if kind == 'mcmc_exact':
            k['exact_feval'] = True
        if kind == 'mcmc_kernel':
            k['kernel'] = GPy.kern.Matern32(dim, variance=2.); k['noise_var'] = .1
        return GPModel_MCMC(**k)
    if kind == 'warped':
        return WarpedGPModel(max_iters=3, warping_terms=1)
    if kind == 'gp_ard':
        kw['ARD'] = True
    if kind == 'gp_exact':
        kw['exact_feval'] = True
    if kind == 'gp_kernel':
        kw['kernel'] = GPy.kern.RBF(dim, variance=2., ARD=True) + GPy.kern.Bias(dim)
    if kind == 'gp_mean':
        kw['mean_function'] = GPy.mappings.Linear(dim, 1)
    if kind in ('gp_one', 'sparse_one'):
        kw['optimize_restarts'] = 1; kw['optimizer'] = 'scg'
    if kind in ('gp_tiny', 'gp_flat'):
        kw.update(max_iters=0, noise_var=.3, kernel=GPy.kern.RBF(dim, variance=1e-7) if kind == 'gp_tiny' else GPy.kern.Matern52(dim, variance=2., lengthscale=1e4))
    if kind == 'gp_noiter':
        kw['max_iters'] = 0
    if kind == 'gp_noise':
        kw['noise_var'] = .3; kw['optimizer'] = 'bfgs'
    if kind.startswith('sparse'):
        kw['sparse'] = True; kw['num_inducing'] = 3
    return GPModel(**kw)


def data(d, dim):
    rs = np.random.RandomState(d)
    n = (3, 5, 5, 7, 2, 40, 12, 130)[d - 1]
    X = np.round(rs.uniform(-2, 3, (n, dim)), 3)
    if d == 7:
        X[6:] = X[:6]                                   # repeated locations, a small scale
        return X, (np.sin(2 * X).sum(1)[:, None] + .01 * rs.randn(n, 1)) / 64.
    return X, np.sin(2 * X).sum(1)[:, None] + .3 * X[:, :1] + (0, 0, 5, -3, 0, 0, 0, 0)[d - 1]


def query_set(x, dim):
    rs = np.random.RandomState(100 + x)
    X = np.round(rs.uniform(-2, 3, ((1, 3, 2, 1, 140)[x - 1], dim)), 3)
    return X[0] if x == 4 and dim > 1 else X


CFG = ('noise_var', 'exact_feval', 'optimizer', 'max_iters', 'optimize_restarts', 'sparse', 'num_inducing', 'verbose', 'ARD',
       'n_samples', 'n_burnin', 'subsample_interval', 'step_size', 'leapfrog_steps')


def config(m):
    r = [type(m).__name__] + ['%s=%r' % (a, getattr(m, a, None)) for a in CFG]
    g = m.model
    r += [type(g).__name__, describe(g.kern), 'fixed=%r' % bool(g.Gaussian_noise.is_fixed), 'mean=%s' % type(getattr(g, 'mean_function', None)).__name__]
    if hasattr(g, 'Z'):
        r.append('Z=%d' % min(m.num_inducing, len(g.X)) if g.Z.shape[0] <= m.num_inducing else 'Z>')
    return r


def describe(k):
    return '%s(%s)' % (type(k).__name__, ','.join(describe(p) if hasattr(p, 'K') else '%s%r' % (p.name, p.shape) for p in k.parameters))


def state(m):
    if m.model is None:
        return 'new'
    a = [m.model.param_array, m.model.X, m.model.Y, m.get_model_parameters() if hasattr(m, 'get_model_parameters') else 0]
    if getattr(m, 'hmc_samples', None) is not None:
        a.append(m.hmc_samples)
    P = query_set(2, m.model.X.shape[1])
    a += [np.array([float('%.5g' % t) for t in np.ravel(v)]) for v in m.model.predict(P)]      # the posterior of the wrapped model
    return digest(*a)


def run_case(case):
    np.random.seed(case['seed'])
    ids = Ids()
    ms = [make(case['kind'], case['dim'], case['samples'])]
    ev = [{'op': 'new', 'dig': [state(ms[0])]}]
    try:
        with vlib.quiet():
            for o in case['ops']:
                e = step(o, ms, ids, case)
                now, mid = [state(m) for m in ms], e.pop('mid', None)
                # right after the query and after the further queries it is compared with
                e['dig'] = now if mid is None else [b if a == b else a + '/' + b for a, b in zip(mid, now)]
                ev.append(e)
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return {'c': {'samples': case['samples'], 'kind': case['kind']}, 'ev': ev, 'meta': case}


def held(m):
    Y = m.model.Y if not hasattr(m.model, 'Y_untransformed') else m.model.Y_untransformed
    return digest(m.model.X, Y)


def step(o, ms, ids, case):
    m = ms[o['m'] - 1]
    if o['op'] == 'update':
        X, Y = data(o['d'], case['dim'])
        m.updateModel(X, Y, None, None)
        return {'op': 'update', 'm': o['m'], 'data': digest(*data(o['d'], case['dim'])), 'held': held(m)}
    if o['op'] == 'copy':
        k = m.copy()
        ms.append(k)
        return {'op': 'copy', 'm': o['m'], 'cfg': config(m), 'cfgcopy': config(k), 'data': held(m), 'held': held(k)}
    X = query_set(o['x'], case['dim'])
    keep = X.copy()
    mc = case['mc']
    L = (lambda r: list(r)) if mc else (lambda r: [r])
    kind = o['kind']
    D = []

    def first(r):
        D.append([state(k) for k in ms])
        return r
    same, pos, num = [], True, case['samples']
    if kind == 'predict':
        a, b = first(m.predict(X))
        a, b = L(a), L(b)
        pos, num, res = all(np.all(s > 0) for s in b), len(a) if len(a) == len(b) else -1, ids(*(a + b))
        ok = all(np.shape(v) == (np.atleast_2d(X).shape[0], 1) for v in a + b)
        same = [[ids(0.), ids(0. if ok else 1.)]]
    elif kind == 'gradients':
        r = first(m.predict_withGradients(X))
        a, b, da, db = [L(v) for v in r]
        p, s = m.predict(X)
        pos, num, res = all(np.all(v > 0) for v in b), len(a), ids(*(a + b + da + db))
        same = [[ids(*a), ids(*L(p))], [ids(*b), ids(*L(s))]]
    elif kind == 'fmin':
        f = L(first(m.get_fmin()))
        p = L(m.predict(np.array(m.model.X))[0])
        num, res = len(f), ids(*f)
        same = [[ids(v), ids(np.min(w))] for v, w in zip(f, p)]
    elif kind == 'params':
        res = ids(first(m.get_model_parameters()))
        m.get_model_parameters()[:] = 7.
        m.get_model_parameters_names()
        same = [[res, ids(m.get_model_parameters())], [ids(float(m.get_model_parameters().shape[1])), ids(float(len(m.get_model_parameters_names())))]] if case['kind'] != 'warped' else []
    elif kind == 'noiseless':
        a, b = first(m.predict(X, with_noise=False))
        a2, b2 = m.predict(X)
        pos, res = bool(np.all(b > 0) and np.all(b <= b2 + 1e-9)), ids(a, b)
        same = [[ids(a), ids(a2)], [ids(b ** 2 + m.model.Gaussian_noise.variance[0]), ids(b2 ** 2)]]
    elif kind == 'covariance':
        C = first(m.predict_covariance(X))
        b = m.predict(X)[1]
        C0 = m.predict_covariance(X, with_noise=False)
        pos, res = bool(np.all(np.diag(C) > 0)), ids(C, C0)
        same = [[ids(np.diag(C)[:, None]), ids(b ** 2)], [ids(np.diag(C) - np.diag(C0)), ids(np.full(len(C), m.model.Gaussian_noise.variance[0]))]]
    else:
        X2 = np.atleast_2d(X)
        res = ids(0.)
        if not case['kind'].startswith('sparse'):
            # two sets of different sizes: a block of the noiseless covariance of the union
            Xo = np.atleast_2d(query_set(o['x'] % 3 + 1, case['dim']))
            C = first(m.get_covariance_between_points(X2, Xo))
            U = np.vstack([X2, Xo])
            C0 = m.predict_covariance(U, with_noise=False)
            res = ids(C)
            same = [[ids(C), ids(C0[:len(X2), len(X2):])], [ids(C.T), ids(m.get_covariance_between_points(Xo, X2))],
                    [ids(C0), ids(m.model.predict(U, full_cov=True, include_likelihood=False)[1])]]
    return {'op': 'query', 'm': o['m'], 'kind': kind, 'x': 0 if kind in ('fmin', 'params') else o['x'], 'res': res, 'num': num, 'pos': bool(pos), 'mid': D[0] if D else None,
            'args': bool(np.array_equal(X, keep)), 'same': same}


def check(ctx):
    q = not ctx.thorough
    base = open(vlib.SPEC + '/MC_SurrogateUse.cfg').read()
    ctx.mc('MC_SurrogateUse', base.replace('MaxOps = 4', 'MaxOps = 5') if q else base.replace('MaxOps = 4', 'MaxOps = 7'), timeout=3600)
    for v in ('norestore', 'shared'):
        ctx.mc_fails('MC_SurrogateUse', base.replace('"none"', '"%s"' % v), 'Accepted is violated', label=v)
    cases = ctx.gen('Gen_SurrogateUse', num=4 if q else 60, depth=101, timeout=900)
    cases += [{'kind': 'warped', 'mc': False, 'dim': 1, 'samples': 1, 'seed': i,
               'ops': [{'op': 'update', 'm': 1, 'd': 1 + i}, {'op': 'query', 'm': 1, 'kind': 'predict', 'x': 1}, {'op': 'query', 'm': 1, 'kind': 'fmin', 'x': 1},
                       {'op': 'query', 'm': 1, 'kind': 'predict', 'x': 1}, {'op': 'update', 'm': 1, 'd': 2 - i}, {'op': 'query', 'm': 1, 'kind': 'predict', 'x': 2}]} for i in range(2)]
    tr = vlib.pmap(run_case, cases)
    v = ctx.validate('Trace_SurrogateUse', tr, timeout=1500, chunk=400)
    ctx.judge(tr, v, label='surrogates')
    ctx.sample({k: tr[0][k] for k in ('meta',)})
    vlib.corrupt(ctx, 'Trace_SurrogateUse', [t for t in tr if t['ev'][-1]['op'] == 'query'], _mutate)
    ctx.need_hits(['C20.' + n for n in ('data', 'independent', 'copy_config', 'copy_data', 'pure', 'samples', 'positive', 'repeat', 'fmin', 'agree')])


def _mutate(t, k):
    u = copy.deepcopy(t)
    e = u['ev'][-1]
    if k % 2:
        e['dig'][-1] = 'changed'
    else:
        e['num'] += 1
    return u
