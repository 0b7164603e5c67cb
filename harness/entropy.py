"""Conformance of entropy search with spec/EntropySearch.tla (C23)."""
import copy
import numpy as np
from . import vlib
from .loop import kind_of
import GPy
from GPyOpt.acquisitions import AcquisitionEntropySearch
from GPyOpt.core.task.space import Design_space
from GPyOpt.core.task.objective import SingleObjective
from GPyOpt.core.evaluators import Sequential
from GPyOpt.methods import ModularBayesianOptimization
from GPyOpt.models import GPModel
from GPyOpt.models.rfmodel import RFModel
from GPyOpt.optimization.acquisition_optimizer import AcquisitionOptimizer
from GPyOpt.util import epmgp
from GPyOpt.util.mcmc_sampler import McmcSampler, AffineInvariantEnsembleSampler

FP = 1000000


def fixed(v, k=FP):
    v = float(v) * k
    return int(round(v)) if abs(v) < 4e8 else (400000001 if v > 0 else -400000001 if v < 0 else 444444444)


class TableKern(GPy.kern.Kern):
    """covariances read from a table; the location is its index (first coordinate)"""
    def __init__(self, dim, V):
        super(TableKern, self).__init__(dim, None, 'table')
        self.V = np.asarray(V, dtype=float)

    def ix(self, X):
        return np.clip(np.round(np.asarray(X)[:, 0]).astype(int), 0, len(self.V) - 1)

    def K(self, X, X2=None):
        i = self.ix(X)
        return self.V[np.ix_(i, i if X2 is None else self.ix(X2))].copy()

    def Kdiag(self, X):
        return np.diag(self.V)[self.ix(X)].copy()

    def update_gradients_full(self, dL_dK, X, X2=None):
        pass

    def update_gradients_diag(self, dL_dK, X):
        pass

    def gradients_X(self, dL_dK, X, X2=None):
        return np.zeros(X.shape)

    def gradients_X_diag(self, dL_dK, X):
        return np.zeros(X.shape)


class TableMean(GPy.core.Mapping):
    def __init__(self, dim, mu):
        super(TableMean, self).__init__(dim, 1, 'table_mean')
        self.mu = np.asarray(mu, dtype=float)

    def f(self, X):
        return self.mu[np.clip(np.round(np.asarray(X)[:, 0]).astype(int), 0, len(self.mu) - 1)][:, None]

    def update_gradients(self, dL_dF, X):
        pass

    def gradients_X(self, dL_dF, X):
        return np.zeros(X.shape)


def table_model(dim, mu, V, noise=0.):
    """a surrogate whose posterior at location i is (mu, V): its only observation is independent of all others"""
    n = len(mu)
    W = np.zeros((n + 1, n + 1))
    W[:n, :n] = V
    W[n, n] = 1.
    m = np.append(mu, max(mu) + 1.)
    model = GPModel(kernel=TableKern(dim, W), mean_function=TableMean(dim, m), exact_feval=noise == 0., noise_var=noise or None, max_iters=0, optimize_restarts=1, verbose=False)
    X = np.full((1, dim), float(n))
    model.updateModel(X, np.array([[m[n]]]), None, None)
    return model


class FixedSampler(McmcSampler):
    def __init__(self, space, pts, logs):
        super(FixedSampler, self).__init__(space)
        self.pts, self.logs = np.array(pts, dtype=float), np.array(logs, dtype=float).reshape(-1, 1)

    def get_samples(self, n_samples, log_p_function, burn_in_steps=50):
        return self.pts[:n_samples].copy(), self.logs[:n_samples].copy()


class LatticeSampler(McmcSampler):
    """the same lattice for every belief, with the density asked for"""
    def __init__(self, space, pts):
        super(LatticeSampler, self).__init__(space)
        self.pts = np.array(pts, dtype=float)

    def get_samples(self, n_samples, log_p_function, burn_in_steps=50):
        p = self.pts[:n_samples].copy()
        return p, np.array([max(float(np.ravel(log_p_function(x))[0]), -50.) for x in p]).reshape(-1, 1)    # never all without density


def box(dim, hi, lo=0):
    return Design_space([{'name': 'x', 'type': 'continuous', 'domain': (lo, hi), 'dimensionality': dim}])


# ------------------------------------------------------------------ beliefs
def run_belief(case):
    c = case['c']
    N = len(c['mu'])
    mu0, V = np.array(c['mu'], dtype=float), np.array(c['V'], dtype=float)
    ev = []
    g = 2.0 ** case['mag']
    q = [k - 1 for k in case['perm']]
    back = np.argsort(q)
    low = mu0.copy()
    low[case['low'] - 1] -= case['by']

    def ask(m, W, perm, lw=0):
        lp = np.ravel(epmgp.joint_min(np.array(m), np.array(W)))
        if lp.shape != (N,):
            raise ValueError('probabilities of shape %s' % (lp.shape,))
        p = np.exp(lp)
        ev.append({'op': 'min', 'p': [fixed(v) for v in (p[back] if perm else p)], 'low': lw, 'by': case['by']})
    try:
        with vlib.quiet():
            ask(mu0, V, 0)
            ask(mu0[q], V[np.ix_(q, q)], 1)
            ask(mu0 + case['shift'], V, 0)
            ask(mu0 * g, V * g * g, 0)
            r = epmgp.joint_min(mu0.copy(), V.copy(), with_derivatives=True)
            p = np.exp(np.ravel(r[0]))
            ev.append({'op': 'min', 'p': [fixed(v) for v in p], 'low': 0, 'by': 0})
            ev.append({'op': 'deriv', 'p': [fixed(v, 10000) for v in p], 'D': [[fixed(v, 1000) for v in row] for row in np.asarray(r[1])],
                       'S': [[fixed(v, 10000) for v in row] for row in np.asarray(r[2]).reshape(N, -1)],
                       'H': [[[fixed(v, 10000) for v in row] for row in h] for h in np.asarray(r[3]).reshape(N, N, N)]})
            ask(mu0, V, 0)
            ask(low, V, 0, case['low'])
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return {'c': c, 'ev': ev, 'meta': {}}


# ------------------------------------------------------------------ scores
COS = [(0, 1), (7, 25), (3, 5), (4, 5), (24, 25)]
SAMPLES = [1, 5, 20]


def run_score(case):
    c = case['c']
    rs = np.random.RandomState(case['seed'])
    g = 2.0 ** case['mag']
    ev = []
    noise = [0., 0., .25, .6][case['seed'] // 8 % 4]         # of the observations: part of the belief, not of the innovations
    sig = np.sqrt(16. - 2 * noise)
    own = [3., 3., .5, 1.][case['seed'] // 32 % 4]
    # factors: two representers p and p + sig*e1, candidates a*e1 + b*e2 (+ their own), hopeless points, points without density
    K = 6
    com = np.zeros(K)
    com[2:4] = np.array(case['common']) / 20.
    F = [com, com + sig * np.eye(K)[0]]
    mu = [case['base'] / 4., case['base'] / 4. + c['z'] / 2. * 4.]
    logs = [c['u'][0] / 4., c['u'][1] / 4.]
    for h in range(c['hopeless']):
        F.append(rs.randint(-2, 3, size=K) / 2.)
        mu.append(max(mu[:2]) + 400. + h)
        logs.append(-3. - h)
    for h in range(c['drop']):
        F.append(rs.randint(-2, 3, size=K) / 2.)
        mu.append(min(mu[:2]) - 5. - h)
        logs.append(-np.inf)
    R = len(F)
    for k, d in enumerate(c['cand']):
        a, b = COS[d['r'] - 1]
        v = np.zeros(K)
        v[0] = case['flip'][k] * a / float(b) * 4. / sig
        v[1] = np.sqrt(1. - v[0] ** 2)
        F.append(own * v)
        mu.append(float(rs.randint(-5, 6)))
    order = rs.permutation(R)                                # representers come in any order
    F, mu = np.array(F) * g, np.array(mu) * g
    V = F.dot(F.T)
    dim = case['dim']

    def at(i):
        return np.append([float(i)], rs.randint(0, R, size=dim - 1).astype(float))
    try:
        with vlib.quiet():
            sp = box(dim, R + len(c['cand']) + 1)
            m = table_model(dim, mu, V, noise * g * g)
            smp = FixedSampler(sp, [at(i) for i in order], [logs[i] for i in order])
            cost = {R + k: float(d['v']) for k, d in enumerate(c['cand'])}
            cf = (lambda x: (np.array([[cost.get(int(round(r[0])), 1.)] for r in np.atleast_2d(x)]), np.zeros(np.atleast_2d(x).shape))) if case['costed'] else None
            es = AcquisitionEntropySearch(m, sp, smp, cost_withGradients=cf, num_samples=SAMPLES[c['q'] - 1], num_representer_points=R)
            for I in [case['I'], [case['I'][0]], case['I'][::-1]]:
                a = np.asarray(es.acquisition_function(np.array([at(R + i - 1) for i in I])))
                if a.shape != (len(I), 1):
                    raise ValueError('scores of shape %s' % (a.shape,))
                ev.append({'op': 'score', 'I': I, 'a': [fixed(v) for v in a[:, 0]]})
            bad = [lambda: es.acquisition_function(np.zeros((1, dim + 1))),
                   lambda: AcquisitionEntropySearch(RFModel(), sp, smp),
                   lambda: AcquisitionEntropySearch(m, sp, FixedSampler(sp, smp.pts, np.append(smp.logs[1:], np.nan)), num_representer_points=R).acquisition_function(smp.pts[:1]),
                   lambda: AcquisitionEntropySearch(m, sp, FixedSampler(sp, smp.pts, np.append(np.inf, smp.logs[1:])), num_representer_points=R).acquisition_function(smp.pts[:1])]
            k = case['seed'] % 8
            if k < 4:
                try:
                    bad[k]()
                    ok = False
                except (ValueError, RuntimeError):
                    ok = True
                ev.append({'op': 'refuse', 'what': k, 'raised': ok})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    if not case['costed']:
        c = dict(c, cand=[dict(d, v=1) for d in c['cand']])
    return {'c': c, 'ev': ev, 'meta': {'seed': case['seed']}}


# ------------------------------------------------------------------ the life of a belief
def run_life(case):
    rs = np.random.RandomState(case['seed'])
    np.random.seed(case['seed'])
    dim = case['dim']
    ev = []

    def f(X):
        return np.sin(2.5 * np.atleast_2d(X).sum(1, keepdims=True)) + .3 * np.atleast_2d(X)[:, :1]
    try:
        with vlib.quiet():
            sp = Design_space([{'name': 'x', 'type': 'discrete', 'domain': tuple(np.linspace(0, 4, 17)), 'dimensionality': 1}] * dim) if case['loop'] else box(dim, 4)
            kw = {'exact': dict(exact_feval=True), 'given': dict(noise_var=.01), 'free': dict()}[case['noise']]
            m = GPModel(kernel=GPy.kern.RBF(dim, variance=1., lengthscale=.8), max_iters=0, optimize_restarts=1, verbose=False, **kw)
            pts = rs.uniform(.05, 3.95, size=(case['reps'], dim))
            probes = rs.uniform(.1, 3.9, size=(3, dim))

            def new(opt=None):
                return AcquisitionEntropySearch(m, sp, LatticeSampler(sp, pts), optimizer=opt, num_samples=7, num_representer_points=case['reps'])
            opt = AcquisitionOptimizer(sp)
            es = new(opt)
            X = rs.uniform(0, 4, size=(3, dim))
            Y = f(X)
            bo = None
            if case['loop']:
                X = np.round(X * 4) / 4
                Y = f(X)
                bo = ModularBayesianOptimization(m, sp, SingleObjective(f), es, Sequential(es), X, Y_init=Y, normalize_Y=False)
            else:
                m.updateModel(X, Y, None, None)
            ev.append({'op': 'fit'})

            def probe():
                ev.append({'op': 'probe', 'a': [fixed(v) for v in np.ravel(es.acquisition_function(probes))],
                           'b': [fixed(v) for v in np.ravel(new().acquisition_function(probes))]})
            if bo is not None:
                for o in case['ops']:
                    if o in ('data', 'values') or m.model is None:
                        if case['ask']:
                            x = bo.suggest_next_locations()
                            ev.append({'op': 'fit'})
                            probe()
                        bo.run_optimization(max_iter=1, eps=-1)
                        ev.append({'op': 'fit'})
                    probe()
            else:
                for o in case['ops']:
                    if o == 'data':
                        x = rs.uniform(0, 4, size=(1, dim))
                        X, Y = np.vstack([X, x]), np.vstack([Y, f(x)])
                        m.updateModel(X, Y, None, None)
                    elif o == 'values':
                        Y = Y.copy()
                        Y[rs.randint(len(Y))] += .5
                        m.updateModel(X, Y, None, None)
                    elif o == 'params':
                        m.model.kern.lengthscale = float(rs.choice([.3, .5, 1.2, 2.]))
                    elif o == 'optimize':
                        m.max_iters = 20
                        m.updateModel(X, Y, None, None)
                        m.max_iters = 0
                    elif o == 'same':
                        if case['ask']:
                            es.optimize()
                        probe()
                        continue
                    else:
                        probe()
                        continue
                    ev.append({'op': 'fit'})
                    if case['ask'] and rs.rand() < .3:
                        es.optimize()
                probe()
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return {'c': case['c'], 'ev': ev, 'meta': {k: case[k] for k in ('ops', 'dim', 'reps', 'loop', 'noise', 'seed')}}


# ------------------------------------------------------------------ representer points
class Catch(McmcSampler):
    def get_samples(self, n_samples, log_p_function, burn_in_steps=50):
        self.f = log_p_function
        raise StopIteration


def run_prop(case):
    rs = np.random.RandomState(case['seed'])
    np.random.seed(case['seed'])
    dim, ev = case['dim'], []
    n = len(case['pts'])
    jitter = 0.01                                             # the default of the expected improvement
    fmin = case['base'] + 1000.
    mu = [fmin - jitter - p['k'] * p['S'] / 64. for p in case['pts']]
    V = np.diag([(p['S'] / 8.) ** 2 for p in case['pts']])
    try:
        with vlib.quiet():
            sp = box(dim, n)
            model = GPModel(kernel=TableKern(dim, np.pad(V, ((0, 1), (0, 1)))), mean_function=TableMean(dim, mu + [fmin]), exact_feval=True, max_iters=0,
                            optimize_restarts=1, verbose=False)
            X = np.full((1, dim), float(n))
            model.updateModel(X, np.array([[fmin]]), None, None)
            smp = Catch(sp)
            try:
                AcquisitionEntropySearch(model, sp, smp).acquisition_function(X)
            except StopIteration:
                pass
            for i, p in enumerate(case['pts']):
                x = np.append([float(i)], rs.uniform(0, n, size=dim - 1))
                if not p['inside']:
                    x[(p['ax'] - 1) % dim] = n + p['far'] / 8. if p['far'] > 0 else p['far'] / 8.
                v = float(np.ravel(smp.f(x))[0])
                ev.append({'op': 'prop', 'k': p['k'], 'S': p['S'], 'inside': p['inside'], 'a': fixed(np.exp(v))})
            # the sampler of the library
            lo = float(rs.choice([-3., 0., 100.]))
            s2 = box(dim, lo + 2, lo)
            f = lambda x: float(-np.sum((x - lo - .3) ** 2) * 4) if np.all(x >= lo) and np.all(x <= lo + 2) else -np.inf
            want = int(rs.choice([2 * dim + 2, 12, 20]))
            P, L = AffineInvariantEnsembleSampler(s2).get_samples(want, f, int(rs.randint(1, 30)))
            P, L = np.asarray(P), np.ravel(L)
            ev.append({'op': 'samples', 'n': len(P), 'want': want, 'inside': bool(P.shape == (len(P), dim) and np.all(P >= lo) and np.all(P <= lo + 2)),
                       'logs': bool(len(L) == len(P) and np.allclose(L, [f(x) for x in P]))})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return {'c': case['c'], 'ev': ev, 'meta': {'seed': case['seed']}}


def run_case(case):
    return {'belief': run_belief, 'score': run_score, 'life': run_life, 'prop': run_prop}[case['c']['k']](case)


def check(ctx):
    q = not ctx.thorough
    ctx.mc('MC_EntropySearch', 'MC_EntropySearch.cfg', timeout=600)
    cfg = open(vlib.SPEC + '/MC_EntropySearch.cfg').read()
    for v in ('once', 'data'):
        ctx.mc_fails('MC_EntropySearch', cfg.replace('"good"', '"%s"' % v), 'Current', label='belief refreshed: ' + v)
    cases = ctx.gen('Gen_EntropySearch', num=6 if q else 60, depth=101, timeout=900)
    tr = vlib.pmap(run_case, cases)
    v = ctx.validate('Trace_EntropySearch', tr, timeout=1500)
    ctx.judge(tr, v, label='entropy search')
    for k in ('score', 'life'):
        ctx.sample(next(t for t in tr if t['c']['k'] == k))
    vlib.corrupt(ctx, 'Trace_EntropySearch', tr, _mutate, k=12)
    ctx.need_hits(['C23.' + n for n in ('sum', 'two', 'bounds', 'exchangeable', 'invariant', 'lowered', 'translation', 'normalised', 'common', 'scale', 'curvature', 'heat', 'baseline', 'gain', 'together',
                                        'hopeless', 'dropped', 'current', 'steady', 'proposal', 'outside', 'samples', 'refused')])
    ctx.notes.append('beliefs over 2-6 representer points against exact pairwise probabilities; scores of two effective candidates against the closed form (EntropyTable.tla)')


def _mutate(t, k):
    u = copy.deepcopy(t)
    for e in u['ev']:
        if e['op'] == 'min' and k % 3 == 0 and max(e['p']) < 900000:
            e['p'][e['p'].index(max(e['p']))] += 50000
            return u
        if e['op'] == 'score' and k % 3 == 1:
            e['a'][0] += 500
            return u
        if e['op'] == 'probe' and k % 3 == 2:
            e['a'][0] += 10
            return u
    return None
