"""Conformance of acquisition values and gradients with spec/AcqValues.tla (C15)."""
import copy
import numpy as np
from . import vlib
from .stubs import gp_domain
from .loop import kind_of
from .suggest import con_text
from .cost import ACQ
from GPyOpt.models.base import BOModel
from GPyOpt.models import GPModel, GPModel_MCMC
from GPyOpt.core.task.space import Design_space
from GPyOpt.core.task.cost import CostModel
from GPyOpt.methods import BayesianOptimization
from GPyOpt import acquisitions as A

FP = 1000000


class TableModel(BOModel):
    """predictions read from a table over encoded locations"""
    analytical_gradient_prediction = True

    def __init__(self, space, c, mag=0):
        self.MCMC_sampler = c['acq'].endswith('MCMC')
        self.c = c
        self.g = 2.0 ** mag                         # the unit of the surrogate
        self.keys = {self.key(z): i for i, z in enumerate(encoded(space, c))}
        self.model = None

    @staticmethod
    def key(z):
        return tuple(np.round(np.asarray(z, dtype=float) * 64).astype(int))

    def rows(self, X):
        return [self.c['tab'][self.keys[self.key(z)]] for z in np.atleast_2d(X)]

    def sample(self, X, q):
        r = [t['p'][q] for t in self.rows(X)]
        return (self.g * np.array([[p['M'] / 64.] for p in r]), self.g * np.array([[p['S'] / 8.] for p in r]),
                self.g * np.array([p['dm'] for p in r], dtype=float), self.g * np.array([p['ds'] for p in r], dtype=float))

    def predict_withGradients(self, X):
        r = [self.sample(X, q) for q in range(len(self.c['F']))]
        return tuple([x[i] for x in r] for i in range(4)) if self.MCMC_sampler else r[0]

    def predict(self, X):
        return self.predict_withGradients(X)[:2]

    def get_fmin(self):
        f = [self.g * v / 64. for v in self.c['F']]
        return f if self.MCMC_sampler else f[0]

    def updateModel(self, *a):
        pass

    def cost(self, X):
        r = self.rows(X)
        return np.array([[float(t['v'])] for t in r]), np.array([t['g'] for t in r], dtype=float)


def encoded(space, c):
    return [space.unzip_inputs(np.array([t['x']], dtype=float) / c['U'])[0] for t in c['tab']]


def fixed(v):
    v = float(v)
    return int(round(v * FP)) if abs(v * FP) < 2.0e8 else (199999999 if v > 0 else -199999999 if v < 0 else 177777777)


def run_case(case):
    c = case['c']
    U = float(c['U'])
    ev = []
    try:
        with vlib.quiet():
            cons = [{'name': 'c%d' % i, 'constraint': con_text(k, U)} for i, k in enumerate(c['cons'])] or None
            space = Design_space(gp_domain(c['space'], c['U']), cons)
            m = TableModel(space, c, case['mag'])
            g1 = 2.0 ** case['mag']
            back = 1. if 'MPI' in c['acq'] else 1. / g1       # improvements and bounds are in the unit of the surrogate
            plain = c['acq'].replace('_MCMC', '')
            if case['route'] == 3:
                kw = dict(acquisition_jitter=g1 * c['J'] / 64., acquisition_weight=c['W'] / 8.)
                bo = BayesianOptimization(None, gp_domain(c['space'], c['U']), constraints=cons, model=m, acquisition_type=c['acq'],
                                          cost_withGradients=m.cost if c['costed'] else None, X=np.array([t['x'] for t in c['tab']]) / U,
                                          Y=np.zeros((len(c['tab']), 1)), **kw)
                a = bo.acquisition
            else:
                opt = {'exploration_weight': c['W'] / 8.} if plain == 'LCB' else {'jitter': g1 * c['J'] / 64.}
                cost = (m.cost if case['route'] == 1 else CostModel(m.cost).cost_withGradients) if c['costed'] else None
                a = ACQ[c['acq']](m, space, None, cost_withGradients=cost, **opt)
            Z = np.array(encoded(space, c))
            r = np.random.RandomState(case['seed'])
            sets = [r.permutation(len(Z)).tolist(), [int(r.randint(len(Z)))], r.randint(len(Z), size=3).tolist()]
            for I in sets + [sets[0]]:
                v = np.asarray(a.acquisition_function(Z[I])) * back
                if v.shape != (len(I), 1):
                    raise ValueError('values of shape %s' % (v.shape,))
                ev.append({'op': 'val', 'I': [i + 1 for i in I], 'a': [fixed(t) for t in v[:, 0]]})
                v, g = a.acquisition_function_withGradients(Z[I])
                v, g = np.asarray(v) * back, np.asarray(g) * back
                if v.shape != (len(I), 1) or g.shape != Z[I].shape:
                    raise ValueError('gradients of shape %s %s' % (v.shape, g.shape))
                ev.append({'op': 'grad', 'I': [i + 1 for i in I], 'a': [fixed(t) for t in v[:, 0]], 'da': [[fixed(t) for t in row] for row in g]})
            if case['seed'] % 5 == 0:                      # many locations at once: every different answer is recorded
                I = r.randint(len(Z), size=int(r.choice([500, 1100, 2100, 5000])))
                v = np.asarray(a.acquisition_function(Z[I])) * back
                if v.shape != (len(I), 1):
                    raise ValueError('values of shape %s' % (v.shape,))
                u = sorted({(int(i), fixed(t)) for i, t in zip(I, v[:, 0])})
                ev.append({'op': 'val', 'I': [i + 1 for i, _ in u], 'a': [t for _, t in u]})
                v, g = a.acquisition_function_withGradients(Z[I])
                v, g = np.asarray(v) * back, np.asarray(g) * back
                if v.shape != (len(I), 1) or g.shape != Z[I].shape:
                    raise ValueError('gradients of shape %s %s' % (v.shape, g.shape))
                u = sorted({(int(i), fixed(t), tuple(fixed(w) for w in row)) for i, t, row in zip(I, v[:, 0], g)})
                ev.append({'op': 'grad', 'I': [i + 1 for i, _, _ in u], 'a': [t for _, t, _ in u], 'da': [list(d) for _, _, d in u]})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return {'c': {k: c[k] for k in ('space', 'U', 'cons', 'acq', 'J', 'W', 'F', 'tab', 'costed')}, 'ev': ev,
            'meta': {'route': case['route'], 'seed': case['seed'], 'mag': case['mag']}}


# ------------------------------------------------------------------ derivatives with the surrogates of the library
def real_case(k):
    """acquisitions over fitted surrogates: gradient against difference quotients"""
    r = np.random.RandomState(k)
    ev = []
    acq = ['EI', 'MPI', 'LCB', 'EI_MCMC', 'MPI_MCMC', 'LCB_MCMC'][k % 6]
    lp = (k // 6) % 3 == 2
    meta = dict(acq=acq, lp=lp, k=k)
    np.random.seed(k)
    try:
        with vlib.quiet():
            d = int(r.randint(1, 4))
            dom = [{'name': 'x', 'type': 'continuous', 'domain': (-1, 2), 'dimensionality': d}]
            if k % 5 == 0:
                dom = dom + [{'name': 'k', 'type': 'categorical', 'domain': (0, 1, 2)}]
            space = Design_space(dom)
            n = int(r.randint(4, 9))
            X = r.uniform(-1, 2, size=(n, d))
            Z = space.unzip_inputs(np.hstack([X, r.randint(3, size=(n, 1))]) if k % 5 == 0 else X)
            Y = np.sin(2 * Z.sum(1))[:, None] + 0.3 * (Z[:, :1] - .5) ** 2 + 0.05 * r.randn(n, 1)
            import GPy
            kern = [None, GPy.kern.RBF(Z.shape[1], ARD=True), GPy.kern.Matern32(Z.shape[1])][k % 3]
            if acq.endswith('MCMC'):
                m = GPModel_MCMC(n_samples=2, n_burnin=2, subsample_interval=1, leapfrog_steps=3, kernel=kern)
                meta['model'] = 'GP_MCMC'
            else:
                m = GPModel(kernel=kern, max_iters=[0, 5, 30][r.randint(3)], optimize_restarts=1, verbose=False, ARD=bool(k % 2),
                            sparse=k % 7 == 0, num_inducing=4, exact_feval=k % 5 == 1)
                meta['model'] = 'sparse' if k % 7 == 0 else 'GP'
            m.updateModel(Z, Y, None, None)
            w = r.uniform(.2, .6, size=Z.shape[1])
            cost = (lambda x: (1.5 + np.sin(np.atleast_2d(x).dot(w))[:, None], np.cos(np.atleast_2d(x).dot(w))[:, None] * w)) if k % 2 else None
            kw = {'exploration_weight': float(r.uniform(0, 3))} if acq.startswith('LCB') else {'jitter': 0.0 if acq == 'EI_MCMC' else float(r.uniform(0, .2))}   # jitter with EI_MCMC: known finding
            a = ACQ[acq](m, space, None, cost_withGradients=cost, **kw)
            if lp:
                a = A.AcquisitionLP(m, space, None, a)
                if (k // 18) % 2 and not acq.endswith('MCMC'):    # batches are penalised for plain surrogates only
                    a.update_batches(Z[:2] + 0.11, 1.5, float(Y.min()))
            V = r.uniform(-.9, 1.9, size=(Z.shape[1] if k % 2 else 3, Z.shape[1]))
            f1, df = a.acquisition_function_withGradients(V)
            rows = [a.acquisition_function_withGradients(x[None]) for x in V]
            if not lp or np.max(np.ravel(f1)) < 25:
                for i in range(len(V)):                             # several locations at once are computed row by row
                    ev.append({'op': 'rows', 'f0': small(np.ravel(f1)[i]), 'f1': small(np.ravel(rows[i][0])[0]),
                               'a': [small(v) for v in np.asarray(df)[i]], 'b': [small(v) for v in np.ravel(rows[i][1])]})
            for _ in range(3):
                x = r.uniform(-.9, 1.9, size=(1, Z.shape[1]))
                f0 = float(np.ravel(a.acquisition_function(x))[0])
                f1, df = a.acquisition_function_withGradients(x)
                f1, df = float(np.ravel(f1)[0]), np.ravel(df)
                if len(df) != x.shape[1]:
                    raise ValueError('gradient of shape %s' % (df.shape,))
                h = 2.0 ** -14
                num = []
                for i in range(x.shape[1]):
                    e = np.zeros_like(x)
                    e[0, i] = h
                    num.append((float(np.ravel(a.acquisition_function(x + e))[0]) - float(np.ravel(a.acquisition_function(x - e))[0])) / (2 * h))
                if lp and (f0 > 25 or np.abs(num).max() > 500):
                    continue                                  # the logarithm of a vanishing acquisition
                ev.append({'op': 'diff', 'f0': small(f0), 'f1': small(f1), 'num': [small(v) for v in num], 'df': [small(v) for v in df]})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return {'c': {'acq': acq, 'jitter': acq == 'EI_MCMC', 'cons': []}, 'ev': ev, 'meta': meta}


def small(v):
    v = float(v) * 1e4
    return int(round(v)) if abs(v) < 5e6 else (5000001 if v > 0 else -5000001 if v < 0 else 5100000)


def check(ctx):
    q = not ctx.thorough
    ctx.mc('MC_AcqValues', 'MC_AcqValues.cfg', timeout=300)
    if not q:
        ctx.mc('MC_AcqValues', 'MC_AcqValues_big.cfg', timeout=3600)
    cases = ctx.gen('Gen_AcqValues', num=6 if q else 80, depth=101, timeout=900)
    tr = vlib.pmap(run_case, cases)
    v = ctx.validate('Trace_AcqValues', tr, timeout=1500, chunk=500)

    def known(t, b):
        return b[0] == 'C15.known.ei_mcmc_jitter' and ctx.finding('ei-mcmc-jitter', 'integrated expected improvement with a non-zero jitter '
            'adds the jitter to the improvement instead of subtracting it (acquisitions/EI_mcmc.py; pinned by an existing test)')
    ctx.judge(tr, v, label='acquisition values', known=known)
    ctx.sample(tr[0])
    vlib.corrupt(ctx, 'Trace_AcqValues', tr, _mutate, k=12)
    tr = vlib.pmap(real_case, [ctx.seed * 10000 + k for k in range(72 if q else 1200)])
    v = ctx.validate('Trace_AcqValues', tr, timeout=900)
    ctx.judge(tr, v, label='derivatives with fitted surrogates', known=lambda t, b: b[0] == 'C15.known.ei_mcmc_jitter' and known(t, b))
    ctx.need_hits(['C15.' + n for n in ('EI', 'MPI', 'LCB', 'gradient', 'perunit', 'integrated', 'infeasible_zero', 'agree', 'derivative', 'rowwise')])
    ctx.notes.append('closed forms on a table of the normal distribution at multiples of 1/8 (checked in MC_AcqValues), fixed point 1e-6')


def _mutate(t, k):
    u = copy.deepcopy(t)
    if t['c']['acq'] == 'EI_MCMC':
        return None
    for e in u['ev']:
        if e['op'] == 'val' and k % 2 and e['a'][0]:
            e['a'][0] = -e['a'][0] + 50
            return u
        if e['op'] == 'grad' and k % 2 == 0 and any(e['da'][0]):
            e['da'][0][0] += 200 + abs(e['da'][0][0]) * 2
            return u
    return None
