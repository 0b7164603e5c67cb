"""Conformance of the handling of the caller's data with spec/Isolation.tla (C21)."""
import copy, hashlib
import numpy as np
from . import vlib
from .loop import kind_of
from .stubs import DetModel
import GPyOpt
from GPyOpt.core.task.space import Design_space
from GPyOpt.core.task.objective import SingleObjective
from GPyOpt.methods import BayesianOptimization, ModularBayesianOptimization
from GPyOpt.acquisitions import AcquisitionEI
from GPyOpt.optimization import AcquisitionOptimizer
from GPyOpt.models import GPModel
from GPyOpt.models.gpmodel import GPModel_MCMC
from GPyOpt.models.warpedgpmodel import WarpedGPModel
from GPyOpt.experiment_design import initial_design
from GPyOpt.core.evaluators import Sequential


def feed(h, o):
    if isinstance(o, np.ndarray):
        h.update(('A%s%s' % (o.dtype, o.shape)).encode()); h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, dict):
        h.update(b'D')
        for k in sorted(o, key=str):
            feed(h, k); feed(h, o[k])
    elif isinstance(o, (list, tuple)):
        h.update(('L%s%d' % (type(o).__name__, len(o))).encode())
        for x in o:
            feed(h, x)
    else:
        h.update((type(o).__name__ + (repr(o) if not callable(o) else 'f')).encode())


def digest(o):
    h = hashlib.sha256(); feed(h, o)
    return h.hexdigest()[:10]


DOMS = {
    'cont': [{'name': 'a', 'type': 'continuous', 'domain': (-1., 2.)}, {'name': 'b', 'type': 'continuous', 'domain': [0., 3.]}],
    'mixed': [{'name': 'a', 'type': 'continuous', 'domain': (-1., 2.), 'dimensionality': 2}, {'name': 'k', 'type': 'discrete', 'domain': [3, 1, 2]},
              {'name': 'c', 'type': 'categorical', 'domain': (0, 1, 2)}],
    'cat': [{'name': 'c', 'type': 'categorical', 'domain': np.array([0, 1, 2, 3])}, {'type': 'continuous', 'domain': (0., 1.)}],
    'bandit': [{'name': 'arms', 'type': 'bandit', 'domain': np.array([[0., 1.], [2., -1.], [1., 1.], [.5, .25], [3., 3.], [-1., 0.], [2., 2.], [2., .5]])}],
    'cons': [{'name': 'a', 'type': 'continuous', 'domain': (-1., 2.)}, {'name': 'k', 'type': 'discrete', 'domain': np.array([0., 1., 2.])}],
    'legacy': [{'name': 'a', 'type': 'continuous', 'domain': (-1., 2.)}, {'name': 'b', 'type': 'continuous', 'domain': (0., 3.)}],
    'disc': [{'name': 'k', 'type': 'discrete', 'domain': [4, 0, 2, 1, 3]}, {'name': 'm', 'type': 'discrete', 'domain': (0., .5, 1.), 'dimensionality': 2}],
    'arr': [{'name': 'k', 'type': 'discrete', 'domain': np.array([3., 1., 2., .5]), 'dimensionality': 2}, {'name': 'a', 'type': 'continuous', 'domain': np.array([-1., 2.]), 'dimensionality': 2},
            {'name': 'c', 'type': 'categorical', 'domain': np.array([2, 0, 1]), 'dimensionality': 2}, {'name': 'm', 'type': 'discrete', 'domain': np.array([5., -1., 2.])}],
}
CONS = {'cons': [{'name': 'c1', 'constraint': 'x[:,0] + x[:,1] - 3.5'}], 'legacy': [{'name': 'c1', 'constrain': 'x[:,0] - x[:,1] - 1.5'}, {'name': 'c2', 'constraint': '-x[:,1]'}]}
CTX = {'cont': {'a': .5}, 'mixed': {'k': 2}, 'cat': {'c': 2}, 'bandit': None, 'cons': {'k': 1.}, 'legacy': {'b': 2.}, 'disc': {'k': 1}, 'arr': {'m': 2.}}


CTXK = {'plain': lambda v: v, 'np': np.float64, 'zero': np.array}


class World:
    """one optimizer and the objects its caller owns"""
    def __init__(self, case):
        self.case, self.own, self.names = case, [], []
        self.held = []
        self.buf = np.zeros((1, 1))

    def mine(self, o, scrib=False):
        self.own.append(o); self.names.append(scrib)
        return o

    def digs(self, n=None):
        return [{'o': i + 1, 'dig': digest(o)} for i, o in enumerate(self.own[:n])]

    def f(self, x):
        st = self.case['style']
        y = float(np.sum(np.sin(2 * np.asarray(x, float)) + .1 * np.asarray(x, float)))
        if st == 'touch':
            x[:] = 77.
        if st == 'buffer':
            self.buf[0, 0] = y
            return self.buf
        if st == 'hold':
            if self.held:
                self.held[-1][:] = 55.          # an older output is overwritten
            r = np.array([[y]]); self.held.append(r)
            return r
        return np.array([y]) if st == 'row' else y if st == 'scalar' else np.array([[y]])

    def data(self):
        rs = np.random.RandomState(self.case['seed'] % 50)
        sp = Design_space(copy.deepcopy(DOMS[self.case['dom']]), copy.deepcopy(CONS.get(self.case['dom'])))
        st = np.random.get_state(); np.random.seed(self.case['seed'] % 977)
        X = initial_design('random', sp, 24 if self.case['long'] and self.case['dom'] != 'bandit' else 4)
        np.random.set_state(st)
        return np.array(X, float), np.array([[float(np.sum(np.sin(2 * x) + .1 * x))] for x in X])

    def model(self):
        k = self.case['model']
        if self.case['evaluator'] in ('thompson_sampling',) or self.case['dom'] == 'bandit':
            k = 'GP' if k == 'mcmc' else k
        if self.case['evaluator'] == 'local_penalization' and k in ('mcmc', 'det', 'warped'):
            k = 'GP'
        if k == 'warped' and self.case['evaluator'] == 'thompson_sampling':
            k = 'GP'                            # no gradients: finding thompson-without-gradients of C16
        if self.case['evaluator'] == 'local_penalization' and self.case['api'] == 'bo':
            return None                         # only built-in surrogates are accepted
        if k == 'det':
            return DetModel(grad=True)
        if k == 'mcmc':
            return GPModel_MCMC(n_samples=2, n_burnin=2, subsample_interval=2, step_size=.05, leapfrog_steps=2)
        if k == 'warped':
            return WarpedGPModel(max_iters=2, optimize_restarts=1, warping_terms=1, verbose=False)
        return GPModel(max_iters=5, optimize_restarts=1, verbose=False, sparse=k == 'sparse', num_inducing=3)

    def construct(self):
        c = self.case
        dom = self.mine(copy.deepcopy(DOMS[c['dom']]))
        cons = CONS.get(c['dom'])
        cons = None if cons is None else self.mine(copy.deepcopy(cons))
        self.ctx = None if CTX[c['dom']] is None else self.mine({k: CTXK[c['ctxk']](v) for k, v in CTX[c['dom']].items()})
        X, Y = self.data()
        P, I = self.mine(X[:1] + 0.), self.mine(X[1:2] + 0.)
        if c['one']:
            X, Y = X[2:3], Y[2:3]               # the whole initial design is a single location
        self.P, self.I = P, I
        X = self.mine(X) if c['start'] != 'none' or c['api'] == 'modular' else None
        Y = self.mine(Y) if c['start'] == 'XY' else None
        m = self.model()
        n = len(self.own)
        before = self.digs()
        acq = 'EI_MCMC' if isinstance(m, GPModel_MCMC) else 'EI'
        if c['api'] == 'modular':
            sp = Design_space(dom, cons)
            opt = AcquisitionOptimizer(sp)
            A = (GPyOpt.acquisitions.AcquisitionEI_MCMC if acq == 'EI_MCMC' else AcquisitionEI)(m, sp, opt)
            self.bo = ModularBayesianOptimization(m, sp, SingleObjective(self.f, num_cores=c['cores']), A, Sequential(A), X, Y_init=Y, normalize_Y=c['norm'], de_duplication=c['dedup'])
        else:
            kw = {}
            if c['start'] == 'none':
                kw = dict(initial_design_numdata=1 if c['one'] else 4)
            self.bo = BayesianOptimization(self.f, dom, cons, model=m, X=X, Y=Y, max_iters=5, optimize_restarts=1, acquisition_type=acq, normalize_Y=c['norm'],
                                           maximize=c['max'], de_duplication=c['dedup'], evaluator_type=c['evaluator'], batch_size=c['bs'], num_cores=c['cores'],
                                           **kw)
        return before, n

    def hist(self):
        X, Y = self.bo.X, self.bo.Y
        if X is None or Y is None:
            return []
        return [digest(np.append(np.asarray(x, float), np.asarray(y, float))) for x, y in zip(X, Y)]


def play(case, scribbles, twin=None):
    np.random.seed(case['seed'])
    w = World(case)
    ev, res, touched = [], [], []

    def call(what, own0, r, new, n):
        res.append(digest(r))
        i = len(res) - 1
        if twin is not None and i < len(twin) and any(r is s for s in touched):
            res[-1] = twin[i]               # an attribute the caller has overwritten itself
        ev.append({'op': 'call', 'what': what, 'own': w.digs(n), 'hist': w.hist(), 'res': res[-1], 'twin': (twin[i] if i < len(twin) else 'none') if twin is not None else res[-1], 'new': w.digs()[n:]})
    # the objects handed over, before anything else
    try:
        with vlib.quiet():
            before, n = w.construct()
            ev.append({'op': 'call', 'what': 'handover', 'own': [], 'hist': [], 'res': '', 'twin': '', 'new': before})
            call('construct', before, 0, [], n)
            bo = w.bo
            for k, o in enumerate(case['ops']):
                np.random.seed(case['seed'] + 7 * k)
                n = len(w.own)
                if o['op'] == 'scribble':
                    cand = [i for i, s in enumerate(w.names) if s]
                    if not scribbles or not cand:
                        continue
                    i = cand[-1] if o['what'] == 'last' else cand[o['k'] % len(cand)]
                    scribble(w.own[i])
                    touched.append(w.own[i])
                    ev.append({'op': 'scribble', 'o': i + 1, 'dig': digest(w.own[i]), 'own': w.digs(), 'hist': w.hist()})
                    continue
                if o['op'] == 'suggest':
                    if bo.Y is None:
                        continue
                    kw = {}
                    if o['ctx'] and w.ctx is not None:
                        kw['context'] = w.ctx
                    if o['pend']:
                        kw['pending_X'] = w.P
                    if o['ign']:
                        kw['ignored_X'] = w.I
                    try:
                        r = bo.suggest_next_locations(**kw)
                    except GPyOpt.core.errors.FullyExploredOptimizationDomainError:
                        r = 'explored'
                    new = [r]
                elif o['op'] == 'run':
                    kw = {'context': w.ctx} if o['ctx'] and w.ctx is not None else {}
                    r = 0
                    try:
                        bo.run_optimization(o['k'], eps=-1, **kw)
                    except GPyOpt.core.errors.FullyExploredOptimizationDomainError:
                        r = 'explored'
                    r, new = [r, bo.X, bo.Y], []
                elif o['op'] == 'design':
                    try:
                        r = initial_design(o['what'], bo.space, o['k'])
                    except Exception as ex:
                        r = kind_of(ex)
                    new = [r]
                else:
                    if o['what'] == 'evals' and bo.Y is None:
                        r = 0
                    elif o['what'] == 'evals':
                        r = list(bo.get_evaluations())
                    elif o['what'] == 'params':
                        r = bo.model.get_model_parameters() if getattr(bo.model, 'model', None) is not None and hasattr(bo.model, 'get_model_parameters') else 0
                    elif o['what'] == 'bounds':
                        r = [bo.space.get_bounds(), bo.space.get_bandit() if bo.space._has_bandit() else 0]
                    elif o['what'] == 'suggested':
                        r = 0
                    elif o['what'] == 'saved':
                        r = getattr(bo, 'model_parameters_iterations', None)
                        r = 0 if r is None else np.array(r)
                    else:
                        r = getattr(bo, {'xopt': 'x_opt', 'ybest': 'Y_best'}[o['what']], 0)
                    new = r if isinstance(r, list) else [r]
                for x in new:
                    if isinstance(x, (np.ndarray, list)) and not any(x is o2 and o['op'] == 'get' and o['what'] in ('xopt', 'ybest') for o2 in w.own):   # the same attribute again
                        w.mine(x, True)
                call(o['op'], None, r, new, n)
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return ev, res


def scribble(o):
    if isinstance(o, np.ndarray):
        o[...] = 7.25
    else:
        for i in range(len(o)):
            o[i] = (7, 8)


def run_case(case):
    case = dict(case)
    if case['api'] == 'modular':
        case['max'] = False
        if case['start'] == 'none':
            case['start'] = 'X'
    if case['dom'] == 'bandit' and case['evaluator'] == 'local_penalization':
        case['evaluator'] = 'random'
    _, twin = play(case, False)
    ev, res = play(case, True, twin)
    for _ in range(4):                          # the last bits of linear algebra are not reproducible: ask the twin again
        if res == twin:
            break
        _, twin = play(case, False)
        ev, res = play(case, True, twin)
    return {'c': 0, 'ev': ev, 'meta': case}


def check(ctx):
    q = not ctx.thorough
    base = open(vlib.SPEC + '/MC_Isolation.cfg').read()
    ctx.mc('MC_Isolation', base.replace('MaxOps = 6', 'MaxOps = 8') if q else base.replace('MaxOps = 6', 'MaxOps = 11'), timeout=3600)
    for v, what in (('out', 'Accepted'), ('reuse', 'Undisturbed'), ('buffer', 'Accepted'), ('write', 'Accepted')):
        ctx.mc_fails('MC_Isolation', base.replace('"none"', '"%s"' % v), what + ' is violated', label=v)
    cases = ctx.gen('Gen_Isolation', num=3 if q else 60, depth=101, timeout=900)
    tr = vlib.pmap(run_case, cases)
    v = ctx.validate('Trace_Isolation', tr, timeout=1500, chunk=400)
    ctx.judge(tr, v, label='isolation')
    ctx.sample({k: tr[0][k] for k in ('meta',)})
    vlib.corrupt(ctx, 'Trace_Isolation', [t for t in tr if t['ev'][-1]['op'] == 'call' and len(t['ev']) > 2], _mutate)
    ctx.need_hits(['C21.' + n for n in ('args', 'twin', 'history', 'independent', 'others')])


def _mutate(t, k):
    u = copy.deepcopy(t)
    e = u['ev'][-1]
    if k % 3 == 0:
        e['own'][0]['dig'] = 'changed'
    elif k % 3 == 1:
        e['res'] = 'changed'
    elif e['hist']:
        e['hist'][0] = 'changed'
    else:
        return None
    return u
