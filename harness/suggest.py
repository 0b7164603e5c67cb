"""Conformance of suggestions with spec/Suggest.tla (C06, C07, C08, C10)."""
import numpy as np, copy, random
from . import clock, vlib
from .stubs import (gp_domain, Scale, latrank, rows_of, DetModel, Runaway, FullyExploredOptimizationDomainError, InvalidConfigError)
from .loop import kind_of
from GPyOpt.core.errors import InvalidVariableNameError
from GPyOpt.methods import BayesianOptimization, ModularBayesianOptimization
from GPyOpt.acquisitions.base import AcquisitionBase
from GPyOpt.optimization import AcquisitionOptimizer
from GPyOpt.core.evaluators import Sequential, RandomBatch
from GPyOpt.core.task.objective import SingleObjective
from GPyOpt.core.task.space import Design_space


def expand(space):
    r = []
    for v in space:
        for k in range(v['dim'] if v['t'] != 'bandit' else 1):
            w = dict(v, dim=1)
            if v['dim'] > 1 and v['t'] != 'bandit':
                w['name'] = '%s_%d' % (v['name'], k + 1)
            r.append(w)
    return r


def con_text(k, U, sc=None):
    X = sc.text if sc else 'x[:,{}]'.format
    i, j, v = X(k['i'] - 1), X(k['j'] - 1), repr(k['v'] / U)
    if k['k'] == 'le':
        return '%s - %s' % (i, j)
    if k['k'] == 'ub':
        return '%s - %s' % (i, v)
    if k['k'] == 'lb':
        return '%s - %s' % (v, i)
    if k['k'] == 'sum':
        return '%s + %s - %s' % (i, j, v)
    return '%s**2 + %s**2 - %s' % (i, j, repr(k['v'] / U / U))


def named(i, k, d):
    """names of constraints mean nothing: different, equal, empty, or none at all"""
    d = dict(d)
    if k % 5 < 4:
        d['name'] = ['c%d' % i, 'c', '', 'c1'][k % 5]
    return d


def objective_of(seed):
    w = np.random.RandomState(seed % 2 ** 31).randint(-9, 10, size=16)

    def value(x):
        x = np.asarray(x, dtype=float).reshape(-1)
        t = sum(w[i % 16] * v + w[(i + 3) % 16] * v * v for i, v in enumerate(x))
        return int(np.clip(np.round(t), -60, 60))
    return value


def ctx_dict(e, ctx, sc, unknown):
    d = {}
    # in any order
    for k in (ctx if len(ctx) < 2 or (ctx[0]['v'] + int(ctx[0]['val'][0])) % 2 else ctx[::-1]):
        v = e[k['v'] - 1]
        r = [sc.num(x, v['t'] == 'categorical') for x in k['val']]
        d[v['name']] = np.array(r) if v['t'] == 'bandit' else r[0]
    if unknown:
        d['no such variable'] = 0.0
    return d or None


def model_options(c, kw):
    m = c['model']
    if c.get('scale', 1) > 1 and c['ev'] != 'local_penalization':
        m = 1
    if c['ev'] == 'local_penalization' and c['b'] > 1 and m <= 7:
        m = 9
    if m <= 7:
        kw['model'] = DetModel(grad=c['grad'])
    elif m == 8:
        kw['model_type'] = 'sparseGP'; kw['num_inducing'] = 3
    elif m == 10 and c['ev'] in ('sequential', 'random') and c['anch'] == 'max_objective':
        kw.update(model_type='GP_MCMC', n_samples=2, n_burnin=2, subsample_interval=1, step_size=0.05, leapfrog_steps=3)
        kw['acquisition_type'] = c['acq'] + '_MCMC'
    else:
        kw['model_type'] = 'GP'
    kw.update(max_iters=10, optimize_restarts=1, verbosity_model=False)


class PeakAcquisition(AcquisitionBase):
    """user-supplied acquisition -sum w (z - t)^2 on encoded locations"""
    def __init__(self, model, space, optimizer, t, w, grad):
        self.analytical_gradient_prediction = grad
        self.t, self.w = t, w
        super(PeakAcquisition, self).__init__(model, space, optimizer)

    def _compute_acq(self, x):
        return -(self.w * (np.atleast_2d(x) - self.t) ** 2).sum(1)[:, None]

    def _compute_acq_withGradients(self, x):
        x = np.atleast_2d(x)
        return self._compute_acq(x), -2 * self.w * (x - self.t)


def peak_bo(case, f, X0, Y0, kw, sc):
    c = case['c']
    U = float(c['U'])
    space = Design_space(gp_domain(c['space'], c['U'], sc))
    model = DetModel(grad=True)
    opt = AcquisitionOptimizer(space, kw['acquisition_optimizer_type'], model=model, type_anchor_points_logic=c['anch'])
    acq = PeakAcquisition(model, space, opt, peak_real(c, case['peak']['t'], sc), np.array(case['peak']['w'], dtype=float) / [1, 1, 10, 50][c['seed'] % 4], c['grad'])
    if c['seed'] % 3 == 0:
        return BayesianOptimization(f, gp_domain(c['space'], c['U'], sc), X=X0.copy(), Y=Y0, model=model, acquisition=acq,
                                    evaluator_type=c['ev'], batch_size=c['b'], de_duplication=c['dd'])
    ev = Sequential(acq) if c['b'] == 1 else RandomBatch(acq, c['b'])
    return ModularBayesianOptimization(model, space, SingleObjective(f), acq, ev, X0.copy(), Y_init=Y0, de_duplication=c['dd'])


def peak_real(c, t, sc):
    r, k = [], 0
    for v in expand(c['space']):
        n = len(v['dom']) if v['t'] == 'categorical' else len(v['arms'][0]) if v['t'] == 'bandit' else 1
        r += [sc.num(x, v['t'] == 'categorical') for x in t[k:k + n]]
        k += n
    return np.array(r)


def adversary(c):
    """A local optimizer that may return anything: whatever it returns, the suggestion has to be legal (the class patch is undone).
    c['adv']: hair (just outside the bounds), tie (the middle of the box), any (anywhere around the box), edge (a corner)"""
    import contextlib
    import GPyOpt.optimization.optimizer as om

    @contextlib.contextmanager
    def on():
        if c['adv'] == 'none':
            yield
            return
        rs = np.random.RandomState(c['seed'] % 2 ** 31)
        old = {k: k.optimize for k in (om.OptLbfgs, om.OptCma)}

        def optimize(self, x0, f=None, df=None, f_df=None):
            lo, hi = np.array(self.bounds, dtype=float).T
            if c['adv'] == 'tie':
                x = (lo + hi) / 2
            elif c['adv'] == 'any':
                x = lo - .5 * (hi - lo) + 2 * (hi - lo) * rs.rand(len(lo))
            else:
                x = np.where(rs.rand(len(lo)) < .5, lo, hi)
                if c['adv'] == 'hair':
                    x = x + np.where(x == lo, -1, 1) * (hi - lo) * 2.0 ** -rs.randint(20, 34)
            x = x[None, :]
            return x, np.atleast_2d(np.asarray(f(x), dtype=float).reshape(-1)[:1])
        try:
            for k in old:
                k.optimize = optimize
            yield
        finally:
            for k, g in old.items():
                k.optimize = g
    return on()


def scale_of(case):
    c = case['c']
    sc = Scale(c['space'], c['U'], c['scale'])
    if case.get('use_peak') and (c['scale'] == 3 or any(v['t'] == 'continuous' for v in c['space']) or c['scale'] == 2 and (c['anch'] != 'max_objective' or any(v['t'] == 'categorical' for v in c['space']))):
        return Scale(c['space'], c['U'], 1)     # peaks are found up to the (absolute) tolerances of the local optimizer only
    return sc


def run_case(case):
    with adversary(dict(case['c'], adv='none') if case.get('use_peak') else case['c']):
        return run_case_(case)


def run_case_(case):
    """drive the library through the requests of a generated scenario"""
    c = case['c']
    U = float(c['U'])
    e = expand(c['space'])
    sc = scale_of(case)
    value = objective_of(c['seed'])
    ev, calls = [], []

    def f(x):
        x = [sc.back(r) for r in rows_of(x)]
        calls.extend(x)
        if len(calls) > 400:
            raise Runaway()
        return np.array([[float(value(r))] for r in x])
    cons = [named(i, c['seed'], {'constraint': con_text(k, U, sc)}) for i, k in enumerate(c['cons'])] or None
    kw = dict(acquisition_type=c['acq'], evaluator_type=c['ev'], batch_size=c['b'], de_duplication=c['dd'], normalize_Y=c['seed'] % 2 == 0,
              acquisition_optimizer_type='lbfgs', type_anchor_points_logic=c['anch'], maximize=c['seed'] % 7 == 0,
              initial_design_type=c['design'])
    model_options(c, kw)
    if c['cons']:
        kw['type_anchor_points_logic'] = 'max_objective'      # Sobol anchor points refuse constraints
    if c['opt'] == 'CMA' and 'model' in kw and all(len_model(c, e, r['ctx']) != 1 for r in case['ev']):   # CMA refuses a single dimension
        kw['acquisition_optimizer_type'] = 'CMA' if c['scale'] == 1 else 'lbfgs'   # (its steps are absolute)
    meta = dict({k: str(v) for k, v in kw.items() if k != 'model'}, scale=sc.kind, adv=c['adv'], rep=c['rep'], grad=c['grad'])
    X0 = [[x / U for x in p] for p in case['X0'] * c['rep']] if case['X0'] else None
    np.random.seed(c['seed'])
    bo = None
    try:
        with vlib.quiet():
            try:
                if case.get('use_peak'):
                    if X0 is None:
                        X0 = [[x / U for x in p] for p in case['fallback']]
                    bo = peak_bo(case, f, sc.reals(case['X0'] * c['rep']), np.array([[float(value(r))] for r in X0]), kw, sc)
                elif X0 is not None:
                    Y0 = np.array([[float(value(r))] for r in X0])
                    bo = BayesianOptimization(f, gp_domain(c['space'], c['U'], sc), constraints=cons, X=sc.reals(case['X0'] * c['rep']), Y=Y0, **kw)
                else:
                    bo = BayesianOptimization(f, gp_domain(c['space'], c['U'], sc), constraints=cons, initial_design_numdata=case['n0'], **kw)
                ev.append({'op': 'init', 'rows': X0 if X0 is not None else list(calls)})
            except InvalidConfigError:
                ev.append({'op': 'newreject'})
            if bo is not None:
                twin = None
                if isinstance(kw.get('model'), DetModel) and not case.get('use_peak') and c['adv'] in ('none', 'tie') and kw['acquisition_optimizer_type'] != 'CMA':
                    def twin():      # an optimizer that was never asked anything
                        return BayesianOptimization(None, gp_domain(c['space'], c['U'], sc), constraints=cons, X=bo.X.copy(), Y=bo.Y.copy(),
                                                    **dict(kw, model=DetModel(grad=c['grad'])))
                requests(c, e, U, sc, bo, case['ev'], ev, calls, twin)
    except Runaway:
        ev.append({'op': 'raise', 'what': 'runaway'})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': 'construction: ' + kind_of(ex)})
    t = {'c': {k: c[k] for k in ('space', 'U', 'dd', 'b', 'ev', 'cons', 'design', 'given')}, 'ev': ev}
    t = to_fixed(t, case) if case.get('use_peak') else to_ints(t)
    t['meta'] = meta
    return t


def len_model(c, e, ctx):
    fixed = {k['v'] - 1 for k in ctx}
    return sum(len(v['dom']) if v['t'] == 'categorical' else len(v['arms'][0]) if v['t'] == 'bandit' else 1
               for i, v in enumerate(e) if i not in fixed)


def requests(c, e, U, sc, bo, reqs, ev, calls, twin=None):
    for i, r in enumerate(reqs):
        ctx = ctx_dict(e, r['ctx'], sc, r['unknown'])
        ev.append({'op': 'req', 'kind': r['kind'], 'unknown': r['unknown'],
                   'ctx': [{'v': k['v'], 'val': [x / U for x in k['val']]} for k in r['ctx']],
                   'pend': [[x / U for x in p] for p in r['pend']], 'ign': [[x / U for x in p] for p in r['ign']]})
        n = len(calls)
        P = I = None
        state = np.random.get_state()
        try:
            if r['kind'] == 'sug':
                P = sc.reals(r['pend'] * r['rep']) if r['pend'] else None     # repeating locations changes nothing
                I = sc.reals(r['ign'] * r['rep']) if r['ign'] else None
                rows = [sc.back(x) for x in rows_of(bo.suggest_next_locations(context=ctx, pending_X=P, ignored_X=I))]
            else:
                bo.run_optimization(max_iter=1, eps=-1., context=ctx)
                rows = calls[n:]
            ev.append({'op': 'resp', 'rows': rows})
        except FullyExploredOptimizationDomainError:
            ev.append({'op': 'explored'})
        except InvalidVariableNameError:
            ev.append({'op': 'reject'})
        ev.append({'op': 'count', 'n': len(bo.X) if len(bo.X) == len(bo.Y) else -1})
        if twin is not None and i > 0 and r['kind'] == 'sug' and not r['unknown']:
            tw = twin()
            np.random.set_state(state)
            try:
                rows = [sc.back(x) for x in rows_of(tw.suggest_next_locations(context=ctx, pending_X=P, ignored_X=I))]
            except FullyExploredOptimizationDomainError:
                rows = []
            ev.append({'op': 'alone', 'rows': rows})


def to_ints(t):
    """integers for the specification: lattice values exact, order and equality of all others kept"""
    U = t['c']['U']
    ev, K = latrank(t['ev'], U)
    c = copy.deepcopy(t['c'])
    for v in c['space']:
        v['dom'] = [x * K for x in v['dom']]
        v['arms'] = [[x * K for x in a] for a in v['arms']]
    for k in c['cons']:
        k['v'] = k['v'] * K
    c['U'] = U * K
    return {'c': c, 'ev': ev}


def to_fixed(t, case, F=100):
    """integers for C22: fixed point with F steps per lattice unit (lattice values exact)"""
    U = t['c']['U']

    def conv(o):
        if isinstance(o, float):
            if abs(o) >= 100:
                return 99999
            v = int(round(o * U * F))
            if v % F == 0 and o * U * F != v:      # a hair off a lattice value: not that value
                v += 1 if o * U * F > v else -1
            return v
        if isinstance(o, dict):
            return {k: conv(v) for k, v in o.items()}
        return [conv(v) for v in o] if isinstance(o, list) else o
    c = copy.deepcopy(t['c'])
    for v in c['space']:
        v['dom'] = [x * F for x in v['dom']]
        v['arms'] = [[x * F for x in a] for a in v['arms']]
    c['U'] = U * F
    c['anch'] = case['c']['anch']
    c['peak'] = dict(t=[x * F for x in case['peak']['t']], w=case['peak']['w'], tol=2)
    return {'c': c, 'ev': conv(t['ev'])}


# ------------------------------------------------------------------ feasibility reported row by row
def ind_case(k):
    r = random.Random(k)
    dim = r.choice([1, 2, 3])
    space = [dict(name='x', t='continuous', dom=[-8, 8], arms=[], dim=dim)]
    if r.random() < .5:
        space = space + [dict(name='k', t='categorical', dom=[0, 4, 8], arms=[], dim=1)]
    if r.random() < .3:
        space = [dict(name='d', t='discrete', dom=[-3, 0, 5], arms=[], dim=1)] + space
    n = sum(v['dim'] for v in space)
    cons = []
    for _ in range(r.choice([1, 1, 2, 3])):
        cons.append(dict(k=r.choice(['le', 'ub', 'lb', 'sum', 'sq']), i=r.randint(1, n), j=r.randint(1, n), v=r.randint(-6, 9)))
        if cons[-1]['k'] == 'sq':
            cons[-1]['v'] = r.choice([0, 9, 25, 50])
    c = dict(space=space, U=4, dd=False, b=1, ev='sequential', cons=cons, design='random', given=True)
    ev = []
    try:
        with vlib.quiet():
            key = 'constrain' if r.random() < .3 else 'constraint'
            sp = Design_space(gp_domain(space, 4), [named(i, k, {key: con_text(q, 4.0)}) for i, q in enumerate(cons)])
            for m in (1, 2, 7):
                X = []
                for _ in range(m):
                    row = []
                    for v in space:
                        row += [r.randint(v['dom'][0], v['dom'][1]) if v['t'] == 'continuous' else r.choice(v['dom']) for _ in range(v['dim'])]
                    X.append(row)
                I = sp.indicator_constraints(np.array(X, dtype=float) / 4.0)
                ok = I.shape == (m, 1)
                ev.append({'op': 'ind', 'X': X, 'val': [int(v) if v in (0, 1) else 77 for v in I.flatten()] if ok else [-1]})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return {'c': c, 'ev': ev, 'meta': {'cons': [con_text(q, 4.0) for q in cons]}}


NEED = {'C06': ['C06.legal', 'C06.initial'], 'C07': ['C07.value', 'C07.none', 'C07.reject', 'C07.alone', 'C06.legal'],
        'C08': ['C08.fresh', 'C08.distinct', 'C08.explored', 'C08.size', 'C08.alone', 'C08.nothing_evaluated'],
        'C22': ['C22.best', 'C22.peak', 'C22.best_in_context', 'C22.best_not_taken'],
        'C10': ['C10.feasible', 'C10.initial', 'C10.refuse', 'C10.indicator']}


def check(ctx):
    q = not ctx.thorough
    p = ctx.prop
    ctx.mc('MC_Suggest', 'MC_Suggest.cfg', timeout=300)
    if not q:
        ctx.mc('MC_Suggest', 'MC_Suggest_big.cfg', timeout=3600, heap='20g', must_finish=False)
    cases = ctx.gen('Gen_Suggest', cfg='Gen_Suggest_%s.cfg' % p, num=(4 if p != 'C22' else 6) if q else 100, depth=51, timeout=900)
    if p == 'C10':
        cases = cases[:len(cases) * 3 // 4] if q else cases
    if p == 'C22':
        cases = [dict(k, use_peak=True) for k in cases if k['X0']]
    tr = vlib.pmap(run_case, cases)
    ctx.log('%d scenarios executed' % len(tr))
    v = ctx.validate('Trace_Suggest', tr, timeout=1500, chunk=500)
    ctx.judge(tr, v, prefixes=(p, 'SG.'), label='requests')
    ctx.sample(tr[0])
    if p == 'C10':
        ti = [ind_case(ctx.seed * 1000 + k) for k in range(200 if q else 3000)]
        v = ctx.validate('Trace_Suggest', ti)
        ctx.judge(ti, v, prefixes=(p, 'SG.'), label='feasibility of rows')
    vlib.corrupt(ctx, 'Trace_Suggest', tr, lambda t, k: _mutate(p, t), prefix='C')
    ctx.need_hits(NEED[p])


def _mutate(p, t):
    u = copy.deepcopy(t)
    for i, e in enumerate(u['ev']):
        if p == 'C08':
            if e['op'] == 'count':
                e['n'] += 1; return u
        elif p == 'C10':
            if e['op'] == 'ind' and e['val']:
                e['val'][0] = 1 - e['val'][0]; return u
            if e['op'] == 'init' and not u['c']['given'] and u['c']['cons']:
                u['ev'][i] = {'op': 'newreject'} if u['c']['design'] == 'random' else e; return u
        elif e['op'] == 'resp' and e['rows']:
            e['rows'][0][0] = 12345 if p == 'C22' else 30000001; return u
    return None
