"""Conformance of batch construction with spec/BatchProtocol.tla (C16)."""
import copy
import numpy as np
from . import vlib
from .stubs import gp_domain, DetModel, RecEvaluator, Runaway, FullyExploredOptimizationDomainError
from .loop import kind_of
from .suggest import expand, con_text, ctx_dict, objective_of
from .stubs import Scale
from GPyOpt.methods import BayesianOptimization
from GPyOpt.acquisitions import AcquisitionLP
from GPyOpt.optimization import AcquisitionOptimizer

def unit(space, U):
    """steps of the fixed-point coordinates per unit, and the margin for squared distances (squared distances fit in 32 bits)"""
    w = [abs(x) for v in space for x in (v['dom'] or [y for a in v['arms'] for y in a])]
    M = max([1.] + [x / U for x in w])
    d = sum(len(v['dom']) * v['dim'] if v['t'] == 'categorical' else len(v['arms'][0]) if v['t'] == 'bandit' else v['dim'] for v in space)
    F = int(max(1, min(1000, 40000 / np.sqrt(d) / (2 * M))))
    return F, int(max(40000 * (F / 1000.) ** 2, 8 * M * F * np.sqrt(d)))




def fx(v, sc=1000000):
    v = float(v)
    return int(round(v * sc)) if abs(v * sc) < 8e8 else (800000001 if v > 0 else -800000001 if v < 0 else 888888888)


def vals(f, Z, sc=1000000):
    return [fx(v, sc) for v in np.ravel(f(np.array(Z, copy=True)))]


class Rec:
    """the evaluator asks for a batch"""
    def __init__(self):
        self.ev, self.on, self.Z, self.xs, self.bo = [], False, None, [], None
        self.sc, self.fresh = 1000000, None

    def before_batch(self, a, k):
        if not self.on:
            return
        acq = self.bo.evaluator.inner.acquisition
        if isinstance(acq, AcquisitionLP):
            ref = AcquisitionLP(acq.model, acq.space, None, acq.acq, acq.transform)
        else:
            ref = type(acq)(acq.model, acq.space, None)
            for n in ('jitter', 'exploration_weight'):
                if hasattr(acq, n):
                    setattr(ref, n, getattr(acq, n))
        self.xs = []
        self.ev.append({'op': 'begin', 'f': vals(acq.acquisition_function, self.Z, self.sc), 'ref': vals(ref.acquisition_function, self.Z, self.sc)})

    def after_batch(self, z):
        pass


def run_case(case):
    c = case['c']
    U = float(c['U'])
    e = expand(c['space'])
    rec = Rec()
    rec.F, rec.m = unit(c['space'], U)
    rec.sc = 1000000 if c['b'] <= 4 else 100000        # penalties of large batches add up
    value = objective_of(c['seed'])
    lp = c['ev'] == 'local_penalization'
    X0 = np.array(case['X0'] or case['fallback'], dtype=float) / U
    if c['seed'] % 9 == 4:
        value = lambda x: 0.5                          # nothing to learn
    Y0 = np.array([[float(value(r))] for r in X0])
    kw = dict(acquisition_type=c['acq'], evaluator_type=c['ev'], batch_size=c['b'], de_duplication=c['dd'], normalize_Y=c['seed'] % 2 == 0)
    if lp:
        kw.update(model_type='GP', max_iters=0, verbosity_model=False)
        if c['seed'] % 3:
            kw['acquisition_transformation'] = ['none', 'softplus'][c['seed'] % 2]
    else:
        kw['model'] = DetModel(grad=c['grad'] or c['ev'] == 'thompson_sampling')
    kw['acquisition_jitter'] = 0.01 + (c['seed'] % 5) / 10.
    cons = [{'name': 'c%d' % i, 'constraint': con_text(k, U)} for i, k in enumerate(c['cons'])] or None
    orig = AcquisitionOptimizer.optimize
    bo = None

    def optimize(self, f=None, df=None, f_df=None, duplicate_manager=None):
        if rec.fresh is not None:
            rec.fresh.append(vals(f, rec.Z, rec.sc))
        if not rec.on:
            return orig(self, f=f, df=df, f_df=f_df, duplicate_manager=duplicate_manager)
        h = {'op': 'opt', 'f': vals(f, rec.Z, rec.sc), 'g': vals(f, np.vstack(rec.xs), rec.sc) if rec.xs else []}
        h['f1'] = vals(lambda z: f_df(z)[0], rec.Z, rec.sc) if f_df is not None else h['f']
        try:
            x, v = orig(self, f=f, df=df, f_df=f_df, duplicate_manager=duplicate_manager)
        except FullyExploredOptimizationDomainError:
            rec.ev.append({'op': 'opt_none'})
            raise
        x = np.atleast_2d(x)
        h['own'] = vals(f, x, rec.sc)[0]
        h['x'] = [fx(t, rec.F) for t in x[0]]
        h['dip'] = bool(lp and np.ravel(bo.model.predict(x)[0])[0] < bo.model.model.Y.min())
        rec.xs.append(x.copy())
        rec.ev.append(h)
        return x, v
    AcquisitionOptimizer.optimize = optimize
    try:
        with vlib.quiet():
            bo = BayesianOptimization(lambda x: np.array([[float(value(x))]]), gp_domain(c['space'], c['U']), constraints=cons, X=X0, Y=Y0, **kw)
            rec.bo = bo
            r = np.random.RandomState(c['seed'])
            rec.Z = np.vstack([bo.space.unzip_inputs(X0)] + [bo.space.unzip_inputs(np.array([p], dtype=float) / U) for p in case['probes']])
            bo.evaluator = RecEvaluator(rec, bo.evaluator)
            for q in case['ev'][:3]:
                step(bo, c, e, U, q, rec)
    except Exception as ex:
        rec.ev.append({'op': 'raise', 'what': kind_of(ex)})
    finally:
        AcquisitionOptimizer.optimize = orig
    return {'c': {'ev': 'sequential' if c['b'] == 1 else c['ev'], 'b': c['b'], 'dd': c['dd'],
                  'P': [[fx(t, rec.F) for t in z] for z in rec.Z] if rec.Z is not None else [], 'm': rec.m},
            'ev': rec.ev, 'meta': {k: str(v) for k, v in kw.items()}, 'space': [v['name'] for v in c['space']]}


def step(bo, c, e, U, q, rec):
    ctx = ctx_dict(e, q['ctx'], Scale(c['space'], U), False)
    P = np.array(q['pend'], dtype=float) / U if q['pend'] else None
    if q['kind'] == 'run':
        bo.run_optimization(max_iter=1, eps=-1.) if not c['dd'] else None

    rec.seed = c['seed'] + len(rec.ev) * (c['seed'] % 9 == 4)

    def ask(on):
        np.random.seed(rec.seed)
        rec.on = on
        try:
            return bo.suggest_next_locations(context=ctx, pending_X=None if P is None else P.copy())
        finally:
            rec.on = False
    try:
        X = ask(True)
    except FullyExploredOptimizationDomainError:
        rec.ev.append({'op': 'none'})
        return
    code = lambda A: [[fx(t, rec.F) for t in z] for z in bo.space.unzip_inputs(np.atleast_2d(A))]
    rec.ev.append({'op': 'end', 'rows': code(X)})
    rec.ev.append({'op': 'after', 'f': vals(bo.evaluator.inner.acquisition.acquisition_function, rec.Z, rec.sc)})
    try:
        Y = code(ask(False))
    except FullyExploredOptimizationDomainError:
        Y = []
    rec.ev.append({'op': 'again', 'rows': Y})
    # the same request to a batch method and an acquisition that have never been used
    old, bo.evaluator, rec.fresh = bo.evaluator, new_evaluator(bo), []
    old_acq, bo.acquisition = bo.acquisition, bo.evaluator.acquisition
    try:
        Y = code(ask(False))
    except FullyExploredOptimizationDomainError:
        Y = []
    rec.ev.append({'op': 'fresh', 'rows': Y, 'fs': rec.fresh})
    bo.evaluator, bo.acquisition, rec.fresh = old, old_acq, None


def new_evaluator(bo):
    inner = bo.evaluator.inner
    acq = inner.acquisition
    opt = AcquisitionOptimizer(bo.space, acq.optimizer.optimizer_name, model=bo.model)
    b = acq.acq if isinstance(acq, AcquisitionLP) else acq
    new = type(b)(b.model, b.space, opt)
    for n in ('jitter', 'exploration_weight'):
        if hasattr(b, n):
            setattr(new, n, getattr(b, n))
    if isinstance(acq, AcquisitionLP):
        new = AcquisitionLP(acq.model, acq.space, opt, new, acq.transform)
    return type(inner)(new) if type(inner).__name__ == 'Sequential' else type(inner)(new, inner.batch_size)


def known_case(k):
    """Thompson batches with a surrogate that has no gradients"""
    ev = []
    try:
        with vlib.quiet():
            bo = BayesianOptimization(None, [{'name': 'x', 'type': 'continuous', 'domain': (0, 2), 'dimensionality': 2}], X=np.array([[0., 1], [1, .5], [2, 0]]),
                                      Y=np.array([[1.], [2], [0]]), model=NoGradients(), evaluator_type='thompson_sampling', batch_size=2)
            X = bo.suggest_next_locations()
            if X.shape != (2, 2):
                raise ValueError(X.shape)
    except TypeError:
        ev.append({'op': 'fails', 'what': 'thompson_without_gradients'})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return {'c': {'ev': 'thompson_sampling', 'b': 2, 'dd': False, 'P': [], 'm': 0}, 'ev': ev, 'meta': {'case': 'thompson_sampling, surrogate without gradients'}}


class NoGradients(DetModel):
    def __init__(self):
        DetModel.__init__(self, grad=False)

    def predict_withGradients(self, X):
        return None


def check(ctx):
    q = not ctx.thorough
    ctx.mc('MC_BatchProtocol', 'MC_BatchProtocol.cfg', timeout=300)
    base = open(vlib.SPEC + '/MC_BatchProtocol.cfg').read()
    for v in ('forget', 'far', 'leak', 'stale'):
        ctx.mc_fails('MC_BatchProtocol', base.replace('"none"', '"%s"' % v).replace('Accepted Greedy Clean', 'Accepted'), 'Invariant Accepted is violated', label=v)
    cases = ctx.gen('Gen_Suggest', cfg='Gen_Suggest_C16.cfg', num=5 if q else 80, depth=51, timeout=900)
    cases = [k for k in cases if k['X0']]
    tr = vlib.pmap(run_case, cases) + [known_case(0)]
    ctx.log('%d scenarios executed' % len(tr))
    v = ctx.validate('Trace_BatchProtocol', tr, timeout=1500, chunk=500)
    ctx.judge(tr, v, label='batches', known=lambda t, b: b[0] == 'C16.known.thompson_without_gradients' and ctx.finding(
        'thompson-without-gradients', 'Thompson batches with a surrogate that has no gradients raise TypeError (core/evaluators/batch_thompson.py)'))
    ctx.sample(tr[0])
    vlib.corrupt(ctx, 'Trace_BatchProtocol', tr, _mutate, k=12)
    ctx.need_hits(['C16.' + n for n in ('unpenalized', 'first', 'penalized', 'adds_up', 'size', 'short', 'outcome', 'restored', 'independent', 'history_free', 'same_functions', 'gradient_value')])
    ctx.notes.append('acquisition values in fixed point 1e-6 at about ten probe locations and at all chosen locations')


def _mutate(t, k):
    u = copy.deepcopy(t)
    for e in u['ev']:
        if e['op'] == 'after' and k % 3 == 0:
            e['f'][0] += 5000
            return u
        if e['op'] == 'end' and k % 3 == 1 and t['c']['ev'] != 'thompson_sampling':
            e['rows'][0][0] += 1
            return u
        if e['op'] == 'opt' and k % 3 == 2 and not e['g']:
            e['f'] = [x + 5000 for x in e['f']]
            return u
    return None
