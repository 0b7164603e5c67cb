"""Conformance of initial designs with spec/InitDesign.tla (C11)."""
import numpy as np, copy
from . import vlib
from .stubs import Scale, gp_domain, latrank, rows_of
from .loop import kind_of
from .suggest import expand, to_ints
from GPyOpt.core.task.space import Design_space
from GPyOpt.experiment_design import initial_design
from GPyOpt.methods import BayesianOptimization

Q = 1000000


def run_case(case):
    c = case['c']
    U = float(c['U'])
    e = expand(c['space'])
    sc = Scale(c['space'], c['U'], case['scale'])
    ev, P = [], []
    np.random.seed(case['seed'])
    try:
        with vlib.quiet():
            if case['seed'] % 2 or case['n'] > 100:
                X = initial_design(case['name'], Design_space(gp_domain(c['space'], c['U'], sc)), case['n'])
            else:
                calls = []
                bo = BayesianOptimization(lambda x: (calls.append(np.array(x)), np.array([[1.]]))[1], gp_domain(c['space'], c['U'], sc),
                                          initial_design_type=case['name'], initial_design_numdata=case['n'])
                X = np.vstack(calls) if calls else np.zeros((0, 1))
        rows = [sc.back(r) for r in rows_of(X)]
        off, cols = 0, []
        for v in e:
            if v['t'] == 'continuous':
                cols.append((off, v['dom'][0] / U, v['dom'][1] / U))
            off += len(v['arms'][0]) if v['t'] == 'bandit' else 1
        for r in rows:
            P.append([int(round(min(max((r[o] - lo) / (hi - lo), -1), 2) * Q)) for o, lo, hi in cols] if len(r) == off else [])
        ev.append({'op': 'design', 'name': case['name'], 'n': case['n'], 'big': case['big'], 'rows': rows, 'P': P})
        ev.append({'op': 'unknown', 'rejected': rejected(c, ['LATIN', '', 'random2', 'Sobol', None][case['seed'] % 5])})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    t = dict(c=dict(c, cons=[]), ev=ev)
    t = to_ints(t)
    t['meta'] = {k: case[k] for k in ('name', 'n', 'seed', 'scale')}
    return t


def count_case(k):
    """only the number of locations, for every size up to 300 and around every power"""
    name, d, part = k
    c = {'space': [dict(name='x', t='continuous', dom=[-4, 8], arms=[], dim=d)], 'U': 4}
    sizes = sorted({n for n in range(1, 301)} | {b ** d + j for b in range(1, 40) for j in (-1, 0, 1) if 0 < b ** d + j <= 1500})[part::8]
    if name != 'grid':
        sizes = sizes[::9]
    ev = []
    try:
        with vlib.quiet():
            s = Design_space(gp_domain(c['space'], 4))
            for n in sizes:
                ev.append({'op': 'count', 'name': name, 'n': n, 'got': len(initial_design(name, s, n))})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return {'c': dict(c, cons=[]), 'ev': ev, 'meta': {'name': name, 'd': d, 'part': part}}


def bounds_case(k):
    """legality of designs in boxes whose bounds are not dyadic; positions below / above the bounds are -1 / Q + 1"""
    seed, name = k
    r = np.random.RandomState(seed)
    d, ev = int(r.randint(1, 4)), []
    try:
        with vlib.quiet():
            for k in range(41):
                lo = np.round(r.uniform(-10, 10, d), int(r.randint(1, 4))) * 10. ** r.randint(-3, 4)
                hi = lo + np.maximum(np.round(r.uniform(0, 10, d), int(r.randint(1, 4))), .1) * 10. ** r.randint(-3, 4)
                n = int(r.randint(1, 60)) if k < 40 else int(r.choice([129, 300, 513, 1025]))
                np.random.seed(seed)
                X = initial_design(name, Design_space([{'name': 'x%d' % j, 'type': 'continuous', 'domain': (float(lo[j]), float(hi[j]))} for j in range(d)]), n)
                P = [[-1 if x < lo[j] else Q + 1 if x > hi[j] else int(round(min(max((x - lo[j]) / (hi[j] - lo[j]), 0), 1) * Q)) for j, x in enumerate(row)] for row in X]
                ev.append({'op': 'box', 'name': name, 'n': n, 'd': d, 'P': P})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return {'c': {'space': [dict(name='x', t='continuous', dom=[0, 4], arms=[], dim=d)], 'U': 4, 'cons': []}, 'ev': ev, 'meta': {'name': name, 'seed': seed, 'what': 'bounds'}}


def rejected(c, name):
    try:
        with vlib.quiet():
            initial_design(name, Design_space(gp_domain(c['space'], c['U'])), 3)
        return False
    except Exception:
        return True


def check(ctx):
    q = not ctx.thorough
    ctx.mc('MC_InitDesign', 'MC_InitDesign.cfg', timeout=300)
    if not q:
        ctx.mc('MC_InitDesign', 'MC_InitDesign_big.cfg', timeout=3600)
    cases = ctx.gen('Gen_InitDesign', num=5 if q else 80, depth=101, timeout=900)
    tr = vlib.pmap(run_case, cases)
    v = ctx.validate('Trace_InitDesign', tr, timeout=1500, chunk=500)
    ctx.judge(tr, v, label='initial designs')
    ctx.sample(tr[0])
    t2 = vlib.pmap(count_case, [(nm, d, p) for nm, ds in (('grid', range(1, 7)), ('random', (1,)), ('sobol', (1, 3)), ('latin', (2,))) for d in ds for p in range(8)])
    v = ctx.validate('Trace_InitDesign', t2, timeout=1500, chunk=500)
    ctx.judge(t2, v, label='sizes of designs')
    t3 = vlib.pmap(bounds_case, [(ctx.seed * 1000 + i, nm) for nm in ('grid', 'random', 'latin', 'sobol') for i in range(6 if q else 100)])
    v = ctx.validate('Trace_InitDesign', t3, timeout=1500, chunk=500)
    ctx.judge(t3, v, label='designs in boxes with arbitrary bounds')
    vlib.corrupt(ctx, 'Trace_InitDesign', tr, _mutate)
    ctx.need_hits(['C11.' + n for n in ('size', 'legal', 'latin', 'sobol', 'grid', 'covers', 'spread', 'unknown', 'inside', 'strata')])


def _mutate(t, k):
    u = copy.deepcopy(t)
    e = u['ev'][0]
    if e['op'] != 'design':
        return None
    if k % 2:
        e['rows'].append(e['rows'][0]); e['P'].append(e['P'][0])
    else:
        e['rows'][-1][0] += 100000
    return u
