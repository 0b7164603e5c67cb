"""Conformance of Design_space with spec/DesignSpace.tla (C09)."""
import numpy as np, copy
from . import vlib
from .stubs import Num, Scale, View, gp_domain
from GPyOpt.core.task.space import Design_space, bounds_to_space


def domain_of(case):
    c, k = case['c'], case['variant']
    dom = gp_domain(c['space'], c['U'], Scale(c['space'], c['U'], case['scale']))
    for v, d in zip(c['space'], dom):
        if v['name'].startswith('var_'):
            d.pop('name')
        if k & 1 and d['type'] == 'continuous':
            d.pop('type')
        if k & 2 and d.get('type') != 'bandit':
            d['dimensionality'] = v['dim']
        if k & 4 and d.get('type') != 'bandit':
            d['domain'] = list(d['domain']) if d.get('type') == 'discrete' else d['domain']
    return dom


class Exact(Num):
    def __call__(self, v):
        w = float(v) * self.U
        if np.isfinite(w) and abs(w) < 1e8 and w == np.floor(w):
            return int(w)
        return 150000000 + 40 * self.other.setdefault(repr(float(v)), len(self.other))


def run_case(case):
    c = case['c']
    q = Exact(c['U'])
    R, E = View(c, case['scale'], q, 'raw'), View(c, case['scale'], q, 'enc')
    ev = []
    try:
        with vlib.quiet():
            sp = Design_space(domain_of(case))
            ev.append(layout(sp, q, R, E, c))
            X = R.real(case['X'])
            Z = sp.unzip_inputs(X.copy())
            ev.append({'op': 'enc', 'X': case['X'], 'Z': E.rows(Z)})
            ev.append({'op': 'dec', 'Z': E.rows(Z), 'X': R.rows(sp.zip_inputs(Z))})
            ev.append({'op': 'rt', 'A': case['X'], 'B': R.rows(sp.zip_inputs(sp.unzip_inputs(X)))})
            for x in X:
                ev.append({'op': 'enc', 'X': R.rows(x), 'Z': E.rows(sp.unzip_inputs(x[None, :]))})
            for z in case['Z'] + E.rows(Z):
                a = E.real([z])[0]
                r = sp.round_optimum(a if len(ev) % 2 else a[None, :])
                ev.append({'op': 'round', 'z': z, 'r': E.rows(r)[0] if r.shape[0] == 1 else E.col(r) + [-99999], 'zafter': E.col(a)})
                ev.append({'op': 'rt', 'A': E.rows(r), 'B': E.rows(sp.unzip_inputs(sp.zip_inputs(r)))})
            dims = [i for k in case['vars'] for i in sp.space_expanded[k - 1].index_in_model]
            ev.append({'op': 'sub', 'vars': case['vars'], 'names': [v.name for v in sp.get_subspace(dims)]})
            cont = [v for v in c['space'] if v['t'] == 'continuous']
            if cont:
                b = [tuple(R.sc.num(x) for x in v['dom']) for v in cont]
                s2 = Design_space(bounds_to_space(b))
                ev.append({'op': 'bounds2space', 'given': [v['dom'] for v in cont], 'n': s2.model_dimensionality,
                           'bounds': [[R.one(x) for x in p] for p in s2.get_bounds()]})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': '%s: %s' % (type(ex).__name__, ex)})
    return {'c': c, 'ev': ev, 'meta': {'variant': case['variant'], 'scale': case['scale'], 'space': [(v['name'], v['t'], v['dim']) for v in c['space']]}}


def layout(sp, q, R, E, c):
    se = sp.space_expanded
    found, unk = [], False
    for v in se:
        found.append([i for i, w in enumerate(se) if w is sp.find_variable(v.name)][0])
    try:
        sp.find_variable('no such variable')
    except Exception:
        unk = True
    vals = []
    for v in se:
        if v.type == 'continuous':
            vals.append([])
        else:
            vals.append([[R.one(x, v.type == 'categorical') for x in np.atleast_1d(a)] for a in v.get_possible_values()])
    e = {'op': 'layout', 'names': [v.name for v in se], 'types': [v.type for v in se],
         'bounds': [[R.one(a, k), R.one(b, k)] for (a, b), k in zip(sp.get_bounds(), E.cat + [False] * 99)],
         'idxm': [list(map(int, v.index_in_model)) for v in se], 'idxo': [list(map(int, v.index_in_objective)) for v in se],
         'mdim': int(sp.model_dimensionality), 'mdims': [int(a) for a in sp.model_input_dims], 'odim': int(sp.objective_dimensionality),
         'hascont': bool(sp.has_continuous()), 'found': found, 'unknown_rejected': unk, 'vals': vals, 'arms': [],
         'cdims': [], 'ddims': [], 'cbounds': [], 'grid': []}
    if c['space'][0]['t'] == 'bandit':
        e['arms'] = R.rows(sp.get_bandit()) if len(c['space']) == 1 else []
    else:
        g = sp.get_discrete_grid()
        e.update(cdims=[int(i) for i in sp.get_continuous_dims()], ddims=[int(i) for i in sp.get_discrete_dims()],
                 cbounds=[[R.one(a) for a in p] for p in sp.get_continuous_bounds()],
                 grid=[[R.one(x) for x in r] for r in g])
    return e


def check(ctx):
    q = not ctx.thorough
    ctx.mc('MC_DesignSpace', 'MC_DesignSpace.cfg', timeout=300)
    if not q:
        ctx.mc('MC_DesignSpace', 'MC_DesignSpace_big.cfg', timeout=5400, heap='20g', must_finish=False)
    cases = ctx.gen('Gen_DesignSpace', num=8 if q else 150, depth=101, timeout=900)
    tr = [run_case(k) for k in cases]
    v = ctx.validate('Trace_DesignSpace', tr, timeout=1500, chunk=1000)
    ctx.judge(tr, v, label='search spaces')
    ctx.sample(tr[0])
    from .vlib import corrupt
    corrupt(ctx, 'Trace_DesignSpace', tr, _mutate)
    ctx.need_hits(['C09.' + n for n in ('names', 'bounds', 'idx_model', 'idx_obj', 'encode', 'decode', 'round', 'round_fixed', 'subspace',
                                        'grid', 'arms', 'values', 'roundtrip', 'bounds_to_space', 'lookup')])


def _mutate(t, k):
    u = copy.deepcopy(t)
    for e in u['ev']:
        if k % 2 == 0 and e['op'] == 'enc':
            e['Z'][0][0] += 1; return u
        if k % 2 == 1 and e['op'] == 'round':
            e['r'] = e['r'][::-1] + [0]; return u
