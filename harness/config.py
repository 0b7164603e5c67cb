"""Conformance of the configuration loader with spec/ConfigTree.tla (C18)."""
import copy, json, os
import numpy as np
from . import vlib
from .loop import kind_of
from . import stubs                                    # noqa: F401  (imports GPyOpt from /repo)
from GPyOpt.interface import config_parser as cp
from GPyOpt.interface.driver import BODriver
from GPyOpt.core.task.space import Design_space

BUILTIN = copy.deepcopy(cp.default_config)


def flat(t, p=()):
    """a configuration as a list of paths with JSON values"""
    if isinstance(t, dict):
        if not t and p:
            return [{'p': list(p), 'v': '{}'}]
        r = []
        for k in t:
            r += flat(t[k], p + (str(k),))
        return r
    return [{'p': list(p), 'v': json.dumps(t)}]


def tree(edits):
    t = {}
    for e in edits:
        d = t
        for k in e['p'][:-1]:
            d = d.setdefault(k, {})
        d[e['p'][-1]] = json.loads(e['v'])
    return t


def scribble(t):
    """the caller edits everything inside the configuration it got"""
    if isinstance(t, dict):
        for k in list(t):
            if isinstance(t[k], (dict, list)):
                scribble(t[k])
            else:
                t[k] = 'scribbled'
        t['scribble'] = 1
    elif isinstance(t, list):
        for x in t:
            scribble(x)
        t.append('scribbled')


def bad_file(kind, d, k):
    fn = os.path.join(d, 'bad%d.json' % k)
    if kind == 'missing':
        return fn
    if kind == 'directory':
        os.mkdir(fn)
        return fn
    txt = {'empty': b'', 'truncated': b'{"model": {"type": "GP"', 'binary': b'\x93\xff\x00\xfe', 'list': b'[1, 2]', 'number': b'3', 'trailing': b'{"a": 1} {"b": 2}'}[kind]
    with open(fn, 'wb') as h:
        h.write(txt)
    return fn


def num(v, form):
    return str(v / 2.) if form == 'fraction' else str(v)


def text_domain(v):
    f = v['form']
    if v['t'] == 'bandit':
        return '[' + ', '.join('[' + ', '.join(num(x, f) for x in a) + ']' for a in v['arms']) + ']'
    s = (' , ' if f == 'spaces' else ',').join(num(x, f) for x in v['dom'])
    return '[' + s + ']' if f == 'list' else '(' + s + (',' if len(v['dom']) == 1 else '') + ')'


def literal_domain(v):
    q = 2. if v['form'] == 'fraction' else 1
    if v['t'] == 'bandit':
        return np.array([[x / q for x in a] for a in v['arms']])
    return tuple(x / q for x in v['dom'])


def descr(s):
    r = ['dims %d %d' % (s.objective_dimensionality, s.model_dimensionality), 'bounds %r' % [tuple(float(x) for x in b) for b in s.get_bounds()],
         'cons %r' % s.constraints]
    for v in s.space_expanded:
        r.append('%s %s %r %s' % (v.name, v.type, np.array(v.domain, float).tolist(), v.dimensionality_in_model))
    rs = np.random.RandomState(0)
    for z in rs.uniform(-5, 40, (6, s.model_dimensionality)):
        r.append(repr(np.array(s.round_optimum(z[None]), float).tolist()))
    return r


def run_case(case):
    d = vlib.Scratch.sub('cfg')
    ev = []
    np.random.seed(case['seed'])
    for i, e in enumerate(case['ev']):
        try:
            with vlib.quiet():
                ev.append(step(e, d, i))
        except Exception as ex:
            ev.append({'op': 'raise', 'what': kind_of(ex)})
    t = {'c': {'defs': flat(BUILTIN)}, 'ev': ev, 'meta': case}
    cp.default_config.clear(); cp.default_config.update(copy.deepcopy(BUILTIN))      # cases are independent
    return t


def step(e, d, i):
    if e['op'] == 'load':
        new = tree(e['new'])
        if e['via'] == 'driver':
            new = {}
            res = BODriver().config
        elif e['via'] == 'update':
            res = cp.update_config(copy.deepcopy(new), copy.deepcopy(cp.default_config))
        else:
            fn = os.path.join(d, 'c%d.json' % i)
            with open(fn, 'w') as h:
                json.dump(new, h)
            res = cp.parser(fn)
        r = {'op': 'load', 'new': flat(new), 'res': flat(res)}
        if e['edit']:
            scribble(res)
        r['defs'] = flat(cp.default_config)
        return r
    if e['op'] == 'bad':
        try:
            cp.parser(bad_file(e['kind'], d, i))
            rej = False
        except Exception:
            rej = True
        return {'op': 'bad', 'kind': e['kind'], 'rejected': rej, 'defs': flat(cp.default_config)}
    txt, lit = [], []
    for v in e['vars']:
        a = {'name': v['name'], 'type': v['t'], 'domain': text_domain(v)}
        b = {'name': v['name'], 'type': v['t'], 'domain': literal_domain(v)}
        if v['dim']:
            a['dimensionality'] = str(v['dim']) if v['dimtext'] else v['dim']
            b['dimensionality'] = v['dim']
        txt.append(a); lit.append(b)
    cons = [{'name': 'c', 'constraint': 'x[:,0] - 2'}] if e['cons'] else []
    keep = copy.deepcopy(txt)
    s1 = Design_space.fromConfig(txt, cons)
    s2 = Design_space(lit, cons or None)
    return {'op': 'space', 'text': descr(s1) + [repr(txt)], 'lit': descr(s2) + [repr(keep)]}


def check(ctx):
    q = not ctx.thorough
    ctx.mc('MC_ConfigTree', 'MC_ConfigTree.cfg', timeout=600)
    base = open(vlib.SPEC + '/MC_ConfigTree.cfg').read()
    if not q:
        ctx.mc('MC_ConfigTree', base.replace('MaxLoads = 1', 'MaxLoads = 3'), timeout=3600)
    ctx.mc_fails('MC_ConfigTree', base.replace('"none"', '"shared"'), 'DefaultsStay is violated', label='shared')
    fn = os.path.join(vlib.Scratch.sub('def'), 'def.json')
    with open(fn, 'w') as h:
        json.dump(flat(BUILTIN), h)
    cases = ctx.gen('Gen_ConfigTree', num=15 if q else 250, depth=101, timeout=900, env={'DEF': fn})
    tr = vlib.pmap(run_case, cases)
    v = ctx.validate('Trace_ConfigTree', tr, timeout=1500, chunk=1000)
    ctx.judge(tr, v, label='configuration loads')
    ctx.sample({k: tr[0][k] for k in ('meta',)})
    vlib.corrupt(ctx, 'Trace_ConfigTree', [t for t in tr if t['ev'][0]['op'] == 'load'], _mutate)
    ctx.need_hits(['C18.' + n for n in ('override', 'defaults', 'rejected', 'space')])


def _mutate(t, k):
    u = copy.deepcopy(t)
    e = u['ev'][0]
    if k % 2:
        e['defs'].pop()
    else:
        e['res'][k % len(e['res'])]['v'] += '1'
    return u
