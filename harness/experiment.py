"""Conformance of configured experiments (configuration file, objective loader, driver) with spec/Experiment.tla (C24)."""
import contextlib, copy, io, json, os, subprocess, sys
import numpy as np
from . import clock, vlib
from .loop import kind_of
from .stubs import rows_of
from .suggest import expand, to_ints
from GPyOpt.interface import parser, BODriver, load_objective

Q = 1000000
# the problem file of an experiment: it writes every call down
PROBLEM = '''
import json, os, time
import numpy as np
HOOK = []
def {name}(**args):
    for h in HOOK:
        h()
    x = [float(v) for k in {order!r} if k in args for v in np.asarray(args[k], dtype=float).ravel() * 2. ** {scale!r}]
    y = float(sum((i + 1) * np.sin(v) + .1 * v for i, v in enumerate(x)))
    rec = dict(names=[dict(n=k, w=int(np.asarray(v).size), s=list(np.shape(v))) for k, v in args.items()], x=x, y=y, pid=os.getpid())
    with open({log!r}, 'a') as f:
        f.write(json.dumps(rec) + '\\n')
    return {ret}
'''


def domain(case):
    c, out = case['c'], []
    U = float(c['U'] * 2 ** case['scale'])
    for k, v in enumerate(c['space']):
        num = lambda x: x / U if (x / U) % 1 or v['t'] == 'continuous' else int(x / U)
        val = [[num(x) for x in a] for a in v['arms']] if v['t'] == 'bandit' else [num(x) for x in v['dom']]
        text = case['form'] == 'text' or (case['form'] == 'mixed' and k % 2 == 0)
        d = {'name': v['name'], 'type': v['t'], 'domain': repr(val) if v['t'] == 'bandit' or k % 2 else repr(tuple(val))}
        if not text:
            d['domain'] = val
        if v['t'] != 'bandit' and (v['dim'] > 1 or case['seed'] % 2):
            d['dimensionality'] = str(v['dim']) if text else v['dim']
        out.append(d)
    return out


def document(case, d):
    """the configuration file"""
    c, has, inv = case['c'], case['has'], case['c']['invalid']
    name = case['fname']
    doc = {'main-file': name + '.py', 'experiment-name': 'trial-%d' % case['seed'], 'space': domain(case)}
    if case['lang'] != 'default':
        doc['language'] = case['lang']
    if has['init']:
        doc['initialization'] = {'type': c['dtype'], 'num-eval': c['n']}
    M = c['model']
    m = {'max_iters': M['miters'], 'optimize_restarts': M['restarts'] if M['miters'] or case['seed'] % 2 else 0, 'verbose': M['verbose']}
    M['restarts'] = m['optimize_restarts']
    if has['model']:
        m.update({k: v for k, v, default in (('exact_feval', M['exact'], False), ('ARD', M['ard'], False), ('noise_var', M['noise'] / 1000., -.001), ('optimizer', M['mopt'], 'bfgs')) if v != default})
        if case['seed'] % 3:
            m['type'] = 'GP'
        m['sparse'] = c['model']['sparse']
    if c['model']['ninduce'] != 10:
        m['num_inducing'] = c['model']['ninduce']
    doc['model'] = m
    a = {}
    if has['acq']:
        a['type'] = c['acq']['type']
        if c['acq']['jit'] != 10:
            a['jitter'] = c['acq']['jit'] / 1000.
        if c['acq']['w'] != 2000:
            a['exploration_weight'] = c['acq']['w'] / 1000.
    if has['ev']:
        a['evaluator'] = {'type': c['ev']['type']}
        if c['ev']['type'] != 'sequential' or case['seed'] % 2:
            a['evaluator']['batch_size'] = c['ev']['b']
    if case['seed'] % 4 == 0:
        a['optimizer'] = {'name': 'lbfgs'}
    if a:
        doc['acquisition'] = a
    r = {'maximum-iterations': 'NA' if c['mi'] == -2 else c['mi']}
    if c['mt'] != -2 or case['seed'] % 3 == 0:
        r['max-run-time'] = 'NA' if c['mt'] == -2 else c['mt'] // 60
    if c['tol'] != -2:
        r['tolerance'] = c['tol'] / 1000.
    if c['cores'] != 1:
        r['cores'] = c['cores']
    doc['resources'] = r
    if c['cons']:
        doc['constraints'] = [{'name': 'c%d' % i, 'constraint': 'x[:,%d] - (%r)' % (k['i'] - 1, k['v'] / float(c['U'] * 2 ** case['scale']))} for i, k in enumerate(c['cons'])]
    if inv == 'model':
        m['type'] = ['XGB', 'gp', ''][case['seed'] % 3]
    elif inv == 'acquisition':
        doc.setdefault('acquisition', {})['type'] = ['EIX', 'ei', ''][case['seed'] % 3]
    elif inv == 'evaluator':
        doc.setdefault('acquisition', {})['evaluator'] = {'type': ['batch', 'Random', ''][case['seed'] % 3]}
    elif inv == 'optimizer':
        doc.setdefault('acquisition', {})['optimizer'] = {'name': ['newton', 'LBFGS', ''][case['seed'] % 3]}
    elif inv == 'design':
        doc['initialization'] = {'type': ['random2', 'Latin', ''][case['seed'] % 3], 'num-eval': 3}
    elif inv == 'space':
        del doc['space']
    elif inv == 'main':
        del doc['main-file']
    elif inv == 'extension':
        doc['main-file'] = name + '.txt'
    elif inv == 'language':
        doc['language'] = 'matlab'
    elif inv == 'integrated':
        doc.setdefault('acquisition', {})['type'] = ['EI_MCMC', 'LCB_MCMC', 'MPI_MCMC'][case['seed'] % 3]
    elif inv == 'entropy':
        doc.setdefault('acquisition', {})['type'] = 'ES'
    elif inv == 'domain':
        doc['space'] = doc['space'][:1] + [{'name': 'zz', 'type': 'bandit' if case['c']['space'][0]['t'] != 'bandit' else 'continuous', 'domain': '[[0, 1], [2, 3]]' if case['c']['space'][0]['t'] != 'bandit' else '(0, 1)'}]
    elif inv == 'file':
        pass
    ret = {'array': 'np.array([[y]])', 'float': 'y', 'row': 'np.array([y])'}[case['scalar']]
    log = os.path.join(d, 'calls.log')
    with open(os.path.join(d, name + ('.txt' if inv == 'extension' else '.py')), 'w') as f:
        f.write(PROBLEM.format(name=name, order=[v['name'] for v in c['space']], log=log, ret=ret, scale=case['scale']))
    fn = os.path.join(d, 'config.json')
    with open(fn, 'w') as f:
        f.write(json.dumps(doc) + ('{' if inv == 'file' else ''))
    return fn, name, log


def tolerance(c):
    return c['tol'] / 1000. if c['tol'] != -2 else 1e-8


def pos(c, row):
    off, P = 0, []
    U = float(c['U'])
    for v in expand(c['space']):
        if v['t'] == 'continuous' and off < len(row):
            P.append(int(round(min(max((row[off] - v['dom'][0] / U) / ((v['dom'][1] - v['dom'][0]) / U), -1), 2) * Q)))
        off += len(v['arms'][0]) if v['t'] == 'bandit' else 1
    return P


def calls_of(log):
    if not os.path.exists(log):
        return []
    with open(log) as f:
        return [json.loads(s) for s in f]


def evals(case, calls, dts):
    ev, prev = [], None
    for k, r in enumerate(calls):
        near = 100000
        if prev is not None and len(prev) == len(r['x']):
            dist, tol = float(np.linalg.norm(np.array(prev) - r['x'])) / 2 ** case['scale'], tolerance(case['c'])
            near = int(min(100000, round(1000 * dist / tol))) if tol else 100000 * (dist > 0)
        prev = r['x']
        one = all(s['s'] in ([1, s['w']],) for s in r['names'])          # one location per call, as a row
        ev.append({'op': 'eval', 'names': [{'n': s['n'], 'w': s['w'] if one else -1} for s in r['names']], 'x': r['x'], 'y': repr(r['y']), 'dt': dts[k], 'near': near, 'P': pos(case['c'], r['x'])})
    return ev


def components(bo):
    m, a = bo.model, bo.acquisition
    while hasattr(a, 'acq') and type(a).__name__ == 'AcquisitionLP':
        a = a.acq
    name = type(a).__name__.replace('Acquisition', '')
    e = {'Sequential': 'sequential', 'RandomBatch': 'random', 'LocalPenalization': 'local_penalization', 'ThompsonBatch': 'thompson_sampling'}.get(type(bo.evaluator).__name__, type(bo.evaluator).__name__)
    return {'model': type(m).__name__.replace('Model', ''), 'sparse': bool(m.sparse), 'ninduce': int(m.num_inducing), 'miters': int(m.max_iters), 'restarts': int(m.optimize_restarts), 'exact': bool(m.exact_feval), 'ard': bool(m.ARD),
            'noise': -1 if m.noise_var is None else int(round(1000 * m.noise_var)), 'mopt': str(m.optimizer), 'verbose': bool(m.verbose), 'acq': name,
            'jit': int(round(1000 * a.jitter)) if hasattr(a, 'jitter') else -1, 'w': int(round(1000 * a.exploration_weight)) if hasattr(a, 'exploration_weight') else -1,
            'opt': str(a.optimizer.optimizer_name), 'ev': e, 'b': int(bo.evaluator.batch_size), 'cores': int(bo.objective.n_procs)}


def asks_optimizer(c):
    """an unknown name is noticed when the configured optimizer is asked for: not on finite domains, not by Thompson batches (always lbfgs)"""
    return any(v['t'] == 'continuous' for v in c['space']) and c['ev']['type'] != 'thompson_sampling'


def run_case(case):
    case = copy.deepcopy(case)
    c = case['c']
    if c['space'][0]['t'] == 'bandit' and c['ev']['type'] == 'local_penalization':
        c['ev']['type'] = 'random'
    if not any(v['t'] == 'continuous' for v in c['space']) and c['dtype'] in ('sobol', 'grid'):
        c['dtype'] = 'random'
    if c['invalid'] == 'optimizer' and not asks_optimizer(c):
        c['invalid'] = 'model'                     # nothing to optimise numerically
    if c['invalid'] == 'optimizer':                # it is only asked for by an acquisition
        c.update(mi=2, tol=-2, mt=-2)
        case['scale'] = 0
    d = vlib.Scratch.sub('exp')
    cwd = os.getcwd()
    ev, k = [], [0]
    try:
        fn, name, log = document(case, d)
        np.random.seed(case['seed'])
        kind, files = None, None
        clock.start()

        def tick():
            k[0] += 1
            if c['invalid'] == 'objective' and k[0] == case['failat']:
                raise KeyError('objective')
            clock.advance(case['dts'][(k[0] - 1) % len(case['dts'])])
            if k[0] > 600:
                os._exit(77) if c['cores'] > 1 else (_ for _ in ()).throw(RuntimeError('runaway'))
        bo = None
        try:
            with vlib.quiet():
                conf = parser(fn)
                conf['prjpath'] = d
                f = load_objective(conf)
                f.__globals__['HOOK'].append(tick)
                if case['via'] == 'direct':
                    f0 = f
                    f = lambda **kw: f0(**kw)
                bo = BODriver(conf, f).run()
        except Exception as ex:
            kind = kind_of(ex)
        finally:
            clock.stop()
        calls = calls_of(log)
        if c['cores'] > 1 and bo is not None:                 # the workers write in any order
            rest, calls = list(calls), []
            for row in rows_of(bo.X * 2. ** case['scale']):
                m = [r for r in rest if r['x'] == row]
                if m:
                    calls.append(m[0]); rest.remove(m[0])
            calls += rest
        ev = evals(case, calls, [case['dts'][i % len(case['dts'])] if c['cores'] == 1 else 0 for i in range(len(calls))])
        if bo is None:
            ev.append({'op': 'raise', 'kind': kind})
        else:
            ev.append({'op': 'built', 'comps': components(bo)})
            ev.append({'op': 'end', 'X': rows_of(bo.X * 2. ** case['scale']), 'Y': [repr(float(y)) for y in np.asarray(bo.Y).ravel()]})
    except Exception as ex:
        ev.append({'op': 'raise', 'kind': 'harness ' + kind_of(ex)})
    finally:
        os.chdir(cwd)
    t = to_ints({'c': dict(c, cons=copy.deepcopy(c['cons'])), 'ev': ev})
    t['meta'] = case
    return t


def script_case(case):
    """the same through the command-line script, which saves the results next to the configuration"""
    case = copy.deepcopy(case)
    c = case['c']
    c.update(mt=-2, cores=1, mi=max(c['mi'], 1) if c['mi'] != -2 else 1)
    if c['space'][0]['t'] == 'bandit' and c['ev']['type'] == 'local_penalization':
        c['ev']['type'] = 'random'
    if not any(v['t'] == 'continuous' for v in c['space']) and c['dtype'] in ('sobol', 'grid'):
        c['dtype'] = 'random'
    if c['invalid'] == 'objective':
        c['invalid'] = ''
    if c['invalid'] == 'optimizer':
        c.update(tol=-2, invalid='optimizer' if asks_optimizer(c) else 'model')
    d = vlib.Scratch.sub('exp')
    fn, name, log = document(case, d)
    r = subprocess.run([sys.executable, os.path.join(vlib.REPO, 'gpyopt.py'), fn], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, PYTHONPATH=vlib.REPO, OMP_NUM_THREADS='1', MPLBACKEND='agg'), timeout=300)
    calls = calls_of(log)
    ev = evals(case, calls, [0] * len(calls))
    base = os.path.join(d, 'trial-%d' % case['seed'])
    if r.returncode != 0:
        ev.append({'op': 'raise', 'kind': r.stdout.decode(errors='replace')[-200:]})
    else:
        try:
            with open(base + '_evaluations.txt') as h:
                rows = [[float(x) for x in s.split('\t')] for s in h.read().splitlines()[1:]]
            with open(base + '_model.txt') as h:
                models = len(h.read().splitlines()) - 1
            ev.append({'op': 'files', 'evals': len(rows), 'models': models, 'same': [[x * 2. ** case['scale'] for x in q[2:]] for q in rows] == [q['x'] for q in calls] and [q[1] for q in rows] == [q['y'] for q in calls]})
            ev.append({'op': 'end', 'X': [[x * 2. ** case['scale'] for x in q[2:]] for q in rows], 'Y': [repr(q[1]) for q in rows]})
        except Exception as ex:
            ev.append({'op': 'files', 'evals': -1, 'models': -1, 'same': False, 'what': kind_of(ex)})
    t = to_ints({'c': dict(c, cons=copy.deepcopy(c['cons'])), 'ev': ev})
    t['meta'] = dict(case, via='script')
    return t


def check(ctx):
    q = not ctx.thorough
    base = open(vlib.SPEC + '/MC_Experiment.cfg').read()
    ctx.mc('MC_Experiment', base if q else base.replace('MaxRows = 8', 'MaxRows = 12'), timeout=3600)
    ctx.mc_fails('MC_Experiment', base.replace('"none"', '"minutes"'), 'Promise is violated', label='minutes')
    ctx.mc_fails('MC_Experiment', base.replace('"none"', '"free"'), 'is violated', label='free')
    cases = ctx.gen('Gen_Experiment', num=3 if q else 60, depth=101, timeout=900)
    tr = vlib.pmap(run_case, cases)
    v = ctx.validate('Trace_Experiment', tr, timeout=1500, chunk=500)
    ctx.judge(tr, v, label='configured experiments')
    ctx.sample({k: tr[0][k] for k in ('meta',)})
    ts = vlib.pmap(script_case, cases[:8 if q else 100])
    v = ctx.validate('Trace_Experiment', ts, timeout=1500, chunk=500)
    ctx.judge(ts, v, label='experiments run by the script')
    vlib.corrupt(ctx, 'Trace_Experiment', [t for t in tr if t['ev'][-1]['op'] == 'end'], _mutate)
    ctx.need_hits(['C24.' + n for n in ('arguments', 'legal', 'goes_on', 'design', 'components', 'history', 'initial', 'stops', 'files', 'raise')])


def _mutate(t, k):
    u = copy.deepcopy(t)
    if k % 3 == 0:
        u['ev'][-1]['Y'][-1] = '77.5'
    elif k % 3 == 1:
        u['ev'][-2]['comps']['ninduce'] += 1
    else:
        u['ev'][0]['names'][0]['n'] += '_'
    return u
