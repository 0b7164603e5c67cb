"""Conformance of the output engine with spec/OutputLog.tla (C19)."""
import copy, os, csv
import numpy as np
from . import vlib
from .loop import kind_of
from . import stubs                                    # noqa: F401
from GPyOpt.interface.output import OutputEng

UNITS = [(1 / 8., 1 / 4., 1 / 8.), (1 / 3., .1, 1 / 7.), (1e-13 / 3, 1e-7 / 7, 1e-3 / 3), (1e17 / 3, 1e9 / 7, 1e5 / 3)]


class FakeBO:
    """stands for the optimizer: records the reports asked for"""
    def __init__(self):
        self.calls = []

    def save_report(self, report_file=None):
        self.calls.append(os.path.basename(report_file))
        with open(report_file, 'w') as h:
            h.write('report')


class Values:
    """numbers of a kind (few digits, all digits, tiny, huge) standing for integers; reading one back gives the integer it stands for"""
    def __init__(self, unit):
        self.unit, self.back = unit, {}

    def __call__(self, k):
        v = float(k) * self.unit
        self.back[v] = k
        return v

    def read(self, text):
        return self.back.get(float(text), 77777777)


def run_case(case):
    c = case['c']
    d = vlib.Scratch.sub('out')
    ev = []
    R = VY, VX, VT = [Values(u) for u in UNITS[case['digits'] - 1]]
    cfg = {'prjpath': d, 'experiment-name': 'prj', 'output': {}}
    if case['scalars']:
        cfg['output']['verbosity'] = False
    for i, v in enumerate(c['savers']):
        cfg['output']['s%d' % i] = {'type': v['type'], 'format': v['format'], 'content': v['content'], 'interval': v['interval'],
                                    'filename': 'f%d.txt' % i if v['named'] else None}
    try:
        with vlib.quiet():
            try:
                eng = OutputEng(cfg)
                ev.append({'op': 'create', 'ok': True})
            except Exception:
                ev.append({'op': 'create', 'ok': False})
                return {'c': c, 'ev': ev, 'meta': case}
            bo = FakeBO()
            for k in case['calls']:
                X = np.array([[VX(v) for v in r] for r in k['X']])
                Y = np.array([[VY(v)] for v in k['Y']])
                bo.calls = []
                kw = {'final': True} if k['final'] else ({'final': False} if case['shape'] == 1 else {})
                eng.append_iter(k['it'], VT(k['t']), X, Y, bo, **kw)
                rep = [sum(1 for f in bo.calls if f == 'f%d.txt' % i or f.startswith('s%d_' % i)) for i in range(len(c['savers']))]
                ev.append(dict(op='append', rep=rep, **{x: k[x] for x in ('it', 't', 'X', 'Y', 'final')}))
            eng.close()
            ev.append({'op': 'close', 'logs': [read_log(d, i, v, R) for i, v in enumerate(c['savers'])]})
    except Exception as ex:
        ev.append({'op': 'raise', 'what': kind_of(ex)})
    return {'c': c, 'ev': ev, 'meta': case}


def read_log(d, i, v, R):
    g = {'heads': 0, 'first': False, 'cols': 0, 'lines': []}
    if v['type'] != 'logger':
        return g
    fn = [f for f in os.listdir(d) if (f == 'f%d.txt' % i if v['named'] else f.startswith('s%d_' % i))]
    if len(fn) != 1:
        g['heads'] = 99
        return g
    with open(os.path.join(d, fn[0])) as h:
        for n, row in enumerate(csv.reader(h)):
            if row and row[0].startswith('iter'):
                g['heads'] += 1
                g['first'] = g['first'] or n == 0
                g['cols'] = len(row)
            else:
                try:
                    g['lines'].append({'it': int(row[0]), 't': R[2].read(row[1]), 'y': R[0].read(row[2]), 'x': [R[1].read(z) for z in row[3:]]})
                except Exception:
                    g['lines'].append({'it': -1, 't': -1, 'y': -1, 'x': []})
    return g


def check(ctx):
    q = not ctx.thorough
    base = open(vlib.SPEC + '/MC_OutputLog.cfg').read()
    ctx.mc('MC_OutputLog', 'MC_OutputLog.cfg', timeout=600)
    if not q:
        ctx.mc('MC_OutputLog', base.replace('MaxCalls = 4', 'MaxCalls = 6'), timeout=3600, heap='12g')
    for v in ('finalticks', 'noreset', 'last'):
        ctx.mc_fails('MC_OutputLog', base.replace('"none"', '"%s"' % v), 'is violated', label=v)
    cases = ctx.gen('Gen_OutputLog', num=15 if q else 250, depth=101, timeout=900)
    tr = vlib.pmap(run_case, cases)
    v = ctx.validate('Trace_OutputLog', tr, timeout=1500, chunk=1000)
    ctx.judge(tr, v, label='output engines')
    ctx.sample({'c': tr[0]['c'], 'ev': tr[0]['ev'][-1]})
    vlib.corrupt(ctx, 'Trace_OutputLog', [t for t in tr if t['ev'][-1]['op'] == 'close' and any(g['lines'] for g in t['ev'][-1]['logs'])], _mutate)
    ctx.need_hits(['C19.' + n for n in ('accepted', 'rejected', 'report', 'lines', 'content', 'header')])


def _mutate(t, k):
    u = copy.deepcopy(t)
    g = [g for g in u['ev'][-1]['logs'] if g['lines']][0]
    if k % 3 == 0:
        g['lines'].pop()
    elif k % 3 == 1:
        g['lines'][-1]['y'] += 1
    else:
        g['heads'] += 1
    return u
