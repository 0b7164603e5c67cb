"""Scripted and recording components plugged into GPyOpt through its public extension points."""
import math
import numpy as np
from . import clock, vlib

vlib.repo_import()
import GPyOpt                                                     # noqa: E402
from GPyOpt.models.base import BOModel                            # noqa: E402
from GPyOpt.core.evaluators.base import EvaluatorBase             # noqa: E402
from GPyOpt.core.errors import FullyExploredOptimizationDomainError, InvalidConfigError  # noqa: E402


class ObjectiveError(Exception):
    pass


class Runaway(BaseException):
    """raised by a stub when the library calls it far more often than any legal behaviour would"""


class Num:
    """exact map from floats to integers: multiples of 1/U become v*U, anything else a fresh number"""
    def __init__(self, U):
        self.U, self.other = U, {}

    def __call__(self, v):
        try:
            v = float(v)
        except Exception:
            return 29999
        w = v * self.U
        if np.isfinite(w) and abs(w) < 5000 and w == np.floor(w):
            return int(w)
        k = repr(v)
        if k not in self.other:
            self.other[k] = 5000 + 40 * min(len(self.other), 500)
        return self.other[k]

    def rows(self, A):
        A = np.asarray(A)
        if A.ndim == 1:
            A = A[None, :]
        return [[self(v) for v in r] for r in A]

    def col(self, A):
        A = np.asarray(A)
        return [self(v) for v in A.reshape(-1)]


class RankNum:
    """order-preserving odd map from the floats seen to integers; built in two passes (collect, then map)"""
    def __init__(self):
        self.seen = set()
        self.map = None

    def collect(self, v):
        self.seen.add(abs(float(v)))

    def freeze(self):
        vals = sorted(x for x in self.seen if x == x and x != 0.0)
        self.map = {v: i + 1 for i, v in enumerate(vals)}

    def __call__(self, v):
        v = float(v)
        if v != v:
            return 2000000
        if v == 0.0:
            return 0
        return self.map[v] if v > 0 else -self.map[-v]


def latrank(obj, U, space_keys=('space', 'cons'), K0=64):
    """Map every float inside obj to an integer so that order, equality and the lattice of multiples of 1/U are kept:
    a multiple v/U becomes v*K, any other number becomes a distinct integer between its lattice neighbours.
    Integers are left alone.  Returns (mapped object, K)."""
    seen = set()

    def walk(o):
        if isinstance(o, bool) or o is None or isinstance(o, (int, str)):
            return
        if isinstance(o, float):
            w = o * U
            if o == o and abs(w) < 2000 and w != math.floor(w):
                seen.add(o)
        elif isinstance(o, dict):
            for v in o.values():
                walk(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                walk(v)
    walk(obj)
    cells = {}
    for v in sorted(seen):
        cells.setdefault(math.floor(v * U), []).append(v)
    K = K0
    while cells and K <= max(len(c) for c in cells.values()):
        K *= 2
    m = {}
    for c, vs in cells.items():
        for i, v in enumerate(vs):
            m[v] = int(c) * K + i + 1
    other = {}

    def conv(o):
        if isinstance(o, bool) or isinstance(o, (int, str)):
            return o
        if o is None:
            return 'None'
        if isinstance(o, float):
            if o in m:
                return m[o]
            w = o * U
            if o == o and abs(w) < 2000:
                return int(w) * K
            k = repr(o)
            if k not in other:
                other[k] = 3000 * K + len(other) if not o < 0 else -3000 * K - len(other)
            return other[k]
        if isinstance(o, dict):
            return {k: conv(v) for k, v in o.items()}
        return [conv(v) for v in o]
    return conv(obj), K


def fl(A):
    """nested lists of Python floats"""
    A = np.asarray(A, dtype=float)
    return A.tolist()


def rows_of(A):
    A = np.asarray(A)
    if A.ndim != 2:
        A = np.atleast_2d(A)
    return fl(A)


class Scale:
    """The lattice of a specification is realised at several scales: coordinate value v/U becomes o + s * v/U, with s and o
    dyadic, so that mapping back is exact; category codes are never scaled."""
    KINDS = {1: (1.0, 0.0), 2: (2.0 ** -22, 0.0), 3: (2.0 ** 18, 0.0), 4: (1.0, 2.0 ** 17), 5: (1.0, -2.0 ** 17)}

    def __init__(self, space, U, kind=1):
        self.s, self.o = self.KINDS[kind]
        self.U, self.kind = float(U), kind
        self.cat = []
        for v in space:
            self.cat += [v['t'] == 'categorical'] * (len(v['arms'][0]) if v['t'] == 'bandit' else v['dim'])
        self.n = len(self.cat)

    def num(self, v, cat=False):
        return v / self.U if cat else self.o + self.s * (v / self.U)

    def real(self, row):
        return [self.num(v, c) for v, c in zip(row, self.cat)]

    def reals(self, rows):
        return np.array([self.real(r) for r in rows], dtype=float)

    def back(self, row):
        """a row reported by the library, in units of the lattice divided by U (exact)"""
        if len(row) != self.n:
            return list(row)
        return [x if c else (x - self.o) / self.s for x, c in zip(row, self.cat)]

    def text(self, i):
        """coordinate i of x, in lattice units, as a Python expression"""
        return 'x[:,%d]' % i if self.cat[i] or self.kind == 1 else '((x[:,%d] - %r) / %r)' % (i, self.o, self.s)


class View:
    """exact integers of one side of the encoding: raw locations ('raw'), encoded ones ('enc') or bare coordinates"""
    def __init__(self, c, kind, q, side):
        self.q, self.sc = q, Scale(c['space'], c['U'], kind)
        self.cat = []
        for v in c['space']:
            w = 1 if v['t'] != 'categorical' or side == 'raw' else len(v['dom'])
            self.cat += [v['t'] == 'categorical'] * (len(v['arms'][0]) if v['t'] == 'bandit' else w * v['dim'])

    def one(self, x, cat=False):
        try:
            return self.q(x if cat else (float(x) - self.sc.o) / self.sc.s)
        except Exception:
            return 29999

    def col(self, A):
        A = np.asarray(A).reshape(-1)
        return [self.one(x, c) for x, c in zip(A, self.cat)] + [77777 + i for i in range(abs(len(A) - len(self.cat)))]

    def rows(self, A):
        A = np.asarray(A)
        return [self.col(r) for r in (A[None, :] if A.ndim == 1 else A)]

    def real(self, rows):
        return np.array([[self.sc.num(v, c) for v, c in zip(r, self.cat)] for r in rows], dtype=float)


def gp_domain(space, U, sc=None):
    """the GPyOpt domain of a specification space"""
    dom = []
    num = (lambda x, cat=False: x / U) if sc is None else sc.num
    for v in space:
        d = {'name': v['name'], 'type': v['t']}
        if v['t'] == 'bandit':
            d['domain'] = np.array([[num(x) for x in a] for a in v['arms']], dtype=float)
        else:
            d['domain'] = tuple(num(x, v['t'] == 'categorical') for x in v['dom'])
            if v['dim'] > 1 or v.get('explicit_dim'):
                d['dimensionality'] = v['dim']
        dom.append(d)
    return dom


class ScriptModel(BOModel):
    """a surrogate that records its fits and does nothing else"""
    analytical_gradient_prediction = False
    MCMC_sampler = False

    def __init__(self, rec):
        self.rec = rec
        self.model = None
        self.n = 0

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        self.n += 1
        self.rec.on_fit(np.array(X_all, dtype=float, copy=True), np.array(Y_all, dtype=float, copy=True))

    def predict(self, X):
        X = np.atleast_2d(X)
        return np.zeros((X.shape[0], 1)), np.ones((X.shape[0], 1))

    def get_fmin(self):
        return 0.0

    def get_model_parameters(self):
        return np.array([[float(self.n), 1.0]])

    def get_model_parameters_names(self):
        return ['n', 'one']


class ScriptEvaluator(EvaluatorBase):
    """proposes the scripted locations"""
    def __init__(self, rec, acquisition):
        self.rec, self.acquisition, self.batch_size = rec, acquisition, 1

    def compute_batch(self, *a, **k):
        return self.rec.on_batch()


class RecEvaluator(EvaluatorBase):
    """delegates to the real evaluator and records what it proposed"""
    def __init__(self, rec, inner):
        self.rec, self.inner = rec, inner
        self.acquisition, self.batch_size = inner.acquisition, inner.batch_size

    def compute_batch(self, *a, **k):
        self.rec.before_batch(a, k)
        z = self.inner.compute_batch(*a, **k)
        self.rec.after_batch(z)
        return z

    def __getattr__(self, n):
        return getattr(self.__dict__['inner'], n)


class DetModel(BOModel):
    """a small deterministic Gaussian-process surrogate with fixed hyper-parameters (no random numbers)"""
    analytical_gradient_prediction = False
    MCMC_sampler = False

    def __init__(self, ell=1.0, noise=1e-3, onfit=None, grad=False):
        self.ell, self.noise, self.onfit = ell, noise, onfit
        self.analytical_gradient_prediction = grad
        self.model = None
        self.X = self.Y = None

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        if self.onfit:
            self.onfit(np.array(X_all, copy=True), np.array(Y_all, copy=True))
        self.X = np.array(X_all, dtype=float)
        self.Y = np.array(Y_all, dtype=float).reshape(-1, 1)
        self.mu = self.Y.mean()
        K = self._k(self.X, self.X) + self.noise * np.eye(len(self.X))
        self.Ki = np.linalg.inv(K)

    def _k(self, A, B):
        d = ((A[:, None, :] - B[None, :, :]) ** 2).sum(2)
        return np.exp(-0.5 * d / self.ell ** 2)

    def predict(self, X):
        X = np.atleast_2d(X)
        k = self._k(X, self.X)
        m = self.mu + k.dot(self.Ki).dot(self.Y - self.mu)
        v = 1.0 + self.noise - (k.dot(self.Ki) * k).sum(1)[:, None]
        return m, np.sqrt(np.clip(v, 1e-10, np.inf))

    def predict_withGradients(self, X):
        X = np.atleast_2d(X)
        m, s = self.predict(X)
        k = self._k(X, self.X)
        dk = -(X[:, None, :] - self.X[None, :, :]) / self.ell ** 2 * k[:, :, None]
        dm = np.einsum('ijd,jk->id', dk, self.Ki.dot(self.Y - self.mu))
        dv = -2 * np.einsum('ijd,ij->id', dk, k.dot(self.Ki))
        return m, s, dm, dv / (2 * s)

    def get_fmin(self):
        return float(self.predict(self.X)[0].min())

    def get_model_parameters(self):
        return np.array([[self.ell, self.noise]])

    def get_model_parameters_names(self):
        return ['ell', 'noise']
