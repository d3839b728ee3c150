"""Twins: the same operations played twice must be observed identically."""
import numpy as np

from .core import Violation, same, canon
from .gpkit import hp_of, hist_of, quiet, TIMES


def clean(h):
    return {k: v for k, v in h.items() if not k.endswith(TIMES)}


def plain(out):
    if isinstance(out, Exception):
        return ('error', type(out).__name__)
    return tuple(None if v is None else np.array(v) for v in out)


def step(s, op):
    """Play one operation; what an outside observer sees."""
    s.out = None
    r = s.step(op)
    return {'op': op['op'], 'result': r, 'out': None if s.out is None else plain(s.out), 'hp': hp_of(s.gp),
            'n': s.d.n()}


def final(s, x=None):
    """State at the end: history, hyperparameters, predictions."""
    h = clean(hist_of(s.gp)) if s.d.i else None
    o = {'op': 'final', 'hist': h, 'hp': hp_of(s.gp)}
    if s.d.args is not None:
        x = s.d.pool.xe[:3] if x is None else x
        e = s.try_eval(x.copy(), True)
        o['out'] = plain(e)
    return o


def play(s, ops, before=None, after=None):
    obs = []
    for k, op in enumerate(ops):
        if before:
            before(k, op)
        obs.append(step(s, op))
        if after:
            after(k, op)
    obs.append(final(s))
    return obs


def diff(a, b):
    """First difference of two observations, as text."""
    for k in range(max(len(a), len(b))):
        if k >= len(a) or k >= len(b):
            return k, f'{len(a)} and {len(b)} observations'
        x, y = a[k], b[k]
        for q in x:
            if not same(x[q], y.get(q)):
                if isinstance(x[q], dict) and isinstance(y.get(q), dict):
                    for z in x[q]:
                        if not same(x[q][z], y[q].get(z)):
                            return k, f'{q}.{z}: {x[q][z]} and {y[q].get(z)}'
                return k, f'{q}: {x[q]} and {y.get(q)}'
    return None


def compare(a, b, kind, what):
    d = diff(a, b)
    if d is not None:
        k, text = d
        op = (a + b)[min(k, len(a) - 1)]['op']
        raise Violation(kind, f'{what}: operation {k} ({op}) gives {text[:700]}')
