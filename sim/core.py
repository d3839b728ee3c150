"""Plan -> run -> verdict.  A run is a pure function of its plan (JSON)."""
import collections
import hashlib
import json
import random
import struct

import numpy as np


class Violation(Exception):
    """The property is broken.  `kind` is the class that minimisation keeps."""

    def __init__(self, kind, detail):
        super().__init__(f'{kind}: {detail}')
        self.kind, self.detail = kind, detail


class Skip(Exception):
    """The plan cannot be carried out as written (after minimisation)."""


class Ctx:
    """Log, counters and state coverage of one run."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.n_ev = 0
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()
        self.tail = []
        self.sim_time = 0.0

    def ev(self, *a):
        s = repr(tuple(canon(x) for x in a))
        self.h.update(s.encode())
        self.n_ev += 1
        self.tail.append(s[:160])
        if len(self.tail) > 60:
            del self.tail[0]

    def state(self, *a):
        self.states.add(hashlib.sha1(repr(a).encode()).hexdigest()[:12])

    def probe(self, name, n=1):
        self.stats[name] += n

    def digest(self):
        return self.h.hexdigest()[:24]


def canon(x):
    """Bit-exact, readable form of a value for the event log."""
    if isinstance(x, np.ndarray):
        b = np.ascontiguousarray(x)
        return ('arr', b.shape, hashlib.sha1(b.tobytes()).hexdigest()[:12])
    if isinstance(x, (np.floating, float)):
        return struct.pack('>d', float(x)).hex()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (tuple, list)):
        return tuple(canon(y) for y in x)
    if isinstance(x, dict):
        return tuple((k, canon(v)) for k, v in sorted(x.items()))
    if x is None or isinstance(x, (int, str, bool, bytes)):
        return x
    if hasattr(x, '__dict__'):
        return canon(vars(x))
    return type(x).__name__


def same(a, b):
    """Bit-exact equality (NaN equals NaN)."""
    if a is None or b is None:
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'f' or b.dtype.kind == 'f':
        return bool(np.array_equal(a.astype(float), b.astype(float), equal_nan=True))
    return bool(np.array_equal(a, b))


def plan_rng(prop, seed, i):
    h = hashlib.sha256(f'{prop}|{seed}|{i}'.encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def jdump(o):
    return json.dumps(o, sort_keys=True)


def finite(*arrs):
    return all(a is None or bool(np.all(np.isfinite(a))) for a in arrs)
