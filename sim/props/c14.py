"""C14: callers and surrogate share no memory."""
import copy

import numpy as np

from .. import twin
from ..core import Ctx, Violation, same
from ..gpkit import gen_cfg, quirks, tight, TIMES
from ..session import Session, gen_ops
from .c11 import LayPool, relay, LAYOUT
from .common import shrink_default, REAL, STUB

ID = 'C14'
RUNS = {'quick': 1200, 'thorough': 24000}
RULE = ('one run = one seeded session with exports and loads, played once by a careful caller and once by a caller that '
        'overwrites, at seeded moments, arrays that it handed over or got back, in seeded memory layouts; non-trivial: '
        'at least four arrays were overwritten and a search was completed afterwards')
TECHNIQUE = ('deterministic simulation: a simulated caller reuses its memory at seeded points between calls, some of '
             'them failing or interrupted; twin comparison and snapshots')

NOTE = ('Seeded exploration. Hyperparameter objects are shared with the caller by design (changing them is detected '
        'by the surrogate, see C03) and are not overwritten.')

ASSUMPTIONS = ['the caller overwrites its memory between calls, not during a call']

HOW = ('nan', 'zero', 'scale', 'sort', 'huge')


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg)
    tight(rng, cfg)
    cfg['opt']['optz_iter_max'] = rng.choice([2, 4])
    ops = gen_ops(rng, rng.choice([6, 8, 10]), faults=0.2, bad=0.2, kinds=('line', 'la', 'chol'),
                  extra=(('direct', 1), ('export', 3), ('load', 2), ('method', rng.choice([0, 0, 0.5]))))
    for k in range(len(ops) - 1, 0, -1):
        op = ops[k]
        if op['op'] == 'eval' and rng.random() < 0.4:
            ops.insert(k + 1, {q: copy.deepcopy(v) for q, v in op.items() if q != 'fault'})
    for op in ops:
        op['layout'] = rng.choice(LAYOUT)
        # the caller passes one array (or the head of one) again and again
        op['reuse'] = op['op'] in ('eval', 'data') and rng.random() < 0.4
        # when: right away, or before the operation that comes so much later
        op['scribble'] = [[rng.choice(['given', 'given', 'back', 'back', 'export']), rng.choice(HOW),
                           rng.choice([0, 0, 0, 1, 2])] for _ in range(rng.choice([0, 1, 1, 2]))]
    return {'cfg': cfg, 'ops': ops}


def shrink(plan):
    for k, op in enumerate(plan['ops']):
        for j in range(len(op.get('scribble', []))):
            p = copy.deepcopy(plan)
            del p['ops'][k]['scribble'][j]
            yield p
        if op.get('reuse'):
            p = copy.deepcopy(plan)
            p['ops'][k]['reuse'] = False
            yield p
        if op.get('layout', 'C') != 'C':
            p = copy.deepcopy(plan)
            p['ops'][k]['layout'] = 'C'
            yield p
    yield from shrink_default(plan)


def overwrite(a, how):
    """In place; False where the array cannot be written."""
    if not isinstance(a, np.ndarray) or a.size == 0:
        return False
    b = a
    if not b.flags.writeable:
        # read-only view for the surrogate, memory of the caller
        if b.base is not None or not b.flags.owndata:
            return False
        b.flags.writeable = True
    if b.dtype.kind == 'b':
        b[...] = ~b
        return True
    if b.dtype.kind not in 'fi':
        return False
    if how == 'nan':
        b[...] = np.nan if b.dtype.kind == 'f' else -1
    elif how == 'zero':
        b[...] = 0
    elif how == 'scale':
        b *= -3
    elif how == 'huge':
        b[...] = 1e200 if b.dtype.kind == 'f' else 10 ** 9
    else:
        b[...] = np.sort(b, axis=0)[::-1]
    return True


class Buffers:
    """Memory that a caller allocated once: the same array object for every
    request of one size, the same memory for all of them."""

    def __init__(self):
        self.big, self.view = {}, {}

    def put(self, name, a):
        if a is None:
            return None
        k = (name, a.shape[1:], a.dtype.str)
        if k not in self.big:
            self.big[k] = np.empty((128,) + a.shape[1:], a.dtype)
        v = self.view.setdefault((k, len(a)), self.big[k][:len(a)])
        v[...] = a
        return v


class Mem(Session):
    """Remembers every array that crossed the boundary."""
    layout = 'C'
    buf = None

    def begin(self):
        self.given, self.back, self.exports, self.hps = [], [], [], []

    def points(self, op):
        x = super().points(op)
        x = self.buf.put('points', x) if self.buf is not None else relay(x, self.layout)
        self.given.append(x)
        return x

    def op_data(self, op):
        self.tmp = None
        try:
            return super().op_data(op)
        finally:
            if self.tmp is not None:
                want = self.d.pool.pool.take(self.c, op['s'], max(1, op['n']), op.get('alt'))
                for k, v in self.tmp.items():
                    if not same(v, want[k]):
                        raise Violation('argument_changed', f'set_data changed its argument {k}: {v} was {want[k]}')
                    self.given.append(v)

    def op_set(self, op):
        make = self.gp.make_hp_class
        got = []

        def keep(**k):
            hp = make(**k)
            got.append(hp)
            return hp
        self.gp.make_hp_class = keep
        try:
            r = super().op_set(op)
        finally:
            del self.gp.make_hp_class
            for hp in got[:1]:
                # what is overwritten later is the object of the caller
                self.hps.append((hp, copy.deepcopy(vars(hp))))
        return r

    def op_poke(self, op):
        r = super().op_poke(op)
        for k, (hp, _) in enumerate(self.hps):
            self.hps[k] = (hp, copy.deepcopy(vars(hp)))
        return r

    def op_export(self, op):
        e = self.d.call(self.gp.export_data_surr, save2file=False)
        self.exports.append([e, copy.deepcopy(e), True, self.d.i])
        self.out = tuple(np.array(v) for k, v in e.items() if not k.endswith(TIMES))
        return 'ok'

    def op_load(self, op):
        # a session cannot go on from a history without its last row
        if not self.exports or self.exports[-1][3] != self.d.i:
            self.op_export(op)
        # a copy as it would come from a file
        e = {k: relay(v.copy(), self.layout) for k, v in self.exports[-1][1].items()}
        keep = copy.deepcopy(e)
        self.d.call(self.gp.load_data_surr, e)
        if not same(e, keep):
            raise Violation('argument_changed', 'load_data_surr changed the data it was given')
        self.given += list(e.values())
        h = [v for k, v in keep.items() if k.endswith('hp_beta_all')][0]
        self.rows = {i: r for i, r in self.rows.items() if np.all(np.isfinite(h[i]))}
        return 'ok'

    def check(self):
        for e, keep, live, _ in self.exports:
            if live and not same(e, keep):
                k = [q for q in e if not same(e[q], keep[q])]
                raise Violation('export_changed', f'an export that was handed out changed afterwards: {k}')
        for hp, keep in self.hps:
            if not same(vars(hp), keep):
                raise Violation('argument_changed', f'the hyperparameters {keep} of the caller became {vars(hp)}')


class RePool(LayPool):
    buf = None

    def take(self, c, s, n, alt=None):
        if self.buf is None:
            return super().take(c, s, n, alt)
        return {k: self.buf.put(k, v) for k, v in self.pool.take(c, s, n, alt).items()}


def play(plan, ctx, overwrites):
    s = Mem(plan['cfg'], ctx)
    s.posterior = False
    s.begin()
    lay = RePool(s.d.pool)
    s.d.pool = lay
    bufs = Buffers()
    n = [0, 0]
    todo = []

    def do(what, how):
        if what == 'export':
            for rec in s.exports:
                if rec[2]:
                    rec[2] = False
                    for v in rec[0].values():
                        n[0] += overwrite(v, how)
                    ctx.faults['overwritten:export'] += 1
            return
        v = s.given if what == 'given' else s.back
        for a in v:
            if overwrite(a, how):
                n[0] += 1
                ctx.faults['overwritten:' + what] += 1
        v.clear()

    def before(k, op):
        lay.how = s.layout = op.get('layout', 'C')
        lay.buf = s.buf = bufs if overwrites and op.get('reuse') else None
        if s.buf is not None:
            ctx.faults['reused:' + op['op']] += 1
        for t in [t for t in todo if t[0] == k]:
            do(t[1], t[2])

    def after(k, op):
        # results as the surrogate handed them out
        if isinstance(s.raw, tuple):
            s.back += [v for v in s.raw if isinstance(v, np.ndarray)]
        s.raw = None
        s.check()
        if op['op'] == 'optz' and n[0] >= 4:
            n[1] += 1
        if not overwrites:
            return
        for what, how, later in op.get('scribble', ()):
            if later == 0:
                do(what, how)
            else:
                todo.append((k + later, what, how))
    s.raw = None
    orig = s.try_eval

    def try_eval(*a, **k):
        s.raw = orig(*a, **k)
        return s.raw
    s.try_eval = try_eval
    obs = twin.play(s, plan['ops'], before, after)
    s.check()
    return obs, n


def run(plan, ctx):
    a, _ = play(plan, Ctx(), False)
    b, n = play(plan, ctx, True)
    twin.compare(a, b, 'shared_memory', 'with a caller that overwrites its arrays')
    ctx.ev([o['result'] for o in b[:-1]], b[-1]['hp'], n[0])
    ctx.nontrivial = n[0] >= 4 and n[1] >= 1
