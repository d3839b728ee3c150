"""C17: several surrogates share one store."""
import copy
import os
import random
import shutil
import tempfile

import numpy as np

from .. import disk as dk
from .. import seams
from ..core import Violation, Skip, same
from ..gpkit import gen_cfg, make_gp, hist_of, hp_of, same_hp, quiet, HIST, POOL
from ..session import Session, gen_fault, gen_t, mk_exc, STOP, hp_of_dict
from .common import REAL, STUB, shrink_default

ID = 'C17'
RUNS = {'quick': 700, 'thorough': 12000}
RULE = ('one run = two or three surrogates of different configurations whose exports are merged into one store, in '
        'memory and on the simulated disk, in a seeded order with failed, interrupted and refused operations and with '
        'crashes after which everything restarts from the disk; non-trivial: at least two surrogates exported, and one '
        'fault fired or one restart happened')
TECHNIQUE = ('deterministic simulation: seeded orders of exports, saves, loads and crashes of several surrogates on a '
             'simulated disk; refinement of a reference store')

NOTE = ('Seeded exploration. What is stored is compared bit for bit. Data of another configuration are those of another '
        'dimension, with more iterations than there is room for, or incomplete ones: the history holds nothing else '
        'that would identify its configuration.')

ASSUMPTIONS = ['the names of the surrogates differ', 'the disk behaves as modelled in sim/disk.py']
REAL = REAL + ['numpy.savez / numpy.load / zipfile', 'the real files that are read back']
STUB = STUB + ['the disk: crash states are computed by the model in sim/disk.py']

NAMES = ['obj_', 'con_', 'obj_2_', 'f', 'ff', '', 'con_1_', 'con_10_', 'Obj_']
KINDS = ('crash', 'crash', 'crash', 'torn', 'full', 'enospc', 'eio', 'short', 'interrupt')


def frac(rng):
    return round(rng.choice([rng.random(), rng.random() ** 3, 1 - rng.random() ** 3]), 5)


def gen(rng, tier):
    k = rng.choice([2, 2, 3])
    cfgs = []
    base = gen_cfg(rng)
    for _ in range(k):
        c = gen_cfg(rng) if rng.random() < 0.7 else copy.deepcopy(base)
        c['opt']['optz_iter_max'] = rng.choice([2, 4])
        c['opt']['lkd_hp_best_n_eval'] = 2
        c['hist'] = rng.choice([2, 4, 8])
        c['name'] = None
        cfgs.append(c)
    for c, n in zip(cfgs, rng.sample(NAMES, k)):
        c['name'] = n
    ops = [{'op': 'work', 'o': i, 's': rng.randrange(POOL), 'n': rng.choice([1, 2, 3])} for i in range(k)]
    ops += [{'op': 'export', 'o': i} for i in range(k)]
    names = ['work', 'export', 'save', 'load', 'back', 'bad', 'die', 'set', 'finish', 'mix']
    wts = [5, 5, 4, 3, 2, 3, 1.5, 2, 0.4, 2]
    for _ in range(rng.choice([8, 12, 18] if tier == 'quick' else [12, 24])):
        op = {'op': rng.choices(names, wts)[0], 'o': rng.randrange(k), 's': rng.randrange(POOL), 'n': rng.choice([1, 2, 3, 4])}
        q = op['op']
        if q == 'work' and rng.random() < 0.3:
            op['fault'] = gen_fault(rng)
        if q == 'export' and rng.random() < 0.4:
            op['stop'] = [frac(rng), rng.choice(STOP)]
        if q == 'export':
            op['to'] = rng.choice(['store', 'store', 'store', 'own'])
        if q == 'save' and rng.random() < 0.6:
            op['fault'] = {'kind': rng.choice(KINDS), 'frac': frac(rng)}
        if q in ('load', 'back'):
            op['via'] = rng.choice(['mem', 'file', 'npz'])
            if rng.random() < 0.3:
                op['stop'] = [frac(rng), rng.choice(STOP)]
        if q == 'load':
            op['room'] = rng.choice([0, 0, 3])
        if q == 'bad':
            op['kind'] = rng.choice(['dim', 'dim', 'rows', 'missing', 'missing', 'short', 'name', 'torn'])
            op['seed'] = rng.randrange(1 << 20)
        if q == 'set':
            op.update(gen_t(rng))
        ops.append(op)
    return {'cfgs': cfgs, 'ops': ops, 'seed': rng.randrange(1 << 30)}


def shrink(plan):
    yield from shrink_default(plan)
    for k, op in enumerate(plan['ops']):
        if op.get('stop'):
            p = copy.deepcopy(plan)
            del p['ops'][k]['stop']
            yield p
    if len(plan['cfgs']) > 2 and all(op['o'] != 2 for op in plan['ops']):
        p = copy.deepcopy(plan)
        p['cfgs'] = p['cfgs'][:2]
        yield p
    for j, c in enumerate(plan['cfgs']):
        for q in shrink_default({'cfg': c}):
            p = copy.deepcopy(plan)
            p['cfgs'][j] = q['cfg']
            yield p


class Run:
    def __init__(self, plan, ctx, base):
        self.plan, self.ctx, self.base = plan, ctx, base
        self.rng = random.Random(plan['seed'])
        self.epoch = 0
        self.past = []                  # contents that were ever passed to a save
        self.done = None
        self.new_disk({})
        k = len(plan['cfgs'])
        self.rooms = [c['hist'] for c in plan['cfgs']]
        self.want = [None] * k          # what each exported last into the store
        self.last = [None] * k          # data and rows at that moment
        self.store = {}
        self.ss = [self.session(j) for j in range(k)]
        self.fin = [False] * k

    # -------------------------------------------------------------- process --
    def session(self, j):
        c = dict(self.plan['cfgs'][j], hist=self.rooms[j])
        return Session(c, self.ctx, path_data_surr=os.path.join(self.root, f'own{j}'), surr_name=c['name'])

    def new_disk(self, names):
        self.epoch += 1
        self.root = os.path.join(self.base, f'd{self.epoch}')
        os.mkdir(self.root)
        self.disk = dk.Disk(self.root, self.ctx)
        for n, data in names.items():
            i = dk.Inode()
            i.live, i.durable = bytearray(data), bytes(data)
            p = os.path.join(self.disk.root, n)
            with open(p, 'wb') as f:
                f.write(data)
            self.disk.files[p] = i
            self.disk.durable[p] = i

    def path(self, n):
        return os.path.join(self.root, n)

    def read(self, root=None):
        """What a new process finds."""
        root = root or self.root
        for n in ('store.npz', 'store_old.npz'):
            p = os.path.join(root, n)
            if os.path.isfile(p):
                try:
                    with np.load(p) as z:
                        return {k: z[k] for k in z.files}
                except Exception as e:
                    raise Violation('torn_file', f'{n} cannot be read: {type(e).__name__}: {e}')
        return None

    def allowed(self):
        last = -1 if self.done is None else self.done
        return [i for i in range(len(self.past)) if i >= last]

    def which(self, got, where):
        """Index of the saved contents that were found."""
        if got is None:
            if self.done is not None:
                raise Violation('lost', f'{where}: nothing is found although a save had returned')
            return None
        for i in self.allowed():
            if same(got, self.past[i][0]):
                return i
        raise Violation('mixed_file', f'{where}: the file holds none of the contents saved since the last save that '
                        f'returned; its names are {sorted(got)[:6]}…')

    def restart(self, names):
        ctx = self.ctx
        self.new_disk(names)
        got = self.read()
        i = self.which(got, 'after a restart')
        k = len(self.want)
        if i is None:
            self.store, self.want, self.last = {}, [None] * k, [None] * k
            self.past, self.done = [], None
        else:
            self.store = got
            _, self.want, self.last = copy.deepcopy(self.past[i])
            self.past, self.done = [copy.deepcopy(self.past[i])], 0
        for j in range(k):
            self.ss[j] = self.session(j)
            self.fin[j] = False
            if self.want[j] is not None:
                self.back(j, self.store)
        ctx.probe('restarts')

    # ------------------------------------------------------------- operations --
    def work(self, op):
        j = op['o']
        s = self.ss[j]
        if self.fin[j] or s.d.i >= s.c['hist']:
            raise Skip('full')
        r = s.step({'op': 'data', 's': op['s'], 'n': op['n']})
        r = s.step({'op': 'optz', 'fault': op.get('fault')})
        if r == 'skip':
            raise Skip('optz')

    def export(self, op):
        j = op['o']
        s = self.ss[j]
        gp = s.gp
        own = self.path(f'own{j}.npz')
        before = hist_of(gp)
        if op.get('to') == 'own':
            fn = lambda **k: s.d.call(gp.export_data_surr, **k)
        else:
            fn = lambda **k: s.d.call(gp.export_data_surr, save2file=False, **k)
        names = self.disk.names()
        exp = None
        try:
            with dk.using(self.disk):
                exp = self.stopped(s, lambda **k: s.d.call(gp.export_data_surr, save2file=False, **k)
                                   if op.get('stop') else fn(**k), op)
        except Stopped:
            pass
        if not same(hist_of(gp), before):
            raise Violation('export_changed', 'exporting changed the history of the surrogate')
        if exp is None:
            return
        need = {s.c['name'] + q for q in HIST}
        if set(exp) != need:
            raise Violation('exported_names', f'{s.c["name"]!r} exported {sorted(set(exp) ^ need)} too much or too little')
        if not same({k: np.array(v) for k, v in exp.items()}, before):
            raise Violation('exported', 'the exported data are not the history')
        if op.get('to') == 'own' and not op.get('stop'):
            now = self.disk.names()
            for n in now:
                if not n.startswith(f'own{j}') and now[n] != names.get(n):
                    raise Violation('wrote_other', f'exporting {j} changed the file {n}')
        self.store.update(exp)
        self.want[j] = copy.deepcopy({k: np.array(v) for k, v in exp.items()})
        self.last[j] = (s.d.i, copy.deepcopy(s.d.args), copy.deepcopy(s.rows))
        self.ctx.probe('exports')

    def stopped(self, s, fn, op):
        """fn under the interrupt of the operation, if there is one."""
        if not op.get('stop'):
            return fn()
        n = s._measure(fn)[0]
        exc = mk_exc(op['stop'][1])
        try:
            out = fn(at=seams.spot(n, op['stop'][0]), exc=exc)
        except BaseException as e:
            if e is not exc:
                raise
            self.ctx.faults['line:' + op['stop'][1]] += 1
            raise Stopped()
        if s.d.where:
            raise Violation('swallowed', f'{exc!r} injected at {s.d.where} was swallowed')
        return out

    def save(self, op):
        """The merged store goes to the disk."""
        if not self.store:
            raise Skip('nothing')
        j, disk, ctx = op['o'], self.disk, self.ctx
        gp = self.ss[j].gp
        a, b = self.path('store.npz'), self.path('store_old.npz')
        keep = copy.deepcopy(self.store)
        self.past.append((keep, copy.deepcopy(self.want), copy.deepcopy(self.last)))
        me = len(self.past) - 1
        f = op.get('fault')
        disk.fault, disk.fired, disk.enospc_left = None, [], None
        if f:
            n = self.count(keep, gp)
            disk.fault = {'kind': f['kind'], 'at': disk.n + 1 + min(int(f['frac'] * n), max(n - 1, 0))}
        err = None
        try:
            with dk.using(disk), quiet():
                gp.save_npz_data(self.store, a, b)
        except dk.Crash as e:
            err = e
        except (Exception, KeyboardInterrupt) as e:
            err = e
            if not disk.fired:
                raise
        disk.fault, disk.enospc_left = None, None
        del disk.log[:]
        if err is None and not disk.dead:
            self.done = me
            ctx.probe('saves_done')
        else:
            ctx.probe('saves_failed')
        # what a new process would find
        for how in ('none', 'all', None):
            names = disk.survivors(self.rng, how)
            tmp = os.path.join(self.base, 'look')
            os.mkdir(tmp)
            for n, data in names.items():
                with open(os.path.join(tmp, n), 'wb') as g:
                    g.write(data)
            try:
                self.which(self.read(tmp), 'after a crash')
            finally:
                shutil.rmtree(tmp)
        if disk.dead:
            self.restart(disk.survivors(self.rng))
        else:
            self.which(self.read(), 'after a save')

    def count(self, data, gp):
        from ..session import dry_lines

        def probe():
            tmp = tempfile.mkdtemp(dir=self.base)
            try:
                d = dk.Disk(tmp)
                for n in ('store.npz', 'store_old.npz'):
                    if n in self.disk.names():
                        i = dk.Inode()
                        i.live = bytearray(self.disk.names()[n])
                        with open(os.path.join(tmp, n), 'wb') as f:
                            f.write(i.live)
                        d.files[os.path.join(d.root, n)] = i
                with dk.using(d):
                    gp.save_npz_data(data, os.path.join(tmp, 'store.npz'), os.path.join(tmp, 'store_old.npz'))
                return d.n, 0, 0
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return dry_lines(probe)[0]

    def die(self, op):
        """The process ends without a save; everything restarts from the disk."""
        self.ctx.faults['crash:process'] += 1
        self.restart(self.disk.survivors(self.rng) if op['n'] > 2 else self.disk.names())

    def source(self, op, j):
        """(data to load, the stored ones they are)"""
        if op.get('via') in ('file', 'npz') and self.done is not None:
            got = self.read()
            i = self.which(got, 'before loading')
            if i is not None and self.past[i][1][j] is not None:
                want, last = self.past[i][1][j], self.past[i][2][j]
                n = 'store.npz' if os.path.isfile(self.path('store.npz')) else 'store_old.npz'
                return (got if op['via'] == 'file' else np.load(self.path(n))), want, last
        if self.want[j] is None:
            raise Skip('load')
        return self.store, self.want[j], self.last[j]

    def loaded(self, gp, want, room):
        h = hist_of(gp)
        for k, v in want.items():
            if not same(h[k][:len(v)], v):
                raise Violation('loaded', f'{k} is {h[k][:len(v)].tolist()} after loading {v.tolist()}')
            rest = h[k][len(v):]
            if rest.size and not same(rest, np.full(rest.shape, False if v.dtype == bool else np.nan, dtype=v.dtype)):
                raise Violation('loaded_more', f'{k} is {rest.tolist()} beyond the loaded rows')

    def load(self, op):
        """A new surrogate of the same name reads its part of the store."""
        j = op['o']
        src, want, last = self.source(op, j)
        keep = copy.deepcopy(dict(src))
        c = dict(self.plan['cfgs'][j], hist=self.rooms[j] + op['room'])
        s = Session(c, self.ctx, path_data_surr=self.path('none'), surr_name=c['name'])
        fn = lambda **k: s.d.call(s.gp.load_data_surr, src, **k)
        try:
            self.stopped(s, fn, op)
        except Stopped:
            fn()
        self.loaded(s.gp, want, c['hist'])
        if not same(dict(src), keep):
            raise Violation('load_changed', 'loading changed the store')
        self.restored(s, last)
        if not same(dict(src), keep):
            raise Violation('load_changed', 'using a surrogate that was loaded changed the store')
        if hasattr(src, 'close'):
            src.close()
        self.ctx.probe('loads')

    def restored(self, s, last):
        i, args, rows = last
        if args is None or not rows:
            return
        r = max(rows)
        s.d.call(s.gp.set_data, **copy.deepcopy(args))
        s.d.args, s.d.i = copy.deepcopy(args), i
        s.d.call(s.gp.set_hpara, 'stored', r)
        if not same_hp(hp_of(s.gp), rows[r]['hp']):
            raise Violation('restored', f'row {r} was stored with {rows[r]["hp"]} and is restored as {hp_of(s.gp)}')
        s.d.ready, s.dirty, s.maybe = True, False, False
        s.setup_hp = hp_of(s.gp)
        s.rows = copy.deepcopy(rows)
        x = s.d.pool.xe[:2].copy()
        s.d.check_posterior(s.d.call(s.gp.eval_model, x), x)
        self.ctx.probe('restored')

    def seen(self, s):
        """What is evaluated."""
        x = s.d.pool.xe[:3].copy()
        out = s.try_eval(x, True)
        return (type(out).__name__ if isinstance(out, Exception) else [np.array(v) for v in out if v is not None]), hp_of(s.gp)

    def back(self, j, src, op=None):
        """The live surrogate takes back what it exported last."""
        s = self.ss[j]
        before = self.seen(s)
        keep = copy.deepcopy(dict(src))
        fn = lambda **k: s.d.call(s.gp.load_data_surr, src, **k)
        try:
            self.stopped(s, fn, op or {})
        except Stopped:
            if not same(self.seen(s), before):
                raise Violation('load_evaluated', 'an interrupted load changed what is evaluated')
            fn()
        if not same(self.seen(s), before):
            raise Violation('load_evaluated', 'loading changed what is evaluated before a new setup')
        if not same(dict(src), keep):
            raise Violation('load_changed', 'loading changed the store')
        self.loaded(s.gp, self.want[j], s.c['hist'])
        i, args, rows = self.last[j]
        s.rows = copy.deepcopy(rows)
        s.d.i = i
        if args is not None and rows:
            self.restored(s, self.last[j])
        self.ctx.probe('taken_back')

    def op_back(self, op):
        j = op['o']
        if self.fin[j] or self.want[j] is None or len(next(iter(self.want[j].values()))) != self.rooms[j]:
            raise Skip('back')
        self.back(j, self.store, op)

    def set(self, op):
        if self.ss[op['o']].step(dict(op, op='set')) == 'skip':
            raise Skip('set')

    def finish(self, op):
        j = op['o']
        s = self.ss[j]
        if self.fin[j] or s.d.i < 1:
            raise Skip('finish')
        s.d.call(s.gp.finish_optz_surr, s.d.i)
        self.fin[j] = True

    def mix(self, op):
        """Exports of all, one after another, in a seeded order."""
        o = list(range(len(self.ss)))
        random.Random(op['s']).shuffle(o)
        for j in o:
            self.export({'o': j})

    def bad(self, op):
        """Data that are not those of the surrogate are refused."""
        j = op['o']
        s = self.ss[j]
        if self.fin[j]:
            raise Skip('bad')
        r = random.Random(op['seed'])
        n, d, name = s.c['hist'], s.c['dim'], s.c['name']
        data = {k: np.array(v) for k, v in self.store.items()}
        data.update({k: np.array(v) for k, v in hist_of(s.gp).items()})
        kind = op['kind']
        if kind == 'dim':
            e = r.choice([q for q in (1, 2, 3, 4) if q != d])
            for q in ('hp_theta_all', 'xvec_rescaling_all'):
                data[name + q] = np.full((n, e), 0.5)
        elif kind == 'rows':
            for q in HIST:
                v = data[name + q]
                data[name + q] = np.concatenate([v, v[:1]])
        elif kind == 'missing':
            del data[name + r.choice(HIST)]
        elif kind == 'short':
            q = name + r.choice(HIST)
            data[q] = data[q][:r.choice([1, n - 1])]
        elif kind == 'name':
            for q in HIST:
                data['other_' + q] = data.pop(name + q)
        before, h = self.seen(s), hist_of(s.gp)
        try:
            if kind == 'torn':
                p = self.path('torn')
                np.savez(p + '.npz', **data)
                size = os.path.getsize(p + '.npz')
                os.truncate(p + '.npz', r.randrange(size))
                gp = make_gp(s.c, path_data_surr=p, surr_name=name)
                h = hist_of(gp)
                try:
                    s.d.call(gp.load_data_surr)
                finally:
                    os.unlink(p + '.npz')
                    if not same(hist_of(gp), h):
                        raise Violation('refused_changed', 'a torn file was loaded in part')
                    h = hist_of(s.gp)
            else:
                s.d.call(s.gp.load_data_surr, data)
        except Violation:
            raise
        except Exception:
            self.ctx.faults['refused:' + kind] += 1
        else:
            raise Violation('accepted', f'data were accepted that are not those of the surrogate ({kind}, dimension {d}, '
                            f'{n} iterations)')
        if not same(hist_of(s.gp), h):
            raise Violation('refused_changed', f'data that were refused ({kind}) changed the history')
        if not same(self.seen(s), before):
            raise Violation('refused_changed', f'data that were refused ({kind}) changed what is evaluated')

    # ----------------------------------------------------------------- checks --
    def check(self):
        seen = set()
        for j, w in enumerate(self.want):
            if w is None:
                continue
            for k, v in w.items():
                if k not in self.store or not same(np.asarray(self.store[k]), v):
                    raise Violation('store_changed', f'the entry {k} of the store is not what was exported last')
            seen |= set(w)
        if set(self.store) != seen:
            raise Violation('store_changed', f'the store has the unknown entries {sorted(set(self.store) - seen)}')

    def step(self, op):
        k = op['op']
        getattr(self, 'op_back' if k == 'back' else k)(op)
        self.check()
        self.ctx.ev(k, op['o'], sorted(self.store)[:3], [None if w is None else w[c['name'] + 'hp_theta_all']
                                                         for w, c in zip(self.want, self.plan['cfgs'])])
        self.ctx.state(k, (op.get('fault') or {}).get('kind'), op.get('kind'), bool(op.get('stop')),
                       tuple(w is not None for w in self.want), self.done is not None, tuple(self.fin), op.get('via'))


class Stopped(Exception):
    """The injected interrupt came through."""


def run(plan, ctx):
    base = tempfile.mkdtemp(prefix='share', dir=os.environ.get('SIM_TMP'))
    try:
        r = Run(plan, ctx, base)
        for op in plan['ops']:
            if op['o'] >= len(r.ss):
                continue
            try:
                r.step(op)
            except Skip:
                ctx.probe('skipped_op')
        ctx.nontrivial = sum(w is not None for w in r.want) >= 2 and (sum(ctx.faults.values()) > 0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
