"""C06: saved data survive a crash, an I/O error or a full disk at any point."""
import copy
import io
import os
import random
import shutil
import tempfile

import numpy as np

from .. import disk as dk
from ..core import Violation, Skip, same
from ..gpkit import gen_cfg, make_gp, hist_of, quiet, POOL
from ..session import Session, gen_t
from .common import REAL, STUB

ID = 'C06'
RUNS = {'quick': 1200, 'thorough': 16000}
RULE = ('one run = a session with several saves of data and text, each with an optional fault at one of its file-system '
        'operations (crash, torn or short write, full disk, I/O error, interrupt), followed by recovery from several '
        'states that a crash at that moment can leave; non-trivial: at least one fault fired inside a save')
TECHNIQUE = 'deterministic simulation: simulated disk with durable-state model, crash at every file-system operation, recovery check'

NOTE = ('Seeded exploration over a model of the disk: file contents are durable at fsync, directory entries at fsync of '
        'the directory and in order before it, other writes may survive in any subset or torn.')

ASSUMPTIONS = ['rename is atomic, directory operations of one directory reach the disk in order',
               'one process saves to one name at a time']
REAL = REAL + ['numpy.savez / numpy.load / zipfile', 'the real files that are read back']
STUB = STUB + ['the disk: crash states are computed by the model in sim/disk.py']

KINDS = ('crash', 'crash', 'crash', 'torn', 'full', 'enospc', 'eio', 'short', 'interrupt', 'edquot')


def gen(rng, tier):
    cfg = gen_cfg(rng, dim=rng.choice([1, 2, 3]))
    cfg['opt']['optz_iter_max'] = 2
    cfg['opt']['lkd_hp_best_n_eval'] = 2
    cfg['hist'] = rng.choice([3, 6, 40])
    steps = []
    for _ in range(rng.choice([3, 5, 7] if tier == 'quick' else [4, 8, 12])):
        k = rng.choice(['npz', 'npz', 'npz', 'txt', 'change', 'change', 'load'])
        if rng.random() < 0.03:
            k = 'finish'
        st = {'k': k}
        if k == 'change':
            st.update(n=rng.choice([1, 2, 3]), s=rng.randrange(POOL))
        if k in ('npz', 'txt') and rng.random() < 0.7:
            st['again'] = rng.random() < 0.6
            st['fault'] = {'kind': rng.choice(KINDS),
                           'frac': round(rng.choice([rng.random(), rng.random() ** 3, 1 - rng.random() ** 3]), 5)}
        if k == 'npz':
            st['custom'] = rng.random() < 0.2
        if k == 'load' and rng.random() < 0.5:
            st['rfault'] = {'kind': rng.choice(['eio', 'short', 'interrupt', 'memory']), 'at': rng.choice([1, 1, 2, 4, 8])}
        steps.append(st)
    if rng.random() < 0.2:
        # the end of an optimisation
        steps += [{'k': 'change', 'n': 2, 's': rng.randrange(POOL)}, {'k': 'finish'}, {'k': 'npz', 'custom': False},
                  {'k': 'load'}]
    if not any(s['k'] in ('npz', 'txt') for s in steps):
        steps.append({'k': 'npz', 'fault': {'kind': 'crash', 'frac': 0.5}})
    return {'cfg': cfg, 'steps': steps, 'seed': rng.randrange(1 << 30), 'rel': rng.random() < 0.25,
            'first': rng.choice(['set', 'optz'])}


def shrink(plan):
    for k in range(len(plan['steps'])):
        p = copy.deepcopy(plan)
        del p['steps'][k]
        yield p
    for k, s in enumerate(plan['steps']):
        for f in ('fault', 'rfault', 'custom', 'again'):
            if s.get(f):
                p = copy.deepcopy(plan)
                del p['steps'][k][f]
                yield p
    if plan['rel']:
        yield dict(copy.deepcopy(plan), rel=False)
    if plan['cfg']['hist'] != 3:
        p = copy.deepcopy(plan)
        p['cfg']['hist'] = 3
        yield p
    from .common import shrink_default
    yield from shrink_default(plan)


def read_npz(data):
    with np.load(io.BytesIO(data)) as z:
        return {k: z[k] for k in z.files}


def fits(h, p):
    """A history that was new has the rows of a saved one."""
    return h.keys() == p.keys() and all(same(h[k][:len(p[k])], p[k]) for k in p) and \
        not np.any(np.isfinite(h['obj_hp_varK_all'][len(p['obj_hp_varK_all']):]))


class Store:
    """What was saved under one pair of names."""

    def __init__(self, new, old):
        self.new, self.old = new, old
        self.past = []              # everything that was ever passed to a save
        self.done = None            # index of the last save that returned
        self.open = None            # index of a save that did not return


class Run:
    def __init__(self, plan, ctx, root):
        self.plan, self.ctx, self.root = plan, ctx, root
        cfg = plan['cfg']
        self.disk = dk.Disk(root, ctx)
        path = 'surr' if plan['rel'] else os.path.join(root, 'surr')
        self.s = Session(cfg, ctx, path_data_surr=path)
        self.stores = {'npz': Store('surr.npz', 'surr_old.npz'), 'txt': Store('surr.txt', 'surr_old.txt'),
                       'custom': Store('mine.npz', 'mine_before.npz')}
        self.rng = random.Random(plan['seed'])
        self.spare = os.path.join(os.path.dirname(root), 'after')
        self.finished = False

    def fresh(self, path):
        return make_gp(self.plan['cfg'], path_data_surr=path)

    def restart(self):
        """A new process on what the crash has left; it goes on from there."""
        names = self.disk.survivors(self.rng)
        with quiet():
            for raw in self.disk.raws:
                try:
                    raw.close()
                except BaseException:
                    pass
        for n in os.listdir(self.root):
            os.unlink(os.path.join(self.root, n))
        self.disk = d = dk.Disk(self.root, self.ctx)
        for n, c in names.items():
            with open(os.path.join(self.root, n), 'wb') as f:
                f.write(c)
            i = d.files[os.path.join(d.root, n)] = dk.Inode()
            i.live, i.durable = bytearray(c), bytes(c)
            d.durable[os.path.join(d.root, n)] = i
        for k, st in self.stores.items():
            got = {n: names[n].decode() if k == 'txt' else read_npz(names[n]) for n in (st.old, st.new) if n in names}
            st.past = list(got.values())
            st.done, st.open = (len(got) - 1 if got else None), None
        path = 'surr' if self.plan['rel'] else os.path.join(self.root, 'surr')
        self.s = Session(self.plan['cfg'], self.ctx, path_data_surr=path)
        self.finished = False
        st = self.stores['npz']
        if st.done is not None:
            with dk.using(d), quiet():
                self.s.gp.load_data_surr()
            if not fits(hist_of(self.s.gp), st.past[st.done]):
                raise Violation('load', 'the restarted process did not load the saved data')
            self.s.d.i = int(np.sum(np.isfinite(st.past[st.done]['obj_hp_varK_all'])))
        self.ctx.probe('restarted')

    # ------------------------------------------------------------------ save --
    def content(self, k):
        gp = self.s.gp
        if k == 'txt':
            with quiet():
                return gp.get_txt_info_surr(print2screen=False, save2file=False)
        return hist_of(gp)

    def do_save(self, k, where=None):
        gp = self.s.gp
        with quiet():
            if k == 'txt':
                gp.get_txt_info_surr(print2screen=False, save2file=True)
            elif k == 'custom':
                b = '' if self.plan['rel'] and where is None else (where or self.root) + os.sep
                gp.export_data_surr(file2save=b + 'mine.npz', file2save_old=b + 'mine_before.npz')
            else:
                gp.export_data_surr()

    def count_ops(self, k):
        """Number of file-system operations of this save, measured in a forked
        process on a copy of the disk."""
        from ..session import dry_lines

        def probe():
            tmp = tempfile.mkdtemp(dir=os.path.dirname(self.root))
            try:
                d = dk.Disk(tmp)
                for st in self.stores.values():
                    for n in (st.new, st.old):
                        if n in self.disk.names():
                            i = dk.Inode()
                            i.live = bytearray(self.disk.names()[n])
                            with open(os.path.join(tmp, n), 'wb') as f:
                                f.write(i.live)
                            d.files[os.path.join(d.root, n)] = i
                gp = self.s.gp
                for a in ('path_surr_txt', 'path_surr_old_txt', 'path_surr_npz', 'path_surr_old_npz'):
                    setattr(gp, a, os.path.join(tmp, os.path.basename(getattr(gp, a))))
                with dk.using(d):
                    self.do_save(k, tmp)
                return d.n, 0, 0
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return dry_lines(probe)[0]

    def save(self, st):
        k = 'custom' if st.get('custom') else st['k']
        store, disk, ctx = self.stores[k], self.disk, self.ctx
        if self.s.d.args is None and k == 'txt':
            raise Skip('txt')
        store.past.append(self.content(k))
        me = len(store.past) - 1
        store.open = me
        f = st.get('fault')
        disk.fault, disk.fired, disk.enospc_left = None, [], None
        if f:
            n = self.count_ops(k)
            disk.fault = {'kind': f['kind'], 'at': disk.n + 1 + min(int(f['frac'] * n), max(n - 1, 0))}
        err = None
        was = disk.names()
        was = was.get(store.new, was.get(store.old))
        try:
            with dk.using(disk):
                self.do_save(k)
        except dk.Crash as e:
            err = e
        except (Exception, KeyboardInterrupt) as e:
            err = e
            if not disk.fired:
                raise
        disk.fault, disk.enospc_left = None, None
        for o in disk.log[-12:]:
            ctx.ev(*o)
        del disk.log[:]
        crashed = disk.dead
        if err is None and not crashed:
            store.done, store.open = me, None
            ctx.probe('saves_done')
            if was is not None and disk.names().get(store.old) != was:
                raise Violation('previous', f'the save returned but {store.old} does not hold what was saved before')
        else:
            ctx.probe('saves_failed')
        ctx.state(k, st.get('fault', {}).get('kind'), bool(disk.fired), crashed, store.done is not None,
                  len(store.past) > 2)
        # what a crash at this moment can leave
        for worst in ('none', 'all', None, None):
            self.recover(disk.survivors(self.rng, worst), 'crash')
        if crashed:
            return False
        self.recover(disk.names(), 'live')
        if store.open is not None:
            # a later crash is judged with the failed save as a candidate
            self.late = True
        return True

    # -------------------------------------------------------------- recovery --
    def allowed(self, store):
        a = [] if store.done is None else [store.done]
        last = -1 if store.done is None else store.done
        return a + [i for i in range(last + 1, len(store.past))]

    def recover(self, names, how):
        ctx = self.ctx
        for k, store in self.stores.items():
            if not store.past:
                continue
            ok = self.allowed(store)
            got = {}
            for n in (store.new, store.old):
                if n in names:
                    try:
                        got[n] = names[n].decode() if k == 'txt' else read_npz(names[n])
                    except Exception as e:
                        raise Violation('torn_file', f'after a {how} {n} is not complete: {type(e).__name__}: {e}')
                    if not any(same(got[n], p) for p in store.past):
                        raise Violation('torn_file', f'after a {how} {n} holds none of the saved contents')
            use = got.get(store.new, got.get(store.old))
            if use is None:
                if store.done is not None:
                    raise Violation('lost', f'{k}: save {store.done} had returned but after a {how} there is neither '
                                    f'{store.new} nor {store.old}; files: {sorted(names)}')
                continue
            if not any(same(use, store.past[i]) for i in ok):
                i = next(i for i, p in enumerate(store.past) if same(use, p))
                raise Violation('lost', f'{k}: save {store.done} had returned but after a {how} save {i} is found')
            ctx.probe('recovered')
            if k == 'npz':
                shutil.rmtree(self.spare, ignore_errors=True)
                os.mkdir(self.spare)
                for n, c in names.items():
                    with open(os.path.join(self.spare, n), 'wb') as f:
                        f.write(c)
                g = self.fresh(os.path.join(self.spare, 'surr'))
                with quiet():
                    g.load_data_surr()
                h = hist_of(g)
                if not any(fits(h, store.past[i]) for i in ok):
                    raise Violation('load', f'after a {how} the surrogate did not load the last saved data')
                ctx.probe('loaded')
                shutil.rmtree(self.spare, ignore_errors=True)

    def load(self, st):
        """A second surrogate loads from the live disk, with read faults."""
        store, disk = self.stores['npz'], self.disk
        if store.done is None and store.open is None:
            raise Skip('load')
        g = self.fresh(self.s.gp.path_surr_npz[:-len('.npz')])
        before = disk.names()
        disk.fired, disk.nr, disk.rfault = [], 0, st.get('rfault')
        err = None
        try:
            with dk.using(disk), quiet():
                g.load_data_surr()
        except (Exception, KeyboardInterrupt) as e:
            err = e
            if not disk.fired:
                raise
        disk.rfault = None
        ok = [store.past[i] for i in self.allowed(store)]
        if err is None:
            if disk.names().keys() & {store.new, store.old} and not any(fits(hist_of(g), p) for p in ok):
                raise Violation('load', f'loading reported success with {disk.fired} but the data are not those saved')
            self.ctx.probe('live_loads')
        else:
            self.ctx.probe('failed_loads')
            with dk.using(disk), quiet():
                g.load_data_surr()
            if not any(fits(hist_of(g), p) for p in ok):
                raise Violation('load', 'loading again after a failed load does not give the saved data')
        if disk.names() != before:
            raise Violation('load_wrote', 'loading changed the files')

    def finish(self, st):
        if self.s.d.i == 0:
            raise Skip('finish')
        with quiet():
            self.s.gp.finish_optz_surr(self.s.d.i)
        self.finished = True

    def change(self, st):
        if self.finished:
            raise Skip('finished')
        self.s.step({'op': 'data', 's': st['s'], 'n': st['n']})
        if self.s.step({'op': 'optz'}) == 'skip':
            raise Skip('full')


def run(plan, ctx):
    base = tempfile.mkdtemp(prefix='disk', dir=os.environ.get('SIM_TMP'))
    cwd = os.getcwd()
    try:
        root = os.path.join(base, 'd')
        os.mkdir(root)
        if plan['rel']:
            os.chdir(root)
        r = Run(plan, ctx, root)
        r.change({'s': 0, 'n': 2})
        for st in plan['steps']:
            try:
                if st['k'] in ('npz', 'txt'):
                    if not r.save(st):
                        if not st.get('again'):
                            break
                        r.restart()
                elif st['k'] == 'finish':
                    r.finish(st)
                elif st['k'] == 'load':
                    r.load(st)
                else:
                    r.change(st)
            except Skip:
                ctx.probe('skipped_op')
        ctx.nontrivial = any(k.startswith('disk:') for k in ctx.faults)
    finally:
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)
