"""C18: loading result files gives exactly the files in order, or an error."""
import copy
import errno
import gc
import io
import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np

from .. import disk as dk
from .. import seams
from ..core import Violation, Skip, same
from ..gpkit import quiet
from ..session import mk_exc, STOP
from .common import REAL, STUB

try:        # slow to import: once, before the runs are forked
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot
except ImportError:
    pass

ID = 'C18'
RUNS = {'quick': 1200, 'thorough': 50000}
RULE = ('one run = a folder of result files and several loads of lists of them, with faults at seeded opens and reads '
        '(I/O errors, short reads, early end, interrupts, no handles, files replaced or rewritten by another process '
        'meanwhile) and with torn, truncated, damaged, incomplete or missing files; non-trivial: at least one load '
        'gave data and one fault fired')
TECHNIQUE = ('deterministic simulation: simulated disk with faults and a concurrent writer at every open and read; '
             'comparison with a reference loader over all versions of the files')

NOTE = 'Seeded exploration. Loaded values are compared bit for bit.'

ASSUMPTIONS = ['a file has the format of the results: npz with two-dimensional arrays of one shape',
               'another process updates a file by replacing it, or rewrites it in place']
REAL = ['gpgradpy.results.PltOptzResults: load_npz_data, best_at_all_iter, plt_conv_nx0', 'numpy.load / zipfile', 'the real files']
STUB = ['reads of the files and the writer that changes them meanwhile: sim/disk.py']

KEYS = ('merit_all', 'opt_all', 'fsb_all', 'merit_wo_noise_all', 'opt_wo_noise_all', 'fsb_wo_noise_all')
READ = ('eio', 'eio_on', 'short', 'short_on', 'eof', 'interrupt', 'memory', 'handles', 'access', 'gone',
        'replace', 'replace', 'replace', 'inplace', 'line')
DAMAGE = ('truncated', 'truncated', 'flip', 'empty', 'text', 'missing_array', 'missing_array', 'missing_file', 'directory',
          'tail', 'name')


def gen(rng, tier):
    k = rng.choice([1, 2, 3, 4])
    size = rng.choice([(3, 8), (20, 60), (20, 200)])
    files = []
    for j in range(k):
        files.append({'x0': rng.choice([1, 2, size[0], rng.randint(1, 20)]), 'it': rng.choice([1, size[1], rng.randint(1, size[1])]),
                      'seed': rng.randrange(1 << 30), 'nan': rng.choice([0, 0, 0.1]), 'dt': rng.choice(['f8', 'f8', 'f4', 'i8', '>f8']),
                      'zip': rng.random() < 0.3, 'order': rng.choice('CF'), 'extra': rng.random() < 0.3,
                      'dir': rng.random() < 0.2})
    calls = []
    for _ in range(rng.choice([3, 5, 8])):
        lst = [rng.randrange(k) for _ in range(rng.choice([1, k, k, k + 1]))]
        if rng.random() < 0.5:
            lst = list(range(k))
            rng.shuffle(lst)
        c = {'list': lst, 'max': rng.choice([None, None, 1, 5, 60, 300, 1000]), 'x0': rng.choice([20, 20, 25]),
             'free': rng.random() < 0.5, 'rel': rng.random() < 0.2,
             'best': [rng.randrange(100), rng.choice(['min', 'max'])]}
        if rng.random() < 0.02:
            c['plot'] = True
        q = rng.random()
        if q < 0.45:
            c['fault'] = {'kind': rng.choice(READ), 'frac': round(rng.random(), 4), 'j': rng.randrange(k),
                          'seed': rng.randrange(1 << 20), 'exc': rng.choice(STOP)}
        elif q < 0.65:
            c['damage'] = {'kind': rng.choice(DAMAGE), 'j': rng.choice(lst), 'frac': round(rng.random(), 5),
                           'key': rng.choice(KEYS), 'back': rng.random() < 0.5}
        calls.append(c)
    return {'files': files, 'calls': calls}


def prepare():
    # its lines can be interrupted
    from gpgradpy.results import PltOptzResults


def shrink(plan):
    for k in range(len(plan['calls'])):
        p = copy.deepcopy(plan)
        del p['calls'][k]
        yield p
    for k, c in enumerate(plan['calls']):
        for f in ('fault', 'damage'):
            if c.get(f):
                p = copy.deepcopy(plan)
                del p['calls'][k][f]
                yield p
        for i in range(len(c['list'])):
            if len(c['list']) > 1:
                p = copy.deepcopy(plan)
                del p['calls'][k]['list'][i]
                yield p
    for j, f in enumerate(plan['files']):
        for q, v in (('x0', 1), ('it', 2), ('nan', 0), ('dt', 'f8'), ('zip', False), ('extra', False), ('order', 'C'), ('dir', False)):
            if f[q] != v:
                p = copy.deepcopy(plan)
                p['files'][j][q] = v
                yield p


def contents(f, version=0):
    r = np.random.RandomState((f['seed'] + 7919 * version) % (1 << 31))
    n0, n1 = f['x0'], f['it']
    if version:
        n0, n1 = max(1, min(20, n0 + r.randint(-1, 2))), max(1, n1 + r.randint(-1, 3))
    out = {}
    for k in KEYS:
        v = r.uniform(-5, 5, (n0, n1))
        if f['dt'] == 'i8':
            v = np.round(v * 10)
        elif f['nan']:
            v[r.uniform(size=v.shape) < f['nan']] = r.choice([np.nan, np.inf])
        out[k] = np.array(v, dtype=f['dt'], order=f['order'])
    if f['extra']:
        out['more'] = np.arange(5)
    return out


def raw_of(f, data):
    b = io.BytesIO()
    (np.savez_compressed if f['zip'] else np.savez)(b, **data)
    return b.getvalue()


def reference(datas, call):
    """What the loader must return for these contents."""
    sfx = '_wo_noise_all' if call['free'] else '_all'
    cap = 1000 if call['max'] is None else call['max']
    n0 = max(d['merit_all'].shape[0] for d in datas)
    n1 = max(min(cap, d['merit_all'].shape[1]) for d in datas) if call['max'] is None else cap
    out = []
    for q in ('merit', 'opt', 'fsb'):
        a = np.full((len(datas), n0, n1), np.nan)
        for i, d in enumerate(datas):
            v = d[q + sfx]
            m = min(cap, v.shape[1])
            a[i, :v.shape[0], :m] = v[:, :m]
        out.append(a)
    return out


def best_of(v, how):
    """Running minimum or maximum up to the last value that there is."""
    out, cur = np.full(v.size, np.nan), np.nan
    last = max([i for i in range(v.size) if not np.isnan(v[i])], default=-1)
    for i in range(last + 1):
        if np.isnan(cur) or (v[i] < cur if how == 'min' else v[i] > cur):
            cur = v[i]
        out[i] = cur
    return out


def in_numpy(err):
    """Was the error raised while numpy.load opened the file?"""
    tb = err.__traceback__
    while tb is not None:
        c = tb.tb_frame.f_code
        if c.co_name == 'load' and 'numpy' in c.co_filename:
            return True
        tb = tb.tb_next
    return False


class Run:
    def __init__(self, plan, ctx, root):
        self.plan, self.ctx = plan, ctx
        self.disk = dk.Disk(root, ctx)
        self.root = root
        os.mkdir(os.path.join(root, 'sub'))
        self.names, self.data = [], []
        for j, f in enumerate(plan['files']):
            n = ('sub/' if f['dir'] else '') + f'case_{j}.npz'
            self.names.append(n)
            d = contents(f)
            self.data.append(d)
            self.put(n, raw_of(f, d))

    def put(self, name, raw):
        """The file has these contents (outside of the simulation)."""
        p = os.path.join(self.root, name)
        with open(p, 'wb') as f:
            f.write(raw)
        q = os.path.join(self.disk.root, name)
        i = dk.Inode()
        i.live, i.durable = bytearray(raw), bytes(raw)
        self.disk.files[q] = i
        self.disk.durable[q] = i

    def load(self, call, names, at=None, exc=None):
        from gpgradpy.results.PltOptzResults import PltOptzResults
        kw = {'n_iter_max': call['max'], 'n_x0_init': call['x0'], 'load_noise_free_data': call['free']}
        c = seams.LineCounter(at, exc, 400000)
        folder = '.' if call['rel'] else self.root
        old = os.getcwd()
        if call['rel']:
            os.chdir(self.root)
        self.disk.nr = 0
        n0 = self.disk.n
        try:
            with dk.using(self.disk), quiet(), seams.LineHook(c):
                return PltOptzResults.load_npz_data(folder, names, **kw)
        finally:
            os.chdir(old)
            self.lines, self.where = c.n, c.where
            if self.disk.n != n0 + self.written:
                raise Violation('wrote', f'loading changed files: {self.disk.log[-3:]}')

    def events(self, call, names):
        """Number of opens and reads, and of lines."""
        n = [0]

        def hook(kind, p, size):
            n[0] += 1
            return size
        self.disk.rhook = hook
        self.written = 0
        try:
            out = self.load(call, names)
        finally:
            self.disk.rhook = None
        return n[0], self.lines, out

    def judge(self, out, cands, call, what):
        """out is what one of the combinations of versions gives."""
        for comb in itertools.product(*cands):
            want = reference(comb, call)
            if all(np.shape(a) == b.shape and same(np.asarray(a, float), b) for a, b in zip(out, want)):
                return comb
        raise Violation('loaded', f'{what}: the loaded data are not those of the files '
                        f'(shapes {[np.shape(a) for a in out]}, expected like {[b.shape for b in want]})')

    def closed(self, what, err=None):
        if err is not None and in_numpy(err):
            return                      # numpy closes it with the exception
        if err is None and self.disk.fds:
            gc.collect()
        if self.disk.fds:
            raise Violation('left_open', f'{what}: still open: '
                            f'{sorted(os.path.basename(e[3]) for e in self.disk.fds.values())}')

    def exact(self, call, what):
        names = [self.names[j] for j in call['list']]
        self.written = 0
        out = self.load(call, names)
        self.judge(out, [[self.data[j]] for j in call['list']], call, what)
        self.closed(what)
        return out

    def best(self, out, call):
        """The best value up to each iteration of what was loaded."""
        from gpgradpy.results.PltOptzResults import PltOptzResults
        v, how = call.get('best', [0, 'min'])
        a = out[v % 3]
        for q in range(3):
            row = a[(v + q) % a.shape[0], (v // 3 + q) % a.shape[1], :]
            if q == 1 and row.size > 2:
                row = row.copy()        # as of a run with failed iterations
                row[(v % row.size)::3] = np.nan
            keep = row.copy()
            with quiet(), np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = PltOptzResults.best_at_all_iter(row, how)
            want = best_of(keep, how)
            if not same(np.asarray(got, float), want):
                raise Violation('best_value', f'the best ({how}) values of {keep[:8]} are given as {np.asarray(got)[:8]}')
            if not same(row, keep):
                raise Violation('best_changed', 'the best values were written into the loaded data')
        if call.get('plot') and a.shape[0] <= 5:
            plt = matplotlib.pyplot
            plt.close('all')
            with quiet(), np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                PltOptzResults.plt_conv_nx0(False, 'value', a, label_vec=[f'case {i}' for i in range(a.shape[0])],
                                            str_data_minmax=how)
            lines = [x.get_ydata() for x in plt.gcf().axes[0].get_lines()]
            plt.close('all')
            want = [best_of(r, how) for c in a for r in c]
            if len(lines) != len(want) or not all(same(np.asarray(x, float), w) for x, w in zip(lines, want)):
                raise Violation('best_plotted', f'the curves of the best ({how}) values are not those of the data')
            self.ctx.probe('curves')

    def call(self, call):
        ctx, disk = self.ctx, self.disk
        names = [self.names[j] for j in call['list']]
        cands = [[self.data[j]] for j in call['list']]
        before = disk.names()
        f, dmg = call.get('fault'), call.get('damage')
        res = 'ok'
        if dmg:
            res = self.damaged(call, dmg)
        elif f:
            res = self.faulted(call, f, names, cands)
        else:
            out = self.exact(call, 'a load')
            self.best(out, call)
            for a in out:
                a[...] = -1.0           # the caller owns what was loaded
        if not f or f['kind'] not in ('replace', 'inplace'):
            if disk.names() != before:
                raise Violation('wrote', 'loading changed a file')
        if f or dmg:
            self.exact(call, 'a load after a failure')
        ctx.probe('loads_' + res)
        ctx.ev(res, call['list'], call['max'])
        ctx.state(res, (f or {}).get('kind'), (dmg or {}).get('kind'), call['free'], call['max'] is None, call['rel'],
                  len(call['list']))

    def faulted(self, call, f, names, cands):
        ctx, disk = self.ctx, self.disk
        n, lines, _ = self.events(call, names)
        kind = f['kind']
        at = 1 + min(int(f['frac'] * n), n - 1)
        k = {}
        exc = mk_exc(f['exc'])
        if kind == 'line':
            k = {'at': 1 + min(int(f['frac'] * lines), lines - 1), 'exc': exc}
        cnt = [0]
        fired = []
        j = f['j']
        new = contents(self.plan['files'][j], 1 + f['seed'])
        raw = raw_of(self.plan['files'][j], new)
        target = os.path.join(disk.root, self.names[j])
        writer = []
        self.written = 0

        def write_step():
            """One step of the process that rewrites a file in place."""
            i = disk.files[target]
            a = writer[0]
            if a == 0:
                i.live[:] = b''
            part = raw[a:a + max(1, len(raw) // 6 + 1)]
            i.live[a:a + len(part)] = part
            writer[0] += len(part)

        def hook(what, p, size):
            cnt[0] += 1
            if writer and writer[0] < len(raw):
                write_step()
            on = kind in ('eio_on', 'short_on', 'eof')
            if not (cnt[0] >= at if on else cnt[0] == at):
                return size
            first = not fired
            if kind in ('handles', 'access', 'gone'):
                if what == 'open':
                    fired.append(1)
                    e = {'handles': errno.EMFILE, 'access': errno.EACCES, 'gone': errno.ENOENT}[kind]
                    raise OSError(e, os.strerror(e) + ' (injected)', p)
                return size
            if kind == 'replace':
                fired.append(1)
                # as by os.replace of another process
                i = dk.Inode()
                i.live, i.durable = bytearray(raw), bytes(raw)
                disk.files[target] = i
                with dk.real_open(target + '.new', 'wb') as g:
                    g.write(raw)
                dk.real['replace'](target + '.new', target)
                return size
            if kind == 'inplace':
                fired.append(1)
                writer.append(0)
                write_step()
                return size
            if what != 'read':
                return size
            fired.append(1)
            if kind in ('eio', 'eio_on'):
                raise OSError(errno.EIO, 'Input/output error (injected)')
            if kind == 'interrupt':
                raise KeyboardInterrupt('injected')
            if kind == 'memory':
                raise MemoryError('injected')
            if kind in ('short', 'short_on'):
                return max(1, size // 3)
            if kind == 'eof':
                return 0
            return size
        disk.rhook = hook if kind != 'line' else None
        err = out = None
        try:
            out = self.load(call, names, **k)
        except Violation:
            raise
        except BaseException as e:
            err = e
            if not fired and not self.where:
                raise
        finally:
            disk.rhook = None
        if kind == 'line' and self.where:
            fired.append(1)
        if fired:
            ctx.faults['read:' + kind] += 1
        what = f'a load with {kind}'
        if kind == 'line' and err is not None:
            # the simulated interrupt can also hit between the end of a with
            # block and its exit, where a real one does not arrive
            err.__traceback__ = None
        self.closed(what, err)
        if kind in ('replace', 'inplace') and fired:
            old = self.data[j]
            self.data[j] = new
            if kind == 'inplace':
                disk.files[target].live[:] = raw
                with dk.real_open(target, 'wb') as g:
                    g.write(raw)
            cands = [[old, new] if q == j else c for q, c in zip(call['list'], cands)]
            if kind == 'replace' and err is not None:
                raise Violation('failed', f'a file that another process replaced completely made the load fail: {type(err).__name__}')
        if err is not None:
            if kind == 'line' and err is not exc:
                raise Violation('exc_changed', f'injected {exc!r}, the caller got {err!r}')
            if kind in ('interrupt',) and not isinstance(err, KeyboardInterrupt):
                raise Violation('exc_changed', f'an interrupt arrived as {err!r}')
            return 'error'
        if kind in ('line', 'interrupt') and fired:
            raise Violation('swallowed', 'an interrupt was swallowed')
        self.judge(out, cands, call, what)
        return 'ok'

    def damaged(self, call, dmg):
        """One of the files is not what it should be."""
        ctx, disk = self.ctx, self.disk
        j, kind = dmg['j'], dmg['kind']
        if j not in call['list']:
            raise Skip('damage')
        name = self.names[j]
        names = [self.names[q] for q in call['list']]
        path = os.path.join(disk.root, name)
        raw = bytes(disk.files[path].live)
        data = dict(self.data[j])
        cands = [[self.data[q]] for q in call['list']]
        exact_ok = False                # may the load succeed at all
        n = len(raw)
        if kind == 'truncated':
            self.put(name, raw[:min(int(dmg['frac'] * n), n - 1)])
        elif kind == 'flip':
            b = bytearray(raw)
            b[min(int(dmg['frac'] * n), n - 1)] ^= 1 << (int(dmg['frac'] * 1e5) % 8)
            self.put(name, bytes(b))
            exact_ok = True
        elif kind == 'tail':
            # zeros instead of the last part, as after a lost write
            q = min(int(dmg['frac'] * n), n - 1)
            self.put(name, raw[:q] + b'\0' * (n - q))
            exact_ok = raw[q:].count(0) == n - q
        elif kind == 'empty':
            self.put(name, b'')
        elif kind == 'text':
            self.put(name, b'merit_all = 3\n' * 40)
        elif kind == 'missing_array':
            key = dmg['key']
            del data[key]
            self.put(name, raw_of(self.plan['files'][j], data))
            exact_ok = ('wo_noise' in key) != call['free']
        elif kind in ('missing_file', 'directory'):
            del disk.files[path]
            dk.real['unlink'](path)
            if kind == 'directory':
                dk.real['mkdir'](path)
        elif kind == 'name':
            names = [q if q != name else q[:-4] for q in names]
        self.written = 0
        err = out = None
        before = disk.names()
        try:
            out = self.load(call, names)
        except Violation:
            raise
        except Exception as e:
            err = e
        self.closed(f'a load of a file that is damaged ({kind})', err)
        if disk.names() != before:
            raise Violation('wrote', 'loading changed a file')
        if kind == 'directory':
            dk.real['rmdir'](path)
        if kind != 'name':
            self.put(name, raw)
        ctx.faults['file:' + kind] += 1
        if err is not None:
            return 'error'
        if not exact_ok:
            raise Violation('accepted', f'a file that is damaged ({kind}) was loaded without an error')
        self.judge(out, cands, call, f'a file that is damaged ({kind})')
        return 'ok'


def run(plan, ctx):
    base = tempfile.mkdtemp(prefix='results', dir=os.environ.get('SIM_TMP'))
    try:
        root = os.path.join(base, 'd')
        os.mkdir(root)
        r = Run(plan, ctx, root)
        for c in plan['calls']:
            try:
                r.call(c)
            except Skip:
                ctx.probe('skipped_op')
        ctx.nontrivial = ctx.stats['loads_ok'] > 0 and sum(ctx.faults.values()) > 0
    finally:
        shutil.rmtree(base, ignore_errors=True)
