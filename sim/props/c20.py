"""C20: the text report."""
import contextlib
import copy
import os
import re
import shutil
import sys
import tempfile

import numpy as np

from .. import disk as dk
from .. import seams, twin
from ..core import Ctx, Violation, Skip, same
from ..gpkit import gen_cfg, quirks, tight, hist_of, hp_of, POOL
from ..proc import isolated
from ..search import noisy
from ..session import Session, gen_ops, mk_exc, STOP
from .common import shrink_default, REAL, STUB

ID = 'C20'
RUNS = {'quick': 700, 'thorough': 30000}
RULE = ('one run = one seeded session with reports between its calls: all parts, printed or saved or neither, some of '
        'them interrupted at a seeded line, with an output stream that fails or a disk that fails; every number of the '
        'report is compared with the exported history and the options, and the session is compared with the same '
        'session without reports; non-trivial: at least three reports were compared and one row of the history was set')
TECHNIQUE = ('deterministic simulation: reports at seeded points of a session with interrupts, failing output streams and '
             'disk faults; comparison with the exported history and with the session without reports')

NOTE = 'Seeded exploration. Numbers are compared to the printed precision.'

ASSUMPTIONS = ['the layout of the report (titles, column names, "name = value" lines) is part of its behaviour']
REAL = REAL + ['tabulate', 'the real files that are read back']
STUB = STUB + ['the output stream; the disk where a disk fault is planned']

PARTS = ('all', 'all', 'all', 'options', 'summary', 'theta', 'optz', 'data')
OPTIONS = ('dim', 'use_grad', 'wellcond_mtd', 'kernel_type', 'mean_fun_type', 'surr_name', 'b_has_noisy_data',
           'b_optz_var_fval', 'b_optz_var_fgrad', 'optz_mtd', 'optz_n_x0', 'optz_iter_max', 'optz_tol_obj', 'optz_tol_x',
           'optz_log_hp_theta', 'optz_log_hp_var', 'optz_log_hp_kernel', 'lkd_optz_start_avail', 'lkd_optz_start_mtd',
           'lkd_hp_best_n_eval', 'lkd_varK_pnlt_use', 'lkd_varK_pnlt_lb_var', 'lkd_varK_pnlt_c1', 'lkd_varK_pnlt_c2',
           'hp_const_n_eval', 'hp_lhs_bound_factor', 'hp_box_bound_factor', 'hp_median_n_idx', 'hp_theta_init',
           'hp_varK_init', 'hp_kernel_init', 'hp_var_fval_init', 'hp_var_fgrad_init', 'hp_theta_range', 'hp_varK_range',
           'hp_kernel_range', 'hp_var_fval_range', 'hp_var_fgrad_range', 'cond_eta_set_mtd', 'cond_eta_is_const',
           'cond_eta_dflt', 'cond_max_target', 'cond_max', 'cond_max_abs', 'cond_norm', 'cond_dist_min_dflt',
           'cond_dist_max_dflt', 'cond_vreq_max_iter', 'cond_vreq_iter_tol')
# options that may be changed in a session without a new surrogate
SET = {'optz_n_x0': [1, 2, 4], 'optz_iter_max': [2, 5, 7], 'lkd_hp_best_n_eval': [2, 6], 'hp_lhs_bound_factor': [1e2, 50.0],
       'hp_box_bound_factor': [1e4, 1e2], 'hp_median_n_idx': [1, 2, 4], 'lkd_varK_pnlt_c1': [2.0, 0.5],
       'lkd_varK_pnlt_c2': [1.5, 3.0], 'optz_tol_obj': [1e-5, 1e-7], 'optz_tol_x': [1e-5, 1e-7],
       'hp_theta_range': [[1e-4, 1e3], [2e-3, 5e1]], 'cond_vreq_max_iter': [1, 3], 'hp_var_fval_init': [1e-3, 2e-5],
       'lkd_optz_start_mtd': ['lhs', 'hp_best']}


def gen_report(rng):
    r = {'part': rng.choice(PARTS), 'screen': rng.choice([True, False, False, None]),
         'save': rng.choice([True, False, False, None])}
    q = rng.random()
    if q < 0.2:
        r['fault'] = {'kind': 'line', 'frac': round(rng.choice([rng.random(), 1 - rng.random() ** 3]), 5),
                      'exc': rng.choice(STOP)}
    elif q < 0.32:
        r['fault'] = {'kind': 'out', 'at': rng.choice([1, 1, 2]), 'exc': rng.choice(['BrokenPipeError', 'OSError',
                                                                                   'KeyboardInterrupt', 'UnicodeError'])}
        r['screen'] = True
    elif q < 0.45:
        r['fault'] = {'kind': 'disk', 'what': rng.choice(['eio', 'enospc', 'full', 'short', 'interrupt']),
                      'frac': round(rng.random(), 5)}
        r['part'], r['save'] = 'all', True
    return r


def gen(rng, tier):
    cfg = gen_cfg(rng, dim=rng.choice([1, 2, 2, 3, 4, 5]))
    quirks(rng, cfg, 0.25)
    tight(rng, cfg)
    cfg['opt']['optz_iter_max'] = rng.choice([2, 4])
    cfg['opt']['lkd_hp_best_n_eval'] = rng.choice([2, 4])
    cfg['hist'] = rng.choice([3, 6, 12])
    ops = gen_ops(rng, rng.choice([4, 6, 8]), faults=0.15, bad=0.2, 
                  extra=(('direct', 1), ('method', rng.choice([0, 0, 0.5]))))
    for _ in range(rng.choice([0, 1, 2])):
        k = rng.choice(sorted(SET))
        ops.insert(rng.randrange(1, len(ops) + 1), {'op': 'option', 'k': k, 'v': rng.choice(SET[k])})
    if rng.random() < 0.3:
        ops.insert(rng.randrange(2, len(ops) + 1), {'op': 'reload', 'room': rng.choice([0, 2])})
    if rng.random() < 0.3:
        ops.append({'op': 'finish'})
    for op in ops:
        op['reports'] = [gen_report(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
    return {'cfg': cfg, 'ops': ops, 'screen': rng.random() < 0.5, 'save': rng.random() < 0.5}


def shrink(plan):
    for k, op in enumerate(plan['ops']):
        if op.get('reports'):
            p = copy.deepcopy(plan)
            p['ops'][k]['reports'] = []
            yield p
            for j, r in enumerate(op['reports']):
                p = copy.deepcopy(plan)
                del p['ops'][k]['reports'][j]
                yield p
                if r.get('fault'):
                    p = copy.deepcopy(plan)
                    del p['ops'][k]['reports'][j]['fault']
                    yield p
    yield from shrink_default(plan)


class Out:
    """An output stream that may fail."""

    def __init__(self, at=None, exc=None):
        self.text, self.n, self.at, self.exc, self.fired = [], 0, at, exc, False

    def write(self, s):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise self.exc
        self.text.append(s)
        return len(s)

    def flush(self):
        pass

    def value(self):
        return ''.join(self.text)


OUT_EXC = {'BrokenPipeError': BrokenPipeError, 'OSError': OSError, 'KeyboardInterrupt': KeyboardInterrupt,
           'UnicodeError': UnicodeError}


# ------------------------------------------------------------------ reading --
def table(text, title):
    """(column names, rows of numbers) of the table below a title."""
    lines = text.split('\n')
    at = [k for k, l in enumerate(lines) if l.strip() == title]
    if len(at) != 1:
        raise Violation('table', f'{len(at)} tables "{title}" in the report')
    rows = []
    for l in lines[at[0] + 1:]:
        if not l.startswith('|'):
            break
        if set(l) <= set('|-+: '):
            continue
        rows.append([c.strip() for c in l.strip().strip('|').split('|')])
    if not rows:
        raise Violation('table', f'the table "{title}" is empty')
    try:
        return rows[0], [[float(c) for c in r] for r in rows[1:]]
    except ValueError as e:
        raise Violation('table', f'"{title}": {e}')


def close(got, want, tol):
    if want != want:
        return got != got
    return abs(got - want) <= tol * abs(want) + 1e-300


def options(text):
    out = {}
    for l in text.split('\n'):
        m = re.match(r'^ (\w+)\s+= (.*)$', l)
        if m:
            if m.group(1) in out:
                raise Violation('options', f'option {m.group(1)} is shown twice')
            out[m.group(1)] = m.group(2).strip()
    return out


class Reporting(Session):
    def prepare(self, plan, root):
        gp = self.gp
        self.root, self.plan = root, plan
        self.judged = 0
        self.posterior = False
        gp.print_txt_data, gp.save_data_txt = plan['screen'], plan['save']
        self.opts = {}
        for k in OPTIONS:
            if k.startswith('b_'):
                continue
            self.opts[k] = copy.deepcopy(getattr(gp, k))
        self.opts.update(copy.deepcopy(self.c['opt']))
        self.opts['cond_eta_is_const'] = gp.cond_eta_is_const
        self.opts.update(dim=self.c['dim'], use_grad=self.c['ug'], kernel_type=self.c['kernel'],
                         wellcond_mtd=self.c['wc'], b_has_noisy_data=noisy(self.c),
                         b_optz_var_fval=self.c['nf'] == 'unknown',
                         b_optz_var_fgrad=self.c['ug'] and self.c['ng'] == 'unknown')

    # ---------------------------------------------------------- operations --
    def op_method(self, op):
        r = super().op_method(op)
        self.opts.update(wellcond_mtd=self.c['wc'], cond_eta_is_const=self.gp.cond_eta_is_const)
        return r

    def op_option(self, op):
        setattr(self.gp, op['k'], copy.deepcopy(op['v']))
        self.opts[op['k']] = copy.deepcopy(op['v'])
        return 'ok'

    def op_reload(self, op):
        d, gp = self.d, self.gp
        e = d.call(gp.export_data_surr, save2file=False)
        d.call(gp.init_optz_surr, self.c['hist'] + op.get('room', 0))
        d.call(gp.load_data_surr, e)
        return 'ok'

    def op_finish(self, op):
        if not self.d.i:
            raise Skip('finish')
        self.d.call(self.gp.finish_optz_surr, self.d.i)
        return 'ok'

    def reports(self, op):
        self.opts['hp_const_n_eval'] = max(self.opts['hp_const_n_eval'], 0)
        for r in op.get('reports', ()):
            if self.d.args is None:
                self.ctx.probe('skipped_report')
                continue
            self.report(r)

    # -------------------------------------------------------------- report --
    def make(self, r, out, **k):
        gp = self.gp
        d = self.d
        name = {'options': 'info_surr_options', 'summary': 'info_surr_summary', 'theta': 'info_surr_theta',
                'optz': 'info_surr_optz', 'data': 'info_surr_all_data'}.get(r['part'])
        d.bare = True
        try:
            with contextlib.redirect_stdout(out), np.errstate(all='ignore'):
                if name is None:
                    kw = {}
                    if r['screen'] is not None:
                        kw['print2screen'] = r['screen']
                    if r['save'] is not None:
                        kw['save2file'] = r['save']
                    return d.call(gp.get_txt_info_surr, **kw, **k)
                return d.call(getattr(gp, name), bool(r['screen']), **k)
        finally:
            d.bare = False

    def files(self):
        return {n: open(os.path.join(self.root, n), 'rb').read() for n in sorted(os.listdir(self.root))}

    def view(self):
        d = self.d
        with np.errstate(all='ignore'):
            out = self.try_eval(d.pool.xe[:2].copy(), True)
        return (hist_of(self.gp), hp_of(self.gp), twin.plain(out), {k: copy.deepcopy(getattr(self.gp, k)) for k in OPTIONS})

    def report(self, r):
        ctx, d = self.ctx, self.d
        f = r.get('fault')
        before, files = self.view(), self.files()
        if f is not None:
            self.faulted(r, f, files)
            self.unchanged(before, r)
            files = self.files()
        out = Out()
        text = self.make(r, out)
        self.unchanged(before, r)
        if not isinstance(text, str):
            raise Violation('report', f'the report is a {type(text).__name__}')
        al = r['part'] == 'all'
        screen = (self.plan['screen'] if r['screen'] is None else r['screen']) if al else bool(r['screen'])
        save = al and (self.plan['save'] if r['save'] is None else r['save'])
        p = out.value()
        if screen and p.strip() != text.strip() or not screen and p:
            raise Violation('printed', f'{len(p)} characters were printed for a report of {len(text)} '
                            f'(print2screen {r["screen"]}, default {self.plan["screen"]})')
        now = self.files()
        if save:
            if now.get('surr.txt') != text.encode():
                raise Violation('saved', f'the saved report has {len(now.get("surr.txt", b""))} bytes, the report has '
                                f'{len(text.encode())}')
            if files.get('surr.txt') is not None and now.get('surr_old.txt') != files['surr.txt']:
                raise Violation('saved', 'the previous report is not kept')
            for n in now:
                if n not in files and n not in ('surr.txt', 'surr_old.txt') and not n.endswith('.tmp'):
                    raise Violation('saved', f'the report wrote {n}')
        elif now != files:
            raise Violation('saved', f'a report that is not saved changed the files {sorted(files)} to {sorted(now)}')
        self.check(r['part'], text, before[0])
        ctx.ev('report', r['part'], screen, save)
        ctx.state('report', r['part'], screen, save, (f or {}).get('kind'), d.ready, d.i > 0, self.c['dim'])
        ctx.probe('reports_judged')
        self.judged += 1

    def faulted(self, r, f, files):
        ctx, kind = self.ctx, f['kind']
        out = Out()
        fired = False
        err = None
        try:
            if kind == 'line':
                # saving is left to the disk faults of C06
                q = dict(r, save=False) if r['part'] == 'all' else r
                exc = mk_exc(f['exc'])
                ok, err, fired = self.run_faulted(lambda **k: self.make(q, out, **k), f)
                return
            if kind == 'out':
                out = Out(f['at'], OUT_EXC[f['exc']]('injected failure of the output'))
                try:
                    self.make(dict(r, save=False), out)
                except BaseException as e:
                    err = e
                    if not out.fired:
                        raise
                fired = out.fired
                if fired and err is None:
                    raise Violation('swallowed', 'the report ignored a failure of the output stream')
                return
            disk = dk.Disk(self.root, None)
            for n, b in files.items():
                i = dk.Inode()
                i.live = bytearray(b)
                disk.files[os.path.join(disk.root, n)] = i
            # a save takes about ten operations of the file system
            disk.fault = {'kind': f['what'], 'at': 1 + int(f['frac'] * 10)}
            try:
                with dk.using(disk):
                    self.make(r, out)
            except BaseException as e:
                err = e
                if not disk.fired:
                    raise
            fired = bool(disk.fired)
            now = self.files()
            texts = [b for n, b in now.items() if n in ('surr.txt', 'surr_old.txt')]
            if files.get('surr.txt') is not None and files['surr.txt'] not in texts:
                raise Violation('saved', 'a report that could not be saved destroyed the previous one')
        finally:
            if fired:
                ctx.faults[f"report_{kind}:{f.get('exc', f.get('what'))}"] += 1

    def unchanged(self, before, r):
        for a, b, what in zip(before, self.view(), ('history', 'hyperparameters', 'evaluations', 'options')):
            if not same(a, b):
                raise Violation('changed', f'the report {r} changed the {what}')

    # --------------------------------------------------------------- check --
    def check(self, part, text, h):
        pre = next(k[:-len('hp_beta_all')] for k in h if k.endswith('hp_beta_all'))
        h = {k[len(pre):]: v for k, v in h.items()}
        if part in ('all', 'options'):
            self.check_options(text)
        if part in ('all', 'data', 'summary'):
            self.check_summary(text, h)
        if part in ('all', 'data', 'theta'):
            th = h['hp_theta_all']
            self.compare(text, 'Surrogate hyperparameter theta',
                         [(f'th{i}', th[:, i]) for i in range(th.shape[1])], 5.1e-5)
        if part in ('all', 'data', 'optz'):
            self.compare(text, 'Surrogate optimization', [
                ('Time', h['time_hp_optz_all']), ('Success (%)', 100 * h['hp_optz_success']),
                ('Mean i', h['hp_optz_iter_mean']), ('Max i', h['hp_optz_iter_max']),
                ('Con good %', 100 * h['hp_optz_con_good']), ('Cond', h['Kcov_cond_all']),
                ('At cond max?', h['Kcov_cond_at_max_all'])], 5.1e-6)

    def check_summary(self, text, h):
        n = h['hp_varK_all'].size
        th = h['hp_theta_all']
        cols = [('Kernel', h['hp_kernel_all']), ('Mu', h['hp_beta_all'].reshape(n, -1)[:, 0]), ('varK', h['hp_varK_all']),
                ('varK / var_f', h['varK_var_fval'])]
        if self.opts['b_optz_var_fval']:
            cols.append(('hp var fun', h['hp_var_fval_all']))
        if self.opts['b_optz_var_fgrad']:
            cols.append(('hp var grad', h['hp_var_fgrad_all']))
        if self.c['dim'] <= 3:
            cols += [(f'theta {i}', th[:, i]) for i in range(self.c['dim'])]
        else:
            s = np.sort(th, axis=1)
            m = self.c['dim']
            cols += [('theta min', s[:, 0]), ('theta max', s[:, -1]),
                     ('theta median', 0.5 * (s[:, (m - 1) // 2] + s[:, m // 2]))]
        self.compare(text, 'Surrogate hyperparameters', cols, 5.1e-5)

    def compare(self, text, title, cols, tol):
        head, rows = table(text, title)
        n = len(cols[0][1])
        if len(rows) != n:
            raise Violation('rows', f'"{title}" has {len(rows)} rows for a history of {n}')
        if head[1:] != [c for c, _ in cols]:
            raise Violation('columns', f'"{title}" has the columns {head} instead of {[c for c, _ in cols]}')
        for i, r in enumerate(rows):
            if len(r) != len(cols) + 1 or r[0] != i:
                raise Violation('rows', f'row {i} of "{title}" is {r}')
            for (name, v), got in zip(cols, r[1:]):
                if not close(got, float(v[i]), tol):
                    raise Violation('shown', f'row {i} of "{title}" shows {name} = {got!r} but the history has '
                                    f'{float(v[i])!r}')
                if v[i] == v[i]:
                    self.ctx.probe('numbers_judged')

    def check_options(self, text):
        o = options(text)
        for k in OPTIONS:
            if k not in o:
                raise Violation('options', f'the option {k} is not shown')
            want, got = self.opts[k] if k != 'b_has_noisy_data' else noisy(self.c), o[k]
            if k == 'hp_const_n_eval':
                # set by the harness before a search
                want = self.gp.hp_const_n_eval
            if k.endswith('_range'):
                m = re.match(r'^(\S+) - (\S+)$', got)
                ok = m and all(close(float(a), float(b), 0.051) for a, b in zip(m.groups(), want))
            elif k in ('cond_max_target', 'cond_max', 'cond_max_abs'):
                ok = close(float(got), float(want), 0.0051)
            elif isinstance(want, (int, float)) and not isinstance(want, bool):
                try:
                    ok = close(float(got), float(want), 1e-12)
                except ValueError:
                    ok = False
            else:
                ok = got == str(want)
            if not ok:
                raise Violation('options', f'the option {k} is shown as {got} but is {want}')


def session(plan, ctx, reports):
    base = tempfile.mkdtemp(prefix='rep', dir=os.environ.get('SIM_TMP'))
    try:
        root = os.path.join(base, 'd')
        os.mkdir(root)
        s = Reporting(plan['cfg'], ctx, path_data_surr=os.path.join(root, 'surr'))
        s.prepare(plan, root)
        obs = twin.play(s, plan['ops'], after=(lambda k, op: s.reports(op)) if reports else None)
        return obs, s.judged, s.d.i
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run(plan, ctx):
    obs, judged, rows = session(plan, ctx, True)
    plain = isolated(ctx, lambda sub: session(plan, sub, False))[0]
    twin.compare(plain, obs, 'not_pure', 'a session with reports, compared with the session without')
    ctx.nontrivial = judged >= 3 and rows > 0
