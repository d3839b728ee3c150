"""Seeded search over plans, exact replay, minimisation, evidence."""
import argparse
import collections
import importlib
import json
import os
import selectors
import signal
import subprocess
import sys
import time
import traceback

from . import seams
from .core import Ctx, Violation, Skip, plan_rng, jdump

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = seams.real_time['perf_counter']
CPU_CAP = 240        # seconds of wall time for one run: an error of the harness, never a pass


def in_repo(tb):
    root = os.path.realpath(seams.REPO) + os.sep + 'gpgradpy'
    last = None
    while tb is not None:
        f = tb.tb_frame.f_code
        if os.path.realpath(f.co_filename).startswith(root):
            last = f'{os.path.basename(f.co_filename)}:{f.co_name}'
        tb = tb.tb_next
    return last


def execute(mod, plan):
    """Run one plan in this process."""
    ctx = Ctx()
    ctx.nontrivial = False
    res = {'violation': None, 'error': None}
    try:
        mod.run(plan, ctx)
    except Violation as e:
        res['violation'] = {'kind': e.kind, 'detail': e.detail[:1500]}
    except Skip as e:
        ctx.probe('skipped_plan')
    except BaseException as e:
        where = in_repo(e.__traceback__)
        if where is not None:
            # a valid call of gpgradpy raised
            res['violation'] = {'kind': f'raised:{type(e).__name__}:{where.split(":")[-1]}',
                                'detail': f'{type(e).__name__}: {str(e)[:600]} in {where}'}
        else:
            res['error'] = ''.join(traceback.format_exception(e))[-3000:]
    if res['violation']:
        ctx.ev('VIOLATION', res['violation']['kind'], res['violation']['detail'])
    res.update(digest=ctx.digest(), n_ev=ctx.n_ev, stats=dict(ctx.stats), faults=dict(ctx.faults),
               states=sorted(ctx.states), tail=ctx.tail[-14:], nontrivial=bool(ctx.nontrivial),
               sim_time=ctx.sim_time)
    return res


def cover(out):
    """Executed lines of gpgradpy (tools/coverage.py), apart from the seams."""
    M = sys.monitoring
    M.use_tool_id(3, 'cover')
    hit = set()

    def line(code, no):
        hit.add((os.path.relpath(code.co_filename, seams.REPO), no))
        return M.DISABLE
    M.register_callback(3, M.events.LINE, line)
    for co in seams.gp_codes():
        M.set_local_events(3, co, M.events.LINE)

    def done():
        with open(os.path.join(out, f'{os.getpid()}.json'), 'w') as f:
            json.dump(sorted(hit), f)
    return done


def child(mod, plan, w):
    os.setpgid(0, 0)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if os.environ.get('SIM_DEBUG') != '1':
        os.dup2(dn, 2)
    done = cover(os.environ['SIM_COV']) if os.environ.get('SIM_COV') else None
    res = execute(mod, plan)
    if done:
        done()
    data = json.dumps(res, default=str).encode()
    with os.fdopen(w, 'wb') as f:
        f.write(data)
    os._exit(0)


class Farm:
    """Up to `width` forked children, one plan each."""

    def __init__(self, mod, width):
        self.mod, self.width = mod, width
        self.sel = selectors.DefaultSelector()
        self.live = {}

    def start(self, key, plan):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                child(self.mod, plan, w)
            finally:
                os._exit(3)
        os.close(w)
        os.set_blocking(r, False)
        self.live[r] = [key, pid, bytearray(), T()]
        self.sel.register(r, selectors.EVENT_READ)

    def wait(self):
        """Results that are ready: list of (key, result)."""
        out = []
        for k, _ in self.sel.select(1.0):
            r = k.fd
            key, pid, buf, t0 = self.live[r]
            try:
                b = os.read(r, 1 << 20)
            except BlockingIOError:
                continue
            if b:
                buf += b
                continue
            self._end(r)
            try:
                out.append((key, json.loads(bytes(buf))))
            except ValueError:
                out.append((key, {'violation': None, 'error': 'the run died without a result (killed or crashed)'}))
        for r in [r for r, v in self.live.items() if T() - v[3] > CPU_CAP]:
            key, pid = self.live[r][:2]
            self._end(r, kill=True)
            out.append((key, {'violation': None, 'error': f'timeout: no result within {CPU_CAP} s'}))
        return out

    def _end(self, r, kill=False):
        key, pid, buf, t0 = self.live.pop(r)
        self.sel.unregister(r)
        os.close(r)
        if kill:
            for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
                try:
                    f()
                except OSError:
                    pass
        os.waitpid(pid, 0)

    def stop(self, pred=lambda key: True):
        for r in [r for r, v in self.live.items() if pred(v[0])]:
            self._end(r, kill=True)

    def one(self, plan):
        self.start('one', plan)
        while True:
            for key, res in self.wait():
                return res


def batch(mod, plans, width):
    """Run several plans, results in order."""
    farm = Farm(mod, width)
    res = [None] * len(plans)
    todo = list(range(len(plans)))
    while todo or farm.live:
        while todo and len(farm.live) < width:
            k = todo.pop(0)
            farm.start(k, plans[k])
        for key, r in farm.wait():
            res[key] = r
    return res


def hits(r, kind):
    return r and r['violation'] and r['violation']['kind'] == kind


def minimise(mod, plan, kind, width, budget):
    """Greedy: keep the first candidate that shows the same violation."""
    t0, tests = T(), 0
    best = plan
    again = True
    while again and T() - t0 < budget:
        again = False
        cands = []
        seen = {jdump(best)}
        for p in mod.shrink(best):
            s = jdump(p)
            if s not in seen:
                seen.add(s)
                cands.append(p)
        for a in range(0, len(cands), width):
            if T() - t0 > budget:
                break
            rs = batch(mod, cands[a:a + width], width)
            tests += len(rs)
            k = next((k for k, r in enumerate(rs) if hits(r, kind)), None)
            if k is not None:
                best = cands[a + k]
                again = True
                break
    return best, tests


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f'finding: property={prop} '):
                # finding: property=ID kind=KIND match=TEXT | description
                head, _, desc = line.partition('|')
                kind = head.split(' kind=')[1].split(' ')[0]
                match = head.split(' match=')[1].strip() if ' match=' in head else ''
                out.append((kind, match, desc.strip()))
    return out


def is_known(v, known):
    return next((k for k in known if v['kind'] == k[0] and k[1] in v['detail']), None)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?', default='')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--width', type=int, default=int(os.environ.get('SIM_WIDTH', '8')))
    ap.add_argument('--digests')
    ap.add_argument('--no-minimise', action='store_true')
    a = ap.parse_args(argv)
    t0 = T()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    if a.selftest:
        return selftest()
    seams.install()
    mod = importlib.import_module(f'sim.props.{a.prop.lower()}')
    if hasattr(mod, 'prepare'):
        mod.prepare()
    seams.gp_codes()
    if a.replay:
        return replay(mod, a)

    n = a.runs or mod.RUNS[tier]
    cap = float(os.environ.get('SIM_WALL', '420' if tier == 'quick' else '3600'))
    print(f'check {a.prop} tier={tier} seed={seed} runs={n} width={a.width}', flush=True)
    known = known_findings(a.prop)
    farm = Farm(mod, a.width)
    agg = dict(stats=collections.Counter(), faults=collections.Counter(), states=set(), digests=set(),
               sim_time=0.0, runs=0, nontriv=0, n_ev=0)
    samples, errors, found, digests, knownhit = [], [], {}, {}, {}
    i = a.start
    end = a.start + n
    while i < end or farm.live:
        while i < end and len(farm.live) < a.width and not found and T() - t0 < cap and len(errors) < 5:
            farm.start(i, mod.gen(plan_rng(a.prop, seed, i), tier))
            i += 1
        if not farm.live:
            break
        for key, r in farm.wait():
            if r['error']:
                errors.append((key, r['error']))
                continue
            agg['runs'] += 1
            agg['sim_time'] += r['sim_time']
            agg['n_ev'] += r['n_ev']
            for k, v in r['stats'].items():
                if k.startswith('worst'):
                    agg['stats'][k] = max(agg['stats'][k], v)
                else:
                    agg['stats'][k] += v
            agg['faults'].update(r['faults'])
            agg['states'].update(r['states'])
            if r['nontrivial'] and r['digest'] not in agg['digests']:
                agg['nontriv'] += 1
            agg['digests'].add(r['digest'])
            digests[key] = r['digest']
            if r['violation']:
                kf = is_known(r['violation'], known)
                if kf:
                    knownhit[kf] = key
                else:
                    found[key] = r
            elif len(samples) < 2 and r['nontrivial'] and key >= a.start + 3:
                samples.append({'index': key, 'plan': mod.gen(plan_rng(a.prop, seed, key), tier),
                                'events': r['tail'], 'faults': r['faults'], 'digest': r['digest']})
        if found:
            farm.stop(lambda k: k > min(found))
    search_s = T() - t0
    if a.digests:
        with open(a.digests, 'w') as f:
            json.dump({str(k): v for k, v in sorted(digests.items())}, f)
    for (kind, match, desc), key in knownhit.items():
        print(f'KNOWN-FINDING: property={a.prop} {desc} (run {key})')

    rc = 0
    vio = None
    if found:
        key = min(found)
        vio = found[key]
        rc = report(mod, a, seed, tier, key, vio)
    wall = T() - t0
    ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2),
          'violations': 1 if found else 0,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'coverage': {
              'evaluations': agg['runs'], 'distinct_nontrivial': agg['nontriv'], 'rule': mod.RULE,
              'samples': samples,
              'simulated_runs': agg['runs'], 'runs_planned': n, 'complete': i >= end and not errors,
              'seeds_per_hour': int(agg['runs'] / max(search_s, 1e-9) * 3600),
              'simulated_time_s': round(agg['sim_time'], 3),
              'events_logged': agg['n_ev'],
              'faults_injected': dict(agg['faults']),
              'faults_injected_total': sum(agg['faults'].values()),
              'probes': dict(agg['stats']),
              'distinct_states': len(agg['states']),
              'distinct_states_measure': getattr(mod, 'STATE_MEASURE', 'distinct (operation, outcome, model size, '
                                                 'setup state, configuration class, fault kind) tuples reached'),
              'distinct_executions': len(agg['digests']),
              'real_components': getattr(mod, 'REAL', []), 'stubbed_components': getattr(mod, 'STUB', []),
              'harness_errors': len(errors)}}
    if os.environ.get('SIM_NOEVIDENCE') != '1':
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tmp = os.path.join(HERE, 'evidence', f'.{a.prop}.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(HERE, 'evidence', f'{a.prop}.json'))
    print(f"{a.prop}: {agg['runs']} runs, {agg['nontriv']} distinct non-trivial, {sum(agg['faults'].values())} faults, "
          f"{len(agg['states'])} states, {wall:.1f} s", flush=True)
    if rc == 0 and errors:
        for key, e in errors[:3]:
            print(f'HARNESS ERROR in run {key}:\n{e}', file=sys.stderr)
        return 2
    if rc == 0 and agg['runs'] == 0:
        print('HARNESS ERROR: nothing was explored', file=sys.stderr)
        return 2
    return rc


def selftest():
    """Imports and the seams work; says nothing about the code under test."""
    import glob
    seams.install()
    for f in sorted(glob.glob(os.path.join(HERE, 'sim', 'props', 'c*.py'))):
        name = os.path.basename(f)[:-3]
        if name != 'common':
            m = importlib.import_module('sim.props.' + name)
            jdump(m.gen(plan_rng(m.ID, 1, 0), 'quick'))
    print('selftest: seams installed,', len(seams.gp_codes()), 'code objects of gpgradpy are under control')
    return 0


def report(mod, a, seed, tier, key, r):
    plan = mod.gen(plan_rng(a.prop, seed, key), tier)
    kind = r['violation']['kind']
    print(f'violation in run {key}: {kind}: {r["violation"]["detail"][:300]}', flush=True)
    small, tests = (plan, 0) if a.no_minimise else minimise(mod, plan, kind, a.width, 60)
    rr = Farm(mod, 1).one(small)
    if not hits(rr, kind):
        small, rr = plan, r
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', f'{a.prop}-{seed}-{key}.json')
    doc = {'property': a.prop, 'seed': seed, 'index': key, 'tier': tier, 'violation': rr['violation'],
           'digest': rr['digest'], 'events': rr['tail'], 'minimisation_tests': tests,
           'original_plan': plan, 'plan': small}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    # fresh process
    env = {k: v for k, v in os.environ.items() if k != 'SIM_CHILD'}
    p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), a.prop, '--replay', path], env=env,
                       capture_output=True, text=True, timeout=300)
    exact = 'REPLAY exact' in p.stdout
    print(f'replay in a fresh process: {"exact" if exact else "NOT exact"} (exit {p.returncode}), '
          f'{tests} minimisation runs')
    print(f"{kind}: {rr['violation']['detail'][:800]}")
    print(f'VIOLATION property={a.prop} replay={path}', flush=True)
    return 1


def replay(mod, a):
    doc = json.load(open(a.replay))
    r = Farm(mod, 1).one(doc['plan'])
    if r['error']:
        print(r['error'], file=sys.stderr)
        return 2
    if not r['violation']:
        print('no violation on this tree')
        return 0
    exact = r['digest'] == doc['digest'] and r['violation']['kind'] == doc['violation']['kind']
    print('REPLAY exact' if exact else 'REPLAY differs', r['digest'])
    for e in r['tail']:
        print('  ', e)
    print(f"{r['violation']['kind']}: {r['violation']['detail']}")
    print(f'VIOLATION property={a.prop} replay={a.replay}')
    return 1
