"""A simulated process: a fork of the run's process before it used gpgradpy,
so that nothing but what is handed over survives."""
import os
import pickle

from .core import Ctx, Violation, Skip


class Died(Exception):
    """The simulated process ended without a result."""


class RepoError(Exception):
    """A valid call of gpgradpy raised inside a simulated process."""


def isolated(ctx, fn, *args):
    """fn(sub_ctx, *args) in a forked process; counters and log are merged."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            sub = Ctx()
            try:
                out = ('ok', fn(sub, *args))
            except Violation as e:
                out = ('vio', (e.kind, e.detail))
            except Skip as e:
                out = ('skip', str(e))
            except BaseException as e:
                from .runner import in_repo
                import traceback
                where = in_repo(e.__traceback__)
                out = ('exc', (type(e).__name__, str(e)[:500], where, traceback.format_exc()[-2500:]))
            sub_state = (sub.digest(), sub.n_ev, dict(sub.stats), dict(sub.faults), sub.states, sub.tail, sub.sim_time)
            data = pickle.dumps((out, sub_state))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Died('a simulated process died')
    (tag, val), (dg, n_ev, stats, faults, states, tail, st) = pickle.loads(data)
    ctx.ev('process', dg)
    ctx.n_ev += n_ev
    for k, v in stats.items():
        ctx.stats[k] = max(ctx.stats[k], v) if k.startswith('worst') else ctx.stats[k] + v
    ctx.faults.update(faults)
    ctx.states |= states
    ctx.tail = (ctx.tail + tail)[-60:]
    ctx.sim_time += st
    if tag == 'ok':
        return val
    if tag == 'vio':
        raise Violation(*val)
    if tag == 'skip':
        raise Skip(val)
    name, text, where, tb = val
    if where is None:
        raise RuntimeError(tb)
    raise Violation(f'raised:{name}:{where.split(":")[-1]}', f'{name}: {text} in {where}')
