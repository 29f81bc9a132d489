"""Executes one case in the current (forked) process."""
import os
import signal
import traceback

from .ctx import Ctx, stats
from .hub import H
from .ref import is_lib
from .session import HarnessError, Violation, short


def props():
    from .props import runs
    out = {k: v for k, v in vars(runs).items() if k.startswith('C') and len(k) == 3}
    for mod in ('mut', 'store', 'names', 'timing', 'sched', 'compose'):
        try:
            m = __import__('dst.props.' + mod, fromlist=['x'])
        except ModuleNotFoundError:
            continue
        out.update({k: v for k, v in vars(m).items() if k.startswith('C') and len(k) == 3})
    return out


def run_case(case):
    """-> {'status': 'ok'|'violation'|'error', ...}; a pure function of the case and the library's code."""
    H.reset()
    H.active = True
    ctx = None
    try:
        try:
            ctx = Ctx()
            props()[case['prop']].execute(case, ctx)
            res = {'status': 'ok'}
        except Violation as v:
            res = {'status': 'violation', 'class': v.cls, 'detail': v.detail}
        except HarnessError as e:
            res = {'status': 'error', 'detail': short(e) + '\n' + traceback.format_exc()[-1500:]}
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, Exception) as e:  # pylint: disable=broad-except
            tb = traceback.extract_tb(e.__traceback__)
            if is_lib(e):
                lib = [f for f in tb if 'quanguru' in f.filename][-1]
                res = {'status': 'violation', 'class': 'unexpected-error',
                       'detail': 'the library raised %s (%s:%s)' % (short(e), os.path.basename(lib.filename), lib.name)}
            elif isinstance(e, (KeyError, IndexError, TypeError, ValueError, AttributeError)):
                # what the library handed back cannot even be looked at (None, wrong kind of object, missing entry)
                res = {'status': 'violation', 'class': 'malformed',
                       'detail': 'what the library returned cannot be used: %s (%s)' % (short(e), tb[-1].name)}
            else:
                res = {'status': 'error', 'detail': short(e) + '\n' + traceback.format_exc()[-1500:]}
        if ctx is not None:
            res['stats'] = stats(ctx)
    finally:
        for p in H.pools:
            try:
                p.reap()
            except Exception:  # pylint: disable=broad-except
                pass
        if ctx is not None:
            try:
                ctx.ref.close()
            except Exception:  # pylint: disable=broad-except
                pass
    return res
