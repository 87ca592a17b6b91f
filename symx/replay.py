"""Runs harnesses concretely on the unmodified code (no proxies, no solver).

stdin: JSON list of cases; stdout: JSON list of outcomes.
As a command: `replay.py FILE` replays a saved violation and prints it.
"""
import contextlib
import io
import json
import os
import sys
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO]

from symx.state import State    # noqa: E402

START = {'state': None}


def dec(v):
    if isinstance(v, str) and '/' in v:
        return Fraction(v)
    return v


def plain(v):
    if isinstance(v, Fraction):
        return '%d/%d' % (v.numerator, v.denominator)
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    try:
        return repr(float(v))
    except Exception:
        return None


def run_case(case):
    import importlib
    from symx.ctx import ConcreteCtx, AssumeFailed
    mod = importlib.import_module('harness.' + case['module'])
    fn = getattr(mod, case['fn'])
    inputs = {k: dec(v) for k, v in case['inputs'].items()}
    if START['state'] is None:
        START['state'] = State()
    START['state'].restore()
    ctx = ConcreteCtx(inputs, case.get('mode', 'float'))
    out = {'assume_failed': False, 'exception': None, 'traceback': ''}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn(ctx, **case['config'])
    except AssumeFailed:
        out['assume_failed'] = True
    except Exception as e:
        out['exception'] = type(e).__name__
        out['traceback'] = traceback.format_exc()[-1800:]
        ctx.failures.append(('exception:%s' % type(e).__name__, str(e)[:300]))
    out['failures'] = ctx.failures
    out['observed'] = [(n, plain(v)) for n, v in ctx.observed]
    return out


def main():
    if len(sys.argv) > 1:
        with open(sys.argv[1]) as f:
            case = json.load(f)
        out = run_case(case)
        print(json.dumps(out, indent=1))
        return 1 if out['failures'] else 0
    cases = json.load(sys.stdin)
    real_out = sys.stdout
    res = []
    for c in cases:
        try:
            res.append(run_case(c))
        except BaseException as e:         # the harness itself is broken
            res.append({'assume_failed': True, 'exception': None,
                        'failures': [], 'observed': [],
                        'broken': '%s: %s' % (type(e).__name__, e)})
    json.dump(res, real_out)
    return 0


if __name__ == '__main__':
    sys.exit(main())
