"""Run a harness natively on concrete inputs: python -m engine.native JOB.json   (JOB: check, tier, config, impl, root, cases)"""
import io
import json
import os
import signal
import sys
import traceback
from fractions import Fraction


class Timeout(BaseException):
    pass


def dec(v):
    if isinstance(v, list):
        return Fraction(v[0], v[1])
    return v


def enc(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.dtype.names:
            return [[enc(x) for x in r.tolist()] for r in v.ravel()]
        return [enc(x) for x in v.ravel().tolist()]
    if isinstance(v, (np.generic,)):
        v = v.item()
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    return str(type(v))


def main():
    with open(sys.argv[1]) as fh:
        job = json.load(fh)
    from . import env
    env.setup(job['impl'], job['root'])
    from . import h as H, cyrt, checklib
    cfg, fn = checklib.find(job['check'], job['tier'], job['config'], job['impl'])
    out = []
    real_stdout = sys.stdout

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    H._tol[0] = cfg.get('tol')
    for case in job['cases']:
        H.INPUTS.clear()
        del H.LOG[:], H.DEFAULTED[:], H.INEXACT[:]
        H.RNG = None
        if 'random' in case:
            import random
            H.RNG = random.Random(case['random'])
        H.INPUTS.update({k: dec(v) for k, v in case.get('inputs', {}).items()})
        r = {'end': 'return'}
        signal.setitimer(signal.ITIMER_REAL, case.get('timeout', 20))
        sys.stdout = io.StringIO()
        try:
            fn(cfg)
        except H.AssumptionFailed:
            r['end'] = 'assumption'
        except Timeout:
            r['end'] = 'timeout'
        except cyrt.CyUB as e:
            r['end'] = 'ub'
            r['error'] = str(e)
        except Exception as e:
            r['end'] = 'raise'
            r['error'] = '%s: %s' % (type(e).__name__, e)
            r['trace'] = traceback.format_exc()[-1500:]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.stdout = real_stdout
        r['failed'] = [l for k, l, v in H.LOG if k == 'check' and not v]
        r['passed'] = sum(1 for k, l, v in H.LOG if k == 'check' and v)
        r['reached'] = sorted({l for k, l, v in H.LOG if k == 'reach'})
        r['records'] = [[l, enc(v)] for k, l, v in H.LOG if k == 'record']
        r['defaulted'] = len(H.DEFAULTED)
        r['inexact'] = len(H.INEXACT)
        if H.RNG is not None:
            r['inputs'] = {k: (str(v) if isinstance(v, Fraction) else v) for k, v in H.INPUTS.items()}
        out.append(r)
    print('\n@@RESULT ' + json.dumps(out))


if __name__ == '__main__':
    main()
