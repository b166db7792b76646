"""Check driver: python -m engine.run C01 [--tier quick|thorough] [--only CONFIG] [--jobs N]"""
import argparse
import concurrent.futures
import json
import os
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import env  # noqa: E402
env.paths()


def known_findings():
    """lines 'known: property=<id> label=<assertion> config=<glob> <text>'"""
    out = []
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        with open(fn) as fh:
            for ln in fh:
                ln = ln.strip()
                if ln.startswith('known:'):
                    d = {}
                    rest = ln[6:].strip()
                    for key in ('property', 'config', 'label'):
                        k = key + '='
                        i = rest.find(k)
                        if i < 0:
                            continue
                        v = rest[i + len(k):]
                        if v.startswith('"'):
                            j = v.index('"', 1)
                            d[key] = v[1:j]
                        else:
                            d[key] = v.split()[0]
                    d['text'] = rest
                    out.append(d)
    return out


def run_native(job, timeout):
    fd, fn = tempfile.mkstemp(suffix='.json')
    with os.fdopen(fd, 'w') as fh:
        json.dump(job, fh)
    try:
        p = subprocess.run([sys.executable, '-m', 'engine.native', fn], cwd=HERE, capture_output=True, text=True, timeout=timeout)
        for ln in p.stdout.split('\n'):
            if ln.startswith('@@RESULT '):
                return json.loads(ln[9:]), None
        return None, 'exit %d: %s' % (p.returncode, (p.stderr or p.stdout)[-1500:])
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    finally:
        os.unlink(fn)


class Driver(object):
    def __init__(self, prop, tier, only=None, jobs=None):
        self.prop, self.tier = prop, tier
        from engine import checklib
        env.setup('py')
        self.mod = checklib.load(prop)
        self.cfgs = checklib.configs(self.mod, tier)
        if only:
            self.cfgs = [c for c in self.cfgs if only in c['id']]
        self.jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.scratch = None
        self.scratch_err = None
        self.bscratch = None
        self.lock = threading.Lock()
        self.limit = getattr(self.mod, 'LIMIT', {}).get(tier, 780 if tier == 'quick' else 7200)
        self.t0 = time.time()

    # ---- scratch builds
    def root(self, impl, bound=False):
        if impl != 'cy':
            return env.REPO
        from engine import build
        with self.lock:
            if bound:
                if self.bscratch is None:
                    self.bscratch = build.Scratch(bound=True)
                return self.bscratch.dir
            if self.scratch is None and self.scratch_err is None:
                try:
                    self.scratch = build.Scratch()
                except Exception as e:
                    self.scratch_err = str(e)
            if self.scratch is None:
                raise RuntimeError(self.scratch_err)
            return self.scratch.dir

    def native(self, cfg, cases, kind=None, timeout=None):
        impl = {'py': 'py', 'cy': 'so'}[cfg['impl']]
        if kind == 'translated':
            impl, root = 'cy', env.REPO
        else:
            root = self.root(cfg['impl'], kind == 'bound')
        job = {'check': self.prop, 'tier': self.tier, 'config': cfg['id'], 'impl': impl, 'root': root, 'cases': cases}
        return run_native(job, timeout or (60 + 25 * len(cases))) + (job,)

    # ---- one configuration
    def work(self, cfg):
        left = self.limit - (time.time() - self.t0)
        if left < 10:
            return {'id': cfg['id'], 'status': 'inconclusive', 'notes': ['no time left']}
        fd, fn = tempfile.mkstemp(suffix='.json')
        os.close(fd)
        p = subprocess.Popen([sys.executable, '-m', 'engine.worker', self.prop, self.tier, cfg['id'], fn], cwd=HERE, start_new_session=True,
                             stdout=None if os.environ.get('VERIF_DEBUG') else subprocess.DEVNULL,
                             stderr=None if os.environ.get('VERIF_DEBUG') else subprocess.DEVNULL)
        try:
            try:
                p.wait(timeout=min(left, cfg.get('wall', 420 if self.tier == 'quick' else 5000)))
                with open(fn) as fh:
                    res = json.load(fh)
            except subprocess.TimeoutExpired:
                res = {'id': cfg['id'], 'status': 'inconclusive', 'notes': ['wall clock limit']}
            except ValueError:
                res = {'id': cfg['id'], 'status': 'error', 'notes': ['worker ended with %s' % p.returncode]}
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            os.unlink(fn)
        return self.confirm(cfg, res)

    def confirm(self, cfg, res):
        res['confirmed'] = []
        res['validated'] = 0
        res['mismatch'] = []
        wit = res.get('witnesses', [])
        try:
            if wit:
                out, err, job = self.native(cfg, [{'inputs': w['inputs']} for w in wit])
                if out is None:
                    res['mismatch'].append('native run failed: %s' % err)
                else:
                    for w, o in zip(wit, out):
                        self.validate(cfg, w, o, res, job)
            for v in res.get('violations', []):
                if any(c['label'] == v['label'] for c in res['confirmed']):
                    continue
                if len(res['confirmed']) >= 3:
                    break
                self.replay(cfg, v, res)
        except Exception as e:
            res['notes'].append('replay: %s: %s' % (type(e).__name__, e))
            if res['status'] == 'held':
                res['status'] = 'error'
        if res['status'] == 'violated' and not res['confirmed']:
            res['status'] = 'unconfirmed'
        if res['status'] in ('unsupported', 'inconclusive', 'unconfirmed', 'vacuous', 'error') and cfg.get('fallback', True):
            try:
                self.fallback(cfg, res)
            except Exception as e:
                res['notes'].append('fallback: %s' % e)
        return res

    def validate(self, cfg, w, o, res, job):
        bad = None
        if o['end'] == 'assumption' and o['inexact']:
            return
        if o['end'] != 'return':
            bad = 'native run ended with %s %s' % (o['end'], o.get('error', ''))
        elif o['failed']:
            bad = 'assertion fails natively: %s' % o['failed'][0]
        elif w.get('records') is not None and not o['inexact']:
            a, b = w['records'], o['records']
            if not agree(a, b, cfg.get('tol') or 1e-6):
                bad = 'recorded values differ: %s / %s' % (json.dumps(a)[:300], json.dumps(b)[:300])
                res['mismatch'].append(bad)
                return
        if bad is None:
            res['validated'] += 1
            return
        if o['failed'] or o['end'] in ('raise', 'timeout'):
            # the real code violates the assertion on an input for which the encoding says it holds
            if o['inexact']:
                return
            self.report(cfg, o['failed'][0] if o['failed'] else 'exception: %s' % o.get('error', o['end']), w['inputs'], o, res, job)
            if res['confirmed']:
                res['status'] = 'violated'
        res['mismatch'].append(bad)

    def report(self, cfg, label, inputs, o, res, job):
        res['confirmed'].append({'label': label, 'inputs': inputs, 'native': o, 'impl': job['impl']})

    def replay(self, cfg, v, res):
        lab = v['label']
        case = {'inputs': v['inputs'], 'timeout': cfg.get('hang', 10)}
        ub = lab.startswith('undefined behaviour')
        out, err, job = self.native(cfg, [case], timeout=90)
        if out is None:
            if err.startswith('exit -'):       # the real code crashed
                self.report(cfg, lab + ' (native run crashed: %s)' % err[:60], v['inputs'], {'end': 'crash'}, res, job)
            return
        o = out[0]
        hit = False
        if o['end'] == 'assumption':
            hit = False
        elif o['failed']:
            lab = o['failed'][0]
            hit = True
        elif o['end'] == 'timeout':
            lab = 'the run does not end'
            hit = True
        elif o['end'] == 'raise':
            lab = 'exception: %s' % o['error']
            hit = True
        if not hit and ub and cfg['impl'] == 'cy':
            out, err, job = self.native(cfg, [case], kind='bound', timeout=120)
            if out is None or out[0]['end'] == 'raise':
                hit = True
                o = out[0] if out else {'end': 'crash', 'error': err}
            else:
                out, err, job = self.native(cfg, [case], kind='translated', timeout=120)
                if out is not None and out[0]['end'] == 'ub':
                    hit = True
                    o = out[0]
                    lab = 'undefined behaviour: %s' % o['error']
        if hit:
            self.report(cfg, lab, v['inputs'], o, res, job)
        else:
            res['notes'].append('counterexample did not reproduce: %s' % lab)

    def fallback(self, cfg, res):
        """the encoding gave no verdict: run the harness natively on a few inputs (no claim is made)"""
        n = 40 if self.tier == 'quick' else 200
        left = self.limit + 60 - (time.time() - self.t0)
        if left < 15:
            return
        cases = [{'random': self.seed * 1000 + k, 'timeout': cfg.get('hang', 10)} for k in range(n)]
        out, err, job = self.native(cfg, cases, timeout=min(left, 120))
        if out is None:
            res['notes'].append('fallback: %s' % err)
            return
        res['fallback_runs'] = sum(1 for o in out if o['end'] != 'assumption')
        for c, o in zip(cases, out):
            if o['end'] == 'assumption':
                continue
            if o['failed'] or o['end'] in ('timeout', 'raise'):
                lab = o['failed'][0] if o['failed'] else ('the run does not end' if o['end'] == 'timeout' else 'exception: %s' % o['error'])
                o = dict(o)
                inp = o.pop('inputs', {})
                self.report(cfg, lab, {k: _frac(v) for k, v in inp.items()}, o, res, job)
                res['status'] = 'violated'
                return

    # ---- all
    def run(self):
        results = []
        order = sorted(self.cfgs, key=lambda c: -c.get('cost', 1))
        if any(c['impl'] == 'cy' for c in self.cfgs):
            threading.Thread(target=self._prebuild, daemon=True).start()
        try:
            with concurrent.futures.ThreadPoolExecutor(self.jobs) as ex:
                futs = {ex.submit(self.work, c): c for c in order}
                for f in concurrent.futures.as_completed(futs):
                    r = f.result()
                    results.append(r)
                    print('%-44s %-12s %5.1fs  assertions=%s queries=%s traces=%s%s' % (
                        r['id'], r['status'], r.get('time_s', 0), r.get('assertions', '-'), r.get('queries', '-'), r['validated'],
                        ('  ' + '; '.join(r['notes'] + r['mismatch'])[:600]) if r['notes'] or r['mismatch'] else ''), flush=True)
                    if os.environ.get('VERIF_TRACE') and r.get('trace'):
                        print(r['trace'])
        finally:
            for s in (self.scratch, self.bscratch):
                if s is not None:
                    s.close()
        return self.finish(results)

    def _prebuild(self):
        try:
            self.root('cy')
        except Exception:
            pass

    def finish(self, results):
        kf = [k for k in known_findings() if k.get('property') == self.prop]
        viol = []
        for r in results:
            if r['status'] == 'violated':
                for c in r['confirmed']:
                    c['config'] = r['id']
                    viol.append(c)
        import fnmatch
        new, old = [], []
        for c in viol:
            for k in kf:
                if fnmatch.fnmatch(c['config'], k.get('config', '*')) and fnmatch.fnmatch(c['label'], k.get('label', '*')):
                    old.append((k, c))
                    break
            else:
                new.append(c)
        said = set()
        for k, c in old:
            if k['text'] not in said:
                said.add(k['text'])
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
        rc = 0
        if new:
            rc = 1
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            c = new[0]
            fn = os.path.join(HERE, 'replays', '%s_%s.json' % (self.prop, c['config'].replace('/', '_')))
            with open(fn, 'w') as fh:
                json.dump({'check': self.prop, 'tier': self.tier, 'config': c['config'], 'impl': c['impl'],
                           'label': c['label'], 'inputs': c['inputs'], 'native': c['native'],
                           'how': '/opt/venv/bin/python -m engine.replay %s   (in /verif)' % fn}, fh, indent=1)
            print('violated: %s   [%s]' % (c['label'], c['config']))
            for d in new[1:6]:
                print('violated: %s   [%s]' % (d['label'], d['config']))
            print('VIOLATION property=%s replay=%s' % (self.prop, fn), flush=True)
        und = [r for r in results if r['status'] not in ('held', 'violated')]
        held = [r for r in results if r['status'] == 'held']
        for r in und:
            print('UNDECIDED: %s %s: %s (nothing is claimed for this configuration)' % (r['id'], r['status'], '; '.join(r['notes'])[:300]))
        err = [r for r in results if r['status'] in ('error',)]
        if rc == 0 and not held and not any(r.get('fallback_runs') for r in results):
            rc = 2
        self.evidence(results, held, und, new, old)
        wall = time.time() - self.t0
        print('%s %s: %d configurations, %d held, %d violated, %d undecided, %.0f s' % (
            self.prop, self.tier, len(results), len(held), len([r for r in results if r['status'] == 'violated']), len(und), wall))
        return rc

    def evidence(self, results, held, und, new, old):
        tot = lambda k: sum(r.get(k, 0) or 0 for r in results)   # noqa: E731
        fns = sorted({f for r in results for f in r.get('functions', [])})
        back = {}
        for r in results:
            for k, v in (r.get('backends') or {}).items():
                back[k] = back.get(k, 0) + v
        samples = []
        for r in results:
            for w in r.get('witnesses', [])[:1]:
                samples.append({'config': r['id'], 'witness': dict(list(w['inputs'].items())[:24])})
        samples = samples[:6] or [{'config': r['id']} for r in results[:3]]
        cov = {
            'states': sum(r.get('vm', {}).get('states', 0) + r.get('vm', {}).get('forks', 0) for r in results),
            'transitions': sum(r.get('vm', {}).get('steps', 0) for r in results),
            'traces_validated_against_impl': tot('validated'),
            'samples': samples,
            'explanation': 'states: symbolic states explored; transitions: bytecode instructions executed symbolically; traces: witness '
                           'inputs found by the solver and run through the real implementation (Python from /repo, compiled modules built '
                           'from /repo in a scratch copy) with equal results and no failed assertion',
            'functions_encoded': fns,
            'bounds': getattr(self.mod, 'BOUNDS', ''),
            'outside': getattr(self.mod, 'OUTSIDE', ''),
            'assertions': tot('assertions'),
            'queries': tot('queries'),
            'feasibility_queries': sum(r.get('solver', {}).get('feasibility', 0) for r in results),
            'solver_seconds': round(sum(r.get('solver', {}).get('time', 0) for r in results), 2),
            'longest_query_s': max([r.get('solver', {}).get('max', 0) for r in results] or [0]),
            'backends': back,
            'configurations': [{'id': r['id'], 'status': r['status'], 'assertions': r.get('assertions'), 'queries': r.get('queries'),
                                'time_s': r.get('time_s'), 'outcomes': r.get('outcomes'), 'validated': r['validated'],
                                'notes': r['notes'] + r['mismatch']} for r in sorted(results, key=lambda r: r['id'])],
            'undecided': [r['id'] for r in und],
            'known_findings': sorted({k['text'] for k, c in old}),
        }
        if und:
            cov['degraded'] = 'no solver verdict for: %s' % ', '.join('%s (%s; %d unclaimed native runs)' % (
                r['id'], r['status'], r.get('fallback_runs', 0)) for r in und)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': getattr(self.mod, 'LEVEL', 'model_checking'),
              'coverage': cov, 'assumptions': list(getattr(self.mod, 'ASSUMPTIONS', [])) + COMMON, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)


COMMON = ['floating-point numbers are encoded as exact reals (no rounding) unless a configuration says otherwise; counterexamples are '
          'replayed on the real code with real floating point before they are reported']


def _frac(v):
    from fractions import Fraction
    if isinstance(v, str):
        f = Fraction(v)
        return [f.numerator, f.denominator]
    return v


def agree(a, b, tol):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return True
    if a == b:
        return True
    try:
        x, y = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if x == y:
        return True
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    d = Driver(a.prop, a.tier, a.only, a.jobs)
    sys.exit(d.run())


if __name__ == '__main__':
    main()
