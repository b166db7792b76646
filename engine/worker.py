"""Decide one configuration: python -m engine.worker CHECK TIER CONFIG OUT.json"""
import json
import os
import resource
import sys
import time
import traceback
from fractions import Fraction


def enc(v):
    if isinstance(v, Fraction):
        return [v.numerator, v.denominator] if v.denominator != 1 else int(v)
    return v


def encm(model, inputs):
    model = complete(model, inputs)
    out = {}
    for k in inputs:
        v = model[k]
        if isinstance(v, float):
            v = 0 if v != v or v in (float('inf'), float('-inf')) else Fraction(v)
        out[k] = enc(v)
    return out


def complete(model, inputs):
    model = dict(model)
    for k, (s, d, lo, hi) in inputs.items():
        if k not in model:
            if s == 'B':
                model[k] = False
            else:
                model[k] = lo if lo is not None else (min(0, hi) if hi is not None else 0)
    return model


class Decider(object):
    def __init__(self, cfg, session, vm):
        self.cfg = cfg
        self.s = session
        self.vm = vm
        self.q = 0

    def check(self, asserts, want=True):
        self.q += 1
        return self.s.check(asserts, timeout=self.cfg.get('timeout', 120), want_model=want)

    def pinned(self, asserts, model):
        """a model whose reals are exactly representable (so that it can be replayed)"""
        from . import terms as T
        if model is None or self.s.fp:
            return model
        vs = [v for v in T.variables(asserts) if v.sort == 'R' and v.args[0] in self.vm.inputs]
        bad = [v for v in vs if not self.nice(model[v.args[0]], v.args[0])]
        if not bad:
            return model
        for k in (1, 8, 1024, 2 ** 20):
            pins = []
            for v in vs:
                x = model[v.args[0]]
                pins.append(T.Eq(v, Fraction(round(x * k), k)))
            st, m = self.s.check(asserts + pins, timeout=20)
            if st == 'sat':
                return m
        pins = []
        t0 = time.time()
        for v in vs:
            for k in (1, 8, 1024, 2 ** 20):
                p = T.Eq(v, Fraction(round(model[v.args[0]] * k), k))
                st, m = self.s.check(asserts + pins + [p], timeout=10)
                if st == 'sat':
                    pins.append(p)
                    model = m
                    break
            if time.time() - t0 > 60:
                break
        return model

    def nice(self, x, name):
        dt = self.vm.inputs[name][1]
        import numpy as np
        f = float(np.float32(float(x))) if dt == 'float32' else float(x)
        return Fraction(f) == x and abs(x) < 2 ** 40

    def model(self, asserts):
        st, m = self.check(asserts)
        if st != 'sat':
            return st, None
        return st, self.pinned(asserts, m)


def disj(T, items):
    """[(pc, bad)] -> disjunction, with the shared part of the path conditions factored out"""
    return T.Or(*[T.And(*(list(pc) + [bad])) for pc, bad in items])


def decide(prop, tier, cid):
    from . import env
    mod_cfg = None
    impl = cid.rsplit('/', 1)[1]
    env.setup('cy' if impl == 'cy' else 'py')
    from . import terms as T, values as V, solver as S, vm as VMM, hsym, checklib, h as H
    cfg, fn = checklib.find(prop, tier, cid)
    fpmode = cfg.get('fp', False)
    t0 = time.time()
    sess = S.Session(timeout=cfg.get('timeout', 120))
    if 'parallel' in cfg:
        sess.parallel = cfg['parallel']
    vm = VMM.VM(sess, ['malstroem', 'engine.prelude', 'engine.cyprelude', 'checks'], budget_s=cfg.get('budget', 300),
                max_unwind=cfg.get('unwind', 60), verbose=int(os.environ.get('VERIF_DEBUG', '0')))
    hsym.install(vm)
    if cfg.get('nan'):
        V.nan_var()
    if cfg.get('fp'):
        V.FPMODE[0] = True
        sess.fp = True
        sess.wide = cfg['fp'] == 'wide'
    if cfg.get('ubcheck') is False:
        vm.noub = True
    T.INTEGRAL[0] = cfg.get('integral', False)
    vm.splitcells = cfg.get('split', False)
    vm.forkall = cfg.get('fork', False)
    vm.forkvals = cfg.get('forkvals', False)
    vm.loopcheck = cfg.get('loopcheck', 1)
    res = {'id': cid, 'status': 'held', 'violations': [], 'notes': [], 'witnesses': []}
    d = Decider(cfg, sess, vm)
    pre = getattr(sys.modules[fn.__module__], 'prepare', None)
    if pre is not None:
        pre(cfg, vm)
    outs = vm.run(fn, (cfg,), {}, [])
    t1 = time.time()
    res['explore_s'] = round(t1 - t0, 2)
    kinds = {}
    for k, v, pc, s in outs:
        kinds[k] = kinds.get(k, 0) + 1
    res['outcomes'] = kinds
    # ---- 1. assertions
    groups = {}
    for pc, c, label in vm.checks:
        if c is True:
            res['trivial'] = res.get('trivial', 0) + 1
            continue
        groups.setdefault(label, []).append((pc, T.Not(c)))
    for pc, c, what, data in vm.obligations:
        if c is True or cfg.get('ubcheck') is False:
            continue
        groups.setdefault('undefined behaviour: ' + what, []).append((pc, T.Not(c)))
    for k, v, pc, s in outs:
        if k == 'raise':
            groups.setdefault('exception: %s' % type(v).__name__, []).append((pc, True))
            res.setdefault('exc', []).append(str(v)[:200])
        elif k == 'ub' and cfg.get('ubcheck') is not False:
            groups.setdefault('undefined behaviour: %s' % v, []).append((pc, True))
        elif k == 'unwind' and not cfg.get('allow_unwind'):
            groups.setdefault('loop bound exceeded', []).append((pc, True))
        elif k == 'nan':
            groups.setdefault('not-a-number (outside the encoding)', []).append((pc, True))
    stop = False
    res['assertions'] = sum(len(v) for v in groups.values()) + res.get('trivial', 0)
    chunk = cfg.get('chunk')
    plan = []
    if cfg.get('join'):
        joined = []
        for l, items in groups.items():
            joined += [(pc, c, l) for pc, c in items]
        plan = [('*', joined)] if joined else []
    else:
        for l, items in groups.items():
            items = [(pc, c, l) for pc, c in items]
            n = chunk or len(items)
            for i in range(0, len(items), n):
                plan.append((l, items[i:i + n]))
    while plan:
        label, items = plan.pop(0)
        bad = disj(T, [(pc, c) for pc, c, l in items])
        if bad is False:
            continue
        st, m = d.model([bad])
        if st == 'unsat':
            continue
        if st == 'unknown':
            if len(items) > 1:
                k = max(1, len(items) // 4)
                plan = [(label, items[i:i + k]) for i in range(0, len(items), k)] + plan
                continue
            res['status'] = 'inconclusive' if res['status'] == 'held' else res['status']
            res['notes'].append('solver gave no answer: %s' % label)
            continue
        lab = None
        for pc, c, l in items:
            try:
                if all(T.evaluate(x, m) for x in pc) and (c is True or T.evaluate(c, m)):
                    lab = l
                    break
            except Exception:
                pass
        lab = lab or label
        res['violations'].append({'label': lab, 'inputs': encm(m, vm.inputs)})
        res['status'] = 'violated'
        # further, different models of the same violation (in case one does not reproduce because of rounding)
        extra = cfg.get('alternatives', 2)
        blk = []
        for k in range(extra):
            iv = [v for v in T.variables([bad]) if v.args[0] in vm.inputs]
            if not iv:
                break
            blk.append(T.Not(T.And(*[T.Eq(v, m[v.args[0]]) if v.sort != 'B' else T.Iff(v, m[v.args[0]]) for v in iv])))
            st, m2 = d.model([bad] + blk)
            if st != 'sat':
                break
            m = m2
            res['violations'].append({'label': lab, 'inputs': encm(m, vm.inputs), 'alternative': True})
        if label == '*' and len(res['violations']) > 6:
            break
        if label == '*':
            rest = [x for x in items if x[2] != lab]
            if rest:
                plan.append(('*', rest))
        if len(res['violations']) > 12:
            break
    # ---- 2. witnesses: the assertions are not vacuous, and the encoding agrees with the implementation
    want = cfg.get('reach', [])
    for l in want:
        pcs = vm.reached.get(l, [])
        okw = False
        if pcs:
            st, m = d.model([T.Or(*[T.And(*pc) for pc in pcs])])
            okw = st == 'sat'
        if not okw:
            res['notes'].append('not reached: %s' % l)
            res['status'] = 'vacuous' if res['status'] == 'held' else res['status']
        else:
            res['witnesses'].append(witness(T, V, vm, m, l))
    n = cfg.get('traces', 2)
    ends = [(pc, s) for k, v, pc, s in outs if k == 'return']
    res['returns'] = len(ends)
    seen = 0
    import random
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
    if len(ends) > n:
        ends = rng.sample(ends, n)
    for pc, s in ends:
        st, m = d.model(list(pc) + diversify(T, vm, rng))
        if st != 'sat':
            st, m = d.model(list(pc)) if pc else ('sat', {})
        if st == 'sat':
            res['witnesses'].append(witness(T, V, vm, m, 'path'))
            seen += 1
    if not ends and res['status'] == 'held':
        res['status'] = 'vacuous'
        res['notes'].append('no execution completes')
    res['queries'] = d.q
    res['solver'] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in S.STATS.items()}
    res['backends'] = dict(S.BACKENDS)
    res['vm'] = dict(vm.stats)
    res['functions'] = sorted({'%s.%s' % (m, q) for m, q, l in vm.functions if m.startswith('malstroem')})
    res['time_s'] = round(time.time() - t0, 2)
    res['ninputs'] = len(vm.inputs)
    return res


def diversify(T, vm, rng):
    """random strict order relations between a few inputs, so that witnesses are not degenerate"""
    names = [n for n, (s, d, lo, hi) in vm.inputs.items() if s == 'R']
    if len(names) < 2:
        return []
    out = []
    k = min(6, len(names))
    xs = rng.sample(names, k)
    for a, b in zip(xs, xs[1:]):
        out.append(T.Lt(T.Var(a, 'R'), T.Var(b, 'R')))
    return out


def witness(T, V, vm, m, label):
    full = complete(m, vm.inputs)
    recs = []
    for pc, l, val in vm.records:
        try:
            if all(T.evaluate(x, full) for x in pc):
                recs.append([l, ev(T, V, val, full)])
        except KeyError:
            recs = None
            break
        except NotImplementedError:
            recs = None
            break
    return {'label': label, 'inputs': encm(full, vm.inputs), 'records': recs}


def ev(T, V, v, m):
    if isinstance(v, V.SymArray):
        return [ev(T, V, V.mk(t, None) if False else t, m) for t in v.terms()]
    if isinstance(v, V.SV):
        return ev(T, V, v.t, m)
    if isinstance(v, T.Term):
        r = T.evaluate(v, m)
        return ev(T, V, r, m)
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, (float, Fraction)):
        return repr(float(v))
    if isinstance(v, (list, tuple)):
        return [ev(T, V, x, m) for x in v]
    if v is None or isinstance(v, str):
        return v
    import numpy as np
    if isinstance(v, np.ndarray):
        return [ev(T, V, x, m) for x in v.ravel().tolist()]
    if isinstance(v, np.generic):
        return ev(T, V, v.item(), m)
    return str(type(v))


def main():
    prop, tier, cid, out = sys.argv[1:5]
    sys.setrecursionlimit(20000)
    lim = int(os.environ.get('VERIF_MEM_GB', '8')) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    try:
        from . import env
        env.paths()
        from .values import EngineUnsupported, EngineBudget
        try:
            res = decide(prop, tier, cid)
        except EngineUnsupported as e:
            res = {'id': cid, 'status': 'unsupported', 'notes': ['not encoded: %s' % e], 'trace': traceback.format_exc()[-2500:]}
        except EngineBudget as e:
            res = {'id': cid, 'status': 'inconclusive', 'notes': ['exploration budget: %s' % e]}
        except MemoryError:
            res = {'id': cid, 'status': 'inconclusive', 'notes': ['memory limit']}
    except BaseException as e:
        res = {'id': cid, 'status': 'error', 'notes': ['%s: %s' % (type(e).__name__, e)], 'trace': traceback.format_exc()[-3000:]}
    with open(out, 'w') as fh:
        json.dump(res, fh)


if __name__ == '__main__':
    main()
