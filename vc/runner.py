"""Runs verification units in parallel."""
import os, sys, time, traceback, shutil, tempfile
from concurrent.futures import ProcessPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

def suite_module(name):
    import importlib
    return importlib.import_module('suite_' + name)

def cfgs_of(s):
    m = suite_module(s['suite'])
    return s.get('cfgs') or getattr(m, 'DEFAULT', m.CFGS)

_cache = {}
def get_suite(name, cfg, work):
    k = (name, cfg)
    if k not in _cache:
        _cache[k] = suite_module(name).Suite(cfg, work)
    return _cache[k]

def lower_task(name, cfg, work):
    """stage 1: compile and check that the suite can be set up"""
    t = time.time()
    try:
        s = get_suite(name, cfg, work)
        s.prepare()
        return (name, cfg, None, time.time() - t, s.info())
    except Exception as e:
        return (name, cfg, '%s: %s' % (type(e).__name__, str(e)[-3000:]), time.time() - t, traceback.format_exc()[-3000:])

def unit_task(name, cfg, unit, mode, work, budget, scale=1.0):
    import sym
    sym.SCALE[0] = scale
    t = time.time()
    r = dict(suite=name, cfg=cfg, unit=unit, mode=mode, obs=[], nobs=0, queries=0, solver_s=0.0, error=None, covers={}, loops=0)
    try:
        s = get_suite(name, cfg, work)
        for ex in s.run(unit, mode, budget):
            r['nobs'] += ex.nobs
            r['queries'] += ex.pr.nq
            r['solver_s'] += ex.pr.time
            r['loops'] += ex.loopsdone
            for k, v in ex.covers.items():
                r['covers'][k] = r['covers'].get(k, 0) + v
            for o in ex.obs.values():
                r['obs'].append(dict(kind=o.kind, name=o.name, op=ex.op, status=o.status,
                                     n=o.detail if isinstance(o.detail, int) else 0,
                                     where=(o.where or '')[:12000] if o.status != 'proved' else ''))
    except Exception as e:
        r['error'] = '%s: %s' % (type(e).__name__, str(e)[:1500])
        # what failed before (or in the first iterations of a loop without invariant) is reported all the same
        for o in getattr(getattr(e, 'ex', None), 'obs', {}).values():
            if o.status == 'failed':
                r['obs'].append(dict(kind=o.kind, name=o.name, op=e.ex.op, status=o.status, n=0, where=(o.where or '')[:12000]))
        r['tb'] = traceback.format_exc()[-3000:]
    r['wall'] = time.time() - t
    return r

def run(sels, work, budget=150, jobs=8, log=None, retry_within=300):
    """sels: selections of props.py -> (suite results, unit results)"""
    t0 = time.time()
    names = []
    for s in sels:
        if s['suite'] not in names:
            names.append(s['suite'])
    lows, units = [], []
    with ProcessPoolExecutor(jobs) as pool:
        fs = []
        for n in names:
            cf = set()
            for s in sels:
                if s['suite'] == n:
                    cf |= set(cfgs_of(s))
            fs += [pool.submit(lower_task, n, c, work) for c in suite_module(n).CFGS if c in cf]
        for f in fs:
            lows.append(f.result())
        ok = {(a, b) for a, b, e, _, _ in lows if e is None}
        todo = []
        for s in sels:
            mod = suite_module(s['suite'])
            for c in cfgs_of(s):
                if (s['suite'], c) not in ok:
                    continue
                for u in mod.units(c):
                    if s['ops'] is not None and not mod.matches(u, s['ops']):
                        continue
                    if mod.matches(u, s['skip']):
                        continue
                    for m in s['modes']:
                        k = (s['suite'], c, u, m)
                        if k not in todo:
                            todo.append(k)
        todo.sort(key=lambda k: -suite_module(k[0]).cost(k[2]))
        fs = [pool.submit(unit_task, *k, work, budget) for k in todo]
        for f in as_completed(fs):
            r = f.result()
            units.append(r)
            if log:
                log(r)
    # obligations left open only because a solver ran out of time are tried again with more of it
    again = [r for r in units if open_unit(r)]
    if again and time.time() - t0 < retry_within:
        with ProcessPoolExecutor(jobs) as pool:
            fs = {pool.submit(unit_task, r['suite'], r['cfg'], r['unit'], r['mode'], work, budget, 3.0): i for r in again for i in [units.index(r)]}
            for f in as_completed(fs):
                r = f.result()
                r['retried'] = True
                if (open_unit(r), bool(r['error'])) <= (True, bool(units[fs[f]]['error'])):
                    units[fs[f]] = r
                if log:
                    log(r)
    return lows, units

def open_unit(r):
    if r['error']:
        return 'Give' in r['error'] and 'budget' in r['error']
    return any(o['status'] not in ('proved', 'failed') for o in r['obs']) and not any(o['status'] == 'failed' for o in r['obs'])
