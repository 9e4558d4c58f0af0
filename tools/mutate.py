#!/usr/bin/env python3-vt
"""Sensitivity test of the obligations: applies one textual change at a time to a scratch copy of the headers and reports
which properties' obligations fail (bugs) or stay quiet (behaviour-preserving edits).  Not a check; nothing reads its output.
usage: mutate.py LIST.py [name ...]      LIST.py defines M = [(name, file, old, new, count, suites)]"""
import os, sys, shutil, tempfile, json, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
spec = importlib.util.spec_from_file_location('ml', sys.argv[1])
ml = importlib.util.module_from_spec(spec); spec.loader.exec_module(ml)
names = [a for a in sys.argv[2:] if not a.startswith('--')]
REPLAY = '--replay' in sys.argv; ONLYREPLAY = '--only-replay' in sys.argv
root = tempfile.mkdtemp(prefix='vcmut')
os.environ['VERIF_REPO'] = root
sys.path.insert(0, HERE + '/vc')
import props, runner, replay
_A = lambda q, *m: [props.sel(q, m or ('sc',)), props.sel(q, m or ('sc',), cfgs=[c for c in runner.suite_module(q).CFGS if c.endswith('throw')])]
ALLSEL = {'stack': _A('stack', 'sc', 'ord'), 'queue': _A('queue', 'sc', 'ord'), 'spsc': _A('spsc', 'sc', 'ord'), 'repr': [props.sel('repr')]}
try:
    for name, f, old, new, cnt, suites in ml.M:
        if names and name not in names: continue
        shutil.rmtree(root + '/include', ignore_errors=True)
        shutil.copytree('/repo/include', root + '/include')
        p = root + '/include/boost/lockfree/' + f
        s = open(p).read()
        bad = False
        for o_, n_ in (old if isinstance(old, list) else [(old, new)]):
            k = s.count(o_)
            if k == 0 or (cnt and k != cnt):
                print('%-28s BAD MUTANT: %d matches of %s' % (name, k, o_[:60]), flush=True); bad = True
            s = s.replace(o_, n_)
        if bad: continue
        open(p, 'w').write(s)
        work = tempfile.mkdtemp(prefix='vc-mut-')
        t = time.time()
        sels = [x for q in suites for x in ALLSEL[q]]
        lows, units = runner.run(sels, work, budget=60) if not ONLYREPLAY else ([], [])
        hit, kinds, err = {}, {}, {}
        for n, c, e, w, i in lows:
            if e: err[n + '/' + c] = e[:200].replace('\n', ' ')
        for r in units:
            if r['error']: err[r['suite'] + '/' + r['cfg'] + ' ' + r['unit'] + ' ' + r['mode']] = r['error'][:100]
            for o in r['obs']:
                if o['status'] == 'proved': continue
                k = (o['kind'], o['name'], o['status'])
                kinds.setdefault(k, set()).add(r['unit'])
                for P, ss in props.PROPS.items():
                    for x in ss:
                        m = runner.suite_module(x['suite'])
                        if x['suite'] == r['suite'] and r['cfg'] in runner.cfgs_of(x) and r['mode'] in x['modes'] and (x['ops'] is None or m.matches(r['unit'], x['ops'])) and not m.matches(r['unit'], x['skip']):
                            ks = x['kinds']
                            if ks is None or (ks(o['kind']) if callable(ks) else o['kind'] in ks): hit[P] = hit.get(P, 0) + 1
        print('%-28s %s  err=%d  %.0fs' % (name, ' '.join('%s:%d' % z for z in sorted(hit.items())) or 'QUIET', len(err), time.time() - t), flush=True)
        for k, v in list(kinds.items())[:6]: print('      ', k, sorted(v)[:5], flush=True)
        for k, v in list(err.items())[:3]: print('       ERR', k, v, flush=True)
        if REPLAY or ONLYREPLAY:
            names_ = {'spsc': 'SPSC', 'stack': 'STACK', 'queue': 'QUEUE', 'repr': 'HANDLE'}
            for P in sorted(hit) if not ONLYREPLAY else ml.PROPS.get(name, []) if hasattr(ml, 'PROPS') else sorted(replay.S):
                if not any(names_[q] in replay.S[P] for q in suites): continue
                r = replay.search(P, 'quick', 1, work, [], [('%s/' % q, None) for q in suites], 500)
                print('       REPLAY %s %s %.0fs %s' % (P, 'WITNESS ' + r['witness'].split('\n')[0] + ' | ' + ' '.join(r['witness'].split('\n')[3:5])[:200] if 'witness' in r else 'none', r['wall_s'], '; '.join(r['notes'])[:200]), flush=True)
        shutil.rmtree(work, ignore_errors=True)
finally:
    shutil.rmtree(root, ignore_errors=True)
