#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current tree"""
import os, sys, json, time, tempfile, shutil, argparse, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
import props, runner

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-replay', action='store_true')
    a = ap.parse_args()
    P = a.prop
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='vc-%s-' % P, dir=os.path.join(HERE, 'build'))
    try:
        return decide(P, tier, seed, work, t0, a)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def kindok(s, k):
    ks = s['kinds']
    return ks is None or (ks(k) if callable(ks) else k in ks)

def decide(P, tier, seed, work, t0, a):
    sels = props.PROPS[P]
    def log(r):
        if a.v:
            bad = [(o['kind'], o['name'], o['status']) for o in r['obs'] if o['status'] != 'proved']
            print('  %s/%s %s %s obs=%d %.1fs %s %s' % (r['suite'], r['cfg'], r['unit'], r['mode'], r['nobs'], r['wall'], bad, r['error'] or ''), flush=True)
    lows, units = runner.run(sels, work, budget=150 if tier == 'quick' else 600, log=log)
    nob = ndis = 0
    failed, undecided, undone = [], [], []
    by = {}
    for n, c, e, w, i in lows:
        if e:
            undone.append('%s/%s: extraction: %s' % (n, c, e))
    for r in units:
        tag = '%s/%s %s (%s)' % (r['suite'], r['cfg'], r['unit'], r['mode'])
        if r['error']:
            undone.append(tag + ': ' + r['error'])
            if a.v:
                print(r.get('tb'))
        if not r['error'] and not r['nobs']:
            undone.append(tag + ': no obligations were generated')
        ss = [s for s in sels if s['suite'] == r['suite'] and r['mode'] in s['modes'] and r['cfg'] in runner.cfgs_of(s)
              and (s['ops'] is None or runner.suite_module(s['suite']).matches(r['unit'], s['ops']))]
        hid = [o for o in r['obs'] if o['status'] != 'proved' and not any(kindok(s, o['kind']) for s in ss)]
        if hid:
            # what lies behind a failed obligation is not explored: nothing is proved for this property there
            undone.append(tag + ': behind a failed obligation of another property: ' + hid[0]['name'])
        for o in r['obs']:
            if not any(kindok(s, o['kind']) for s in ss):
                continue
            nob += max(1, o['n'])
            by[o['kind']] = by.get(o['kind'], 0) + max(1, o['n'])
            if o['status'] == 'proved':
                ndis += max(1, o['n'])
            elif o['status'] == 'failed':
                failed.append((tag, o))
            else:
                undecided.append((tag, o))
    witness = None
    rep = None
    if (failed or undecided or undone or tier == 'thorough') and not a.no_replay:
        try:
            import replay
            rep = replay.search(P, tier, seed, work, units, failed + undecided, time.time() - t0)
            witness = rep.get('witness')
        except ImportError:
            rep = dict(note='no replay harness')
    known = load_known(P)
    lines = []
    viol = 0
    sig = None
    if witness:
        viol = 1
        path = write_replay(P, failed + undecided, undone, witness)
        lines.append('VIOLATION property=%s replay=%s' % (P, path))
    elif failed:
        viol = 1
        path = write_replay(P, failed + undecided, undone, None)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (P, path))
    ev = dict(property=P, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=viol)
    suites = {s['suite'] for s in sels}
    trusted = list(props.TRUST['common'])
    if 'spsc' in suites:
        trusted += props.TRUST['spsc']
    if suites & {'stack', 'queue'}:
        trusted += props.TRUST['lists']
    ev['coverage'] = dict(
        obligations=nob, discharged=ndis, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (P, tier), trusted_base=trusted,
        obligations_by_kind=by, failed=[dict(unit=t, kind=o['kind'], name=o['name'], status=o['status']) for t, o in failed + undecided],
        undecided_units=undone, back_end='z3 ' + z3v(), solver_s=round(sum(r['solver_s'] for r in units), 2),
        solver_queries=sum(r['queries'] for r in units), loops_with_invariants=sum(r['loops'] for r in units),
        functions_under_contract=sorted({'%s/%s %s' % (r['suite'], r['cfg'], r['unit']) for r in units if not r['error']}),
        exits_covered={k: sum(r['covers'].get(k, 0) for r in units) for k in ('ret', 'throw')},
        extracted=[dict(suite=n, cfg=c, info=i) for n, c, e, w, i in lows if not e])
    if rep:
        ev['coverage']['bounded_replay'] = {k: v for k, v in rep.items() if k != 'witness'}
    ev['assumptions'] = trusted
    json.dump(ev, open(os.path.join(HERE, 'evidence', P + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d failed, %d undecided, %d units not decided by proof, %.1f s'
          % (P, nob, ndis, len(failed), len(undecided), len(undone), time.time() - t0))
    for u in undone:
        print('  not decided by proof:', u[:600])
    for t, o in undecided:
        print('  not decided by proof: %s [%s] %s: %s' % (t, o['kind'], o['name'], o['status']))
    for t, o in failed:
        print('  obligation not discharged: %s [%s] %s: %s' % (t, o['kind'], o['name'], o['status']))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (P, k))
    for l in lines:
        print(l)
    return 1 if viol else 0

def z3v():
    import z3
    return z3.get_version_string()

def load_known(P):
    r = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % P):
                r.append(l.split(' ', 2)[2].strip())
    return r

def write_replay(P, obs, undone, witness):
    d = os.path.join(HERE, 'build', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, P + '.txt')
    with open(p, 'w') as f:
        f.write('property %s\n' % P)
        if witness:
            f.write('\n== failing input on the real code ==\n' + witness + '\n')
        else:
            f.write('\nno-failing-input-found: the obligations below were generated from the current source and are not discharged\n')
        for t, o in obs:
            f.write('\n== %s [%s] %s: %s\n%s\n' % (t, o['kind'], o['name'], o['status'], o['where']))
        for u in undone:
            f.write('\n== not decided: %s\n' % u)
    return p

if __name__ == '__main__':
    sys.exit(main())
