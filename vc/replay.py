"""Bounded search for a failing execution of the real headers (rt/): replays failed obligations, and the thorough tier.
It never decides that a property holds: it only supplies a concrete failing schedule or input where it finds one."""
import os, subprocess, time, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
import extract
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = os.path.join(HERE, 'rt')
FLAGS = ['-std=gnu++17', '-O1', '-w', '-fno-access-control', '-DBOOST_LOCKFREE_FORCE_BOOST_ATOMIC', '-I' + RT]
PROGS = {}
for k in ('STACK', 'QUEUE'):
    for v in ('RT', 'FIXED', 'CAPN=3'):
        PROGS['%s-%s' % (k, v)] = ('lists.cpp', ['-D' + k, '-D' + v])
for v in ('RT', 'CAPN=3'):
    for t in ('ELEM', 'TRIV'):
        PROGS['SPSC-%s-%s' % (v, t)] = ('spsc.cpp', ['-D' + v, '-D' + t])
for k, n in (('STACK', 65535), ('QUEUE', 65534)):
    PROGS['%s-BIG' % k] = ('lists.cpp', ['-D' + k, '-DCAPN=%d' % n])
for t in ('ELEM', 'TRIV'):
    PROGS['SPSC-BIG-' + t] = ('spsc.cpp', ['-DCAPN=131071', '-D' + t])
PROGS['HANDLE-ptr'] = ('repr.cpp', [])
PROGS['HANDLE-index'] = ('repr.cpp', ['-DINDEX'])
PROGS['HANDLE-dcas'] = ('repr.cpp', ['-DBOOST_LOCKFREE_PREFIX_HPP_INCLUDED', '-DBOOST_LOCKFREE_CACHELINE_BYTES=64', '-mcx16'])
S = {   # property -> {program prefix: scenarios}
    'C01': {'SPSC': ['seq', 'basic']}, 'C02': {'SPSC': ['seq', 'basic']}, 'C03': {'SPSC': ['basic']}, 'C04': {'SPSC': ['seq', 'seqfail', 'basic', 'fail']},
    'C05': {'STACK': ['basic', 'sysaba', 'sys', 'seqall', 'range']}, 'C06': {'STACK': ['range', 'sysrange', 'seqall']}, 'C07': {'STACK': ['take', 'systake', 'seqall']},
    'C08': {'QUEUE': ['basic', 'sysaba', 'sys', 'alloc', 'seq']},
    'C09': {'STACK': ['sys', 'sysaba', 'basic', 'range', 'take', 'seqfail'], 'QUEUE': ['sys', 'sysaba', 'basic', 'alloc', 'phases', 'seqfail']},
    'C10': {'STACK': ['seqall', 'sys', 'basic', 'seqfail', 'take'], 'QUEUE': ['basic', 'sys', 'seqfail', 'seq']},
    'C11': {'STACK': ['seq', 'bounded', 'range', 'limits'], 'QUEUE': ['seq', 'bounded', 'limits']},
    'C12': {'HANDLE': ['-'], 'STACK': ['basic'], 'QUEUE': ['basic']},
    'C13': {'HANDLE': ['-'], 'STACK': ['basic', 'take', 'seq'], 'QUEUE': ['basic', 'phases', 'seq']},
    'C14': {'STACK': ['seq', 'phases', 'seqall'], 'QUEUE': ['seq', 'phases']},
    'C15': {'STACK': ['solo', 'basic'], 'QUEUE': ['solo', 'basic'], 'SPSC': ['solo', 'basic', 'seq']},
    'C16': {'SPSC': ['seq', 'basic'], 'STACK': ['seqall', 'take', 'basic', 'sys'], 'QUEUE': ['basic', 'seq', 'sys']},
    'C17': {'STACK': ['seqfail'], 'QUEUE': ['seqfail'], 'SPSC': ['seq', 'seqfail', 'fail']},
    'C18': {'STACK': ['basic', 'alloc', 'range', 'take'], 'QUEUE': ['basic', 'alloc']},
}

for P_ in S:                                               # filled and emptied at the largest compile-time capacity
    if P_ not in ('C12', 'C13', 'C14', 'C15'):
        for k_ in S[P_]:
            if 'limits' not in S[P_][k_]:
                S[P_][k_].append('limits')

def runs(p, sc):
    if 'BIG' in p:
        return sc == 'limits'
    return sc != 'limits' or 'FIXED' in p

def search(P, tier, seed, work, units, failed, elapsed):
    t0 = time.time()
    total = 300 if tier == 'quick' else 700
    # leave room inside the 900 s of a check
    end = t0 + max(40, min(total, 780 - elapsed)) if tier != 'quick' else t0 + max(40, min(150, 600 - elapsed))
    want = S[P]
    sus = {t.split('/')[0] for t, o in failed} | {u['suite'] for u in units if u['error']}
    names = {'spsc': 'SPSC', 'stack': 'STACK', 'queue': 'QUEUE', 'repr': 'HANDLE'}
    first = [p for p in PROGS if p.split('-')[0] in want and p.split('-')[0] in {names[s] for s in sus}]
    rest = [p for p in PROGS if p.split('-')[0] in want and p not in first]
    progs = first + rest
    note, bins = [], {}
    def build(p):
        src, fl = PROGS[p]
        out = os.path.join(work, 'rt-' + p)
        for more in (['-DMC_POOLWORD'], []):           # the word of the pool is only found under its present name
            r = subprocess.run(['clang++'] + FLAGS + more + ['-I' + os.path.join(extract.REPO, 'include')] + fl + [os.path.join(RT, src), '-o', out],
                               capture_output=True, text=True, timeout=300)
            if r.returncode == 0:
                break
        return p, out if r.returncode == 0 else None, r.stderr
    with ThreadPoolExecutor(8) as ex:
        for p, o, err in ex.map(build, progs):
            if o:
                bins[p] = o
            else:
                note.append('%s does not compile: %s' % (p, err[:300]))
    jobs = []
    for rank, sc in enumerate(range(8)):
        for p in progs:
            l = want[p.split('-')[0]]
            if p in bins and rank < len(l) and runs(p, l[rank]):
                jobs.append((p, l[rank]))
    jobs.sort(key=lambda j: 'BIG' not in j[0])          # short ones first
    res = dict(programs=len(bins), scenarios=len(jobs), executions=0, label='bounded', notes=note)
    found = []
    procs = set()
    slot = max(3.0, min(120 if tier != 'quick' else 25, (end - time.time() - 5) * 8 / max(1, len(jobs))))
    def run(j):
        p, sc = j
        if found or time.time() > end - 1:
            return j, None, 0, ''
        secs = max(1.0, min(slot, end - time.time() - 1))
        args = [bins[p]] + ([] if sc == '-' else [sc, str(seed), '100000000', '%.1f' % secs, P])
        pr = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=work)
        procs.add(pr)
        try:
            out, _ = pr.communicate(timeout=secs + 25)
        except subprocess.TimeoutExpired:
            pr.kill(); out, _ = pr.communicate()
        procs.discard(pr)
        return j, pr.returncode, secs, out
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(run, j) for j in jobs]
        for f in as_completed(fs):
            j, rc, secs, out = f.result()
            if rc is None:
                continue
            if rc == 1 and 'FAILURE props=' in out:
                if not found:
                    found.append((j, out))
                    for q in list(procs):
                        q.kill()
            elif rc == 0 and 'executions=' in out:
                res['executions'] += int(out.split('executions=')[1].split()[0])
            elif not found:
                note.append('%s %s: exit %s %s' % (j[0], j[1], rc, out[-200:]))
    res['wall_s'] = round(time.time() - t0, 1)
    if found:
        (p, sc), out = found[0]
        src, fl = PROGS[p]
        cmd = 'clang++ %s -I/repo/include %s %s/%s -o /tmp/replay && /tmp/replay' % (' '.join(FLAGS), ' '.join(fl), RT, src)
        head = out.split('\n')[0]
        import re
        m = re.search(r'seed=(\d+) iteration=(\d+)', head)
        if m:
            it = int(m.group(2))
            cmd += ' %s %s %d 600 %s %d' % (sc, m.group(1), it + 1 if sc.startswith('sys') else 1, P, 0 if sc.startswith('sys') else it)
        res['witness'] = 'program %s, scenario %s\nrun again: %s\n\n%s' % (p, sc, cmd, out[:200000])
    return res
