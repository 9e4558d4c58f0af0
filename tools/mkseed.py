#!/usr/bin/env python3-vt
"""Writes /verif/seeded/<id>/ from a list of planted bugs.  usage: mkseed.py LIST.py [id ...]
LIST.py: S = [dict(id, property, edits=[(file, old, new, count)], src, defs, args, needs, breaks, env='')]
The demonstration is a copy of the exploration programs of rt/ with a fixed scenario; it is checked here to succeed on /repo and to
fail with the change."""
import os, sys, shutil, subprocess, tempfile, json, importlib.util
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('sl', sys.argv[1]); sl = importlib.util.module_from_spec(spec); spec.loader.exec_module(sl)
names = sys.argv[2:]
DEMO = '''#!/bin/bash
# explores schedules or inputs of the library in $PWD/include under the programs beside this file; exit 0: no failure found
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
clang++ -std=gnu++17 -O1 -w -DBOOST_LOCKFREE_FORCE_BOOST_ATOMIC %(defs)s -I"$here" -I"$PWD/include" "$here/%(src)s" -o "$t/demo" || exit 2
cd "$t"
%(env)stimeout 250 ./demo %(args)s > out 2>&1
rc=$?
head -c 20000 out
exit $rc
'''
ok = 0
for s in sl.S:
    if names and s['id'] not in names: continue
    d = os.path.join(HERE, 'seeded', s['id'])
    root = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (root, root), shell=True, check=True)
        for f, old, new, cnt in s['edits']:
            p = root + '/include/boost/lockfree/' + f; t = open(p).read()
            k = t.count(old)
            if isinstance(cnt, str):      # 'n/m': the n-th of m occurrences
                n, m = map(int, cnt.split('/')); assert k == m, (s['id'], k, old)
                i = -1
                for _ in range(n): i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            else:
                assert k == cnt, (s['id'], k, old); t = t.replace(old, new)
            open(p, 'w').write(t)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', root, 'diff'], capture_output=True, text=True).stdout)
        if s['src'] != 'repr.cpp':
            os.makedirs(d + '/boost'); shutil.copy(HERE + '/rt/boost/atomic.hpp', d + '/boost/'); shutil.copy(HERE + '/rt/mc.hpp', d)
        src = s['src']; shutil.copy(HERE + '/rt/' + src, d)
        open(d + '/demo.sh', 'w').write(DEMO % dict(defs=s['defs'], src=src, args=s['args'], env=(s.get('env', '') + ' ').lstrip()))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        import time
        t0 = time.time(); a = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True); t1 = time.time()
        b = subprocess.run([d + '/demo.sh'], cwd=root, capture_output=True, text=True); t2 = time.time()
        print('%-22s %s clean rc=%d %.0fs patched rc=%d %.0fs %s' % (s['id'], 'ok' if a.returncode == 0 and b.returncode == 1 else '**BAD**', a.returncode, t1 - t0, b.returncode, t2 - t1, ' '.join(b.stdout.split('\n')[:2])[:230] if b.returncode == 1 else a.stdout[-300:] + a.stderr[-300:] + b.stdout[-300:] + b.stderr[-300:]), flush=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)
