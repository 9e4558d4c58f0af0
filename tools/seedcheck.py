#!/usr/bin/env python3-vt
"""Runs each seeded bug against its property's check (or the properties given with --props C01,C02) in a scratch copy; not a check."""
import os, sys, subprocess, tempfile, shutil, json, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; props = None
if '--props' in args: i = args.index('--props'); props = args[i + 1].split(','); del args[i:i + 2]
for sid in args or sorted(os.listdir(HERE + '/seeded')):
    d = HERE + '/seeded/' + sid; P = json.load(open(d + '/meta.json'))['property']
    root = tempfile.mkdtemp(prefix='sdchk')
    shutil.copytree('/repo/include', root + '/include')
    subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + root, d + '/patch.diff'], cwd='/', check=True)
    for p in props or [P]:
        t = time.time()
        r = subprocess.run(['python3-vt', HERE + '/check.py', p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=root))
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        f = [l for l in r.stdout.split('\n') if 'not discharged' in l]; u = [l for l in r.stdout.split('\n') if 'not decided' in l]
        w = ''
        if v and 'no-failing' not in v[0]:
            x = open(v[0].split('replay=')[1].split()[0]).read(); w = ' '.join(l for l in x.split('\n')[3:4])
        print('%-20s %s rc=%d %.0fs %s failed=%d undecided=%d %s | %s' % (sid, p, r.returncode, time.time() - t, v[0][10:] if v else 'QUIET', len(f), len(u), w, (f or u or [r.stderr[-300:]])[0][:160]), flush=True)
    shutil.rmtree(root)
