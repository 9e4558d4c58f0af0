#!/usr/bin/env python3-vt
"""Systematic mutation of the headers: each mutant is verified until the first obligation some property uses fails.
usage: automut.py list                      number and list the mutants
       automut.py run OUT [from [to]]       verify (8 at a time), one line per mutant appended to OUT; survivors need a look by hand
       automut.py one N                     verify mutant N"""
import os, sys, re, subprocess, tempfile, shutil, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = '/repo/include/boost/lockfree/'
FILES = {'stack.hpp': ('stack',), 'queue.hpp': ('queue',), 'spsc_queue.hpp': ('spsc',), 'detail/freelist.hpp': ('stack', 'queue'),
         'detail/copy_payload.hpp': ('stack', 'queue', 'spsc'), 'detail/tagged_ptr_ptrcompression.hpp': ('repr', 'queue', 'stack'), 'detail/tagged_ptr_dcas.hpp': ('repr',)}
SWAPS = [('count0', 'count1'), ('read_index', 'write_index'), ('new_top_node', 'end_node'), ('next_node', 'node_pointer'), ('tail', 'head'), ('old_pool', 'new_pool'), ('internal_buffer', 'output_buffer')]
OPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < (?=[a-z0-9])', ' <= '), (r' > (?=[a-z0-9])', ' >= '), (r' >= ', ' > '), (r' <= ', ' < '),
       (r'memory_order_(acquire|release|consume|acq_rel)', 'memory_order_relaxed'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'get_next_tag\(\)', 'get_tag()'), (r'get_tag\(\)', 'get_next_tag()'), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'return 0;', 'return 1;'), (r'\bThreadSafe\b', 'false'), (r'\bThreadsafe\b', 'false'), (r'\bBounded\b(?!,| >)', 'false'), (r'\+\+', '--'), (r'if \( !', 'if ( '), (r'0xffffffffffffUL', '0x7fffffffffffUL'), (r'65535', '65536')]

def mutants():
    out = []
    for f in FILES:
        L = open(INC + f).read().split('\n')
        com = False
        for n, l in enumerate(L):
            s = l.strip()
            if s.startswith('/*'):
                com = True
            if com or not s or s[0] in '#*' or s.startswith('//') or s.startswith('template') or s.startswith('BOOST_STATIC_ASSERT') or s.startswith('BOOST_ASSERT') or 'typedef' in s or 'static_assert' in s:
                if '*/' in s:
                    com = False
                continue
            code = l.split('//')[0]
            seen = set()
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    x = code[:m.start()] + rep + code[m.end():]
                    if x not in seen:
                        seen.add(x); out.append((f, n, x))
            for a, b in SWAPS:
                for p, q in ((a, b), (b, a)):
                    for m in re.finditer(r'\b%s\b' % p, code):
                        x = code[:m.start()] + q + code[m.end():]
                        if x not in seen:
                            seen.add(x); out.append((f, n, x))
            if re.match(r'[A-Za-z_:~>.*&()\[\]<, 0-9-]+( = [^;]*| -= [^;]*| \+= [^;]*|\(.*\));$', s) and not s.startswith(('return', 'typedef', 'using', 'const ', 'tagged', 'node*', 'size_t ', 'T* ', 'static', 'bool ', 'freelist_node*', 'T&', 'index_t ', 'BOOST_', 'throw', 'tag_t ', 'friend', 'handle_type', 'node ', 'T ', 'ConstIterator', 'compressed', 'cast_', 'bool&')):
                if '' not in seen:
                    out.append((f, n, ' ' * (len(l) - len(l.lstrip())) + ';'))
    return out

BASE = os.environ.get('AUTOMUT_BASE', '/tmp/automut-base')
def funcs(ll):
    """functions of a lowered file; '' stands for everything that is none of the operations"""
    d, cur, name, rest = {}, None, None, []
    for l in open(ll):
        l = re.sub(r', ![a-zA-Z.]+ !\d+|#\d+', '', l)
        if l.startswith('define'):
            name = re.search(r'@"?([\w.$]+)"?\(', l).group(1); cur = [l]
        elif cur is not None:
            cur.append(l)
            if l.startswith('}'):
                t = ''.join(cur)
                if name.startswith('c_') and 'ctor' not in name:
                    d[name] = t
                else:
                    rest.append(t)
                cur = None
        elif l[0] not in '!;\n' and not l.startswith(('attributes', 'source_filename')):
            rest.append(l)
    d[''] = ''.join(sorted(rest))
    return d

def base(s, c):
    p = os.path.join(BASE, '%s-%s.2.ll' % (s, c))
    if not os.path.exists(p):
        w = tempfile.mkdtemp(prefix='vc-am-'); old = os.environ.get('VERIF_REPO')
        subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); import runner; print(runner.lower_task(%r, %r, %r)[2])' % (os.path.join(HERE, 'vc'), s, c, w)], env=dict(os.environ, VERIF_REPO='/repo'))
        os.makedirs(BASE, exist_ok=True)
        for f in os.listdir(w):
            if f == '%s-%s.2.ll' % (s, c):
                shutil.copy(os.path.join(w, f), p)
        shutil.rmtree(w, ignore_errors=True)
    return p

def one(k):
    f, n, x = mutants()[k]
    root = tempfile.mkdtemp(prefix='am'); work = tempfile.mkdtemp(prefix='vc-am-')
    try:
        shutil.copytree('/repo/include', root + '/include')
        p = root + '/include/boost/lockfree/' + f
        L = open(p).read().split('\n'); L[n] = x; open(p, 'w').write('\n'.join(L))
        os.environ['VERIF_REPO'] = root
        sys.path.insert(0, os.path.join(HERE, 'vc'))
        import runner, props
        und = ran = 0
        for s in FILES[f]:
            mod = runner.suite_module(s)
            todo = []
            for c in mod.CFGS:
                if c.startswith(('cap-max', 'cap-big')):
                    continue
                for u in mod.units(c):
                    for m in ('sc', 'ord'):
                        ps = [(P, y) for P in props.PROPS for y in props.PROPS[P] if y['suite'] == s and c in runner.cfgs_of(y) and m in y['modes'] and (y['ops'] is None or mod.matches(u, y['ops'])) and not mod.matches(u, y['skip'])]
                        if ps:
                            todo.append((mod.CFGS and list(mod.CFGS).index(c), m == 'ord', mod.cost(u), c, u, m, ps))
            todo.sort(key=lambda t: t[:3])
            bad = set(); diff = {}
            for _, _, _, c, u, m, ps in todo:
                if c in bad:
                    continue
                r = runner.lower_task(s, c, work)
                if r[2]:
                    if 'compilation failed' in r[2]:
                        return 'BUILD'
                    bad.add(c); und += 1
                    continue
                if s != 'repr' and c not in diff:
                    w = [os.path.join(work, '%s-%s.2.ll' % (s, c))]
                    a, b = funcs(base(s, c)), funcs(w[0])
                    diff[c] = None if a[''] != b[''] else {x for x in set(a) | set(b) if a.get(x) != b.get(x)}
                if diff.get(c) is not None and u.split(':')[0] not in diff[c]:
                    continue
                ran += 1
                r = runner.unit_task(s, c, u, m, work, 120)
                if r['error']:
                    und += 1
                for o in r['obs']:
                    if o['status'] == 'failed':
                        hit = sorted({P for P, y in ps if y['kinds'] is None or (y['kinds'](o['kind']) if callable(y['kinds']) else o['kind'] in y['kinds'])})
                        if hit:
                            return 'KILLED %s/%s %s [%s] %s' % (s, c, u, o['kind'], ','.join(hit))
        return ('SURVIVES undecided=%d' % und) if ran or 'repr' in FILES[f] else 'SAMECODE'
    finally:
        shutil.rmtree(root, ignore_errors=True); shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    M = mutants()
    if sys.argv[1] == 'list':
        for k, (f, n, x) in enumerate(M):
            print(k, f, n + 1, x.strip())
    elif sys.argv[1] == 'one':
        print(one(int(sys.argv[2])))
    else:
        from concurrent.futures import ThreadPoolExecutor
        a = int(sys.argv[3]) if len(sys.argv) > 3 else 0; b = int(sys.argv[4]) if len(sys.argv) > 4 else len(M)
        def go(k):
            t = time.time()
            try:
                r = subprocess.run([sys.executable, os.path.abspath(__file__), 'one', str(k)], capture_output=True, text=True, timeout=1800)
                o = r.stdout.strip() or 'ERROR ' + r.stderr[-200:].replace('\n', ' ')
            except subprocess.TimeoutExpired:
                o = 'TIMEOUT'
            f, n, x = M[k]
            open(sys.argv[2], 'a').write('%4d %5.0fs %-60s %s:%d %s\n' % (k, time.time() - t, o, f, n + 1, x.strip()))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(go, range(a, b)))
