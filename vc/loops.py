"""Loop cutting: header invariants are inferred (optimistic candidates, weakened until inductive) and then used."""
import z3
from sym import *
from sym import _add
from world import NeedDetach

MAXPASS = 14
PURE = {'bin', 'cast', 'icmp', 'select', 'phi', 'gep', 'br', 'extractvalue', 'freeze', 'switch'}

class Shape:
    def __init__(self):
        self.kind = {}       # loc -> ('same',) ('aff', c) ('ptr',) ('fresh',) ('snap', X, f) ('alias', f)
        self.mem = set()     # memory locations that are scalars of this loop: (region, off, size)
        self.atoms = None    # list of templates (entry atoms)
        self.cellfresh = {}  # atom index -> set of (off, size) havoced
        self.snaps = {}      # word name -> dict loc -> f
        self.snap_acq = {}   # word name -> acquire?
        self.time_fresh = False
        self.bounds = None   # list of (c, B term, atom) candidates:  c*K <= B
        self.extra = []      # extra segment templates (world specific)
        self.flags = {}

def do_loop(ex, st0, h, prev, act, peel=True):
    fn = ex.fn
    body = fn.loops[h]
    if all(i.op in PURE for b in body for i in fn.blocks[b]):
        if try_unroll(ex, st0, h, prev, act, body):
            return
    if peel and ex.w.peel(st0):
        backs, exits = [], []
        s = st0.copy()
        ex.phis(s, h, prev)
        enter_body(ex, s, h, [Active(h, body, False, lambda s2, p2: backs.append((s2, p2)), exits)])
        for s, blk, p in exits:
            if isinstance(blk, tuple):
                ex.leave(s, act, blk)
            else:
                ex.run(s, blk, p, act)
        for s, p in backs:
            if ex.feasible(s):
                do_loop(ex, s, h, p, act, False)
        return
    phis = []
    vals0 = {}
    for i in fn.blocks[h]:
        if i.op != 'phi':
            break
        v = ex.val(st0, i.a[0], i.a[1][prev])
        phis.append((i.dst, i.a[0], i.a[1]))
        vals0[('phi', i.dst)] = v
    tries = 0
    while True:
        try:
            infer(ex, st0, h, act, body, phis, vals0)
            return
        except NeedDetach:
            if ex.loopdepth:
                raise
            ex.w.do_detach(st0)
        except Unsupported as e:
            if not tries and ex.w.tailfold(st0):
                tries += 1
                continue
            if ex.infer or ex.loopdepth or getattr(e, 'past', False):
                raise
            # no invariant: the unit stays undecided; the first iterations and what follows them are explored all the
            # same, and an obligation that fails there is reported
            ex.undecided.append(str(e))
            unroll(ex, st0, h, prev, act, body, 3)
            return

def infer(ex, st0, h, act, body, phis, vals0):
    sh = Shape()
    sh.atoms = [a.copy() for a in st0.atoms]
    K = ex.fresh(64, 'K')
    stable = False
    for it in range(MAXPASS):
        sth, hv = header_state(ex, st0, sh, phis, vals0, K)
        backs = []
        log = []
        ex.infer += 1
        ex.loopdepth += 1
        oldlog = getattr(ex, 'icmplog', None)
        ex.icmplog = log
        try:
            a = Active(h, body, True, lambda s, p: backs.append((s, p)))
            enter_body(ex, sth.copy(), h, [a] + [x for x in act])
        finally:
            ex.infer -= 1
            ex.loopdepth -= 1
            ex.icmplog = oldlog
        if sh.flags.pop('newbounds', False):
            new_bounds(ex, sh, log, K)      # before anything is weakened for want of them
            if sh.bounds:
                continue
        had = sh.bounds
        sh.bounds = had or []
        ch = refine(ex, st0, sh, sth, hv, backs, phis, vals0, K)
        if had is None and not sh.flags.get('rebound'):
            new_bounds(ex, sh, log, K)      # assumed on the next pass, checked from then on
            if sh.bounds:
                ch = True
        if not ch:
            stable = True
            break
        # newly introduced affine scalars may give new bound candidates on the next pass
        if sh.flags.pop('rebound', False):
            sh.bounds = None
            sh.flags['newbounds'] = True
    if not stable:
        raise Unsupported("no inductive invariant found for loop at %s" % ex.lab(h))
    ex.loopsdone += 1
    if not ex.infer:
        ex.nobs += 1
        k = ('inv', 'loop invariant is inductive')
        if k not in ex.obs:
            ex.obs[k] = Ob('inv', k[1], ex.op, 'proved', 0)
        ex.obs[k].detail += max(1, len(sh.kind))
    sth, hv = header_state(ex, st0, sh, phis, vals0, K)
    info = dict(entry=vals0, header=sth, shape=sh, K=K, h=h, hnow=sth.now, measure=any(ex.valid(st0, z3.ULE(b[1], bv(b[0] << 48 if b[0] > 255 else b[0] << 56))) for b in sh.bounds or []), st0=st0)
    nfacts = len(sth.facts)
    def handler(s, p):
        def back(loc):
            for dst, ty, inc in phis:
                if ('phi', dst) == loc:
                    return ex.val(s, ty, inc[p])
        ex.w.at_backedge(s, dict(info, back=back))
    a = Active(h, body, False, handler)
    s = sth.copy()
    ex.w.loop_enter(s, info)
    try:
        enter_body(ex, s, h, [a] + [x for x in act])
    except Unsupported as e:
        e.past = True       # not a matter of this loop's invariant
        raise

def enter_body(ex, st, h, act):
    ins = ex.fn.blocks[h]
    i = 0
    while ins[i].op == 'phi':
        i += 1
    res = ex.block(st, h, ins, i, act)
    if res is not None:
        st, nb = res
        ex.run(st, nb, h, act)

def try_unroll(ex, st0, h, prev, act, body):
    exits = []
    cur = [(st0.copy(), prev)]
    for k in range(4):
        backs = []
        for s, p in cur:
            a = Active(h, body, False, lambda s2, p2: backs.append((s2, p2)), exits)
            vals = []
            for i in ex.fn.blocks[h]:
                if i.op != 'phi':
                    break
                vals.append((i.dst, ex.val(s, i.a[0], i.a[1][p])))
            for d, v in vals:
                s.regs[d] = v
            enter_body(ex, s, h, [a])
        cur = [(s, p) for s, p in backs if ex.feasible(s)]
        if not cur:
            for s, blk, p in exits:
                if isinstance(blk, tuple):
                    ex.leave(s, act, blk)
                else:
                    ex.run(s, blk, p, act)
            return True
    return False

def unroll(ex, st0, h, prev, act, body, n):
    """bounded: the first n iterations, each path going on behind the loop; later iterations are not looked at"""
    cur = [(st0.copy(), prev)]
    for k in range(n):
        backs, exits = [], []
        for s, p in cur:
            ex.phis(s, h, p)
            enter_body(ex, s, h, [Active(h, body, False, lambda s2, p2: backs.append((s2, p2)), exits)])
        for s, blk, p in exits:
            if isinstance(blk, tuple):
                ex.leave(s, act, blk)
            else:
                ex.run(s, blk, p, act)
        cur = [(s, p) for s, p in backs if ex.feasible(s)]
        if not cur:
            return

def entry_value(st0, vals0, loc):
    if loc[0] == 'phi':
        return vals0[loc]
    if loc[0] == 'gh':
        return st0.gh[loc[1]]
    return None

def header_state(ex, st0, sh, phis, vals0, K):
    w = ex.w
    st = st0.copy()
    hv = {}
    st.facts.append(z3.ULT(K, bv(1 << 40)))
    w.loop_time(st, st0, sh)
    snapw = {}
    for X in sh.snaps:
        if sh.snaps[X]:
            snapw[X] = w.snap_time(st, X, sh.snap_acq[X])
    def value(loc, x0, ty=None):
        k = sh.kind.get(loc, ('same',))
        if k[0] == 'same':
            return x0
        if k[0] == 'aff':
            return S(x0 + K * bv(k[1])) if x0.size() == 64 else S(x0 + z3.Extract(x0.size() - 1, 0, K * bv(k[1])))
        if k[0] == 'ptr':
            return w.mkptr(st, w.fresh_key(st))
        if k[0] == 'snap':
            return S(snap_f(ex, st, snapw[k[1]], k[2], x0, x0))
        if z3.is_bool(x0):
            return ex.freshb('hb')
        return ex.fresh(x0.size(), 'h')
    for dst, ty, inc in phis:
        loc = ('phi', dst)
        x0 = vals0[loc]
        if isinstance(x0, tuple):
            hv[loc] = x0
            if sh.kind.get(loc, ('same',))[0] != 'same':
                hv[loc] = ('agg', {})
        else:
            hv[loc] = value(loc, x0)
        st.regs[dst] = hv[loc]
    for loc in sorted(l for l in sh.kind if l[0] == 'mem'):
        b = st.mem.setdefault(loc[1], Bytes())
        x0 = b.load(loc[2], loc[3], lambda n: ex.fresh(n, 'mem'))
        hv[loc] = value(loc, x0)
        b.store(loc[2], hv[loc])
    for nm in sorted(st.gh):
        loc = ('gh', nm)
        x0 = st.gh[nm]
        if x0 is None:
            continue
        if loc in sh.kind:
            v = value(loc, x0)
        else:
            v = x0
        hv[loc] = v
        st.gh[nm] = v
    w.header_atoms(st, st0, sh, hv, K)
    for c, B, at in sh.bounds or []:
        st.facts.append(S(z3.ULE(K * bv(c), B)))
    w.header_facts(st, sh, hv, K)
    return st, hv

def snap_f(ex, st, word, f, like, x0):
    if f == 'whole':
        return word
    if f[0] == 'x':
        return z3.Extract(f[1] + like.size() - 1, f[1], word)
    if f[0] == 'ptr':
        return ex.w.handle_ptr(st, word, like)
    if f[0] == 'mix':       # upper part of the word, lower part of the value at loop entry
        if x0.size() != word.size():
            return None
        return z3.Concat(z3.Extract(word.size() - 1, f[1], word), z3.Extract(f[1] - 1, 0, x0))
    raise Unsupported("snap")

def snap_candidates(ex, x, word):
    out = []
    if x.size() == word.size():
        out.append('whole')
    if x.size() < word.size():
        for lo in range(0, word.size() - x.size() + 1, 16):
            out.append(('x', lo))
    if x.size() == 64:
        out.append(('ptr',))
    if x.size() == word.size():
        out += [('mix', lo) for lo in range(16, word.size(), 16)]
    return out

def new_bounds(ex, sh, log, K):
    """candidates  c*K <= B  from the comparisons evaluated in the body"""
    sh.bounds = ex.w.bounds(K)
    seen = set()
    kid = K.get_id()
    for a, b, facts in log:
        if a.size() != 64:
            a = S(zx(a, 64)); b = S(zx(b, 64))
        e = _add(lin(a), lin(b), -1)
        if kid not in e[1]:
            # comparisons of narrower values: look for K inside a truncation/extension
            continue
        c = e[1][kid][0]
        if c >= 1 << 63:
            e = _add((0, {}), e, -1)
            c = e[1][kid][0]
        if c > 4096:
            continue
        rest = {i: v for i, v in e[1].items() if i != kid}
        B = linterm(_add((0, {}), (e[0], rest), -1))
        k = (c, B.get_id())
        if k in seen:
            continue
        seen.add(k)
        sh.bounds.append((c, B, K))

def refine(ex, st0, sh, sth, hv, backs, phis, vals0, K):
    w = ex.w
    changed = False
    live = []
    for s, p in backs:
        if ex.feasible(s):
            live.append((s, p))
    # --- initiation of bounds / snapshots
    for b in list(sh.bounds or []):
        ok = ex.valid(st0, TRUE if z3.is_true(S(z3.ULE(bv(0), b[1]))) else z3.ULE(bv(0), b[1]))
        for s, p in live:
            if not ex.valid(s, z3.ULE((K + bv(1)) * bv(b[0]), b[1])):
                ok = False
                break
        if not ok:
            sh.bounds.remove(b)
            changed = True
    # --- time
    if w.time_changed(sth, [s for s, p in live]) and not sh.time_fresh:
        sh.time_fresh = True
        changed = True
    elif w.time_check(sth, sh, [s for s, p in live]):
        changed = True
    def back_phi(s, p, loc):
        for dst, ty, inc in phis:
            if ('phi', dst) == loc:
                return ex.val(s, ty, inc[p])
    # --- scalars
    def check_loc(loc, x0, getb):
        """returns True if the current kind is inductive for loc; demotes otherwise"""
        nonlocal changed
        k = sh.kind.get(loc, ('same',))
        xh = hv.get(loc, x0)
        if isinstance(x0, tuple):
            return
        if k[0] in ('fresh', 'snap', 'alias'):
            return
        bad = []
        for s, p in live:
            xb = getb(s, p)
            if xb is None:
                continue
            if k[0] == 'same':
                good = x0 is xb or x0.eq(xb) or ex.valid(s, xb == x0)
            elif k[0] == 'aff':
                nx = S(xh + (bv(k[1]) if xh.size() == 64 else bv(k[1] & ((1 << xh.size()) - 1), xh.size())))
                good = nx.eq(xb) or ex.valid(s, xb == nx)
            elif k[0] == 'ptr':
                good = w.as_key(s, xb) is not None
            if not good:
                bad.append((s, p, xb))
        if not bad:
            return
        changed = True
        if k[0] == 'same' and not z3.is_bool(x0):
            # constant step?
            ds = set()
            for s, p, xb in bad:
                d = S(xb - xh)
                n = num(d)
                ds.add(n if n else None)
            if len(ds) == 1 and None not in ds and len(bad) == len(live):
                d = ds.pop()
                if x0.size() < 64 and d >= 1 << (x0.size() - 1):
                    d -= 1 << x0.size()
                sh.kind[loc] = ('aff', d)
                sh.flags['rebound'] = True
                return
        if k[0] != 'ptr' and x0.size() == 64 if not z3.is_bool(x0) else False:
            if w.as_key(st0, x0) is not None and all(w.as_key(s, getb(s, p)) is not None for s, p in live):
                if loc[0] != 'phi' or not w.snap_words():
                    sh.kind[loc] = ('ptr',)
                    return
                sh.flags[('ptrok', loc)] = True      # some node, unless it turns out to be part of a word read
        if k[0] == 'ptr':
            sh.flags.pop(('ptrok', loc), None)
        sh.kind[loc] = ('fresh',)
        sh.flags['trysnap'] = True
    for dst, ty, inc in phis:
        loc = ('phi', dst)
        check_loc(loc, vals0[loc], lambda s, p, l=loc: back_phi(s, p, l))
    for nm, x0 in list(st0.gh.items()):
        if any((s.gh.get(nm) is None) != (x0 is None) for s, p in live):
            changed = True      # set on one side only: not inductive (bounds of the next pass may settle it)
            continue
        if x0 is None:
            continue
        check_loc(('gh', nm), x0, lambda s, p, n=nm: s.gh.get(n))
    # memory
    for s, p in live:
        for rn, b in s.mem.items():
            hb = sth.mem.get(rn)
            if hb is None:
                continue
            done = set()
            for off, (t, k) in list(b.d.items()):
                if off in done:
                    continue
                base, size = off - k, t.size() // 8
                for j in range(size):
                    done.add(base + j)
                if not all(base + j in b.d and b.d[base + j][0] is t for j in range(size)):
                    base, size = off, 1
                loc = ('mem', rn, base, size)
                same = all((base + j) in hb.d and hb.d[base + j][0] is b.d[base + j][0] and hb.d[base + j][1] == b.d[base + j][1] for j in range(size))
                if not same and loc not in sh.kind:
                    if (base in st0.mem.get(rn, Bytes()).d):
                        sh.kind.setdefault(loc, ('same',))
                        x0 = st0.mem[rn].copy().load(base, size, lambda n: ex.fresh(n, 'm'))
                        hv.setdefault(loc, x0)
    for loc in [l for l in sh.kind if l[0] == 'mem']:
        x0 = st0.mem[loc[1]].copy().load(loc[2], loc[3], lambda n: ex.fresh(n, 'm'))
        check_loc(loc, x0, lambda s, p, l=loc: s.mem[l[1]].copy().load(l[2], l[3], lambda n: ex.fresh(n, 'm')))
    # --- snapshots of shared words
    if sh.flags.pop('trysnap', False) or sh.snaps:
        if refine_snaps(ex, st0, sh, hv, live, phis, vals0, back_phi):
            changed = True
        for loc in [f[1] for f in sh.flags if isinstance(f, tuple) and f[0] == 'ptrok']:
            if sh.kind.get(loc, ('same',))[0] == 'fresh':
                sh.kind[loc] = ('ptr',)
                changed = True
    # --- heap atoms
    if w.refine_atoms(ex, st0, sh, sth, hv, live, phis, vals0, back_phi, K):
        changed = True
    return changed

def refine_snaps(ex, st0, sh, hv, live, phis, vals0, back_phi):
    w = ex.w
    changed = False
    locs = [('phi', d) for d, ty, inc in phis if sh.kind.get(('phi', d), ('same',))[0] == 'fresh' and not isinstance(vals0[('phi', d)], tuple)
            and not z3.is_bool(vals0[('phi', d)])]
    words = w.snap_words()
    def members(s, X, valof, cand):
        """latest record of word X that explains most of cand (dict loc->[f]); returns (rec, dict)"""
        best = (None, {})
        for r in reversed(s.recs):
            if r.word != X:
                continue
            got = {}
            for loc, fs in cand.items():
                v = valof(loc)
                for f in fs:
                    try:
                        e = snap_f(ex, s, r.value, f, v, vals0[loc])
                    except Unsupported:
                        continue
                    if e is None:
                        continue
                    e = S(e)
                    if e.size() != v.size():
                        continue
                    if e.eq(S(v)) or ex.valid(s, e == v):
                        got[loc] = f
                        break
            if len(got) > len(best[1]):
                best = (r, got)
            if len(got) == len(cand):
                break
        return best
    for X in words:
        if X in sh.snaps:
            mem = dict(sh.snaps[X])
        elif locs and ('tried', X) not in sh.flags:
            mem = None
        else:
            continue
        if mem is None:
            sh.flags[('tried', X)] = True
            cand = {}
            W = w.word_width(X)
            for loc in locs:
                fs = snap_candidates(ex, vals0[loc], z3.BitVec('w', W))
                if fs:
                    cand[loc] = fs
            r, got = members(st0, X, lambda l: vals0[l], cand)
            if not got:
                continue
            acq = r.acq
            cur = {l: [f] for l, f in got.items()}
        else:
            cur = {l: [f] for l, f in mem.items()}
            acq = sh.snap_acq[X]
            r, got = members(st0, X, lambda l: vals0[l], cur)
            cur = {l: [f] for l, f in got.items()}
            if r is not None:
                acq = acq and r.acq
        for s, p in live:
            if not cur:
                break
            r, got = members(s, X, lambda l: back_phi(s, p, l), cur)
            cur = {l: [f] for l, f in got.items()}
            if r is not None:
                acq = acq and r.acq
        new = {l: f[0] for l, f in cur.items()}
        if new != sh.snaps.get(X, {}) or (new and sh.snap_acq.get(X) != acq):
            changed = True
            for l in sh.snaps.get(X, {}):
                if l not in new:
                    sh.kind[l] = ('fresh',)
            sh.snaps[X] = new
            sh.snap_acq[X] = acq
            for l, f in new.items():
                sh.kind[l] = ('snap', X, f)
                if l in locs:
                    locs.remove(l)
    return changed
