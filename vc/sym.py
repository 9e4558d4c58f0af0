"""Symbolic execution / verification-condition generation for the lowered operations.

One operation (an extern "C" root of an instantiation TU) is executed path by path.  Loops are cut at their
headers with an invariant that is inferred (Houdini style: optimistic candidates, weakened until inductive) and
then *checked* on the final pass.  Everything that is specific to a data structure (what the shared words mean,
what other threads may do, what this operation must guarantee) lives in a World object (see lists.py, spscl.py).
"""
import os, time, sys, re
import z3
from irparse import IRError

sys.setrecursionlimit(20000)

class Unsupported(Exception):
    """the verifier cannot follow the code (a tool limit, not a verdict)"""

class Give(Exception):
    """stop exploring this operation (too many paths / budget)"""

def bv(v, w=64):
    return z3.BitVecVal(v, w)

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

_simp = {}
def S(t):
    k = t.get_id()
    r = _simp.get(k)
    if r is None:
        s = z3.simplify(t)
        _simp[k] = (t, s)
        _simp.setdefault(s.get_id(), (s, s))
        return s
    return r[1]

def num(t):
    """python int if t is a numeral"""
    if isinstance(t, int):
        return t
    s = S(t)
    if z3.is_bv_value(s):
        return s.as_long()
    return None

def isT(b):
    return z3.is_true(S(b))

def isF(b):
    return z3.is_false(S(b))

def to_bool(t):
    if z3.is_bool(t):
        return t
    if t.size() == 1:
        return t == bv(1, 1)
    return t != bv(0, t.size())

def from_bool(b, w):
    return z3.If(b, bv(1, w), bv(0, w))

def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    return z3.And(*a) if len(a) > 1 else (a[0] if a else TRUE)

def Or(*a):
    return z3.Or(*a) if len(a) > 1 else (a[0] if a else FALSE)

def Implies(a, b):
    return z3.Implies(a, b)

def zx(t, w):
    if t.size() == w:
        return t
    if t.size() > w:
        return z3.Extract(w - 1, 0, t)
    return z3.ZeroExt(w - t.size(), t)

# ---------------------------------------------------------------- linear forms
_lin = {}
def lin(t):
    """64 bit term -> (constant, {atom id: (coeff, atom)})"""
    k = t.get_id()
    if k in _lin:
        return _lin[k][1]
    r = _lin0(t)
    _lin[k] = (t, r)
    return r

M64 = (1 << 64) - 1
def _add(a, b, k=1):
    c = (a[0] + k * b[0]) & M64
    d = dict(a[1])
    for i, (co, at) in b[1].items():
        o = d.get(i, (0, at))[0]
        n = (o + k * co) & M64
        if n:
            d[i] = (n, at)
        else:
            d.pop(i, None)
    return (c, d)

def _lin0(t):
    w = t.size()
    assert w == 64
    if z3.is_bv_value(t):
        return (t.as_long(), {})
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_BADD:
        r = (0, {})
        for c in ch:
            r = _add(r, lin(c))
        return r
    if k == z3.Z3_OP_BSUB:
        r = lin(ch[0])
        for c in ch[1:]:
            r = _add(r, lin(c), -1)
        return r
    if k == z3.Z3_OP_BNEG:
        return _add((0, {}), lin(ch[0]), -1)
    if k == z3.Z3_OP_BMUL and len(ch) == 2:
        for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
            la = lin(a)
            if not la[1]:
                return _add((0, {}), lin(b), la[0])
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
        return _add((0, {}), lin(ch[0]), 1 << ch[1].as_long())
    if k == z3.Z3_OP_CONCAT and len(ch) >= 2 and z3.is_bv_value(ch[-1]) and ch[-1].as_long() == 0:
        sh = ch[-1].size()
        rest = z3.Concat(*ch[:-1]) if len(ch) > 2 else ch[0]
        if z3.is_app_of(rest, z3.Z3_OP_EXTRACT) and rest.arg(0).size() == 64:
            p = rest.params()
            if p[1] == 0:
                return _add((0, {}), lin(rest.arg(0)), 1 << sh)
        if z3.is_app_of(rest, z3.Z3_OP_CONCAT) and z3.is_bv_value(rest.arg(0)) and rest.arg(0).as_long() == 0:
            inner = rest.children()[1:]
            x = z3.Concat(*inner) if len(inner) > 1 else inner[0]
            return (0, {S(zx(x, 64)).get_id(): (1 << sh, S(zx(x, 64)))})
    s = S(t)
    if s.get_id() != t.get_id():
        return lin(s)
    return (0, {t.get_id(): (1, t)})

def linterm(l):
    r = bv(l[0])
    for co, at in l[1].values():
        r = r + (at if co == 1 else at * bv(co))
    return S(r)

def unzext(t, w=None):
    """t = zero extension of a narrower x -> x"""
    s = S(t)
    if z3.is_app_of(s, z3.Z3_OP_ZERO_EXT):
        return s.arg(0)
    if z3.is_app_of(s, z3.Z3_OP_CONCAT) and z3.is_bv_value(s.arg(0)) and s.arg(0).as_long() == 0:
        ch = s.children()[1:]
        return z3.Concat(*ch) if len(ch) > 1 else ch[0]
    return None

# ---------------------------------------------------------------- byte addressed concrete memory
class Bytes:
    """offset -> (term, byte index); copy on write by the owner"""
    __slots__ = ('d',)
    def __init__(self, d=None):
        self.d = d if d is not None else {}
    def copy(self):
        return Bytes(dict(self.d))
    def store(self, off, t):
        if z3.is_bool(t):
            t = from_bool(t, 8)
        n = (t.size() + 7) // 8
        if t.size() % 8:
            t = zx(t, n * 8)
        for i in range(n):
            self.d[off + i] = (t, i)
    def load(self, off, n, fresh):
        ps = []
        for i in range(n):
            if off + i not in self.d:
                self.d[off + i] = (fresh(8), 0)
            ps.append(self.d[off + i])
        t0, k0 = ps[0]
        if k0 == 0 and t0.size() == 8 * n and all(p[0] is t0 or p[0].eq(t0) for p in ps) and all(ps[i][1] == i for i in range(n)):
            return t0
        # contiguous slice of one term
        if all(p[0] is t0 or p[0].eq(t0) for p in ps) and all(ps[i][1] == k0 + i for i in range(n)):
            return S(z3.Extract(8 * (k0 + n) - 1, 8 * k0, t0))
        bs = [z3.Extract(8 * k + 7, 8 * k, t) for t, k in ps]
        return S(z3.Concat(*reversed(bs))) if n > 1 else S(bs[0])

class Region:
    def __init__(self, name, base, size, kind):
        self.name, self.base, self.size, self.kind = name, base, size, kind

class Time:
    """a point of the interleaving; world specific content"""
    n = 0
    def __init__(self):
        Time.n += 1
        self.id = Time.n

class State:
    __slots__ = ('facts', 'regs', 'mem', 'atoms', 'now', 'recs', 'gh', 'x', 'trace', 'keys', 'pos')
    def __init__(self):
        self.facts = []
        self.regs = {}
        self.mem = {}        # region name -> Bytes
        self.atoms = []      # symbolic heap
        self.now = None
        self.recs = []
        self.gh = {}         # ghost scalars: name -> term
        self.x = {}          # misc (immutable values)
        self.trace = []
        self.keys = []
        self.pos = []
    def copy(self):
        n = State.__new__(State)
        n.facts = list(self.facts)
        n.regs = dict(self.regs)
        n.mem = {k: v.copy() for k, v in self.mem.items()}
        n.atoms = [a.copy() for a in self.atoms]
        n.now = self.now
        n.recs = list(self.recs)
        n.gh = dict(self.gh)
        n.x = dict(self.x)
        n.trace = list(self.trace)
        n.keys = list(self.keys)
        n.pos = list(self.pos)
        return n

SCALE = [1.0]     # longer solver timeouts when a unit is tried again
def tmo(ms):
    """solver timeout: the limits are meant as computing time, so they grow with the load of the machine"""
    try:
        load = os.getloadavg()[0] / (os.cpu_count() or 1)
    except OSError:
        load = 1
    return int(ms * SCALE[0] * min(4.0, max(1.0, load)))

class Prover:
    """incremental solver kept in step with the current path"""
    def __init__(self, timeout_ms=8000):
        self.s = z3.Solver()
        self.s.set('timeout', tmo(timeout_ms))
        self.second = 0
        self.stack = []
        self.nq = 0
        self.time = 0.0
        self.cache = {}
        self.dump = None
    def sync(self, facts):
        n = 0
        st = self.stack
        m = min(len(st), len(facts))
        while n < m and st[n] is facts[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for f in facts[n:]:
            self.s.push()
            self.s.add(f)
            st.append(f)
    def check(self, facts, extra):
        self.sync(facts)
        t = time.time()
        self.s.push()
        self.s.add(extra)
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat else None
        self.s.pop()
        if r == z3.unknown and self.second:
            # a fresh solver with preprocessing decides what the incremental one does not in a short time
            f = z3.Tactic('qfufbv').solver()
            f.set('timeout', tmo(self.second))
            f.add(*facts)
            f.add(extra)
            try:
                r = f.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.model = f.model() if r == z3.sat else None
        self.nq += 1
        self.time += time.time() - t
        return r

class Ob:
    __slots__ = ('kind', 'name', 'op', 'status', 'detail', 'tags', 'where')
    def __init__(self, kind, name, op, status, detail='', where=''):
        self.kind, self.name, self.op, self.status, self.detail, self.where = kind, name, op, status, detail, where

class Active:
    def __init__(self, header, body, infer, handler, capture=None):
        self.header, self.body, self.infer, self.handler, self.capture = header, body, infer, handler, capture

K_CAND = 0

class Exec:
    def __init__(self, module, world, opname, budget_s=120):
        self.m = module
        self.w = world
        self.op = opname
        self.pr = world.prover()
        self.obs = {}
        self.nobs = 0
        self.fcount = 0
        self.infer = 0
        self.deadline = time.process_time() + budget_s * SCALE[0]
        self.exits = 0
        self.inconcl = []
        self.covers = {}
        self.loopsdone = 0
        self.undecided = []     # loops no invariant was found for
        self.loopdepth = 0
        self.allocabase = 0x700000000000
        self.regions = []
        world.ex = self
    # ---- fresh names
    def fresh(self, w, name='x'):
        self.fcount += 1
        return z3.BitVec('%s!%d' % (name, self.fcount), w)
    def freshb(self, name='b'):
        self.fcount += 1
        return z3.Bool('%s!%d' % (name, self.fcount))
    # ---- solver
    def valid(self, st, p):
        p = S(p)
        if z3.is_true(p):
            return True
        if z3.is_false(p):
            return self.pr.check(st.facts, TRUE) == z3.unsat
        r = self.pr.check(st.facts, S(z3.Not(p)))
        if time.process_time() > self.deadline:
            raise Give("time budget")
        return r == z3.unsat
    def feasible(self, st, p=TRUE):
        p = S(p)
        if z3.is_false(p):
            return False
        r = self.pr.check(st.facts, p)
        if time.process_time() > self.deadline:
            raise Give("time budget")
        return r != z3.unsat
    def assume(self, st, p):
        p = S(p)
        if z3.is_true(p):
            return
        st.facts.append(p)
    # ---- obligations
    def oblige(self, st, kind, name, p, detail=''):
        """prove p here (skipped while invariants are being inferred), then continue under p"""
        if not self.infer:
            self.nobs += 1
            key = (kind, name)
            e = self.obs.get(key)
            if e is None:
                e = self.obs[key] = Ob(kind, name, self.op, 'proved')
                e.detail = 0
            p = S(p)
            ok = True
            if not z3.is_true(p):
                r = self.pr.check(st.facts, S(z3.Not(p)))
                if r != z3.unsat:
                    ok = False
                    if z3.is_false(p) or True:
                        # is the path itself possible?
                        if r == z3.unknown or self.pr.check(st.facts, TRUE) != z3.unsat:
                            e.status = 'failed' if r == z3.sat else 'unknown'
                            self.explain(e, st, detail, p)
                        else:
                            ok = True
            if ok and not isinstance(e.where, list) and e.status == 'proved':
                e.detail += 1
        self.assume(st, p)
        return
    def explain(self, e, st, detail, p):
        if e.where:
            return
        mdl = ''
        if self.pr.check(st.facts, S(z3.Not(p))) == z3.sat:
            try:
                mdl = '\n'.join(sorted(str(d) + ' = ' + str(self.pr.model[d]) for d in self.pr.model.decls() if d.arity() == 0))[:6000]
            except Exception as ex:
                mdl = repr(ex)
        e.where = 'obligation: %s\n%s\nformula: %s\npath: %s\ncountermodel:\n%s' % (e.name, detail, str(S(p))[:3000], ' ; '.join(st.trace[-60:]), mdl)
    def fail(self, st, kind, name, detail=''):
        """reaching this point at all is a violation"""
        self.oblige(st, kind, name, FALSE, detail)
    # ---- values
    def val(self, st, ty, v):
        k = v[0]
        if k == 'loc':
            r = st.regs.get(v[1])
            if r is None:
                raise Unsupported("undefined register " + v[1])
            return r
        w = self.width(ty)
        if k == 'int':
            if ty == ('i', 1):
                return TRUE if v[1] & 1 else FALSE
            return bv(v[1], w)
        if k == 'undef':
            return self.freshb('undef') if ty == ('i', 1) else (self.fresh(w, 'undef') if w else ('agg', {}))
        if k == 'zero':
            if w:
                return FALSE if ty == ('i', 1) else bv(0, w)
            return ('agg', {})
        if k == 'glob' or k == 'cexpr':
            h = abs(hash(v)) if False else (sum(ord(c) * (i + 7) for i, c in enumerate(str(v))) % 100000)
            return bv(0x7f0000000000 + 64 * h)
        if k == 'agg':
            return ('agg', {i: self.val(st, t, x) for i, (t, x) in enumerate(v[1])})
        raise Unsupported("value %r" % (v,))
    def width(self, ty):
        t = self.m.resolve(ty)
        if t[0] == 'i':
            return t[1]
        if t[0] == 'ptr':
            return 64
        return 0
    # ---- memory
    def region_of(self, c):
        for r in self.regions:
            if r.base - 0x10000000 <= c < r.base + 0x8000000000:
                return r
        return None
    def add_region(self, name, base, kind, size=None):
        r = Region(name, base, size, kind)
        self.regions.append(r)
        return r
    def split_ite(self, st, a):
        """decide/fork if-then-else inside an address; yields (state, address)"""
        a = S(a)
        ites = []
        def find(t, d=0):
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                ites.append(t)
                return
            if d < 12:
                for c in t.children():
                    if not z3.is_bool(c):
                        find(c, d + 1)
        find(a)
        if not ites:
            return [(st, a)]
        it = ites[0]
        c = it.arg(0)
        fa = self.feasible(st, c)
        fb = self.feasible(st, z3.Not(c))
        out = []
        if fa:
            s = st.copy() if fb else st
            if fb:
                self.assume(s, c)
            out += self.split_ite(s, S(z3.substitute(a, (it, it.arg(1)))))
        if fb:
            if fa:
                self.assume(st, z3.Not(c))
            out += self.split_ite(st, S(z3.substitute(a, (it, it.arg(2)))))
        return out
    def locate(self, st, a):
        """address term (no ite) -> ('mem', region, offset) | ('node', key, offset) | ('seq', region, index, rem) ..."""
        r = self.w.locate(st, a)
        if r is not None:
            return r
        c, d = lin(a)
        if not d:
            rg = self.region_of(c)
            if rg is None:
                return ('bad', 'address %#x' % c)
            return ('mem', rg, c - rg.base)
        raise Unsupported("symbolic address %s" % str(S(a))[:200])
    def mem(self, st, rg):
        b = st.mem.get(rg.name)
        if b is None:
            b = st.mem[rg.name] = Bytes()
        return b
    # ---- instructions
    def run_op(self, st, fname):
        fn = self.m.fn(fname)
        if fn is None:
            raise Unsupported("no function " + fname)
        self.fn = fn
        try:
            self.run(st, fn.order[0], None, [])
        except (Unsupported, Give) as e:
            e.ex = self
            raise
        if self.undecided:
            e = Unsupported(self.undecided[0])
            e.ex = self
            raise e
    def run(self, st, blk, prev, act, start=0):
        fn = self.fn
        while True:
            if start == 0:
                if blk in fn.loops:
                    for a in act:
                        if a.header == blk:
                            st = self.rotate(st, blk, prev, act, a)
                            if st is not None:
                                a.handler(st, prev)
                            return
                # leaving loops
                keep = []
                for a in act:
                    if blk not in a.body:
                        if a.capture is not None:
                            a.capture.append((st, blk, prev))
                            return
                        if a.infer:
                            return
                    else:
                        keep.append(a)
                act = keep
                if blk in fn.loops:
                    self.loop(st, blk, prev, act)
                    return
                self.phis(st, blk, prev)
            ins = fn.blocks[blk]
            i = start
            while ins[i].op == 'phi':
                i += 1
            res = self.block(st, blk, ins, i, act)
            if res is None:
                return
            st, nblk = res
            prev, blk, start = blk, nblk, 0
    def rotate(self, st, h, prev, act, a):
        """a loop that ends on a flag set in its body: the exit test is made on the way back, so that a path which has
        set the flag leaves the loop with what it knows instead of being joined with those that go on"""
        fn = self.fn
        dep = set()
        for i in fn.blocks[h]:
            if i.op != 'phi':
                break
            ty, inc = i.a
            if ty in (('i', 1), ('i', 8)):
                v = self.val(st, ty, inc[prev])
                if not isinstance(v, tuple):
                    dep.add(i.dst)
        if not dep:
            return st
        s = st.copy()
        self.phis(s, h, prev)
        blk, pv = h, prev
        for n in range(4):
            ins = fn.blocks[blk]
            if blk != h:
                if blk in fn.loops:
                    return st
                self.phis(s, blk, pv)
            for x in ins:
                if x.op == 'phi':
                    continue
                if x.op == 'br':
                    break
                if x.op not in ('bin', 'cast', 'icmp', 'select', 'freeze', 'extractvalue'):
                    return st
                if self.step(s, x) is not None:
                    return st
            else:
                return st
            if len(x.a) == 1:
                nxt = x.a[0]
            else:
                c = S(to_bool(self.val(s, ('i', 1), x.a[0])))
                ins_ = [t in a.body for t in x.a[1:3]]
                if ins_[0] != ins_[1]:
                    cout = z3.Not(c) if ins_[0] else c
                    out = x.a[2] if ins_[0] else x.a[1]
                    nxt = x.a[1] if ins_[0] else x.a[2]
                    if n == 0 and not self.smallphi(h, x.a[0], dep):
                        return st
                    fo = self.feasible(s, cout)
                    fi = self.feasible(s, z3.Not(cout))
                    if fo:
                        e = s.copy()
                        self.assume(e, cout)
                        e.trace.append(self.lab(out))
                        self.run(e, out, blk, act)
                    if not fi:
                        return None
                    if fo:
                        self.assume(s, z3.Not(cout))
                        self.assume(st, z3.Not(cout))
                else:
                    if not self.valid(s, c):
                        if not self.valid(s, z3.Not(c)):
                            return st
                        nxt = x.a[2]
                    else:
                        nxt = x.a[1]
            if nxt == h or nxt not in a.body:
                return st
            pv, blk = blk, nxt
        return st
    def smallphi(self, h, cond, dep):
        """the condition is computed in the header from its flags alone"""
        ins = {i.dst: i for i in self.fn.blocks[h] if i.dst}
        def go(v, d=0):
            if not isinstance(v, str) or v not in ins or d > 8:
                return False
            i = ins[v]
            if i.op == 'phi':
                return v in dep
            return any(go(y, d + 1) for y in flat(i.a))
        def flat(t):
            for y in t if isinstance(t, (tuple, list)) else ():
                if isinstance(y, (tuple, list)):
                    yield from flat(y)
                else:
                    yield y
        return any(go(y) for y in ([cond] if isinstance(cond, str) else flat(cond)))
    def phis(self, st, blk, prev):
        vals = []
        for i in self.fn.blocks[blk]:
            if i.op != 'phi':
                break
            ty, inc = i.a
            vals.append((i.dst, self.val(st, ty, inc[prev])))
        for d, v in vals:
            st.regs[d] = v
    def block(self, st, blk, ins, i, act):
        """execute from instruction i; returns (state, next block) for a single continuation, else None"""
        while True:
            x = ins[i]
            op = x.op
            if op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
                return self.term(st, blk, x, act)
            self._act = act
            r = self.step(st, x)
            if r is None:
                i += 1
                continue
            # several states
            for j, s in enumerate(r):
                self.run(s, blk, None, act, i + 1)
            return None
    def term(self, st, blk, x, act):
        if time.process_time() > self.deadline:
            raise Give("time budget")
        op = x.op
        if op == 'br':
            if len(x.a) == 1:
                return st, x.a[0]
            c = S(to_bool(self.val(st, ('i', 1), x.a[0])))
            if z3.is_true(c):
                return st, x.a[1]
            if z3.is_false(c):
                return st, x.a[2]
            ft = self.feasible(st, c)
            ff = self.feasible(st, z3.Not(c))
            if ft and ff:
                s2 = st.copy()
                self.assume(st, c)
                st.trace.append(self.lab(x.a[1]))
                self.run(st, x.a[1], blk, act)
                self.assume(s2, z3.Not(c))
                s2.trace.append(self.lab(x.a[2]))
                return self.cont(s2, x.a[2], blk, act)
            if ft:
                return st, x.a[1]
            if ff:
                return st, x.a[2]
            return None
        if op == 'switch':
            t, v, d, cases = x.a
            v = self.val(st, t, v)
            rest = []
            for cv, l in cases:
                c = v == self.val(st, t, cv)
                rest.append(z3.Not(c))
                if self.feasible(st, c):
                    s2 = st.copy()
                    self.assume(s2, c)
                    self.run(s2, l, blk, act)
            if self.feasible(st, And(*rest)):
                self.assume(st, And(*rest))
                return st, d
            return None
        if op == 'ret':
            t, v = x.a
            rv = None if v is None else self.val(st, t, v)
            self.leave(st, act, ('ret', rv))
            return None
        if op == 'resume':
            self.leave(st, act, ('throw', None))
            return None
        if op == 'unreachable':
            # a call that does not return never gets here: what does get here is undefined behaviour the lowering has
            # recognised (a branch on an uninitialised variable, a store through a null pointer, a missing return ...)
            for a in act:
                if a.capture is not None or a.infer:
                    return None
            self.fail(st, 'assert', 'no undefined behaviour (uninitialised or null use) is reached', blk)
            return None
        if op == 'invoke':
            outs = self.call(st, x, True)
            for s, how, v in outs:
                if how == 'ret':
                    if x.dst is not None and v is not None:
                        s.regs[x.dst] = v
                    self.run(s, x.a['normal'], blk, act)
                elif not getattr(self.w, 'drop_throws', False):
                    s.trace.append('throw@' + x.a['callee'])
                    self.run(s, x.a['unwind'], blk, act)
            return None
    def cont(self, st, nblk, blk, act):
        return st, nblk
    def lab(self, l):
        return l[-24:]
    def leave(self, st, act, how):
        for a in act:
            if a.capture is not None:
                a.capture.append((st, how, None))
                return
            if a.infer:
                return
        if not self.feasible(st):
            return
        self.exits += 1
        self.covers[how[0]] = self.covers.get(how[0], 0) + 1
        self.w.at_exit(st, how[0], how[1])
    def step(self, st, x):
        op = x.op
        if op == 'bin':
            st.regs[x.dst] = self.binop(st, x.a, x.text)
            return
        if op == 'cast':
            k, t, v, t2 = x.a
            v = self.val(st, t, v)
            w2 = self.width(t2)
            if k in ('zext', 'sext') and t == ('i', 1):
                v = z3.If(to_bool(v), bv(1 if k == 'zext' else -1, w2), bv(0, w2))
            elif k == 'zext' or k in ('inttoptr', 'ptrtoint', 'bitcast'):
                v = v if v.size() == w2 else zx(v, w2)
            elif k == 'sext':
                v = z3.SignExt(w2 - v.size(), v)
            elif k == 'trunc':
                v = z3.Extract(w2 - 1, 0, v)
                if t2 == ('i', 1):
                    v = v == bv(1, 1)
            st.regs[x.dst] = S(v)
            return
        if op == 'icmp':
            pred, t, a, b = x.a
            a = self.val(st, t, a)
            b = self.val(st, t, b)
            if getattr(self, 'icmplog', None) is not None and not z3.is_bool(a):
                self.icmplog.append((a, b, None))
            st.regs[x.dst] = S(self.icmp(pred, a, b))
            return
        if op == 'select':
            c, t1, a, b = x.a
            c = S(to_bool(self.val(st, ('i', 1), c)))
            a = self.val(st, t1, a)
            b = self.val(st, t1, b)
            if z3.is_true(c):
                r = a
            elif z3.is_false(c):
                r = b
            elif isinstance(a, tuple):
                raise Unsupported("select on aggregate")
            elif not z3.is_bool(a) and a.size() == 64:
                return self.fork(st, c, x.dst, a, b)
            else:
                r = S(z3.If(c, a, b))
            st.regs[x.dst] = r
            return
        if op == 'gep':
            st.regs[x.dst] = self.gep(st, x.a)
            return
        if op == 'extractvalue':
            t, a, idx = x.a
            v = self.val(st, t, a)
            for k in idx:
                v = v[1].get(k)
                if v is None:
                    v = self.fresh(64, 'agg')
            st.regs[x.dst] = v
            return
        if op == 'insertvalue':
            t, a, t2, v, idx = x.a
            o = self.val(st, t, a)
            if len(idx) != 1:
                raise Unsupported("insertvalue")
            d = dict(o[1])
            d[idx[0]] = self.val(st, t2, v)
            st.regs[x.dst] = ('agg', d)
            return
        if op == 'alloca':
            sz = self.m.size(x.a[0])
            base = self.allocabase
            self.allocabase += 0x10000000000
            nm = 'alloca%s' % x.dst
            if not any(r.name == nm for r in self.regions):
                self.add_region(nm, base, 'local', sz)
            else:
                base = [r for r in self.regions if r.name == nm][0].base
            st.mem[nm] = Bytes()
            st.regs[x.dst] = bv(base)
            return
        if op == 'freeze':
            st.regs[x.dst] = self.val(st, x.a[0], x.a[1])
            return
        if op == 'fence':
            self.w.fence(st, x.a[0])
            return
        if op == 'landingpad':
            st.regs[x.dst] = ('agg', {0: bv(0x7e0000000000), 1: bv(1, 32)})
            return
        if op in ('load', 'store', 'cmpxchg', 'atomicrmw'):
            return self.memop(st, x)
        if op == 'call':
            outs = self.call(st, x, False)
            if outs is None:
                return
            res = []
            for s, how, v in outs:
                if how == 'ret':
                    if x.dst is not None and v is not None:
                        s.regs[x.dst] = v
                    res.append(s)
                elif not getattr(self.w, 'drop_throws', False):
                    s.trace.append('throw@' + x.a['callee'])
                    self.leave_throw(s)
            if len(res) == 1 and res[0] is st:
                return
            return res
        raise Unsupported("instruction " + x.text)
    def fork(self, st, c, dst, a, b):
        fa = self.feasible(st, c)
        fb = self.feasible(st, z3.Not(c))
        if fa and fb:
            s2 = st.copy()
            self.assume(st, c)
            self.assume(s2, z3.Not(c))
            st.regs[dst] = a
            s2.regs[dst] = b
            return [st, s2]
        if not fa and not fb:
            return []
        st.regs[dst] = a if fa else b
        return None
    def leave_throw(self, st):
        self.leave(st, self._act, ('throw', None))
    def binop(self, st, a, text):
        k, t, p, q = a
        p = self.val(st, t, p)
        q = self.val(st, t, q)
        if t == ('i', 1):
            p, q = to_bool(p), to_bool(q)
            return S({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor}[k](p, q))
        w = p.size()
        if k == 'add':
            r = p + q
        elif k == 'sub':
            r = p - q
        elif k == 'mul':
            r = p * q
        elif k == 'and':
            r = p & q
        elif k == 'or':
            r = p | q
        elif k == 'xor':
            r = p ^ q
        elif k == 'shl':
            n = num(q)
            r = p * bv((1 << n) & ((1 << w) - 1), w) if (n is not None and w == 64 and n < 8) else p << q
        elif k in ('lshr', 'ashr'):
            n = num(q)
            r = None
            if w == 64 and n is not None and n < 20:
                r = self.exact_div(st, p, 1 << n)
            if r is None:
                r = z3.LShR(p, q) if k == 'lshr' else p >> q
        elif k in ('udiv', 'sdiv'):
            n = num(q)
            r = None
            if w == 64 and n and n < (1 << 20):
                r = self.exact_div(st, p, n)
            if r is None:
                if w == 64 and n and (n & (n - 1)) == 0 and ('exact' in text or k == 'udiv'):
                    sh = bv(n.bit_length() - 1)
                    r = z3.LShR(p, sh) if k == 'udiv' else p >> sh
                else:
                    r = z3.UDiv(p, q) if k == 'udiv' else p / q
        elif k == 'urem':
            n = num(q)
            if n and n & (n - 1) == 0:
                r = p & bv(n - 1, w)
            else:
                r = z3.URem(p, q)
        elif k == 'srem':
            r = z3.SRem(p, q)
        else:
            raise Unsupported(k)
        return S(r)
    def exact_div(self, st, p, n):
        c, d = lin(S(p))
        if len(d) == 1 and c == 0:
            co, at = list(d.values())[0]
            if co % n == 0 and (unzext(at) is not None or self.w.small(st, at, n)):
                return at * bv(co // n)
        elif not d and c < (1 << 62):
            return bv(c // n)
        if d:
            def sg(v):
                return v - (1 << 64) if v >> 63 else v
            if sg(c) % n == 0 and all(sg(co) % n == 0 for co, at in d.values()):
                q = bv((sg(c) // n) & M64)
                for co, at in d.values():
                    q = q + at * bv((sg(co) // n) & M64)
                q = S(q)
                if self.w.divs(st) and self.valid(st, z3.ULT(q, bv(1 << 57))):
                    return q
        return None
    def icmp(self, pred, a, b):
        if z3.is_bool(a) or z3.is_bool(b):
            a, b = to_bool(a), to_bool(b)
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return z3.Xor(a, b)
            a, b = from_bool(a, 1), from_bool(b, 1)
        if pred == 'eq':
            if a.size() == 64:
                la, lb = lin(a), lin(b)
                df = _add(la, lb, -1)
                if not df[1]:
                    return TRUE if df[0] == 0 else FALSE
            return a == b
        if pred == 'ne':
            return z3.Not(self.icmp('eq', a, b))
        return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
                'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred](a, b)
    def gep(self, st, a):
        t, base, idx = a
        p = self.val(st, ('ptr',), base)
        off = p
        cur = t
        for n, (ity, iv) in enumerate(idx):
            v = self.val(st, ity, iv)
            if n == 0:
                sz = self.m.size(t)
            else:
                r = self.m.resolve(cur)
                if r[0] == 'struct':
                    o, cur = self.m.offset(cur, num(v))
                    off = off + bv(o)
                    continue
                cur = r[2]
                sz = self.m.size(cur)
            if v.size() < 64:
                v = z3.SignExt(64 - v.size(), v)
            c = num(v)
            off = off + (bv(c * sz & M64) if c is not None else v * bv(sz))
        return S(off)
    def memop(self, st, x):
        op = x.op
        if op == 'load':
            ty, ptr, _, order = x.a
            new = None
        elif op == 'store':
            ty, ptr, v, order = x.a
            new = self.val(st, ty, v)
        elif op == 'cmpxchg':
            weak, ty, ptr, e, n, order, forder = x.a
            exp = self.val(st, ty, e)
            new = self.val(st, ty, n)
        else:
            rop, ty, ptr, v, order = x.a
            new = self.val(st, ty, v)
        n = self.m.size(ty)
        addr = self.val(st, ('ptr',), ptr)
        outs = []
        multi = False
        todo = self.w.resolve(st, addr)
        if len(todo) != 1 or todo[0][0] is not st:
            multi = True
        for s, loc in todo:
            if loc[0] == 'bad':
                self.fail(s, 'mem', 'every access is to memory of this container (%s)' % loc[1], str(x))
                multi = True
                continue
            if op == 'load':
                r = self.w.load(s, loc, n, order, x)
            elif op == 'store':
                r = self.w.store(s, loc, new, order, x)
            elif op == 'cmpxchg':
                r = self.w.cmpxchg(s, loc, exp, new, weak, order, forder, x)
            else:
                r = self.w.rmw(s, loc, rop, new, order, x)
            # r: list of (state, value)
            for s2, v in r:
                if x.dst is not None:
                    if op == 'load':
                        if ty == ('i', 1):
                            v = z3.Extract(0, 0, v) == bv(1, 1)
                        elif self.width(ty) and v.size() != self.width(ty):
                            v = zx(v, self.width(ty))
                    s2.regs[x.dst] = v
                outs.append(s2)
            if len(r) != 1 or r[0][0] is not s:
                multi = True
        if not multi:
            return None
        return outs
    def mem_load(self, st, loc, n):
        return self.mem(st, loc[1]).load(loc[2], n, lambda w: self.fresh(w, 'mem_' + loc[1].name))
    def mem_store(self, st, loc, v):
        self.mem(st, loc[1]).store(loc[2], v)
    # ---- calls
    def call(self, st, x, inv):
        callee = x.a['callee'].strip('@"')
        args = [self.val(st, t, v) if t != ('metadata',) else None for t, v in x.a['args']]
        if callee.startswith('llvm.') and callee != 'llvm.trap':
            if 'lifetime' in callee or 'noalias' in callee or 'assume' in callee or 'dbg' in callee or 'donothing' in callee:
                return [(st, 'ret', None)]
            if 'memset' in callee:
                return self.w.memset(st, args[0], args[1], args[2], x)
            if 'memcpy' in callee or 'memmove' in callee:
                return self.w.memcpy(st, args[0], args[1], args[2], x)
            if 'expect' in callee:
                return [(st, 'ret', args[0])]
            m = re.match(r'llvm\.(umin|umax|smin|smax)\.i(\d+)', callee)
            if m:
                a, b = args[0], args[1]
                c = {'umin': z3.ULT(a, b), 'umax': z3.UGT(a, b), 'smin': a < b, 'smax': a > b}[m.group(1)]
                c = S(c)
                if z3.is_true(c) or z3.is_false(c) or a.size() != 64:
                    return [(st, 'ret', S(z3.If(c, a, b)))]
                r = self.fork(st, c, x.dst, a, b)
                if r is None:
                    return [(st, 'ret', st.regs[x.dst])]
                return [(s, 'ret', s.regs[x.dst]) for s in r]
            if 'is.constant' in callee:
                return [(st, 'ret', FALSE)]      # either answer is allowed; code generation folds it to false here
            raise Unsupported("intrinsic " + callee)
        if callee in ('__clang_call_terminate', '_ZSt9terminatev'):
            self.fail(st, 'assert', 'no exception leaves a noexcept function (std::terminate is not called)', x.text)
            return []
        if callee in ('abort', 'llvm.trap'):
            self.fail(st, 'assert', 'the operation does not abort', x.text)
            return []
        if callee == '__assert_fail':
            self.fail(st, 'assert', 'assertions in the code hold', x.text)
            return []
        if callee == '__cxa_begin_catch':
            return [(st, 'ret', bv(0x7e0000000000))]
        if callee in ('__cxa_end_catch',):
            return [(st, 'ret', None)]
        if callee in ('__cxa_rethrow', '__cxa_throw'):
            return [(st, 'throw', None)]
        if callee == '__cxa_allocate_exception':
            nm = 'exc'
            if not any(r.name == nm for r in self.regions):
                self.add_region(nm, 0x7d0000000000, 'local', 4096)
            return [(st, 'ret', bv(0x7d0000000000))]
        if 'runtime_error' in callee or 'exception' in callee or callee == '__cxa_free_exception':
            return [(st, 'ret', None)]
        return self.w.extcall(st, callee, args, x)
    # ---------------------------------------------------------------- loops
    def loop(self, st0, h, prev, act):
        from loops import do_loop
        do_loop(self, st0, h, prev, act)
