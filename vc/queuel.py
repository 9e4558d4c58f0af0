"""Contract of the FIFO list of queue (head, tail and the links of its nodes) on top of the node pool contract.

Ghost state: positions H <= T <= L <= T+1 (head, tail, last linked node).  AT(p) is the node at position p, D(p) its
element, VN(p) the version stored in its link when it was inserted.  Every node at a position H..L is in the queue;
its link is null (last one) or the node at the next position, with a version advanced by one when it was filled.
Actions (of this operation: obligations; of any number of other threads: rely):
  LINK   the link of the last node is filled with an owned, initialised node          L -> L+1   (needs T = L)
  TAIL   the tail word moves to the next node                                          T -> T+1   (needs T < L)
  HEAD   the head word moves to the next node, the former first node becomes owned     H -> H+1   (needs H < T)
"""
import z3
from sym import *
from world import *
from lists import *

POS = z3.IntSort()
ONE = z3.IntVal(1)

def lt(a, b):
    return z3.ULT(a, b) if z3.is_bv(a) else a < b
def le(a, b):
    return z3.ULE(a, b) if z3.is_bv(a) else a <= b

def rep_null(rep, w):
    return rep.isnull(rep.ptr(w))

class Queue(Lists):
    WORDS = ('pool', 'head', 'tail')
    opaque = False
    def prover(self):
        p = Prover(400)
        p.second = 20000
        return p
    def __init__(self, mode, role, rep, spec):
        Lists.__init__(self, mode, role, rep, spec)
        self.elemword = None
        self.AT = z3.Function('AT', POS, z3.BitVecSort(rep.kw))
        self.D = z3.Function('D', POS, z3.BitVecSort(64))
        self.VN = z3.Function('VN', POS, z3.BitVecSort(16))
        self.TG = z3.Function('TG', POS, z3.BitVecSort(16))     # position modulo 2^16
        self.ct = z3.BitVec('ctail', 16)
    def setup(self, ex, st, mem):
        Lists.setup(self, ex, st, mem)
        st.x.update(out=None, acq=(), late=(), lpos=None, qdead=False, dpos=None)
        if self.role in ('excl', 'dtor'):
            st.facts.append(st.now.V['tail'] == st.now.L)
    # ---------------------------------------------------------------- time
    def newtime(self, st, prev, only=None):
        rep = self.rep
        t = T2()
        f = []
        fixq = prev is not None and only is not None and not (set(only) & {'head', 'tail', 'L'})
        for X in self.WORDS:
            if prev is not None and (prev.W[X] is None or (only is not None and X not in only)):
                t.W[X], t.V[X] = prev.W[X], prev.V[X]
                if X in prev.C:
                    t.C[X] = prev.C[X]
                continue
            t.W[X] = z3.BitVec('%s@%d' % (X, t.id), rep.ww)
            t.V[X] = z3.BitVec('V%s@%d' % (X, t.id), 64) if X == 'pool' else z3.Int('V%s@%d' % (X, t.id))
            f.append(lt(t.V[X], bv(1 << 60)) if X == 'pool' else t.V[X] >= 0)
            if prev is not None:
                f.append(le(prev.V[X], t.V[X]))
        if fixq:
            t.L = prev.L
        elif t.W['head'] is None:
            t.L = None
        else:
            t.L = z3.Int('L@%d' % t.id)
            if prev is not None:
                f.append(le(prev.L, t.L))
            f += self.qinv(t)
        if f:
            st.facts.append(And(*f))
        return t
    def qinv(self, t):
        rep = self.rep
        H, T, L = t.V['head'], t.V['tail'], t.L
        return [le(H, T), le(T, L), le(L, T + ONE)]
    def wfacts(self, st, t, X):
        """what a list word holds (stated where the word is looked at)"""
        if t.W[X] is None:
            return
        rep = self.rep
        w, V = t.W[X], t.V[X]
        f = [rep.keyfact(rep.ptr(w)), rep.tag(w) == (z3.Extract(15, 0, V) if X == 'pool' else self.TG(V) + (self.ct if X == 'tail' else bv(0, 16)))]
        if X != 'pool':
            f.append(self.TG(V + ONE) == self.TG(V) + bv(1, 16))
        if X != 'pool':
            f.append(rep.ptr(w) == self.AT(V))
        st.facts.append(And(*f))
    def nexttime(self, st):
        t = Lists.nexttime(self, st)
        t.L = st.now.L
        return t
    def inq(self, t, p):
        return And(le(t.V['head'], p), le(p, t.L))
    # ---------------------------------------------------------------- positions the operation knows of
    def positions(self, st):
        ps = []
        seen = set()
        for r in st.recs:
            if r.word in ('head', 'tail'):
                for p in (r.t.V[r.word], S(r.t.V[r.word] + ONE)):
                    if p.get_id() not in seen:
                        seen.add(p.get_id())
                        ps.append(p)
        if st.x['lpos'] is not None:
            ps.append(st.x['lpos'])
        return ps
    def posfacts(self, st, t):
        """the nodes in the queue are distinct, real, and not owned by this operation"""
        if t.L is None or st.x['qdead']:
            return
        ps = self.positions(st)
        f = []
        for i, p in enumerate(ps):
            f.append(Implies(self.inq(t, p), And(z3.Not(self.rep.isnull(self.AT(p))), self.rep.keyfact(self.AT(p)))))
            for a in st.atoms:
                if isinstance(a, Cell):
                    f.append(Implies(self.inq(t, p), self.AT(p) != a.key))
            for q in ps[:i]:
                f.append(Implies(And(self.inq(t, p), self.inq(t, q), self.AT(p) == self.AT(q)), p == q))
        f = [x for x in map(S, f) if not z3.is_true(x)]
        if f:
            st.facts.append(And(*f))
    def observe(self, st, X, acq, t=None):
        t = t or st.now
        self.wfacts(st, t, X)
        if X == 'pool':
            if self.role == 'ctor' and not st.x['pooldead'] and t is st.now:
                # only the constructor knows this pool: it holds what the constructor put there and did not take
                st.facts.append(rep_null(self.rep, t.W[X]) == (st.gh['pooled'] == 0))
            return Lists.observe(self, st, X, acq, t)
        r = Rec(X, t, t.W[X], acq)
        r.pos = t.V[X]
        self.nowrap_read(st, X, r)
        st.recs.append(r)
        if acq:
            st.x['acq'] = st.x['acq'] + ((TRUE, r.pos),)
        self.posfacts(st, t)
        return r
    def nowrap_read(self, st, X, r):
        """ASSUMPTION: fewer than 2^16 changes between two reads of one attempt"""
        f = []
        for o in st.recs[st.x.get('recmark', 0):]:
            if o.word == X and o.t is not r.t:
                f.append(Implies(o.value == r.value, o.t.V[X] == r.t.V[X]))
        f = [y for y in map(S, f) if not z3.is_true(y)]
        if f:
            st.facts.append(And(*f))
    def acquired(self, st, p):
        if self.mode != 'ord' or self.role != 'conc':
            return TRUE
        return Or(*[And(c, le(p, q)) for c, q in st.x['acq']] + [FALSE])
    # ---------------------------------------------------------------- links
    def shared_read(self, st, key, off, n, order):
        ex, rep = self.ex, self.rep
        t = self.step(st)
        rs = [r for r in st.recs if r.word == 'pool']
        ps = self.positions(st) if t.L is not None else []
        self.posfacts(st, t)
        self.ob(st, 'mem', 'only nodes reached through the list words are read',
                Or(*([And(key == r.top, z3.Not(rep.isnull(r.top))) for r in rs] + [And(key == self.AT(p), le(p, t.L)) for p in ps] + [FALSE])))
        v = ex.fresh(8 * n, 'rd')
        f = []
        for r in rs:
            if r.acq and t.V['pool'] is not None:
                f.append(Implies(And(key == r.top, t.V['pool'] == r.t.V['pool']), v == r.c.b.load(off, n, None)))
        data = off >= rep.valoff and off + n <= rep.valoff + 8
        link = off == rep.linkoff and n * 8 == rep.ww
        if not data and not link and ps:
            ex.fail(st, 'word', 'links are accessed as a whole')
        if link and order is None and self.role == 'conc' and ps and not any(True for r in rs):
            ex.fail(st, 'order', 'shared links are accessed atomically')
        for p in ps:
            c = And(key == self.AT(p), self.inq(t, p), self.acquired(st, p))
            if link:
                f.append(Implies(c, And(rep.ptr(v) == z3.If(lt(p, t.L), self.AT(p + ONE), rep.null),
                                        rep.tag(v) == self.VN(p) + z3.If(lt(p, t.L), bv(1, 16), bv(0, 16)))))
                if self.acq(order) or self.role != 'conc':
                    st.x['acq'] = st.x['acq'] + ((S(And(c, lt(p, t.L))), S(p + ONE)),)
            elif data:
                d = self.D(p)
                lo = 8 * (off - rep.valoff)
                f.append(Implies(c, v == (d if n == 8 else z3.Extract(lo + 8 * n - 1, lo, d))))
        f = [y for y in map(S, f) if not z3.is_true(y)]
        if f:
            st.facts.append(And(*f))
        if link:
            r = Rec('link', t, v, self.acq(order) or self.role != 'conc')
            r.key = key
            st.recs.append(r)
        return v
    def linkloc(self, loc, w):
        return loc[0] == 'shared' and loc[2] == self.rep.linkoff and w == self.rep.ww
    def cas_other(self, st, loc, exp, new, weak, order, forder, x):
        ex, rep = self.ex, self.rep
        if not self.linkloc(loc, exp.size()):
            ex.fail(st, 'word', 'compare and swap is applied to list words only')
            return []
        key = loc[1]
        t = self.step(st)
        self.settle(st, order)
        self.posfacts(st, t)
        ok = ex.freshb('linkcas')
        out = []
        s2 = st.copy()
        ex.assume(st, ok)
        # ASSUMPTION: fewer than 2^16 reuses of the node since its link was read: equal link words mean the same node
        # at the same position, still last
        f = []
        for r in st.recs[st.x.get('recmark', 0):]:
            if r.word == 'link':
                for p in self.positions(st):
                    f.append(Implies(And(key == r.key, key == self.AT(p), self.inq(r.t, p), exp == r.value, p == r.t.L), t.L == p))
                    f.append(Implies(And(key == r.key, key == self.AT(p), self.inq(r.t, p), exp == r.value, lt(p, r.t.L)), self.inq(t, p)))
        f = [y for y in map(S, f) if not z3.is_true(y)]
        if f:
            st.facts.append(And(*f))
        if ex.feasible(st):
            st.trace.append('cas ok link')
            self.link(st, key, exp, new, order)
            out.append((st, ('agg', {0: exp, 1: TRUE})))
        cur = ex.fresh(rep.ww, 'link')
        g = []
        for p in self.positions(s2):
            g.append(Implies(And(key == self.AT(p), self.inq(t, p), self.acquired(s2, p)),
                             And(rep.ptr(cur) == z3.If(lt(p, t.L), self.AT(p + ONE), rep.null),
                                 rep.tag(cur) == self.VN(p) + z3.If(lt(p, t.L), bv(1, 16), bv(0, 16)))))
        s2.facts.append(And(*g) if g else TRUE)
        if weak:
            s2.x['casok'] = s2.x['casok'] + (cur != exp,)
        else:
            ex.assume(s2, cur != exp)
        if ex.feasible(s2):
            s2.trace.append('cas fail link')
            out.append((s2, ('agg', {0: cur, 1: FALSE})))
        return out
    def link(self, st, key, old, new, order):
        ex, rep = self.ex, self.rep
        t = st.now
        if self.role == 'conc' and not (self.rel(order) or st.x['relf']):
            ex.fail(st, 'order', 'nodes are handed over with release semantics')
        if t.L is None or st.x['qdead']:
            ex.fail(st, 'word', 'links of the queue are changed only while it is alive')
            return
        L = t.L
        self.ob(st, 'word', 'only the link of the last node is filled', And(key == self.AT(L), rep.isnull(rep.ptr(old))))
        self.ob(st, 'word', 'the tail is at the last node when a node is added', t.V['tail'] == L)
        self.ob(st, 'order', 'nodes are added behind nodes that were acquired', self.acquired(st, L))
        self.ob(st, 'version', 'filling a link advances its version by one', rep.tag(new) == rep.tag(old) + bv(1, 16))
        a = self.find(st, rep.ptr(new))
        if not isinstance(a, Cell):
            ex.fail(st, 'chain', 'the node added is owned by the operation')
            return
        lw = rep.linkword(a.b)
        self.ob(st, 'chain', 'the node added is the new last node', rep.isnull(rep.ptr(lw)))
        if a.ver is not None:
            self.ob(st, 'version', 're-initialising a node advances its version by one', rep.tag(lw) == a.ver + bv(1, 16))
        self.ob(st, 'once', 'a call adds one element', st.gh['pushed'] == 0)
        d = a.b.load(rep.valoff, 8, lambda w: ex.fresh(w))
        self.ob(st, 'value', 'the element added is the argument', d == self.INV(bv(0)))
        st.atoms = [b for b in st.atoms if b.uid != a.uid]
        NL = S(L + ONE)
        st.facts.append(And(self.AT(NL) == a.key, self.D(NL) == d, self.VN(NL) == rep.tag(lw)))
        n = self.nexttime(st)
        n.L = NL
        st.now = n
        st.x['lpos'] = NL
        st.x['acq'] = st.x['acq'] + ((TRUE, NL),)
        st.gh['pushed'] = S(st.gh['pushed'] + bv(1))
        st.x['acts'] += 1
    def store(self, st, loc, v, order, x):
        if loc[0] == 'shared' and self.role in ('excl', 'dtor') and not z3.is_bool(v) and self.linkloc(loc, v.size()):
            t = st.now
            self.posfacts(st, t)
            old = self.ex.fresh(self.rep.ww, 'link')
            L = t.L
            st.facts.append(Implies(loc[1] == self.AT(L), And(self.rep.isnull(self.rep.ptr(old)), self.rep.tag(old) == self.VN(L))))
            for p in self.positions(st):
                st.facts.append(Implies(And(loc[1] == self.AT(p), p == L), And(self.rep.isnull(self.rep.ptr(old)), self.rep.tag(old) == self.VN(p))))
            self.link(st, loc[1], old, v, order)
            return [(st, None)]
        return Lists.store(self, st, loc, v, order, x)
    # ---------------------------------------------------------------- head and tail
    def store_word(self, st, X, v, order):
        if X != 'pool' and st.now.W[X] is None:
            st.x['init_' + X] = v
            return
        Lists.store_word(self, st, X, v, order)
    def load_word(self, st, X, n, order, loc):
        if X != 'pool' and st.now.W[X] is None and st.x.get('init_' + X) is not None:
            return st.x['init_' + X]
        if X != 'pool' and st.x['qdead']:
            pass
        return Lists.load_word(self, st, X, n, order, loc)
    def readtime(self, st, X, acq):
        """the moment whose value a load returns: a load without acquire semantics may take effect later than its place
        in the program, after the loads that follow it (until the next release operation waits for it); loads of one
        word never go back in time"""
        if self.mode != 'ord' or self.role != 'conc' or X == 'pool':
            return st.now
        t = st.now
        if not acq:
            t = self.newtime(st, st.now, ('head', 'tail', 'L'))
            st.x['late'] = st.x['late'] + (t,)
        f = [le(o.pos, t.V[X]) for o in st.recs if o.word == X]
        if f:
            st.facts.append(And(*f))
        return t
    def settle(self, st, order):
        """a release operation comes after every load before it in the program"""
        if not self.rel(order):
            return
        f = [le(a, b) for t in st.x['late'] for a, b in ((t.V['head'], st.now.V['head']), (t.V['tail'], st.now.V['tail']), (t.L, st.now.L))]
        if f:
            st.facts.append(And(*f))
        st.x['late'] = ()
    def act(self, st, X, old, new, order, r):
        if X == 'pool':
            a = self.find(st, self.rep.ptr(new)) if not self.ex.valid(st, self.rep.isnull(self.rep.ptr(new))) else None
            if a is None and self.role == 'dtor':
                self.detach(st, self.rep.ptr(new))
            return Lists.act(self, st, X, old, new, order, r)
        ex, rep = self.ex, self.rep
        t = st.now
        self.posfacts(st, t)
        H, T, L = t.V['head'], t.V['tail'], t.L
        if self.role == 'conc' and not (self.rel(order) or st.x['relf']):
            ex.fail(st, 'order', 'the list words are changed with release semantics')
        P = S(t.V[X] + ONE)
        self.ob(st, 'version', 'moving a list word advances its version by one', rep.tag(new) == rep.tag(old) + bv(1, 16))
        if X == 'tail':
            self.ob(st, 'word', 'the tail moves to the next node only', And(lt(T, L), rep.ptr(new) == self.AT(P)))
        else:
            self.ob(st, 'word', 'the head moves to the next node only', And(lt(H, L), rep.ptr(new) == self.AT(P)))
            self.ob(st, 'word', 'the head never passes the tail', lt(H, T))
            self.ob(st, 'order', 'a node is taken over with acquire semantics',
                    Or(TRUE if r.acq else FALSE, *[And(q.pos == H) for q in st.recs if q.word == 'head' and q.acq]))
        self.ob(st, 'order', 'list words move to acquired nodes', self.acquired(st, P))
        n = self.nexttime(st)
        n.W[X] = S(new)
        n.V[X] = P
        if X == 'head':
            b = self.freshcontent('old')
            lw = rep.linkword(b)
            st.facts.append(And(rep.tag(lw) == self.VN(H) + bv(1, 16), rep.ptr(lw) == self.AT(P)))
            c = Cell(uid(), rep.ptr(old), b, False)
            c.ver = rep.tag(lw)
            for a in st.atoms:
                if isinstance(a, Cell):
                    st.facts.append(c.key != a.key)
            st.atoms.append(c)
            st.gh['popped'] = S(st.gh['popped'] + bv(1))
            if not self.spec.get('pops'):
                ex.fail(st, 'word', 'this operation removes no element')
            if self.spec.get('deliver'):
                st.x['due'] = st.x['due'] + (S(self.D(P)),)
            st.x['dpos'] = P
        st.now = n
        st.x['acts'] += 1
        self.posfacts(st, n)
    def removed(self, st, X, c, r):
        Lists.removed(self, st, X, c, r)
        if X == 'pool':
            c.ver = self.rep.tag(self.rep.linkword(c.b)) if self.role != 'ctor' else None
    def check_pooled(self, st, a):
        if isinstance(a, Cell) and a.ver is not None:
            g = self.rep.tag(self.rep.linkword(a.b))
            self.ob(st, 'version', 'giving a node back keeps its version', Or(g == a.ver, g == a.ver + bv(1, 16)))
    def detach(self, st, key):
        ex = self.ex
        if self.role == 'dtor' and not st.x['qdead']:
            t = st.now
            self.posfacts(st, t)
            if ex.valid(st, And(key == self.AT(t.V['head']), t.V['head'] == t.L)):
                c = Cell(uid(), S(key), self.freshcontent('dummy'), False)
                st.atoms.append(c)
                st.x['qdead'] = True
                return True
        return Lists.detach(self, st, key)
    # ---------------------------------------------------------------- elements
    def out_store(self, st, loc, v):
        ex = self.ex
        self.ob(st, 'mem', 'only the output argument is written', loc[1] == 0)
        st.x['out'] = v
        return [(st, None)]
    def extcall2(self, st, callee, args, x):
        ex = self.ex
        if callee.startswith(('_ZN2FnIlEclE', '_ZNK2FnIlEclE')):
            outs = []
            for s, ld in self.resolve(st, args[1]):
                self.ob(s, 'value', "the caller's functor is the one called", args[0] == bv(FUN))
                if ld[0] != 'mem' or ld[1].kind != 'local':
                    ex.fail(s, 'elem', 'the functor receives a copy owned by the operation')
                else:
                    self.deliver(s, ex.mem_load(s, ld, 8))
                    if not callee.startswith('_ZNK'):
                        ex.mem_store(s, ld, ex.fresh(64, 'fn'))
                outs.append((s, 'ret', None))
            return outs
        if callee in ('_ZN2TQC1ERKS_', '_ZN2TQC2ERKS_'):
            outs = []
            for s, ld, ls in self.both(st, args[0], args[1]):
                if not (ls[0] == 'in' or self.is_temp(ls)) or not (ld[0] == 'cell' and ld[2] == self.rep.valoff or self.is_temp(ld)):
                    ex.fail(s, 'elem', 'elements are copied from the input into owned nodes only')
                else:
                    if ls[0] == 'in':
                        self.ob(s, 'mem', 'input is read only inside its range', z3.ULT(ls[1], self.nin))
                        v = self.INV(ls[1])
                    else:
                        v = ex.mem_load(s, ls, 8)
                    s2 = s.copy()
                    s2.x['threw'] = True
                    outs.append((s2, 'throw', None))
                    if self.is_temp(ld):
                        ex.mem_store(s, ld, v)
                    else:
                        self.cell(s, ld[1]).b.store(ld[2], v)
                outs.append((s, 'ret', None))
            return outs
        if callee in ('_ZN2CvaSERKl', '_ZN2CvC1ERKl', '_ZN2CvC2ERKl', '_ZN2CvD1Ev', '_ZN2CvD2Ev', '_ZN2CvaSERKS_'):
            return self.conv(st, callee, args)
        raise Unsupported("call " + callee)
    def conv(self, st, callee, args):
        """conversion of an element to another type may take ownership: it happens once, for a removed element"""
        ex = self.ex
        outs = []
        if 'D1' in callee or 'D2' in callee:
            return [(st, 'ret', None)]
        for s, ls in self.resolve(st, args[1]):
            if callee == '_ZN2CvaSERKS_':
                outs.append((s, 'ret', args[0]))
                continue
            if ls[0] == 'mem' and ls[1].kind == 'local':
                v = ex.mem_load(s, ls, 8)
            elif ls[0] == 'cell' and ls[2] == self.rep.valoff:
                v = self.cell(s, ls[1]).b.load(ls[2], 8, lambda w: ex.fresh(w))
            elif ls[0] == 'shared':
                if self.role == 'conc':
                    ex.fail(s, 'elem', 'an element is converted only after it was removed')
                    outs.append((s, 'ret', args[0]))
                    continue
                v = self.shared_read(s, ls[1], ls[2], 8, None)
            else:
                ex.fail(s, 'elem', 'an element is converted only after it was removed')
                outs.append((s, 'ret', args[0]))
                continue
            if self.role == 'conc':
                self.deliver(s, v)
            else:
                s.x['outc'] = v
            outs.append((s, 'ret', args[0]))
        return outs
    # ---------------------------------------------------------------- loops
    def loop_time(self, st, st0, sh):
        Lists.loop_time(self, st, st0, sh)
        if st.now is not st0.now and self.role in ('excl', 'dtor'):
            # loop invariant (checked on every way back): which of the list words the loop leaves alone
            keep = sh.flags.setdefault('qkeep', True)
            if keep and st.now.W['head'] is not None:
                n, o = st.now, st0.now
                for X in ('head', 'tail'):
                    n.W[X], n.V[X] = o.W[X], o.V[X]
                n.L = o.L
    def time_check(self, sth, sh, backs):
        if self.role == 'conc' or not sh.flags.get('qkeep'):
            return False
        h = sth.now
        for s in backs:
            for X in ('head', 'tail'):
                if s.now.W[X] is not h.W[X] or s.now.V[X] is not h.V[X]:
                    sh.flags['qkeep'] = False
            if s.now.L is not h.L:
                sh.flags['qkeep'] = False
        return not sh.flags['qkeep']
    def snap_time(self, st, X, acq):
        if X == 'pool' or (self.role != 'conc' and st.now is self.prevtime):
            return Lists.snap_time(self, st, X, acq)
        p, hn = self.prevtime, st.now
        t = self.newtime(st, p)
        st.facts.append(And(le(t.V['head'], hn.V['head']), le(t.V['tail'], hn.V['tail']), le(t.L, hn.L), le(t.V['pool'], hn.V['pool'])))
        return self.observe(st, X, acq, t).value
    def quiet_extra(self, st, h):
        q = []
        for t in st.x['times']:
            if t.L is not None and t.L is not h.now.L:
                q.append(t.L == h.now.L)
        return q
    # ---------------------------------------------------------------- end
    def at_exit(self, st, how, rv):
        ex, rep = self.ex, self.rep
        if self.role == 'ctor' and how == 'ret':
            h, t = st.x.get('init_head'), st.x.get('init_tail')
            if h is None or t is None:
                ex.fail(st, 'word', 'a list word is initialised before it is used')
            else:
                a = self.find(st, rep.ptr(h))
                if not isinstance(a, Cell):
                    ex.fail(st, 'chain', 'a new queue starts with an owned dummy node')
                else:
                    self.ob(st, 'chain', 'a new queue starts with an owned dummy node', And(rep.ptr(t) == a.key, rep.isnull(rep.ptr(rep.linkword(a.b))), z3.Not(rep.isnull(a.key))))
                    st.atoms = [b for b in st.atoms if b.uid != a.uid]
        if self.role in ('excl',) and how == 'ret':
            self.ob(st, 'inv', 'the tail is at the last node when the container is at rest', st.now.V['tail'] == st.now.L)
        if self.role == 'conc' and how == 'ret' and st.x['lpos'] is not None:
            self.ob(st, 'post', 'the tail has reached the added node when push returns', le(st.x['lpos'], st.now.V['tail']))
        Lists.at_exit(self, st, how, rv)
    def empty_seen(self, st):
        return Or(*[r.t.V['head'] == r.t.L for r in st.recs if r.t.L is not None] + [FALSE])
