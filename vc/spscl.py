"""Contracts of spsc_queue: what each operation may do to the ring buffer, and what it must have done at its end.

Ghost state (all relative to the beginning of the operation):
  producer: own index w0, F(t) = free slots at time t (only the consumer increases it), nc = elements constructed,
            pub = elements published;      slot of the k-th new element is (w0+k) mod m
  consumer: own index r0, A(t) = available elements at time t, Q(k) = value of the k-th oldest element,
            nd = elements delivered (functor / copied out), nx = elements destroyed, pub = slots given back
  exclusive (construction, reset, destruction): no other thread.
"""
import z3
from sym import *
from world import *

class TS(Time):
    pass

class Spsc(World):
    def prover(self):
        from intblast import IntProver
        return IntProver()
    def __init__(self, mode, role, cfg):
        World.__init__(self, mode)
        self.role = role            # 'prod' 'cons' 'excl' 'ctor'
        self.trivial = cfg['trivial']
        self.cfg = cfg
        self.esz = 8
        self.deliver = False
        self.INV = z3.Function('IN', z3.BitVecSort(64), z3.BitVecSort(64))
        self.Q = z3.Function('Q', z3.BitVecSort(64), z3.BitVecSort(64))
        self.nin = None
        self.out_array = False
    def small(self, st, at, n):
        return n <= 64 and self.ex.valid(st, z3.ULT(at, bv(1 << 57)))
    # ---- set up
    def setup(self, ex, st, lay, mem, m):
        """lay: field offsets, mem: THIS bytes after construction, m: ring size term"""
        self.ex = ex
        self.lay = lay
        self.m = m
        ex.add_region('this', THIS, 'this', lay['size'])
        ex.add_region('in', IN, 'in')
        ex.add_region('out', OUT, 'out')
        ex.add_region('fun', FUN, 'local')
        self.allocarg(ex, st)
        if mem is not None:
            st.mem['this'] = mem.copy()
        st.gh = dict(nc=bv(0), nd=bv(0), nx=bv(0), pub=bv(0), acq=bv(0), tmp=bv(0))
        st.x['freed'] = 0
        st.x['allocs'] = ()
        if self.role == 'ctor':
            return
        self.buf = self.lay['storage'] + THIS if 'storage' in self.lay else num(mem.copy().load(self.lay['array'], 8, None))
        if 'storage' not in self.lay:
            ex.add_region('buf', self.buf, 'buf')
        self.i0 = z3.BitVec('own0', 64)
        st.facts.append(z3.ULT(self.i0, m))
        st.facts.append(z3.UGE(m, bv(1)))
        st.facts.append(z3.ULT(m, bv(1 << 56)))
        if self.role == 'excl':
            self.A0 = z3.BitVec('A0', 64)
            st.facts.append(z3.ULT(self.A0, m))
            st.gh['rv'] = None
            st.gh['rk'] = bv(0)       # the read index stands at this position (while rv is None)
            st.gh['wv'] = self.slot(self.A0)
            st.gh['acq'] = self.A0
        self.step(st)
    def slot(self, k):
        x = self.i0 + k
        return z3.If(z3.UGE(x, self.m), x - self.m, x)
    def step(self, st):
        """a new point of the interleaving"""
        if self.role in ('excl', 'ctor'):
            return
        t = TS()
        t.n = z3.BitVec('%s!%d' % ('F' if self.role == 'prod' else 'A', t.id), 64)
        st.facts.append(z3.ULT(t.n, self.m))
        if st.now is not None:
            st.facts.append(z3.ULE(st.now.n, t.n))
        st.now = t
    def other(self, t):
        """value of the other side's index at time t"""
        k = t.n + bv(1) if self.role == 'prod' else t.n
        x = self.i0 + k
        return z3.If(z3.UGE(x, self.m), x - self.m, x)
    # ---- addresses
    def is_slot(self, a):
        c, d = lin(a)
        if self.role == 'ctor' and 'storage' not in self.lay:
            return False
        base = THIS + self.lay['storage'] if 'storage' in self.lay else self.buf
        if 'storage' in self.lay:
            if not d:
                return base <= c < base + self.esz * self.cfg['cap1']
            return THIS - 0x1000000 <= c < THIS + 0x1000000
        return self.buf - 0x10000000 <= c < self.buf + (1 << 40)
    def locate(self, st, a):
        c, d = lin(a)
        if self.is_slot(a):
            base = THIS + self.lay['storage'] if 'storage' in self.lay else self.buf
            i = self.seqidx(base, self.esz, a)
            if i is None:
                return ('bad', 'inside of an element slot')
            return ('slot', i, 0)
        for nm, b in (('in', IN), ('out', OUT)):
            if b - 0x10000000 <= c < b + (1 << 40):
                i = self.seqidx(b, self.esz, a)
                if i is None:
                    return ('bad', 'unaligned argument access')
                return (nm, i, 0)
        return None
    def need(self, st, a):
        return [(s, self.ex.locate(s, x)) for s, x in self.ex.split_ite(st, a)]
    # ---- events
    def ob(self, st, kind, name, p, detail=''):
        self.ex.oblige(st, kind, name, p, detail)
    def construct(self, st, i, v, cnt=None, src=None):
        """element(s) constructed in slot i.. ; v value (single) or src index of an input run"""
        g = st.gh
        ex = self.ex
        if self.role != 'prod':
            ex.fail(st, 'elem', 'only the producer creates elements')
            return
        one = bv(1) if cnt is None else cnt
        z = FALSE if cnt is None else cnt == 0
        self.ob(st, 'slot', 'an element is created only in a slot known to be free', Or(z, And(z3.ULE(g['nc'] + one, g['acq']), z3.UGE(g['nc'] + one, g['nc']))))
        self.ob(st, 'slot', 'new elements are placed in consecutive slots from the write position', Or(z, i == self.slot(g['nc'])))
        if cnt is not None:
            self.ob(st, 'slot', 'a block of elements stays inside the buffer', Or(z, And(z3.ULE(i + cnt, self.m), z3.ULE(cnt, self.m))))
        if src is None:
            self.ob(st, 'value', 'the stored element is a copy of the next input element', v == self.INV(g['nc']))
        else:
            self.ob(st, 'value', 'the stored element is a copy of the next input element', Or(z, src == g['nc']))
        g['nc'] = S(g['nc'] + one)
    def read_ok(self, st, i, k, cnt=None):
        one = bv(1) if cnt is None else cnt
        z = FALSE if cnt is None else cnt == 0
        if self.role not in ('cons', 'excl'):
            self.ex.fail(st, 'elem', 'only the consumer touches stored elements')
        self.ob(st, 'slot', 'only elements known to be published are accessed', Or(z, And(z3.ULE(k + one, st.gh['acq']), z3.UGE(k + one, k))))
        self.ob(st, 'slot', 'elements are taken from consecutive slots from the read position', Or(z, i == self.slot(k)))
        if cnt is not None:
            self.ob(st, 'slot', 'a block of elements stays inside the buffer', Or(z, And(z3.ULE(i + cnt, self.m), z3.ULE(cnt, self.m))))
    def delivered(self, st, out, i=None, cnt=None):
        """element nd handed out; out: output index or None for a functor"""
        g = st.gh
        z = FALSE if cnt is None else cnt == 0
        if not self.deliver:
            self.ex.fail(st, 'elem', 'this operation hands no element to the caller')
        if out is not None:
            self.ob(st, 'value', 'output position matches the order of removal', Or(z, out == (g['nd'] if self.out_array else bv(0))))
        if not self.trivial:
            self.ob(st, 'life', 'an element is read only while it is alive', z3.UGE(g['nd'], g['nx']))
        g['nd'] = S(g['nd'] + (bv(1) if cnt is None else cnt))
    # ---- a copy that throws: the elements created so far are destroyed again, in runs of consecutive elements
    def thrown(self, st):
        return self.role == 'prod' and st.x.get('thrown')
    def peel(self, st):
        return self.thrown(st)
    def closerun(self, st):
        g = st.gh
        if g.get('uc') is not None:
            self.ob(st, 'life', 'a failed push destroys each element it created once', g['uc'] == g['nc'])
            g['nc'] = g['ur']
            g['ur'] = g['uc'] = None
    def undo(self, st, i):
        g = st.gh
        if g.get('uc') is not None and self.ex.valid(st, i == self.slot(g['uc'])):
            self.ob(st, 'life', 'a failed push destroys only elements it created', z3.ULT(g['uc'], g['nc']))
            g['uc'] = S(g['uc'] + 1)
            return
        self.closerun(st)
        k = S(z3.If(z3.UGE(i, self.i0), i - self.i0, i + self.m - self.i0))
        self.ob(st, 'life', 'a failed push destroys only elements it created', And(z3.ULT(i, self.m), z3.ULT(k, g['nc'])))
        if self.ex.valid(st, k + 1 == g['nc']):
            g['nc'] = S(g['nc'] - 1)
            return
        g['ur'], g['uc'] = k, S(k + 1)
    def destroy(self, st, i):
        if self.thrown(st):
            self.undo(st, i)
            return
        g = st.gh
        self.read_ok(st, i, g['nx'])
        if self.deliver:
            self.ob(st, 'life', 'an element is destroyed only after it was handed out', z3.ULT(g['nx'], g['nd']))
        g['nx'] = S(g['nx'] + 1)
    def publish(self, st, which, v, order):
        g = st.gh
        ex = self.ex
        if self.role == 'excl':
            g[which + 'v'] = v
            if which == 'r':
                for k in (g['rk'] + 1, g['nx'], g['nd']):
                    if ex.valid(st, v == self.slot(k)):
                        g['rv'], g['rk'] = None, S(k)
                        break
            self.ob(st, 'index', 'indices stay inside the buffer', z3.ULT(v, self.m))
            return
        mine = 'w' if self.role == 'prod' else 'r'
        if which != mine:
            ex.fail(st, 'index', "an operation never writes the other side's index")
            return
        if not self.rel(order):
            ex.fail(st, 'order', 'index is published with release semantics')
        if self.role == 'prod':
            done = g['nc']
        elif self.deliver:
            done = g['nd'] if self.trivial else g['nx']
        else:
            if self.trivial:
                done = bv(1)
                self.ob(st, 'index', 'only an available element is discarded', z3.UGE(g['acq'], bv(1)))
            else:
                done = g['nx']
        self.ob(st, 'index', 'the published index covers exactly the elements processed', v == self.slot(done))
        g['pub'] = done
        self.step(st)
    # ---- memory operations
    def load(self, st, loc, n, order, x):
        ex = self.ex
        k = loc[0]
        if k == 'mem':
            rg, off = loc[1], loc[2]
            if rg.kind == 'this' and self.role != 'ctor':
                for which in ('w', 'r'):
                    if off == self.lay[which + 'idx']:
                        return ex.split_ite(st, self.load_index(st, which, order))
            return [(st, ex.mem_load(st, loc, n))]
        if k == 'slot':
            if not self.trivial:
                ex.fail(st, 'elem', 'elements are touched only through their own operations')
                return [(st, ex.fresh(8 * n))]
            self.read_ok(st, loc[1], st.gh['nd'])
            return [(st, self.Q(st.gh['nd']))]
        if k == 'in':
            if self.nin is not None:
                self.ob(st, 'mem', 'input is read only inside its range', z3.ULT(loc[1], self.nin))
            return [(st, self.INV(loc[1]))]
        if k == 'out':
            return [(st, ex.fresh(8 * n))]
        raise Unsupported("load " + str(loc))
    def load_index(self, st, which, order):
        g = st.gh
        if self.role == 'excl':
            return self.exclindex(st, which)
        mine = 'w' if self.role == 'prod' else 'r'
        if which == mine:
            self.step(st)
            st.recs.append(Rec('own', st.now, None, True))
            return S(self.slot(g['pub']))
        self.step(st)
        st.recs.append(Rec('other', st.now, self.other(st.now), self.acq(order)))
        if self.acq(order):
            g['acq'] = st.now.n
        return S(self.other(st.now))
    def exclindex(self, st, which):
        v = st.gh[which + 'v']
        return S(self.slot(st.gh['rk'])) if v is None else v
    def bounds(self, K):
        return [(1, self.A0, K)] if self.role == 'excl' else []
    def store(self, st, loc, v, order, x):
        ex = self.ex
        k = loc[0]
        if k == 'mem':
            rg, off = loc[1], loc[2]
            if rg.kind == 'this' and self.role != 'ctor':
                for which in ('w', 'r'):
                    if off == self.lay[which + 'idx']:
                        if order is None and self.role != 'excl':
                            ex.fail(st, 'order', 'indices are accessed atomically')
                        self.publish(st, which, v, order)
                        return [(st, None)]
                ex.fail(st, 'mem', 'operations change nothing but the indices and the slots')
            ex.mem_store(st, loc, v)
            return [(st, None)]
        if k == 'slot':
            if not self.trivial:
                ex.fail(st, 'elem', 'elements are touched only through their own operations')
            else:
                self.construct(st, loc[1], v)
            return [(st, None)]
        if k == 'out':
            self.ob(st, 'value', 'the delivered value is the value of the oldest element', v == self.Q(st.gh['nd']))
            self.delivered(st, loc[1])
            return [(st, None)]
        ex.fail(st, 'mem', 'the input is not modified')
        return [(st, None)]
    def cmpxchg(self, st, loc, exp, new, weak, order, forder, x):
        self.ex.fail(st, 'index', 'no compare and swap in a wait-free operation')
        return []
    def memset(self, st, p, v, n, x):
        loc = self.need(st, p)
        if len(loc) == 1 and loc[0][1][0] == 'mem' and num(n) is not None:
            for i in range(num(n)):
                self.ex.mem(st, loc[0][1][1]).store(loc[0][1][2] + i, zx(v, 8))
            return [(st, 'ret', None)]
        raise Unsupported("memset")
    def memcpy(self, st, d, s, n, x):
        ex = self.ex
        out = []
        c, l = lin(n)
        cnt = self.seqidx(0, self.esz, n)
        for s1, ld in self.need(st, d):
            for s2, ls in self.need(s1, s):
                if cnt is None:
                    raise Unsupported("memcpy size " + str(n))
                if ld[0] == 'slot' and ls[0] == 'in':
                    if self.nin is not None:
                        self.ob(s2, 'mem', 'input is read only inside its range', Or(cnt == 0, z3.ULE(ls[1] + cnt, self.nin)))
                    self.construct(s2, ld[1], None, cnt, ls[1])
                elif ls[0] == 'slot' and ld[0] == 'out':
                    self.read_ok(s2, ls[1], s2.gh['nd'], cnt)
                    self.delivered(s2, ld[1], None, cnt)
                elif ld[0] == 'mem' and ls[0] == 'mem' and num(n) is not None and num(n) <= 64:
                    for s3, v in self.load(s2, ls, num(n), None, x):
                        for s4, _ in self.store(s3, ld, v, None, x):
                            out.append((s4, 'ret', None))
                    continue
                elif ld[0] == 'bad' or ls[0] == 'bad':
                    ex.fail(s2, 'mem', 'block copies touch whole elements')
                else:
                    raise Unsupported("memcpy %s <- %s" % (ld[0], ls[0]))
                out.append((s2, 'ret', None))
        return out
    def extcall(self, st, callee, args, x):
        ex = self.ex
        if callee == 'vp_alloc':
            if self.role != 'ctor':
                ex.fail(st, 'alloc', 'no memory is allocated after construction')
            self.ob(st, 'alloc', 'memory comes from the allocator of the queue', args[1] == self.arena)
            s2 = st.copy()
            base = BUF0 + 0x10000000000 * len(st.x['allocs'])
            nm = 'buf%d' % len(st.x['allocs'])
            if not any(r.name == nm for r in ex.regions):
                ex.add_region(nm, base, 'buf')
            st.x['allocs'] = st.x['allocs'] + ((base, args[0]),)
            return [(st, 'ret', bv(base)), (s2, 'throw', None)]
        if callee == 'vp_free':
            if self.role != 'excl' or 'storage' in self.lay:
                ex.fail(st, 'free', 'the buffer is kept while the queue lives')
                return [(st, 'ret', None)]
            self.ob(st, 'free', 'the buffer is returned to the allocator with its address and size', And(args[0] == bv(self.buf), args[1] == self.m * bv(self.esz), args[2] == self.arena))
            self.ob(st, 'free', 'the buffer is returned only once', bv(st.x['freed'], 8) == 0)
            if not self.trivial:
                self.ob(st, 'life', 'all elements are destroyed before the buffer is returned', st.gh['nx'] == self.A0)
            st.x['freed'] += 1
            return [(st, 'ret', None)]
        outs = []
        if callee == '_ZN1EC1ERKS_' or callee == '_ZN1EC2ERKS_':
            for s1, ld in self.need(st, args[0]):
                for s2, ls in self.need(s1, args[1]):
                    if self.is_temp(ld):
                        outs += self.temp_copy(s2, ld, ls)
                        continue
                    if ld[0] == 'slot' and (ls[0] == 'in' or self.is_temp(ls)):
                        if ls[0] == 'in' and self.nin is not None:
                            self.ob(s2, 'mem', 'input is read only inside its range', z3.ULT(ls[1], self.nin))
                        self.maythrow(s2, outs)
                        self.construct(s2, ld[1], self.INV(ls[1]) if ls[0] == 'in' else ex.mem_load(s2, ls, 8))
                    else:
                        ex.fail(s2, 'elem', 'elements are copied from the input into free slots only')
                    outs.append((s2, 'ret', None))
            return outs
        if callee in ('_ZN1UC1ERK1E', '_ZN1UC2ERK1E', '_ZN1UC1ERKS_', '_ZN1UC2ERKS_'):
            for s1, ld in self.need(st, args[0]):
                for s2, ls in self.need(s1, args[1]):
                    outs += self.temp_copy(s2, ld, ls)
            return outs
        if callee in ('_ZN1ED1Ev', '_ZN1ED2Ev', '_ZN1UD1Ev', '_ZN1UD2Ev'):
            for s1, ld in self.need(st, args[0]):
                if self.is_temp(ld):
                    self.ob(s1, 'life', 'a temporary copy is destroyed once', z3.UGE(s1.gh['tmp'], bv(1)))
                    s1.gh['tmp'] = S(s1.gh['tmp'] - 1)
                elif ld[0] == 'slot' and 'UD' not in callee:
                    self.destroy(s1, ld[1])
                else:
                    ex.fail(s1, 'life', 'only stored elements are destroyed')
                outs.append((s1, 'ret', None))
            return outs
        if callee in ('_ZN1EaSERKS_', '_ZN1UaSERK1E', '_ZN1UaSERKS_'):
            for s1, ld in self.need(st, args[0]):
                for s2, ls in self.need(s1, args[1]):
                    if ld[0] == 'out' and self.is_temp(ls):
                        self.ob(s2, 'value', 'the delivered value is the value of the oldest element', ex.mem_load(s2, ls, 8) == self.Q(s2.gh['nd']))
                        self.delivered(s2, ld[1])
                    elif ld[0] == 'out' and ls[0] == 'slot':
                        self.read_ok(s2, ls[1], s2.gh['nd'])
                        self.delivered(s2, ld[1])
                    else:
                        ex.fail(s2, 'elem', 'elements are assigned from slots to the output only')
                    outs.append((s2, 'ret', args[0]))
            return outs
        if callee.startswith(('_ZN2FnI', '_ZNK2FnI')):
            for s1, ld in self.need(st, args[1]):
                self.ob(s1, 'value', "the caller's functor is the one called", args[0] == bv(FUN))
                if self.is_temp(ld):
                    self.ob(s1, 'value', 'the delivered value is the value of the oldest element', ex.mem_load(s1, ld, 8) == self.Q(s1.gh['nd']))
                    self.delivered(s1, None)
                elif ld[0] == 'slot':
                    self.read_ok(s1, ld[1], s1.gh['nd'])
                    self.delivered(s1, None)
                else:
                    ex.fail(s1, 'elem', 'the functor receives the stored element')
                outs.append((s1, 'ret', None))
            return outs
        raise Unsupported("call " + callee)
    # copies of an element in local variables
    def is_temp(self, loc):
        return loc[0] == 'mem' and loc[1].kind == 'local'
    def maythrow(self, st, outs):
        if self.cfg.get('ethrow'):
            s3 = st.copy()
            s3.x['thrown'] = True
            outs.append((s3, 'throw', None))
    def temp_copy(self, s, ld, ls):
        ex = self.ex
        outs = []
        v = ex.fresh(64)
        if ls[0] == 'slot' and self.is_temp(ld):
            k = s.gh['nd' if self.deliver else 'nx']
            self.read_ok(s, ls[1], k)
            self.ob(s, 'life', 'an element is read only while it is alive', z3.UGE(k, s.gh['nx']))
            v = self.Q(k)
        elif ls[0] == 'in' and self.is_temp(ld):
            if self.nin is not None:
                self.ob(s, 'mem', 'input is read only inside its range', z3.ULT(ls[1], self.nin))
            v = self.INV(ls[1])
        elif self.is_temp(ls) and self.is_temp(ld):
            v = ex.mem_load(s, ls, 8)
        else:
            ex.fail(s, 'elem', 'elements are copied from the input into free slots only')
        self.maythrow(s, outs)
        s.gh['tmp'] = S(s.gh['tmp'] + 1)
        if self.is_temp(ld):
            ex.mem_store(s, ld, v)
        outs.append((s, 'ret', None))
        return outs
    # ---- loops
    def loop_time(self, st, st0, sh):
        if st.now is not None:
            self.step(st)
    def header_facts(self, st, sh, hv, K):
        # monotone ghost state needs no candidates: the known-published / known-free count stays a real count
        g = st.gh
        if self.role in ('prod', 'cons') and ('gh', 'acq') in sh.kind:
            st.facts.append(z3.ULE(g['acq'], st.now.n))
    def at_backedge(self, st, info):
        h = info['header']
        ex = self.ex
        p = Or(*[z3.UGT(st.gh[k], h.gh[k]) for k in ('nc', 'nd', 'nx', 'pub')])
        if info['measure']:
            p = TRUE
        self.ob(st, 'progress', 'every loop is bounded by the number of elements transferred', p)
    # ---- postconditions
    def at_exit(self, st, how, rv):
        ex = self.ex
        ex.covers['exit:' + how] = ex.covers.get('exit:' + how, 0) + 1
        if not self.trivial:
            self.ob(st, 'life', 'temporary copies are destroyed', st.gh['tmp'] == 0)
        if how == 'throw':
            if self.role == 'ctor':
                return
            if self.thrown(st):
                self.closerun(st)
                if not self.trivial:
                    self.ob(st, 'life', 'a failed push destroys every element it created', st.gh['nc'] == 0)
                self.ob(st, 'exc', 'a failed push publishes nothing', st.gh['pub'] == 0)
                return
            ex.fail(st, 'exc', 'no operation throws')
            return
        self.post(st, rv)
    def exists_time(self, st, f, kind='other'):
        ts = [f(r.t) for r in st.recs if r.word == kind]
        return Or(*ts)
    def common(self, st):
        g = st.gh
        if self.role == 'prod':
            self.ob(st, 'life', 'every element created is published', g['pub'] == g['nc'])
        elif self.role == 'cons':
            if not self.trivial:
                self.ob(st, 'life', 'every element removed is destroyed, every element destroyed is removed', g['pub'] == g['nx'])
            if self.deliver:
                self.ob(st, 'life', 'every element removed was handed out once', g['pub'] == g['nd'])
