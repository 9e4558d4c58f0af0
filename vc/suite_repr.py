"""Contracts of the tagged handles (and of the node <-> handle mapping of the pools): lossless, total, for all values."""
import z3
from sym import *
from world import *
import extract, irparse, layout

DCAS = ['-DBOOST_LOCKFREE_PREFIX_HPP_INCLUDED', '-DBOOST_LOCKFREE_CACHELINE_BYTES=64', '-mcx16', '-include', 'boost/predef.h']
CFGS = {
    'compressed': dict(defs=[], pool='flat'),
    'index-cap': dict(defs=['-DINDEXED', '-DCAP=5'], pool='cap', cap=5),
    'index-cap-max': dict(defs=['-DINDEXED', '-DCAP=65534'], pool='cap', cap=65534),
    'index-fixed': dict(defs=['-DINDEXED', '-DFIXED'], pool='fixed'),
    'dcas': dict(defs=DCAS, pool='flat'),
}
UNITS = ['construct', 'replace', 'copy', 'compare', 'next', 'access', 'pool_s', 'pool_q']
NB = 0x500000000040

def units(cfg):
    return UNITS
def matches(u, names):
    return u in names
def cost(u):
    return 1

class Suite:
    CFGS = CFGS
    def __init__(self, cfgname, work):
        self.cfg = CFGS[cfgname]
        self.name = cfgname
        self.m = irparse.Module(extract.lower('handles.cpp', self.cfg['defs'], work, 'repr-' + cfgname))
        self.idx = self.cfg['pool'] != 'flat'
        self.hs = layout.const(self.m, 'o_hsize', [])
        self.tw = 8 * layout.const(self.m, 'o_tagsize', [])
        self.pw = 16 if self.idx else 64
        self.P = lambda n: z3.BitVec(n, self.pw)
        self.T = lambda n: z3.BitVec(n, self.tw)
    def prepare(self):
        pass
    def info(self):
        return '%d functions extracted' % len(self.m.fns)
    # pointers of user space objects (48 bit) where the handle is compressed, everything otherwise
    def okp(self, p):
        return z3.ULT(p, bv(1 << 48)) if self.name == 'compressed' else TRUE
    def mem(self, *hs):
        r = {}
        for i, h in enumerate(hs):
            b = Bytes()
            for o in range(0, self.hs, 8 if self.hs >= 8 else self.hs):
                b.store(o, h[o] if isinstance(h, dict) else h)
            r['h%d' % i] = b
        return r
    def raw(self, n):
        w = 8 if self.hs >= 8 else self.hs
        return {o: z3.BitVec('%s.%d' % (n, o), 8 * w) for o in range(0, self.hs, w)}
    def call(self, fn, args, mem=None, facts=()):
        out, ex = layout.evalfn(self.m, fn, args, mem, facts)
        self.exs.append(ex)
        return out
    def obs(self, out, what, f):
        ex = self.exs[-1]
        ex.op = self.unit
        if not out:
            ex.oblige(State(), 'repr', what, FALSE)
        for st, rv in out:
            ex.oblige(st, 'repr', what, f(st, rv))
    def get(self, mem, which='h0', facts=()):
        """(pointer, tag) that the code reads back from a handle object"""
        m = {'h0': mem[which].copy()}
        o1 = layout.evalfn(self.m, 'h_ptr', [bv(OUT)], m, facts)
        o2 = layout.evalfn(self.m, 'h_tag', [bv(OUT)], m, facts)
        for o, ex in (o1, o2):
            if len(o) != 1:
                raise Unsupported('handle access has several outcomes')
        return o1[0][0][1], o2[0][0][1]
    def run(self, unit, mode, budget):
        self.exs = []
        self.unit = unit
        getattr(self, 'u_' + unit.split('_')[0])(*unit.split('_')[1:])
        for ex in self.exs:
            ex.op = unit
        return self.exs
    def has(self, n):
        return self.m.fn(n) is not None
    def u_construct(self):
        p, t = self.P('p'), self.T('t')
        f = [self.okp(p)]
        pre = self.raw('old')
        def both(t0):
            def g(st, rv):
                a, b = self.get(st.mem, facts=f)
                return And(a == p, b == t0)
            return g
        self.obs(self.call('h_ctor', [bv(OUT), p, t], self.mem(pre), f), 'a handle returns exactly the pointer and tag it was built from', both(t))
        self.obs(self.call('h_ctor1', [bv(OUT), p], self.mem(pre), f), 'a handle built without tag has tag zero', both(bv(0, self.tw)))
        if self.has('h_set'):
            self.obs(self.call('h_set', [bv(OUT), p, t], self.mem(pre), f), 'set stores exactly the pointer and tag', both(t))
    def u_replace(self):
        p, t = self.P('p'), self.T('t')
        f = [self.okp(p)]
        pre = self.raw('old')
        p0, t0 = self.get(self.mem(pre))
        def chk(pp, tt):
            def g(st, rv):
                a, b = self.get(st.mem, facts=f)
                return And(a == pp, b == tt)
            return g
        self.obs(self.call('h_set_ptr', [bv(OUT), p], self.mem(pre), f), 'replacing the pointer keeps the tag', chk(p, t0))
        self.obs(self.call('h_set_tag', [bv(OUT), t], self.mem(pre), f), 'replacing the tag keeps the pointer', chk(p0, t))
    def u_copy(self):
        a, b = self.raw('a'), self.raw('b')
        pa, ta = self.get(self.mem(a))
        for fn in ('h_copy', 'h_assign'):
            def g(st, rv):
                p, t = self.get(st.mem)
                q, u = self.get(st.mem, 'h1')
                return And(p == pa, t == ta, q == pa, u == ta)
            self.obs(self.call(fn, [bv(OUT), bv(FUN)], self.mem(b, a)), 'a copy holds the same pointer and tag', g)
    def u_compare(self):
        a, b = self.raw('a'), self.raw('b')
        (pa, ta), (pb, tb) = self.get(self.mem(a)), self.get(self.mem(b))
        same = And(pa == pb, ta == tb)
        self.obs(self.call('h_eq', [bv(OUT), bv(FUN)], self.mem(a, b)), 'handles are equal exactly if pointer and tag are', lambda st, rv: to_bool(rv) == same)
        self.obs(self.call('h_ne', [bv(OUT), bv(FUN)], self.mem(a, b)), 'handles are unequal exactly if pointer or tag differ', lambda st, rv: to_bool(rv) == z3.Not(same))
        # what compare-and-swap compares is the object representation: it is determined by pointer and tag
        bits = And(*[a[o] == b[o] for o in a])
        self.obs(self.call('h_eq', [bv(OUT), bv(FUN)], self.mem(a, b)), 'equal handles have equal representations', lambda st, rv: Implies(to_bool(rv), bits))
    def u_next(self):
        a = self.raw('a')
        p, t = self.get(self.mem(a))
        def g(st, rv):
            q, u = self.get(st.mem)
            return And(rv == t + bv(1, self.tw), q == p, u == t)
        self.obs(self.call('h_next', [bv(OUT)], self.mem(a)), 'the successor tag is the tag plus one, modulo its range', g)
    def u_access(self):
        a = self.raw('a')
        p, t = self.get(self.mem(a))
        def same(what):
            def g(st, rv):
                q, u = self.get(st.mem)
                return And(what(rv), q == p, u == t)
            return g
        self.obs(self.call('h_tag', [bv(OUT)], self.mem(a)), 'reading a tag changes nothing', same(lambda rv: rv == t))
        self.obs(self.call('h_ptr', [bv(OUT)], self.mem(a)), 'reading a pointer changes nothing', same(lambda rv: rv == p))
        if self.has('h_bool'):
            self.obs(self.call('h_bool', [bv(OUT)], self.mem(a)), 'a handle is false exactly if its pointer is null', same(lambda rv: to_bool(rv) == (p != 0)))
            self.obs(self.call('h_arrow', [bv(OUT)], self.mem(a)), 'a handle dereferences to its pointer', same(lambda rv: rv == p))
            self.obs(self.call('h_deref', [bv(OUT)], self.mem(a)), 'a handle dereferences to its pointer', same(lambda rv: rv == p))
    # ---------------------------------------------------------------- nodes and handles
    def u_pool(self, k):
        kind = self.cfg['pool']
        this = bv(THIS)
        nsz = layout.const(self.m, 'o_nodesize_' + k, [])
        extra = 1 if k == 'q' else 0
        f = []
        mem = {'this': Bytes()}
        if kind == 'flat':
            p, t = z3.BitVec('p', 64), self.T('t')
            f.append(self.okp(p))
            st0 = self.call('h_ctor', [bv(OUT), p, t], self.mem(self.raw('old')), f)[0][0]
            hm = {'this': Bytes(), 'h0': st0.mem['h0'].copy()}
            self.obs(self.call('p_null_' + k, [this], hm, f), 'the null handle is no node', lambda st, rv: rv == 0)
            for fn in ('p_ptr_', 'p_ptr_p_', 'p_handle_'):
                self.obs(self.call(fn + k, [this, p], hm, f), 'the handle of a node is its address', lambda st, rv: rv == p)
            for fn in ('p_ptr_t_', 'p_handle_t_'):
                self.obs(self.call(fn + k, [this, bv(OUT)], hm, f), 'the handle of a node is its address', lambda st, rv: rv == p)
            return
        if kind == 'cap':
            cnt = bv(self.cfg['cap'] + extra)
            lo = layout.const(self.m, 'o_data_' + k, [this])
            sz = layout.const(self.m, 'o_datasize_' + k, [this])
        else:
            cnt = z3.BitVec('cnt', 64)
            f.append(z3.ULE(cnt, bv(65535)))
            no, co = layout.const(self.m, 'o_nodes_' + k, [this]) - THIS, layout.const(self.m, 'o_count_' + k, [this]) - THIS
            mem['this'].store(no, bv(NB))
            mem['this'].store(co, cnt)
            lo, sz = NB, None
        i, j = z3.BitVec('i', 16), z3.BitVec('j', 16)
        fi = f + [z3.ULT(zx(i, 64), cnt)]
        fn = lambda st, rv: rv
        def one(name, args, facts, h=None):
            m = dict(mem)
            if h is not None:
                m['h0'] = h
            out = self.call(name + k, args, m, facts)
            if len(out) == 0:
                raise Unsupported('no outcome of ' + name)
            return out
        null = one('p_null_', [this], f)
        self.obs(null, 'the null handle is no index of a node', lambda st, rv: rv == z3.Extract(15, 0, cnt))
        nul = null[0][1]
        ptr = one('p_ptr_', [this, i], fi)
        live = [(s, r) for s, r in ptr if self.exs[-1].feasible(s)]
        def inside(st, rv):
            c = And(z3.UGE(rv, bv(lo)), rv != 0)
            if sz is not None:
                return And(c, z3.ULE(rv + bv(nsz), bv(lo + sz)))
            return And(c, z3.ULE(rv + bv(nsz), bv(lo) + cnt * bv(nsz)))
        self.obs(live, 'the node of an index lies in the node storage', inside)
        for s, r in live:
            fj = list(s.facts) + [z3.ULT(zx(j, 64), cnt), i != j]
            o2 = one('p_ptr_', [this, j], fj)
            self.obs(o2, 'different indexes name disjoint nodes',
                     lambda st, rv: Or(z3.UGE(rv, r + bv(nsz)), z3.UGE(r, rv + bv(nsz))))
            back = one('p_handle_', [this, r], s.facts)
            self.obs(back, 'the handle of the node of an index is that index', lambda st, rv: rv == i)
            self.obs(one('p_ptr_p_', [this, r], s.facts), 'a node pointer names its node', lambda st, rv: rv == r)
        self.obs(one('p_ptr_', [this, nul], f), 'the null handle names no node', lambda st, rv: rv == 0)
        self.obs(one('p_handle_', [this, bv(0)], f), 'no node has the null handle', lambda st, rv: rv == nul)
        t = self.T('t')
        h = self.call('h_ctor', [bv(OUT), i, t], self.mem(self.raw('old')), fi)[0][0].mem['h0']
        for s, r in live:
            self.obs(one('p_ptr_t_', [this, bv(OUT)], s.facts, h), 'a tagged handle names the node of its index', lambda st, rv: rv == r)
        self.obs(one('p_handle_t_', [this, bv(OUT)], fi, h), 'the handle of a tagged handle is its index', lambda st, rv: rv == i)
