"""Shared driver of the stack and queue suites."""
import z3, time
from sym import *
from world import *
import lists, layout, extract, irparse
from lists import Lists, Rep

N64 = z3.BitVec('n', 64)
CNT = z3.BitVec('count', 64)

class BaseSuite:
    src = kind = None
    CFGS = {}
    World = Lists
    prefix = ''
    def __init__(self, cfgname, work):
        self.cfgname = cfgname
        self.cfg = self.CFGS[cfgname]
        self.work = work
        self.ll = extract.lower(self.src, self.cfg['defs'], work, self.prefix + cfgname)
        self.m = irparse.Module(self.ll)
        self.rep = Rep(self.m, self.kind, self.cfg)
    def prepare(self):
        pass
    def info(self):
        return '%d functions extracted' % len(self.m.fns)
    def ctors(self):
        return ['c_ctor', 'c_ctor_a']
    def start(self, budget=200, full=False):
        """the states construction ends in; full: constructions that throw as well"""
        k = '_start%d' % full
        if not hasattr(self, k):
            setattr(self, k, self.ctor(budget, full))
        return getattr(self, k)
    def ctor(self, budget, full):
        exs = []
        out = []
        rep = self.rep
        for nm in self.ctors():
            w = self.World('sc', 'ctor', rep, dict(alloc=True, throws=full, anythrow=full and not rep.flat))
            w.nb = lists.BUF0
            w.drop_throws = not full        # the exceptional paths are the subject of the unit 'ctor'
            w.arena = ARENA if nm == 'c_ctor_a' else bv(0)
            ex = Exec(self.m, w, nm, budget)
            st = State()
            st.facts.append(z3.ULT(N64, bv(1 << 55)))
            w.setup(ex, st, None)
            w.post = lambda s, rv, w=w, ex=ex: self.ctor_post(w, ex, s, out)
            w.post_throw = lambda s, w=w: self.ctor_throw(w, s)
            fn = self.m.fn(nm)
            args = [bv(THIS)] + ([] if rep.cap else [N64]) + ([bv(ALLOCARG)] if nm == 'c_ctor_a' else [])
            if len(args) != len(fn.params):
                raise Unsupported('constructor parameters')
            for (t, n), v in zip(fn.params, args):
                st.regs[n] = v
            ex.run_op(st, nm)
            exs.append(ex)
        return out, exs
    def ctor_throw(self, w, s):
        rep = self.rep
        if rep.flat:
            w.ob(s, 'exc', 'a failed construction returns all node memory', And(s.gh['allocs'] == 0, TRUE))
        elif not rep.cap:
            for i, b in enumerate(s.x['bufs']):
                if i not in s.x['freed']:
                    w.ex.fail(s, 'exc', 'a failed construction returns all node memory')
            if not s.x.get('threw'):
                w.ob(s, 'post', 'only sizes that cannot be represented are rejected', z3.UGT(N64 + bv(self.extra), bv(65535)))
    extra = 0
    def ctor_post(self, w, ex, s, out):
        rep = self.rep
        n = bv(self.cfg['cap']) if rep.cap else N64
        for X in w.WORDS:
            if s.now.W[X] is None and not (X in ('head', 'tail') and s.x.get('init_' + X) is not None):
                ex.fail(s, 'word', 'a list word is initialised before it is used')
                return
        if rep.flat:
            w.ob(s, 'post', 'construction makes the requested number of nodes available', s.gh['pooled'] == n)
        else:
            w.ob(s, 'post', 'every node of the array is available after construction', s.gh['pooled'] == n)
            if not rep.cap:
                cnt = w.nodecount(s)
                w.ob(s, 'post', 'sizes that cannot be represented are rejected', z3.ULE(n + bv(self.extra), bv(65535)))
                ok = len(s.x['bufs']) == 1 and not s.x['freed']
                if not ok:
                    ex.fail(s, 'alloc', 'construction reserves memory for all nodes')
                else:
                    b0, sz = s.x['bufs'][0]
                    nb = w.node_base(s)
                    w.ob(s, 'alloc', 'construction reserves memory for all nodes',
                         And(z3.ULE(bv(nb) + (n + bv(self.extra)) * bv(rep.nodesize), bv(b0) + sz), TRUE if nb >= b0 and nb % 16 == 0 else FALSE) if nb else FALSE)
                if cnt is None:
                    ex.fail(s, 'post', 'the node count is remembered')
                else:
                    w.ob(s, 'post', 'the node count is remembered', cnt == n + bv(self.extra))
            else:
                w.ob(s, 'mem', 'node storage lies inside the memory reserved for it',
                     bv(rep.last + rep.nodesize) == bv(rep.base) + bv((self.cfg['cap'] + self.extra) * rep.nodesize)
                     if rep.last + rep.nodesize <= rep.data[0] + rep.data[1] and rep.base >= rep.data[0] and rep.null.as_long() == self.cfg['cap'] + self.extra else FALSE)
        self.ctor_words(w, ex, s)
        b = s.mem.get('this')
        out.append(({k: b.copy() for k, b in s.mem.items() if k == 'this' or k.startswith('buf')}, list(s.x['bufs']), w.node_base(s)))
    def ctor_words(self, w, ex, s):
        pass
    def mkworld(self, o, mode):
        return self.World(mode, o['role'], self.rep, o['spec'])
    def run_op(self, o, mode, start, budget=150):
        mem, bufs, nb = start
        w = self.mkworld(o, mode)
        w.bufs = bufs
        w.nb = nb
        ex = Exec(self.m, w, o['label'], budget)
        st = State()
        st.facts.append(z3.ULT(N64, bv(1 << 55)))
        st.facts.append(z3.ULT(CNT, bv(1 << 40)))
        if not self.rep.flat and not self.rep.cap:
            st.facts.append(z3.ULE(N64 + bv(self.extra), bv(65535)))
        w.setup(ex, st, mem)
        if 'init' in o:
            o['init'](w, st)
        w.nin = o.get('nin')
        w.post = lambda s, rv: o['post'](w, s, rv)
        fn = self.m.fn(o['name'])
        if fn is None:
            raise Unsupported('no function ' + o['name'])
        for (t, n), v in zip(fn.params, o['args']):
            st.regs[n] = v
        ex.run_op(st, o['name'])
        return ex
    def ops(self):
        raise NotImplementedError
    def run(self, unit, mode, budget):
        if unit == 'ctor':
            return self.start(budget, True)[1]
        res, exs = self.start(budget)
        if not res:
            raise Unsupported('no construction path completes')
        o = [o for o in self.ops(self.cfg) if o['label'] == unit][0]
        return [self.run_op(o, mode, res[-1], budget)]

THROWUNITS = ('ctor', 'c_push', 'c_bpush', 'c_upush', 'c_push_range', 'c_bpush_range', 'c_upush_range')
def pick(cfg, CFGS, Suite):
    """units of a configuration; where copying may throw only the operations that copy into a node differ"""
    l = ['ctor'] + [o['label'] for o in Suite.ops(CFGS[cfg])]
    return [u for u in l if u in THROWUNITS + getattr(Suite, "THROWUNITS2", ())] if CFGS[cfg].get('ethrow') else l
