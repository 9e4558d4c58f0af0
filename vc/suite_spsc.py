import z3, time
from sym import *
from world import *
from spscl import Spsc
import layout, extract, irparse

CFGS = {
    'rt': dict(defs=[], trivial=False, cap=None),
    'cap': dict(defs=['-DCAP=5'], trivial=False, cap=5),
    'rt-trivial': dict(defs=['-DELEM=long', '-DELEMTRIV'], trivial=True, cap=None),
    'cap-trivial': dict(defs=['-DCAP=5', '-DELEM=long', '-DELEMTRIV'], trivial=True, cap=5),
    'cap-big': dict(defs=['-DCAP=131071'], trivial=False, cap=131071),
    'cap-big-trivial': dict(defs=['-DCAP=131071', '-DELEM=long', '-DELEMTRIV'], trivial=True, cap=131071),
    # copies of elements may throw (construction of elements: pushes only)
    'rt-throw': dict(defs=['-DETHROW'], trivial=False, cap=None, ethrow=True),
    'cap-throw': dict(defs=['-DETHROW', '-DCAP=5'], trivial=False, cap=5, ethrow=True),
}
DEFAULT = ('rt', 'cap', 'rt-trivial', 'cap-trivial', 'cap-big', 'cap-big-trivial')
N64 = z3.BitVec('n', 64)
CNT = z3.BitVec('count', 64)

def minu(a, b):
    return z3.If(z3.ULT(a, b), a, b)

def B(rv, w=None):
    return to_bool(rv)

# name -> (role, args, kwargs, post)
def ops(cfg):
    this = bv(THIS)
    L = []
    def op(name, role, args, post, **kw):
        L.append(dict(name=name, role=role, args=args, post=post, **kw))
    def p_push(w, st, rv):
        w.ob(st, 'post', 'push succeeds exactly if it stored the element', to_bool(rv) == (st.gh['nc'] == 1))
        w.ob(st, 'post', 'a failing push stores nothing and found the queue full', Or(to_bool(rv), And(st.gh['nc'] == 0, w.exists_time(st, lambda t: t.n == 0))))
    op('c_push', 'prod', [this, bv(IN)], p_push, nin=1)
    def batch(ret, n):
        def p(w, st, rv):
            w.ob(st, 'post', 'the result describes exactly the elements stored', ret(rv) == st.gh['nc'])
            w.ob(st, 'post', 'exactly min(requested, free) elements are stored', Or(And(n == 0, st.gh['nc'] == 0), w.exists_time(st, lambda t: st.gh['nc'] == minu(n, t.n))))
        return p
    op('c_push_arr', 'prod', [this, bv(IN), CNT], batch(lambda r: r, CNT), nin=CNT)
    op('c_push_arr5', 'prod', [this, bv(IN)], batch(lambda r: r, bv(5)), nin=bv(5))
    def itidx(r):
        return (r - bv(IN)) / bv(8) if False else z3.LShR(r - bv(IN), 3)
    def p_range(w, st, rv):
        w.ob(st, 'post', 'the returned iterator points behind the last element stored', rv == bv(IN) + st.gh['nc'] * bv(8))
        w.ob(st, 'post', 'exactly min(requested, free) elements are stored', Or(And(CNT == 0, st.gh['nc'] == 0), w.exists_time(st, lambda t: st.gh['nc'] == minu(CNT, t.n))))
    op('c_push_range', 'prod', [this, bv(IN), S(bv(IN) + CNT * bv(8))], p_range, nin=CNT)
    def p_wav(w, st, rv):
        w.ob(st, 'post', 'write_available is the number of free slots', w.exists_time(st, lambda t: rv == t.n))
        w.ob(st, 'post', 'nothing is stored', st.gh['nc'] == 0)
    op('c_wavail', 'prod', [this], p_wav)
    def p_rav(w, st, rv):
        w.ob(st, 'post', 'read_available is the number of stored elements', w.exists_time(st, lambda t: rv == t.n))
        w.ob(st, 'post', 'nothing is removed', st.gh['pub'] == 0)
        w.ob(st, 'order', 'the elements counted by read_available may be accessed (front)', z3.ULE(rv, st.gh['acq']))
    op('c_ravail', 'cons', [this], p_rav)
    def one(w, st, rv):
        w.ob(st, 'post', 'the result tells exactly whether one element was removed', And(to_bool(rv) == (st.gh['pub'] == 1), to_bool(rv) == (st.gh['pub'] != 0)))
        w.ob(st, 'post', 'failure means the queue was empty', Or(to_bool(rv), w.exists_time(st, lambda t: t.n == 0)))
    op('c_pop0', 'cons', [this], one)
    op('c_pop', 'cons', [this, bv(OUT)], one, deliver=True)
    if not cfg['trivial']:
        op('c_pop_u', 'cons', [this, bv(OUT)], one, deliver=True)
    def cbatch(n):
        def p(w, st, rv):
            w.ob(st, 'post', 'the returned count is the number of elements removed', rv == st.gh['pub'])
            if n is None:
                w.ob(st, 'post', 'all available elements are removed', w.exists_time(st, lambda t: st.gh['pub'] == t.n))
            else:
                w.ob(st, 'post', 'exactly min(requested, available) elements are removed', Or(And(n == 0, st.gh['pub'] == 0), w.exists_time(st, lambda t: st.gh['pub'] == minu(n, t.n))))
        return p
    op('c_pop_arr', 'cons', [this, bv(OUT), CNT], cbatch(CNT), deliver=True, out_array=True)
    op('c_pop_arr5', 'cons', [this, bv(OUT)], cbatch(bv(5)), deliver=True, out_array=True)
    op('c_pop_out', 'cons', [this, bv(OUT)], cbatch(None), deliver=True, out_array=True)
    for s in ('', '_c'):
        op('c_cone' + s, 'cons', [this, bv(FUN)], one, deliver=True, functor=True)
        op('c_call' + s, 'cons', [this, bv(FUN)], cbatch(None), deliver=True, functor=True)
    def p_front(w, st, rv):
        w.ob(st, 'post', 'front refers to the oldest element', rv == bv(w.buf if 'storage' not in w.lay else THIS + w.lay['storage']) + w.i0 * bv(8))
        w.ob(st, 'post', 'front removes nothing', And(st.gh['pub'] == 0, st.gh['nx'] == 0))
    op('c_front', 'cons', [this], p_front, nonempty=True)
    op('c_front_c', 'cons', [this], p_front, nonempty=True)
    def p_empty_c(w, st, rv):
        w.ob(st, 'post', 'empty tells whether nothing was stored', And(w.exists_time(st, lambda t: to_bool(rv) == (t.n == 0)), st.gh['pub'] == 0))
    op('c_empty', 'cons', [this], p_empty_c)
    def p_empty_p(w, st, rv):
        w.ob(st, 'post', 'empty tells whether nothing was stored', And(w.exists_time(st, lambda t: to_bool(rv) == (t.n == w.m - 1)), st.gh['pub'] == 0))
    op('c_empty', 'prod', [this], p_empty_p)
    def p_reset(w, st, rv):
        w.ob(st, 'post', 'the queue is empty after reset', w.exclindex(st, 'w') == w.exclindex(st, 'r'))
        if not w.trivial:
            w.ob(st, 'life', 'reset destroys every stored element once', st.gh['nx'] == w.A0)
    op('c_reset', 'excl', [this], p_reset)
    def p_dtor(w, st, rv):
        if not w.trivial:
            w.ob(st, 'life', 'the destructor destroys every stored element once', st.gh['nx'] == w.A0)
        if 'storage' not in w.lay:
            w.ob(st, 'free', 'the buffer is returned to the allocator', bv(st.x['freed'], 8) == 1)
    op('c_dtor', 'excl', [this], p_dtor)
    return L

class Suite:
    def __init__(self, cfgname, work):
        self.cfgname = cfgname
        self.cfg = CFGS[cfgname]
        self.work = work
        self.ll = extract.lower('spsc.cpp', self.cfg['defs'], work, 'spsc-' + cfgname)
        self.m = irparse.Module(self.ll)
        m = self.m
        this = bv(THIS)
        lay = dict(size=layout.const(m, 'o_size', []), widx=layout.const(m, 'o_widx', [this]) - THIS, ridx=layout.const(m, 'o_ridx', [this]) - THIS)
        if self.cfg['cap']:
            lay['storage'] = layout.const(m, 'o_storage', [this]) - THIS
        else:
            lay['array'] = layout.const(m, 'o_array', [this]) - THIS
            lay['max'] = layout.const(m, 'o_max', [this]) - THIS
        self.lay = lay
    def ctor(self, mode='sc', budget=120):
        """run the constructors; returns (memory after construction, ring size term, [Exec])"""
        res = []
        exs = []
        for nm in ['c_ctor', 'c_ctor_a'] if self.cfg['cap'] else ['c_ctor', 'c_ctor_a', 'c_ctor_u']:
            w = Spsc(mode, 'ctor', dict(self.cfg, cap1=self.cfg['cap'] and self.cfg['cap'] + 1))
            w.arena = bv(0) if nm == 'c_ctor' else ARENA
            ex = Exec(self.m, w, nm, budget)
            st = State()
            st.facts.append(z3.ULT(N64, bv(1 << 55)))
            w.setup(ex, st, self.lay, None, None)
            out = []
            def post(s, rv, w=w, ex=ex, out=out):
                mem = s.mem['this']
                wv, rv_ = mem.load(self.lay['widx'], 8, lambda n: ex.fresh(n)), mem.load(self.lay['ridx'], 8, lambda n: ex.fresh(n))
                if self.cfg['cap']:
                    m = bv(self.cfg['cap'] + 1)
                else:
                    m = S(N64 + 1)
                    al = s.x['allocs']
                    ok = len(al) == 1
                    w.ob(s, 'post', 'construction allocates one buffer for capacity + 1 slots', And(TRUE if ok else FALSE, (al[0][1] == m * bv(8)) if ok else FALSE))
                    w.ob(s, 'post', 'the buffer is remembered', mem.load(self.lay['array'], 8, lambda n: ex.fresh(n)) == bv(al[0][0] if al else 0))
                    w.ob(s, 'post', 'capacity is as requested', mem.load(self.lay['max'], 8, lambda n: ex.fresh(n)) == m)
                w.ob(s, 'post', 'a new queue is empty', And(wv == rv_, z3.ULT(wv, m)))
                out.append((mem.copy(), m))
            w.post = post
            fn = self.m.fn(nm)
            for (t, n), v in zip(fn.params, [bv(THIS)] + ([] if self.cfg['cap'] else [N64]) + [bv(ALLOCARG)]):
                st.regs[n] = v
            ex.run_op(st, nm)
            exs.append(ex)
            res += out
        return res, exs
    def run_op(self, o, mode, mem, m, budget=120):
        w = Spsc(mode, o['role'], dict(self.cfg, cap1=self.cfg['cap'] and self.cfg['cap'] + 1))
        name = o['name'] + ('' if o['name'] != 'c_empty' else ':' + o['role'])
        ex = Exec(self.m, w, name, budget)
        st = State()
        st.facts.append(z3.ULT(N64, bv(1 << 55)))
        st.facts.append(z3.ULT(CNT, bv(1 << 40)))
        w.deliver = o.get('deliver', False)
        w.out_array = o.get('out_array', False)
        w.setup(ex, st, self.lay, mem, m)
        w.nin = o.get('nin')
        if isinstance(w.nin, int):
            w.nin = bv(w.nin)
        if o.get('nonempty'):
            st.facts.append(z3.UGE(st.now.n, bv(1)))
            st.gh['acq'] = bv(1)
        def post(s, rv):
            w.common(s)
            o['post'](w, s, rv)
        w.post = post
        fn = self.m.fn(o['name'])
        for (t, n), v in zip(fn.params, o['args']):
            st.regs[n] = v
        ex.run_op(st, o['name'])
        return ex

    # ---- runner interface
    def prepare(self):
        pass
    def info(self):
        return '%d functions extracted' % len(self.m.fns)
    def start(self):
        if not hasattr(self, '_start'):
            self._start = self.ctor()
        return self._start
    def run(self, unit, mode, budget):
        if unit == 'ctor':
            res, exs = self.start()
            return exs
        res, exs = self.start()
        if not res:
            raise Unsupported('no construction path completes')
        mem, m = res[-1]
        o = [o for o in ops(self.cfg) if uname(o) == unit][0]
        return [self.run_op(o, mode, mem, m, budget)]

def uname(o):
    return o['name'] + ('' if o['name'] != 'c_empty' else ':' + o['role'])

def units(cfg):
    # where copying may throw only the operations that copy into a slot differ
    return ['ctor'] + [uname(o) for o in ops(CFGS[cfg]) if not CFGS[cfg].get('ethrow') or o['name'].startswith('c_push')]

def matches(u, names):
    return u in names or u.split(':')[0] in names

def cost(u):
    return 1
