"""Evaluate the small o_*/h_* representation functions of an instantiation symbolically."""
import z3
from sym import *
from world import *

class Pure(World):
    """memory is plain; used for representation functions"""
    def __init__(self):
        World.__init__(self, 'sc')
        self.out = []
    def load(self, st, loc, n, order, x):
        return [(st, self.ex.mem_load(st, loc, n))]
    def store(self, st, loc, v, order, x):
        self.ex.mem_store(st, loc, v)
        return [(st, None)]
    def memset(self, st, p, v, n, x):
        raise Unsupported('memset')
    def memcpy(self, st, d, s, n, x):
        loc_d, loc_s = self.ex.locate(st, d), self.ex.locate(st, s)
        k = num(n)
        self.ex.mem_store(st, loc_d, self.ex.mem_load(st, loc_s, k))
        return [(st, 'ret', None)]
    def extcall(self, st, callee, args, x):
        raise Unsupported("call " + callee)
    def cmpxchg(self, *a):
        raise Unsupported('cmpxchg')
    def at_exit(self, st, how, rv):
        self.out.append((st, how, rv))

def evalfn(module, name, args, mem=None, facts=()):
    """returns list of (state, return value); memory regions: 'this' at THIS, 'h0','h1' scratch"""
    w = Pure()
    ex = Exec(module, w, name, 60)
    ex.add_region('this', THIS, 'this')
    ex.add_region('h0', OUT, 'local')
    ex.add_region('h1', FUN, 'local')
    st = State()
    st.facts = list(facts)
    for k, b in (mem or {}).items():
        st.mem[k] = b.copy()
    fn = module.fn(name)
    if fn is None:
        raise Unsupported("no function " + name)
    for (t, n), v in zip(fn.params, args):
        st.regs[n] = v
    ex.run_op(st, name)
    return [(s, rv) for s, how, rv in w.out], ex

def const(module, name, args, mem=None):
    out, ex = evalfn(module, name, args, mem)
    if len(out) != 1:
        raise Unsupported("layout function %s has several outcomes" % name)
    n = num(out[0][1])
    if n is None:
        raise Unsupported("layout function %s is not constant: %s" % (name, out[0][1]))
    return n
