from suite_lists import *

CFGS = {
    'rt': dict(defs=[]),
    'fixed': dict(defs=['-DFIXED'], fixed=True),
    'cap': dict(defs=['-DCAP=5'], cap=5),
    'cap-max': dict(defs=['-DCAP=65535'], cap=65535),      # the largest size whose nodes have 16 bit indexes
    # copying an element may throw
    'rt-throw': dict(defs=['-DETHROW'], ethrow=True),
    'fixed-throw': dict(defs=['-DETHROW', '-DFIXED'], fixed=True, ethrow=True),
}
DEFAULT = ('rt', 'fixed', 'cap', 'cap-max')

class Suite(BaseSuite):
    src, kind, prefix = 'stack.cpp', 'stack', 'stack-'
    CFGS = CFGS
    @staticmethod
    def ops(cfg):
        flat = not cfg.get('cap') and not cfg.get('fixed')
        et = bool(cfg.get('ethrow'))
        this = bv(THIS)
        L = []
        def op(name, args, post, role='conc', label=None, nin=None, **spec):
            L.append(dict(name=name, label=label or name, role=role, args=args, post=post, nin=nin, spec=spec))
        def nopush(w, st):
            w.ob(st, 'post', 'nothing is added', st.gh['pushed'] == 0)
        def p_push(bounded):
            def p(w, st, rv):
                ok = to_bool(rv)
                w.ob(st, 'post', 'push succeeds exactly if it added the element', And(ok == (st.gh['pushed'] == 1), ok == (st.gh['pushed'] != 0)))
                if flat and not bounded:
                    w.ob(st, 'post', 'unbounded push never fails', ok)
                else:
                    w.ob(st, 'post', 'a push fails only if no node was available', Or(ok, w.was_empty(st, 'pool')))
                w.ob(st, 'post', 'nothing is removed', st.gh['popped'] == 0)
            return p
        el = [this, bv(IN)]
        op('c_push', el, p_push(False), nin=bv(1), alloc=flat, throws=flat or et)
        op('c_bpush', el, p_push(True), nin=bv(1), throws=et)
        op('c_upush', el, p_push(False), role='excl', nin=bv(1), alloc=flat, throws=flat or et)
        def p_range(bounded):
            def p(w, st, rv):
                n = st.gh['pushed']
                w.ob(st, 'post', 'the iterator returned points behind the last element added', rv == bv(IN) + n * bv(8))
                w.ob(st, 'post', 'no more than the range is added', z3.ULE(n, CNT))
                if flat and not bounded:
                    w.ob(st, 'post', 'unbounded ranged push adds the whole range', n == CNT)
                else:
                    w.ob(st, 'post', 'a ranged push stops early only if no node was available', Or(n == CNT, w.was_empty(st, 'pool')))
                w.ob(st, 'post', 'nothing is removed', st.gh['popped'] == 0)
            return p
        rg = [this, bv(IN), S(bv(IN) + CNT * bv(8))]
        op('c_push_range', rg, p_range(False), nin=CNT, alloc=flat, throws=flat or et)
        op('c_bpush_range', rg, p_range(True), nin=CNT, throws=et)
        op('c_upush_range', rg, p_range(False), role='excl', nin=CNT, alloc=flat, throws=flat or et)
        def p_one(w, st, rv):
            ok = to_bool(rv)
            w.ob(st, 'post', 'the result tells exactly whether one element was removed', And(ok == (st.gh['popped'] == 1), ok == (st.gh['popped'] != 0)))
            w.ob(st, 'post', 'the removed element is handed out', st.gh['nd'] == st.gh['popped'])
            w.ob(st, 'post', 'a failing pop found the stack empty', Or(ok, w.was_empty(st, 'tos')))
            nopush(w, st)
        for nm, role in (('c_pop', 'conc'), ('c_pop_u', 'conc'), ('c_upop', 'excl'), ('c_upop_u', 'excl')):
            op(nm, [this, bv(OUT)], p_one, role=role, pops=True, deliver=True)
        def p_all(w, st, rv):
            w.ob(st, 'post', 'the count returned is the number of elements removed', rv == st.gh['popped'])
            w.ob(st, 'post', 'the removed elements are handed out', st.gh['nd'] == st.gh['popped'])
            w.ob(st, 'post', 'it ends only when the stack was empty', w.was_empty(st, 'tos'))
            nopush(w, st)
        def p_atom(w, st, rv):
            w.ob(st, 'post', 'the count returned is the number of elements removed', rv == st.gh['popped'])
            w.ob(st, 'post', 'the removed elements are handed out', st.gh['nd'] == st.gh['popped'])
            w.ob(st, 'post', 'zero only if the stack was empty', Or(st.gh['popped'] != 0, w.was_empty(st, 'tos')))
            nopush(w, st)
        for s in ('', '_c'):
            f = [this, bv(FUN)]
            op('c_cone' + s, f, p_one, pops=True, deliver=True)
            op('c_call' + s, f, p_all, pops=True, deliver=True)
            op('c_catom' + s, f, p_atom, pops=True, deliver=True, take=True)
            op('c_catomr' + s, f, p_atom, pops=True, deliver=True, take=True, reversed=True)
        def p_empty(w, st, rv):
            w.ob(st, 'post', 'empty tells the state of the stack at one instant', w.exists_rec(st, 'tos', lambda r: to_bool(rv) == w.rep.isnull(r.top)))
            w.ob(st, 'post', 'nothing is removed', st.gh['popped'] == 0)
            nopush(w, st)
        op('c_empty', [this], p_empty)
        op('c_empty', [this], p_empty, role='excl', label='c_empty:excl')
        if flat:
            def p_res(w, st, rv):
                w.ob(st, 'post', 'the requested number of nodes is added to the pool', st.gh['pooled'] == CNT)
                w.ob(st, 'post', 'nothing is removed', st.gh['popped'] == 0)
                nopush(w, st)
            op('c_reserve', [this, CNT], p_res, alloc=True, throws=True)
            op('c_ureserve', [this, CNT], p_res, role='excl', alloc=True, throws=True)
        def p_dtor(w, st, rv):
            w.ob(st, 'post', 'the destructor removes every element', w.rep.isnull(w.rep.ptr(st.now.W['tos'])))
            if flat:
                w.ob(st, 'free', 'the destructor returns every node of the pool', TRUE if st.x['pooldead'] else w.rep.isnull(w.rep.ptr(st.now.W['pool'])))
            elif not w.rep.cap:
                w.ob(st, 'free', 'the destructor returns the node memory', TRUE if len(st.x['freed']) == len(w.bufs) else FALSE)
        op('c_dtor', [this], p_dtor, role='dtor', pops=True)
        return L

def units(cfg):
    return pick(cfg, CFGS, Suite)

def matches(u, names):
    return u in names or u.split(':')[0] in names

def cost(u):
    return 5 if 'range' in u or 'catom' in u else 1
