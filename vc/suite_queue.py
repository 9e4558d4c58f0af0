from suite_lists import *
from queuel import Queue

CFGS = {
    'rt': dict(defs=[]),
    'fixed': dict(defs=['-DFIXED'], fixed=True),
    'cap': dict(defs=['-DCAP=5'], cap=5),
    'cap-max': dict(defs=['-DCAP=65534'], cap=65534),      # the largest size whose nodes have 16 bit indexes
    # copying an element may throw
    'rt-throw': dict(defs=['-DETHROW'], ethrow=True),
    'fixed-throw': dict(defs=['-DETHROW', '-DFIXED'], fixed=True, ethrow=True),
}
DEFAULT = ('rt', 'fixed', 'cap', 'cap-max')

class Suite(BaseSuite):
    THROWUNITS2 = ("c_pop", "c_upop", "c_dtor")
    src, kind, prefix = 'queue.cpp', 'queue', 'queue-'
    CFGS = CFGS
    World = Queue
    extra = 1
    @staticmethod
    def ops(cfg):
        flat = not cfg.get('cap') and not cfg.get('fixed')
        et = bool(cfg.get('ethrow'))
        this = bv(THIS)
        L = []
        def op(name, args, post, role='conc', label=None, nin=None, **spec):
            L.append(dict(name=name, label=label or name, role=role, args=args, post=post, nin=nin, spec=spec))
        def nopush(w, st):
            w.ob(st, 'post', 'nothing is added', st.gh['pushed'] == 0)
        def p_push(bounded):
            def p(w, st, rv):
                ok = to_bool(rv)
                w.ob(st, 'post', 'push succeeds exactly if it added the element', And(ok == (st.gh['pushed'] == 1), ok == (st.gh['pushed'] != 0)))
                if flat and not bounded:
                    w.ob(st, 'post', 'unbounded push never fails', ok)
                else:
                    w.ob(st, 'post', 'a push fails only if no node was available', Or(ok, w.was_empty(st, 'pool')))
                w.ob(st, 'post', 'nothing is removed', st.gh['popped'] == 0)
            return p
        el = [this, bv(IN)]
        op('c_push', el, p_push(False), nin=bv(1), alloc=flat, throws=flat or et)
        op('c_bpush', el, p_push(True), nin=bv(1), throws=et)
        op('c_upush', el, p_push(False), role='excl', nin=bv(1), alloc=flat, throws=flat or et)
        def one(w, st, rv):
            ok = to_bool(rv)
            w.ob(st, 'post', 'the result tells exactly whether one element was removed', And(ok == (st.gh['popped'] == 1), ok == (st.gh['popped'] != 0)))
            w.ob(st, 'post', 'a failing pop found the queue empty', Or(ok, w.empty_seen(st)))
            nopush(w, st)
            return ok
        def p_pop(wd):
            def p(w, st, rv):
                ok = one(w, st, rv)
                v, p = st.x['out'], st.x['dpos']
                if p is not None:
                    if v is None:
                        w.ex.fail(st, 'value', 'the value handed out is the value of the removed element')
                    else:
                        d = w.D(p)
                        w.ob(st, 'value', 'the value handed out is the value of the removed element', v == (d if wd == 64 else z3.Extract(wd - 1, 0, d)) if v.size() == wd else FALSE)
                else:
                    w.ob(st, 'post', 'a failing pop removes nothing', z3.Not(ok))
            return p
        for nm, role, wd in (('c_pop', 'conc', 64), ('c_pop_u', 'conc', 32), ('c_upop', 'excl', 64), ('c_upop_u', 'excl', 32)):
            op(nm, [this, bv(OUT)], p_pop(wd), role=role, pops=True)
        def p_conv(w, st, rv):
            ok = one(w, st, rv)
            w.ob(st, 'post', 'the removed element is handed out', st.gh['nd'] == st.gh['popped'])
        op('c_pop_v', [this, bv(OUT)], p_conv, pops=True, deliver=True)
        def p_one(w, st, rv):
            one(w, st, rv)
            w.ob(st, 'post', 'the removed element is handed out', st.gh['nd'] == st.gh['popped'])
        def p_all(w, st, rv):
            w.ob(st, 'post', 'the count returned is the number of elements removed', rv == st.gh['popped'])
            w.ob(st, 'post', 'the removed elements are handed out', st.gh['nd'] == st.gh['popped'])
            w.ob(st, 'post', 'it ends only when the queue was empty', w.empty_seen(st))
            nopush(w, st)
        for s in ('', '_c'):
            f = [this, bv(FUN)]
            op('c_cone' + s, f, p_one, pops=True, deliver=True)
            op('c_call' + s, f, p_all, pops=True, deliver=True)
        def p_empty(w, st, rv):
            if w.role == 'excl':
                w.ob(st, 'post', 'empty tells the state of the queue', to_bool(rv) == (st.now.V['head'] == st.now.L))
            w.ob(st, 'post', 'nothing is removed', st.gh['popped'] == 0)
            nopush(w, st)
        op('c_empty', [this], p_empty)
        op('c_empty', [this], p_empty, role='excl', label='c_empty:excl')
        if flat:
            def p_res(w, st, rv):
                w.ob(st, 'post', 'the requested number of nodes is added to the pool', st.gh['pooled'] == CNT)
                w.ob(st, 'post', 'nothing is removed', st.gh['popped'] == 0)
                nopush(w, st)
            op('c_reserve', [this, CNT], p_res, alloc=True, throws=True)
            op('c_ureserve', [this, CNT], p_res, role='excl', alloc=True, throws=True)
        def p_dtor(w, st, rv):
            w.ob(st, 'free', 'the destructor gives up the last node of the queue', TRUE if st.x['qdead'] else FALSE)
            if flat:
                w.ob(st, 'free', 'the destructor returns every node of the pool', TRUE if st.x['pooldead'] else w.rep.isnull(w.rep.ptr(st.now.W['pool'])))
            elif not w.rep.cap:
                w.ob(st, 'free', 'the destructor returns the node memory', TRUE if len(st.x['freed']) == len(w.bufs) else FALSE)
        op('c_dtor', [this], p_dtor, role='dtor', pops=True)
        return L

def units(cfg):
    return pick(cfg, CFGS, Suite)

def matches(u, names):
    return u in names or u.split(':')[0] in names

def cost(u):
    return 5 if 'call' in u else 2 if 'pop' in u or 'cone' in u else 1
