"""Exact translation of bit vector facts to linear integer arithmetic (every sum keeps its modulo explicitly)."""
import z3, time
from sym import S, lin, Prover, TRUE

class NoInt(Exception):
    pass

class IntProver(Prover):
    def __init__(self, timeout_ms=8000):
        Prover.__init__(self, timeout_ms)
        self.bvp = None
        self.timeout = timeout_ms
        self.memo = {}       # ast id -> (ast, int/bool term, tuple of defs)
        self.n = 0
        self.defs_on = {}
        self.frames = []
        self.tm = {}
        self.fallbacks = 0
    def fv(self, p='q'):
        self.n += 1
        return z3.Int('%s!i%d' % (p, self.n))
    # value of a bit vector term as an integer in [0, 2^w)
    def val(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1:]
        r = self.val0(t)
        self.memo[k] = (t,) + r
        return r
    def norm(self, e, w, ds):
        """e: integer expression; returns e mod 2^w"""
        q = self.fv()
        v = e - q * (1 << w)
        return v, ds + [z3.And(v >= 0, v < (1 << w))]
    def linval(self, t):
        w = t.size()
        c, d = lin(t)
        ds = []
        parts = []
        for co, at in d.values():
            s = co - (1 << 64) if co >> 63 else co
            v, dd = self.atom(at)
            ds += dd
            parts.append(v if s == 1 else v * s)
        sc = c - (1 << 64) if c >> 63 else c
        e = z3.Sum(parts + [z3.IntVal(sc)]) if parts else z3.IntVal(sc)
        return e, ds, (len(parts), sc, parts, d)
    def val0(self, t):
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_long()), []
        w = t.size()
        if w == 64:
            c, d = lin(t)
            if len(d) == 1 and c == 0 and list(d.values())[0][0] == 1:
                return self.atom(list(d.values())[0][1])
            e, ds, inf = self.linval(t)
            return self.norm(e, 64, ds)
        return self.atom(t)
    def atom(self, t):
        k = ('a', t.get_id())
        if k in self.memo:
            return self.memo[k][1:]
        r = self.atom0(t)
        self.memo[k] = (t,) + r
        return r
    def atom0(self, t):
        w = t.size()
        k = t.decl().kind()
        ch = t.children()
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_long()), []
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                v = z3.Int('i_' + t.decl().name())
            else:
                ds = []
                a = []
                for c in ch:
                    x, d = self.val(c)
                    a.append(x)
                    ds += d
                f = z3.Function('f_' + t.decl().name(), *([z3.IntSort()] * (len(a) + 1)))
                v = f(*a)
                return v, ds + [z3.And(v >= 0, v < (1 << w))]
            return v, [z3.And(v >= 0, v < (1 << w))]
        if k == z3.Z3_OP_ITE:
            c, d0 = self.form(ch[0])
            a, d1 = self.val(ch[1])
            b, d2 = self.val(ch[2])
            return z3.If(c, a, b), d0 + d1 + d2
        if k == z3.Z3_OP_ZERO_EXT:
            return self.val(ch[0])
        if k == z3.Z3_OP_CONCAT:
            ds = []
            e = z3.IntVal(0)
            for c in ch:
                x, d = self.val(c)
                ds += d
                e = e * (1 << c.size()) + x
            return z3.simplify(e), ds
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            x, ds = self.val(ch[0])
            W = ch[0].size()
            if lo == 0:
                q = self.fv()
                v = x - q * (1 << (hi + 1))
                return v, ds + [z3.And(v >= 0, v < (1 << (hi + 1)), q >= 0)]
            r = self.fv('r')
            q = self.fv()
            v = self.fv('v')
            return v, ds + [x == (q * (1 << (hi + 1)) + v * (1 << lo) + r), r >= 0, r < (1 << lo), v >= 0, v < (1 << (hi - lo + 1)), q >= 0]
        if k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(ch[1]) and k != z3.Z3_OP_BASHR:
            n = ch[1].as_long()
            d = (1 << n) if k == z3.Z3_OP_BLSHR else n
            if d == 0:
                raise NoInt()
            x, ds = self.val(ch[0])
            q, r = self.fv(), self.fv('r')
            return q, ds + [x == q * d + r, r >= 0, r < d, q >= 0]
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            d = ch[1].as_long()
            x, ds = self.val(ch[0])
            q, r = self.fv(), self.fv('r')
            return r, ds + [x == q * d + r, r >= 0, r < d, q >= 0]
        if k == z3.Z3_OP_BADD or k == z3.Z3_OP_BMUL or k == z3.Z3_OP_BSUB or k == z3.Z3_OP_BNEG:
            if w == 64:
                if k == z3.Z3_OP_BMUL:
                    raise NoInt()
                e, ds, inf = self.linval(t)
                return self.norm(e, 64, ds)
            ds = []
            vs = []
            for c in ch:
                x, d = self.val(c)
                vs.append(x)
                ds += d
            if k == z3.Z3_OP_BADD:
                e = z3.Sum(vs)
            elif k == z3.Z3_OP_BSUB:
                e = vs[0] - z3.Sum(vs[1:])
            elif k == z3.Z3_OP_BNEG:
                e = -vs[0]
            else:
                if not any(z3.is_int_value(v) for v in vs) or len(vs) != 2:
                    raise NoInt()
                e = vs[0] * vs[1]
            return self.norm(e, w, ds)
        raise NoInt()
    def form(self, f):
        k = ('f', f.get_id())
        if k in self.memo:
            return self.memo[k][1:]
        r = self.form0(f)
        self.memo[k] = (f,) + r
        return r
    def form0(self, f):
        if z3.is_true(f) or z3.is_false(f):
            return f, []
        k = f.decl().kind()
        ch = f.children()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or (k in (z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT) and z3.is_bool(ch[-1])):
            a, ds = [], []
            for c in ch:
                x, d = self.form(c)
                a.append(x)
                ds += d
            if k == z3.Z3_OP_AND:
                return z3.And(*a), ds
            if k == z3.Z3_OP_OR:
                return z3.Or(*a), ds
            if k == z3.Z3_OP_NOT:
                return z3.Not(a[0]), ds
            if k == z3.Z3_OP_IMPLIES:
                return z3.Implies(*a), ds
            if k == z3.Z3_OP_XOR or k == z3.Z3_OP_DISTINCT:
                return z3.Xor(*a), ds
            if k == z3.Z3_OP_ITE:
                return z3.If(*a), ds
            return a[0] == a[1], ds
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return f, []
            raise NoInt()
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            a, b = ch
            if a.size() == 64:
                e, ds, inf = self.linval(S(a - b)) if not (z3.is_bv_value(a) and z3.is_bv_value(b)) else (None, [], None)
                n, sc, parts, d = inf
                if n <= 2:
                    # plain comparison of the two values
                    x, d1 = self.val(a)
                    y, d2 = self.val(b)
                    r = x == y
                    ds = d1 + d2
                else:
                    v, ds = self.norm(e, 64, ds)
                    r = v == 0
            else:
                x, d1 = self.val(a)
                y, d2 = self.val(b)
                r, ds = x == y, d1 + d2
            return (z3.Not(r) if k == z3.Z3_OP_DISTINCT else r), ds
        if k in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ):
            x, d1 = self.val(ch[0])
            y, d2 = self.val(ch[1])
            if k in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ):
                w = ch[0].size()
                h = 1 << (w - 1)
                x = z3.If(x >= h, x - (1 << w), x)
                y = z3.If(y >= h, y - (1 << w), y)
            if k in (z3.Z3_OP_ULT, z3.Z3_OP_SLT):
                r = x < y
            elif k in (z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ):
                r = x <= y
            elif k in (z3.Z3_OP_UGT, z3.Z3_OP_SGT):
                r = x > y
            else:
                r = x >= y
            return r, d1 + d2
        raise NoInt()
    # ---- incremental solver
    def push_fact(self, f):
        g, ds = self.form(f)
        self.s.push()
        new = []
        for d in ds:
            i = d.get_id()
            if i not in self.defs_on:
                self.defs_on[i] = d
                new.append(i)
                self.s.add(d)
        self.s.add(g)
        self.frames.append(new)
    def sync(self, facts):
        st = self.stack
        n = 0
        m = min(len(st), len(facts))
        while n < m and st[n] is facts[n]:
            n += 1
        while len(st) > n:
            self.s.pop()
            for i in self.frames.pop():
                del self.defs_on[i]
            st.pop()
        for f in facts[n:]:
            self.push_fact(f)
            st.append(f)
    def check(self, facts, extra):
        t = time.time()
        self.nq += 1
        try:
            self.sync(facts)
            g, ds = self.form(S(extra))
        except NoInt:
            self.fallbacks += 1
            if self.bvp is None:
                self.bvp = Prover(self.timeout)
            r = self.bvp.check(facts, extra)
            self.model = self.bvp.model
            self.time += time.time() - t
            return r
        self.s.push()
        for d in ds:
            if d.get_id() not in self.defs_on:
                self.s.add(d)
        self.s.add(g)
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.time += time.time() - t
        return r
