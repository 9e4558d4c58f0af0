"""Contracts of the lock-free LIFO lists: the container list of stack ("tos") and the node pool ("pool").

Separation-logic style reasoning.  A thread owns a symbolic heap (Cell: one node, Seg: a chain of nodes); every
node that is linked into a shared list is owned by that list.  The only ways ownership moves are the atomic
changes of a list word:
  PUSH     the new word points to an owned chain whose last link is the old top        (tag kept or advanced)
  POP      the new word points to the successor of the old top                          (tag advanced by one)
  TAKEALL  the new word is null                                                         (tag advanced by one)
Rely (what any number of other threads may do between two steps): the same actions.  Each list has a version V
(number of removals); the tag stored in the word is V mod 2^16.  While V is unchanged no node leaves the list,
so a node seen at the top keeps its link and its element; with fewer than 2^16 removals between a read and the
compare-and-swap based on it, equal words imply equal versions.
"""
import z3
from sym import *
from world import *
import layout

class T2(Time):
    def __init__(self):
        Time.__init__(self)
        self.W = {}
        self.V = {}
        self.C = {}      # word -> content of the top node at this time
        self.L = None

class Content:
    def __init__(self, b, val):
        self.b, self.val = b, val

class Cell:
    __slots__ = ('uid', 'key', 'b', 'alive', 'given', 'val', 'fc', 'ver')
    def __init__(self, uid, key, b, alive=False, val=None, fc=False):
        self.uid, self.key, self.b, self.alive, self.val, self.fc = uid, key, b, alive, val, fc
        self.given = False
        self.ver = None
    def copy(self):
        c = Cell(self.uid, self.key, self.b.copy(), self.alive, self.val, self.fc)
        c.given = self.given
        c.ver = self.ver
        return c

class Seg:
    """head -> ... -> terminal; elements uf(idx), uf(idx+step), ... while index != end"""
    __slots__ = ('uid', 'head', 'terminal', 'uf', 'idx', 'step', 'end', 'alive', 'given', 'X')
    def __init__(self, uid, head, terminal, uf, idx, step, end, alive, X):
        self.uid, self.head, self.terminal, self.uf, self.idx, self.step, self.end, self.alive, self.X = uid, head, terminal, uf, idx, step, end, alive, X
        self.given = False
    def copy(self):
        c = Seg(self.uid, self.head, self.terminal, self.uf, self.idx, self.step, self.end, self.alive, self.X)
        c.given = self.given
        return c

class Rep:
    """representation of handles and nodes, evaluated from the code itself"""
    def __init__(self, m, kind, cfg):
        self.kind, self.cfg = kind, cfg
        self.flat = not cfg.get('cap') and not cfg.get('fixed')
        self.cap = cfg.get('cap')
        self.g = 8 if self.flat else 2
        self.ww = 64 if self.flat else 32
        self.kw = 64 if self.flat else 16
        this = bv(THIS)
        b = Bytes()
        self.wv = z3.BitVec('w', self.ww)
        b.store(0, self.wv)
        self.ptr_e = layout.evalfn(m, 'h_ptr', [bv(OUT)], {'h0': b})[0][0][1]
        self.tag_e = layout.evalfn(m, 'h_tag', [bv(OUT)], {'h0': b})[0][0][1]
        self.nodesize = layout.const(m, 'o_nodesize', [])
        self.valoff = layout.const(m, 'o_nodeval', [bv(OUT)]) - OUT
        self.size = layout.const(m, 'o_size', [])
        nb = Bytes()
        for o in range(0, self.nodesize, self.g):
            nb.store(o, z3.BitVec('g%d' % o, 8 * self.g))
        self.gv = [(o, z3.BitVec('g%d' % o, 8 * self.g)) for o in range(0, self.nodesize, self.g)]
        self.off = {'pool': layout.const(m, 'o_pool', [this]) - THIS}
        self.link_e = {}
        out = layout.evalfn(m, 'h_plink', [bv(OUT), bv(FUN)], {'h0': nb})[0]
        self.link_e['pool'] = self.ptr(out[0][0].mem['h1'].load(0, self.ww // 8, None))
        if kind == 'stack':
            self.off['tos'] = layout.const(m, 'o_tos', [this]) - THIS
            self.link_e['tos'] = layout.evalfn(m, 'h_link', [bv(OUT)], {'h0': nb})[0][0][1]
        else:
            self.off['head'] = layout.const(m, 'o_head', [this]) - THIS
            self.off['tail'] = layout.const(m, 'o_tail', [this]) - THIS
            out = layout.evalfn(m, 'h_linkw', [bv(OUT), bv(FUN)], {'h0': nb})[0]
            self.linkw_e = out[0][0].mem['h1'].load(0, self.ww // 8, None)
            self.linkoff = layout.const(m, 'o_nodenext', [bv(OUT)]) - OUT
        self.linkvars = {}
        for X, e in self.link_e.items():
            ids = set()
            def walk(t):
                if z3.is_const(t) and not z3.is_bv_value(t):
                    ids.add(t.get_id())
                for c in t.children():
                    walk(c)
            walk(e)
            self.linkvars[X] = [(o, v) for o, v in self.gv if v.get_id() in ids]
        self.base = None
        self.null = bv(0)
        self.bufend = None
        if self.cap:
            self.null = bv(layout.const(m, 'o_null', [this]), 16)
            self.base = layout.const(m, 'o_nodeptr', [this, bv(0, 16)])
            self.last = layout.const(m, 'o_nodeptr', [this, bv(self.null.as_long() - 1, 16)])
            self.data = (layout.const(m, 'o_data', [this]), layout.const(m, 'o_datasize', [this]))
        elif not self.flat:
            self.null = S(z3.Extract(15, 0, z3.BitVec('n', 64) + bv(1 if kind == 'queue' else 0)))
            self.nodesoff = layout.const(m, 'o_nodes', [this]) - THIS
            self.countoff = layout.const(m, 'o_count', [this]) - THIS
        self._c = {}
    def ptr(self, w):
        return S(z3.substitute(self.ptr_e, (self.wv, w)))
    def tag(self, w):
        return S(z3.substitute(self.tag_e, (self.wv, w)))
    def link(self, X, b):
        return S(z3.substitute(self.link_e[X], *[(v, b.load(o, self.g, None)) for o, v in self.linkvars[X]]))
    def linkword(self, b):
        return S(z3.substitute(self.linkw_e, *[(v, b.load(o, self.g, None)) for o, v in self.gv if o < 16]))
    def content(self, name, full=True):
        b = Bytes()
        for o in range(0, self.nodesize, self.g):
            b.store(o, z3.BitVec('%s.%d' % (name, o), 8 * self.g))
        return b
    def isnull(self, k):
        return k == self.null
    def addr(self, k, nb=None):
        if self.flat:
            return k
        return S(bv(self.base if self.base is not None else nb) + zx(k, 64) * bv(self.nodesize))
    def keyfact(self, k):
        if self.flat:
            return z3.ULT(k, bv(1 << 48))
        return z3.ULE(k, self.null)

UID = [0]
def uid():
    UID[0] += 1
    return UID[0]

class Lists(World):
    WORDS = ('tos', 'pool')
    def __init__(self, mode, role, rep, spec):
        World.__init__(self, mode)
        self.role = role               # 'conc' 'excl' 'dtor' 'ctor'
        self.rep = rep
        self.spec = spec
        self.INV = z3.Function('INV', z3.BitVecSort(64), z3.BitVecSort(64))
        self.nin = None
        self.elemword = 'tos'
        self.eltn = 0
    def small(self, st, at, n):
        return n <= 64 and self.ex.valid(st, z3.ULT(at, bv(1 << 57)))
    def divs(self, st):
        return True
    # ---------------------------------------------------------------- set up
    def setup(self, ex, st, mem):
        self.ex = ex
        ex.add_region('this', THIS, 'this', self.rep.size)
        ex.add_region('in', IN, 'in')
        ex.add_region('out', OUT, 'out')
        ex.add_region('fun', FUN, 'local')
        self.allocarg(ex, st)
        for k, b in (mem or {}).items():
            st.mem[k] = b.copy()
            if k.startswith('buf'):
                ex.add_region(k, BUF0 + 0x10000000000 * int(k[3:]), 'buf')
        st.gh = dict(pushed=bv(0), popped=bv(0), nd=bv(0), nx=bv(0), nc=bv(0), pooled=bv(0), allocs=bv(0), tmp=bv(0))
        st.x.update(acts=0, due=(), el=None, times=(), casok=(), bufs=(), freed=(), pooldead=False, relf=False)
        if self.role == 'ctor':
            t = T2()
            for X in self.WORDS:
                t.W[X] = t.V[X] = None
            st.now = t
        else:
            st.now = self.newtime(st, None)
    def newtime(self, st, prev, only=None):
        ex, rep = self.ex, self.rep
        t = T2()
        for X in self.WORDS:
            if prev is not None and (prev.W[X] is None or (only is not None and X not in only)):
                t.W[X], t.V[X] = prev.W[X], prev.V[X]
                if X in prev.C:
                    t.C[X] = prev.C[X]
                continue
            t.W[X] = z3.BitVec('%s@%d' % (X, t.id), rep.ww)
            t.V[X] = z3.BitVec('V%s@%d' % (X, t.id), 64)
            f = [rep.tag(t.W[X]) == z3.Extract(15, 0, t.V[X]), z3.ULT(t.V[X], bv(1 << 60)), rep.keyfact(rep.ptr(t.W[X]))]
            if prev is not None:
                f.append(z3.ULE(prev.V[X], t.V[X]))
            st.facts.append(And(*f))
        return t
    def step(self, st):
        if self.role == 'conc':
            st.now = self.newtime(st, st.now)
            st.x['times'] = st.x['times'] + (st.now,)
        return st.now
    def content_at(self, st, t, X):
        """content of the node at the top of X at time t (meaningful if the list is not empty)"""
        c = t.C.get(X)
        if c is None:
            nm = 'n%s%d' % (X[0], t.id)
            c = t.C[X] = Content(self.rep.content(nm), z3.BitVec(nm + '.val', 64))
        return c
    def observe(self, st, X, acq, t=None):
        rep = self.rep
        t = t or st.now
        old = [r for r in st.recs if r.word == X]
        r = Rec(X, t, t.W[X], acq)
        r.top = rep.ptr(r.value)
        r.c = self.content_at(st, t, X)
        if not any(o.t is t for o in old):
            f = [rep.keyfact(rep.link(X, r.c.b))]
            for a in st.atoms:
                k = a.key if isinstance(a, Cell) else None
                if k is not None and not (self.role != 'conc' and False):
                    f.append(r.top != k)
            seen = set()
            for o in old:
                if o.t.id in seen:
                    continue
                seen.add(o.t.id)
                if o.c is r.c:
                    continue
                f.append(Implies(And(t.V[X] == o.t.V[X], r.top == o.top), self.same(X, o.c, r.c)))
            f = [x for x in map(S, f) if not z3.is_true(x)]
            if f:
                st.facts.append(And(*f))
        st.recs.append(r)
        return r
    def same(self, X, a, b):
        rep = self.rep
        e = [a.b.load(o, rep.g, None) == b.b.load(o, rep.g, None) for o, v in rep.linkvars[X]]
        if X == self.elemword:
            e.append(a.val == b.val)
        return And(*e)
    # ---------------------------------------------------------------- addresses
    def node_base(self, st):
        rep = self.rep
        if rep.flat:
            return None
        if rep.base is not None:
            return rep.base
        b = st.mem.get('this')
        if b is None or rep.nodesoff not in b.d:
            return None
        n = num(b.copy().load(rep.nodesoff, 8, lambda w: self.ex.fresh(w)))
        return n if n and n > BUF0 else None
    def locate(self, st, a):
        rep = self.rep
        c, d = lin(a)
        if rep.flat:
            if not d and c < 4096:
                return ('bad', 'null pointer')
            for nm, b in (('in', IN), ('out', OUT)):
                if b - 0x10000000 <= c < b + (1 << 40):
                    i = self.seqidx(b, 8, a)
                    return ('bad', 'unaligned argument access') if i is None else (nm, i, 0)
            if not d:
                return None
            if c > (1 << 63):
                off = c - (1 << 64)
            else:
                off = c
            if abs(off) > 4096:
                raise Unsupported("address " + str(a)[:200])
            l = (0, d)
            key = list(d.values())[0][1] if len(d) == 1 and list(d.values())[0][0] == 1 else linterm(l)
            return ('node', S(key), off)
        if not d and c < 4096:
            return ('bad', 'null pointer')
        nb = self.node_base(st)
        if nb is not None and (d or (c >= nb and self.region_hit(c, nb))):
            if nb - 0x100000 <= c < nb + 0x8000000:
                o = c - nb
                off = o % rep.nodesize
                k = self.seqidx(off + nb, rep.nodesize, a)
                if k is None:
                    return ('bad', 'inside of a node')
                n = unzext(k)
                if n is not None and n.size() == 16:
                    key = n
                elif num(k) is not None:
                    if num(k) > 65535:
                        return ('bad', 'outside of the node array')
                    key = bv(num(k), 16)
                else:
                    if not self.ex.valid(st, z3.ULT(k, bv(65536))):
                        return ('bad', 'outside of the node array')
                    key = S(z3.Extract(15, 0, k))
                return ('node', key, off)
        for nm, b in (('in', IN), ('out', OUT)):
            if b - 0x10000000 <= c < b + (1 << 40):
                i = self.seqidx(b, 8, a)
                return ('bad', 'unaligned argument access') if i is None else (nm, i, 0)
        return None
    def region_hit(self, c, nb):
        if self.rep.cap:
            return c < self.rep.last + self.rep.nodesize
        return c < nb + 65536 * self.rep.nodesize
    def resolve(self, st, addr):
        out = []
        for s, a in self.ex.split_ite(st, addr):
            loc = self.ex.locate(s, a)
            if loc[0] == 'node':
                out += self.nodeloc(s, loc[1], loc[2])
            else:
                out.append((s, loc))
        return out
    def nodeloc(self, st, key, off):
        ex = self.ex
        if off < 0 or off >= self.rep.nodesize:
            return [(st, ('bad', 'outside of the node'))]
        a = self.find(st, key)
        if a is None:
            if self.role == 'ctor' and self.claim(st, key):
                return self.nodeloc(st, key, off)
            if self.role in ('dtor', 'ctor') and self.detach(st, key):
                return self.nodeloc(st, key, off)
            return [(st, ('shared', key, off))]
        if isinstance(a, Cell):
            return [(st, ('cell', a.uid, off))]
        e = a.idx == a.end
        if ex.valid(st, z3.Not(e)):
            return [(st, ('cell', self.unfold(st, a).uid, off))]
        if ex.valid(st, e):
            st.atoms.remove(a)
            return self.nodeloc(st, a.terminal, off)
        s2 = st.copy()
        ex.assume(st, e)
        st.atoms = [b for b in st.atoms if b.uid != a.uid]
        r = self.nodeloc(st, a.terminal, off)
        ex.assume(s2, z3.Not(e))
        a2 = [b for b in s2.atoms if b.uid == a.uid][0]
        return r + [(s2, ('cell', self.unfold(s2, a2).uid, off))]
    def keyof(self, a):
        return a.key if isinstance(a, Cell) else a.head
    def find(self, st, key):
        for a in st.atoms:
            if key.eq(self.keyof(a)):
                return a
        for r in st.recs:
            if getattr(r, 'top', None) is not None and key.eq(r.top):
                return None
        if num(key) is not None and self.rep.flat:
            return None
        for a in st.atoms:
            if self.ex.valid(st, key == self.keyof(a)):
                return a
        return None
    def cell(self, st, u):
        for a in st.atoms:
            if a.uid == u:
                return a
        raise Unsupported("lost cell")
    def freshcontent(self, nm='f'):
        self.ex.fcount += 1
        return self.rep.content('%s!%d' % (nm, self.ex.fcount))
    def unfold(self, st, a):
        b = self.freshcontent('u')
        c = Cell(uid(), a.head, b, a.alive, S(a.uf(a.idx)) if a.uf is not None else None)
        c.given = a.given
        h = self.rep.link(a.X, b)
        n = a.copy()
        n.head = h
        n.idx = S(a.idx + bv(a.step))
        st.facts.append(And(self.rep.keyfact(h), (h == n.terminal) == (n.idx == n.end), Or(n.idx == n.end, z3.Not(self.rep.isnull(h))),
                            z3.Not(self.rep.isnull(a.head))))
        st.atoms = [x for x in st.atoms if x.uid != a.uid] + [c, n]
        return c
    def claim(self, st, key):
        """construction: nodes of the array that are not in the pool yet belong to the constructor"""
        if self.rep.flat:
            return False
        n = st.gh['pooled']
        k = zx(key, 64)
        cnt = self.nodecount(st)
        if cnt is None:
            return False
        for e in (k == n, k == cnt - bv(1) - n):
            if self.ex.valid(st, And(e, z3.ULT(k, cnt))):
                st.atoms.append(Cell(uid(), key, self.freshcontent('raw'), fc=True))
                return True
        return False
    def nodecount(self, st):
        rep = self.rep
        if rep.cap:
            return zx(rep.null, 64)
        b = st.mem.get('this')
        if b is None or rep.countoff not in b.d:
            return None
        return b.copy().load(rep.countoff, 8, lambda w: self.ex.fresh(w))
    def detach(self, st, key):
        """destruction: the pool becomes an ordinary chain owned by the destructor"""
        if not self.rep.flat or st.x['pooldead'] or st.now.W['pool'] is None:
            return False
        if not self.ex.valid(st, And(key == self.rep.ptr(st.now.W['pool']), z3.Not(self.rep.isnull(key)))):
            return False
        if getattr(self.ex, 'loopdepth', 0):
            raise NeedDetach()
        self.do_detach(st)
        return True
    def do_detach(self, st):
        self.ex.fcount += 1
        n = z3.BitVec('plen!%d' % self.ex.fcount, 64)
        h = self.rep.ptr(st.now.W['pool'])
        if self.role == 'ctor':
            n = st.gh['pooled']     # the pool holds exactly what this constructor put there
        else:
            st.facts.append(z3.ULT(n, bv(1 << 40)))
        st.facts.append(And(self.rep.isnull(h) == (n == 0)))
        st.atoms.append(Seg(uid(), h, self.rep.null, None, bv(0), 1, n, False, 'pool'))
        st.x['pooldead'] = True
    def reattach(self, st, old, new, a):
        """a constructor looked at its own pool and now takes its first node: the rest is the pool again"""
        rep, ex = self.rep, self.ex
        if self.role != 'ctor' or not isinstance(a, Seg) or a.X != 'pool' or not ex.valid(st, a.head == rep.ptr(new)):
            return False
        for c in st.atoms:
            if isinstance(c, Cell) and ex.valid(st, And(c.key == rep.ptr(old), rep.link('pool', c.b) == a.head)):
                st.atoms = [b for b in st.atoms if b.uid not in (a.uid, c.uid)]
                st.x['pooldead'] = False
                st.x['reatt'] = c
                return True
        return False
    # ---------------------------------------------------------------- memory operations
    def ob(self, st, kind, name, p, detail=''):
        self.ex.oblige(st, kind, name, p, detail)
    def wordat(self, loc, n):
        if loc[0] == 'mem' and loc[1].kind == 'this':
            for X, o in self.rep.off.items():
                if o <= loc[2] < o + self.rep.ww // 8 and X in self.WORDS:
                    return X
        return None
    def load(self, st, loc, n, order, x):
        ex = self.ex
        k = loc[0]
        X = self.wordat(loc, n)
        if X:
            return [(st, self.load_word(st, X, n, order, loc))]
        if k == 'mem':
            return [(st, ex.mem_load(st, loc, n))]
        if k == 'cell':
            c = self.cell(st, loc[1])
            return [(st, self.cell_load(st, c, loc[2], n, order))]
        if k == 'shared':
            return [(st, self.shared_read(st, loc[1], loc[2], n, order))]
        if k == 'in':
            if self.nin is not None:
                self.ob(st, 'mem', 'input is read only inside its range', z3.ULT(loc[1], self.nin))
            return [(st, self.INV(loc[1]))]
        if k == 'out':
            return [(st, ex.fresh(8 * n))]
        raise Unsupported("load " + str(loc))
    def load_word(self, st, X, n, order, loc):
        ex = self.ex
        if loc[2] != self.rep.off[X] or n * 8 != self.rep.ww:
            ex.fail(st, 'word', 'list words are accessed as a whole')
        if order is None and self.role == 'conc':
            ex.fail(st, 'order', 'shared words are accessed atomically')
        self.step(st)
        if st.now.W[X] is None:
            ex.fail(st, 'word', 'a list word is initialised before it is used')
            return ex.fresh(self.rep.ww)
        if X == 'pool' and st.x['pooldead'] and False:
            pass
        r = self.observe(st, X, self.acq(order) or self.role != 'conc',
                         self.readtime(st, X, self.acq(order)))
        return r.value
    def readtime(self, st, X, acq):
        return st.now
    def settle(self, st, order):
        pass
    def cell_load(self, st, c, off, n, order):
        rep = self.rep
        if c.alive and off + n > rep.valoff and off < rep.valoff + 8 and self.opaque:
            self.ex.fail(st, 'elem', 'elements are touched only through their own operations')
        return c.b.load(off, n, lambda w: self.ex.fresh(w))
    opaque = True
    def shared_read(self, st, key, off, n, order):
        ex = self.ex
        t = self.step(st)
        rs = [r for r in st.recs if getattr(r, 'top', None) is not None]
        self.ob(st, 'mem', 'only nodes reached through a list word are read',
                Or(*[And(key == r.top, z3.Not(self.rep.isnull(r.top))) for r in rs]) if rs else FALSE)
        v = ex.fresh(8 * n, 'rd')
        f = []
        for r in rs:
            if r.acq and t.V[r.word] is not None:
                f.append(Implies(And(key == r.top, t.V[r.word] == r.t.V[r.word]), v == r.c.b.load(off, n, None)))
        f = [y for y in map(S, f) if not z3.is_true(y)]
        if f:
            st.facts.append(And(*f))
        return v
    def store(self, st, loc, v, order, x):
        ex = self.ex
        k = loc[0]
        if z3.is_bool(v):
            v = from_bool(v, 8)
        X = self.wordat(loc, v.size() // 8)
        if X:
            if loc[2] != self.rep.off[X] or v.size() != self.rep.ww:
                if self.role == 'ctor' and st.now.W[X] is None:
                    # piecewise initialisation
                    ex.mem_store(st, loc, v)
                    b = ex.mem(st, loc[1])
                    o = self.rep.off[X]
                    if all(o + i in b.d for i in range(self.rep.ww // 8)):
                        self.store_word(st, X, b.load(o, self.rep.ww // 8, None), None)
                    return [(st, None)]
                ex.fail(st, 'word', 'list words are accessed as a whole')
                return [(st, None)]
            self.store_word(st, X, v, order)
            return [(st, None)]
        if k == 'mem':
            if loc[1].kind == 'this' and self.role not in ('ctor',):
                ex.fail(st, 'mem', 'operations change nothing but the list words and owned nodes')
            ex.mem_store(st, loc, v)
            return [(st, None)]
        if k == 'cell':
            c = self.cell(st, loc[1])
            self.cell_store(st, c, loc[2], v, order)
            return [(st, None)]
        if k == 'shared':
            ex.fail(st, 'own', 'only owned nodes are written')
            return [(st, None)]
        if k == 'out':
            return self.out_store(st, loc, v)
        ex.fail(st, 'mem', 'the input is not modified')
        return [(st, None)]
    def out_store(self, st, loc, v):
        self.ex.fail(st, 'elem', 'output is assigned from elements only')
        return [(st, None)]
    def cell_store(self, st, c, off, v, order):
        n = v.size() // 8
        if self.opaque and off + n > self.rep.valoff and off < self.rep.valoff + 8:
            if c.alive:
                self.ex.fail(st, 'elem', 'elements are touched only through their own operations')
        c.b.store(off, v)
    def store_word(self, st, X, v, order):
        ex = self.ex
        t = st.now
        if t.W[X] is None:
            self.init_word(st, X, v)
            return
        if self.role == 'conc':
            ex.fail(st, 'word', 'shared list words are changed only by compare and swap')
            return
        r = self.observe(st, X, True)
        self.act(st, X, t.W[X], v, order, r)
    def init_word(self, st, X, v):
        self.ob(st, 'word', 'lists start empty', self.rep.isnull(self.rep.ptr(v)))
        t = self.nexttime(st)
        t.W[X] = v
        V = self.ex.fresh(64, 'V')
        st.facts.append(And(self.rep.tag(v) == z3.Extract(15, 0, V), z3.ULT(V, bv(1 << 60))))
        t.V[X] = V
        st.now = t
    def nexttime(self, st):
        t = T2()
        t.W = dict(st.now.W)
        t.V = dict(st.now.V)
        t.C = dict(st.now.C)
        return t
    def cmpxchg(self, st, loc, exp, new, weak, order, forder, x):
        ex = self.ex
        X = self.wordat(loc, exp.size() // 8)
        if not X:
            return self.cas_other(st, loc, exp, new, weak, order, forder, x)
        if st.now.W[X] is None:
            ex.fail(st, 'word', 'a list word is initialised before it is used')
            return []
        self.step(st)
        self.settle(st, order)
        W = st.now.W[X]
        out = []
        s2 = st.copy()
        ex.assume(st, W == exp)
        if ex.feasible(st):
            st.trace.append('cas ok ' + X)
            r = self.observe(st, X, self.acq(order) or self.role != 'conc')
            self.nowrap(st, X, exp)
            self.act(st, X, exp, new, order, r)
            out.append((st, ('agg', {0: exp, 1: TRUE})))
        if weak:
            s2.x['casok'] = s2.x['casok'] + (W != exp,)
        else:
            ex.assume(s2, W != exp)
        if ex.feasible(s2):
            s2.trace.append('cas fail ' + X)
            self.observe(s2, X, self.acq(forder) or self.role != 'conc')
            out.append((s2, ('agg', {0: W, 1: FALSE})))
        return out
    def nowrap(self, st, X, exp):
        """ASSUMPTION: fewer than 2^16 removals between a read and the compare and swap based on it"""
        f = []
        for r in st.recs[st.x.get('recmark', 0):]:
            if r.word == X and r.t is not st.now:
                f.append(Implies(exp == r.value, r.t.V[X] == st.now.V[X]))
        f = [y for y in map(S, f) if not z3.is_true(y)]
        if f:
            st.facts.append(And(*f))
    def cas_other(self, st, loc, exp, new, weak, order, forder, x):
        self.ex.fail(st, 'word', 'compare and swap is applied to list words only')
        return []
    def rmw(self, st, loc, rop, new, order, x):
        X = self.wordat(loc, new.size() // 8)
        if rop != 'xchg' or not X:
            raise Unsupported("atomicrmw " + rop)
        self.step(st)
        self.settle(st, order)
        W = st.now.W[X]
        r = self.observe(st, X, self.acq(order) or self.role != 'conc')
        self.act(st, X, W, new, order, r)
        return [(st, W)]
    def fence(self, st, order):
        if st.now.W[self.WORDS[0]] is not None:
            self.step(st)
            self.settle(st, 'acq_rel')
        if order in ACQ:
            for i, r in enumerate(st.recs):
                if not r.acq:
                    q = Rec(r.word, r.t, r.value, True)
                    q.__dict__.update(r.__dict__)
                    q.acq = True
                    st.recs[i] = q
        if order in REL:
            st.x['relf'] = True
    # ---------------------------------------------------------------- actions on list words
    def act(self, st, X, old, new, order, r):
        ex, rep = self.ex, self.rep
        t = st.now
        pn, po = rep.ptr(new), rep.ptr(old)
        a = None if ex.valid(st, rep.isnull(pn)) else self.find(st, pn)
        if a is None and self.role == 'ctor' and not rep.flat and not ex.valid(st, rep.isnull(pn)) and self.claim(st, pn):
            a = self.find(st, pn)
        tn, to = rep.tag(new), rep.tag(old)
        back = False
        if X == 'pool' and st.x['pooldead']:
            back = self.reattach(st, old, new, a)
            if not back:
                ex.fail(st, 'free', 'the pool is not used after it was taken apart')
        if back:
            c = st.x['reatt']
            st.atoms.append(c)
            self.removed(st, X, c, r)
            self.ob(st, 'version', 'removing a node advances the version by one', tn == to + bv(1, 16))
            V = S(t.V[X] + bv(1))
        elif a is not None:
            self.push(st, X, pn, po, order)
            st.x['adds'] = st.x.get('adds', 0) + 1
            self.ob(st, 'version', 'adding a node keeps or advances the version', Or(tn == to, tn == to + bv(1, 16)))
            V = S(z3.If(tn == to, t.V[X], t.V[X] + bv(1)))
        else:
            self.remove(st, X, pn, po, order, r)
            self.ob(st, 'version', 'removing a node advances the version by one', tn == to + bv(1, 16))
            V = S(t.V[X] + bv(1))
        n = self.nexttime(st)
        n.W[X] = S(new)
        n.V[X] = V
        n.C.pop(X, None)
        st.now = n
        st.x['acts'] += 1
        if ex.loopdepth:
            st.x['actsin'] = True
    def push(self, st, X, pn, po, order):
        ex, rep = self.ex, self.rep
        if self.role == 'conc' and not (self.rel(order) or st.x['relf']):
            ex.fail(st, 'order', 'nodes are handed over with release semantics')
        cur = pn
        elems = []
        first = True
        while True:
            if not first and (cur.eq(po) or ex.valid(st, cur == po)):
                break
            first = False
            a = self.find(st, cur)
            if a is None:
                ex.fail(st, 'chain', 'the nodes added are owned and linked to the former top', 'X=%s cur=%s' % (X, cur))
                break
            st.atoms = [b for b in st.atoms if b.uid != a.uid]
            if isinstance(a, Seg):
                if a.X != X and rep.flat and False:
                    pass
                elems.append(('seg', a))
                cur = a.terminal
            else:
                elems.append(('cell', a))
                cur = rep.link(X, a.b)
        if X == 'pool':
            for k, a in elems:
                if a.alive:
                    ex.fail(st, 'life', 'an element is destroyed before its node is given back')
                self.check_pooled(st, a)
            st.gh['pooled'] = S(st.gh['pooled'] + bv(len(elems)))
            return
        self.pushed_elems(st, elems)
    def check_pooled(self, st, a):
        pass
    def pushed_elems(self, st, elems):
        """elements from the top down must be input[n-1], ..., input[0]"""
        ex = self.ex
        self.ob(st, 'once', 'all elements of one call appear in one atomic step', st.gh['pushed'] == 0)
        cur = None
        n = None
        for k, a in elems:
            if not a.alive:
                ex.fail(st, 'life', 'every node in the container holds a live element')
                return
            if k == 'cell':
                j = self.index_of(a.val)
                if j is None:
                    ex.fail(st, 'value', 'the elements added are the input elements in order')
                    return
                if cur is None:
                    n = j + bv(1)
                else:
                    self.ob(st, 'value', 'the elements added are the input elements in order', cur == j)
                cur = j - bv(1)
            else:
                if a.uf is None or a.uf.name() != 'INV' or a.step != -1:
                    ex.fail(st, 'value', 'the elements added are the input elements in order')
                    return
                if cur is None:
                    n = a.idx + bv(1)
                else:
                    self.ob(st, 'value', 'the elements added are the input elements in order', cur == a.idx)
                cur = a.end
        self.ob(st, 'value', 'the elements added are the input elements in order', cur == bv(-1))
        st.gh['pushed'] = S(n)
    def index_of(self, v):
        if v is not None and z3.is_app(v) and v.decl().name() == 'INV' and v.num_args() == 1:
            return v.arg(0)
        return None
    def remove(self, st, X, pn, po, order, r):
        ex, rep = self.ex, self.rep
        self.ob(st, 'word', 'only a non-empty list loses a node', z3.Not(rep.isnull(po)))
        if X == self.elemword and self.spec.get('take'):
            self.takeall(st, X, pn, po, r)
            return
        self.ob(st, 'word', 'the new top is the successor of the removed node', pn == rep.link(X, r.c.b), 'list ' + X)
        if not r.acq:
            self.ob(st, 'order', 'a node is taken over with acquire semantics',
                    Or(*[And(o.t.V[X] == r.t.V[X], o.top == r.top) for o in st.recs if o.word == X and o.acq and o is not r] + [FALSE]))
        el = X == self.elemword
        b, val = self.visible(st, X, r)
        c = Cell(uid(), po, b, el, val if el else None)
        for a in st.atoms:
            if isinstance(a, Cell):
                st.facts.append(po != a.key)
        st.atoms.append(c)
        self.removed(st, X, c, r)
    def removed(self, st, X, c, r):
        if X == 'pool' and self.role == 'ctor':
            st.gh['pooled'] = S(st.gh['pooled'] - bv(1))
        if X == self.elemword:
            st.gh['popped'] = S(st.gh['popped'] + bv(1))
            e = st.x.get('early')
            if e is not None:
                self.ob(st, 'value', 'the value handed out is the value of the removed element', And(e.top == c.key, e.c.val == r.c.val))
                c.given = True
                st.x['early'] = None
            elif self.spec.get('deliver'):
                st.x['due'] = st.x['due'] + (r.c.val,)
            if not self.spec.get('pops'):
                self.ex.fail(st, 'word', 'this operation removes no element')
    def visible(self, st, X, r):
        """what the thread knows of the node it just received: acquired reads only"""
        if r.acq:
            return r.c.b.copy(), r.c.val
        b = self.freshcontent('stale')
        val = self.ex.fresh(64, 'staleval')
        c = Content(b, val)
        for o in st.recs:
            if o.word == X and o.acq:
                st.facts.append(Implies(And(o.t.V[X] == r.t.V[X], o.top == r.top), self.same(X, o.c, c)))
        return b, val
    def takeall(self, st, X, pn, po, r):
        ex, rep = self.ex, self.rep
        self.ob(st, 'word', 'the whole content is detached', rep.isnull(pn))
        vis = r.acq or ex.valid(st, Or(*[And(o.t.V[X] == r.t.V[X], o.top == r.top) for o in st.recs if o.word == X and o.acq and o is not r] + [FALSE]))
        if not vis:
            ex.fail(st, 'order', 'detached elements are acquired before they are used')
        ex.fcount += 1
        uf = z3.Function('EL!%d' % ex.fcount, z3.BitVecSort(64), z3.BitVecSort(64))
        L = z3.BitVec('L!%d' % ex.fcount, 64)
        st.facts.append(And(z3.UGE(L, bv(1)), z3.ULT(L, bv(1 << 40))))
        st.atoms.append(Seg(uid(), po, rep.null, uf, bv(0), 1, L, True, X))
        if st.x['el'] is not None:
            ex.fail(st, 'word', 'the content is detached once')
        st.x['el'] = (uf, L)
        st.gh['popped'] = S(st.gh['popped'] + L)
    # ---------------------------------------------------------------- elements
    def memset(self, st, p, v, n, x):
        ex = self.ex
        out = []
        raw = self.role == 'ctor' and not self.rep.flat
        if raw and self.node_base(st) is None and st.x['bufs'] and lin(p)[0] >= st.x['bufs'][-1][0]:
            # storage just received from the allocator, its address not yet kept in the container
            b, size = st.x['bufs'][-1]
            self.ob(st, 'mem', 'node storage lies inside the memory reserved for it', And(z3.UGE(p, bv(b)), z3.ULE(n, size), z3.ULE(p - bv(b), size - n)))
            return [(st, 'ret', None)]
        for s, loc in (World.resolve(self, st, p) if raw else self.resolve(st, p)):
            k = num(n)
            if self.role == 'ctor' and loc[0] in ('cell', 'shared', 'node') and not self.rep.flat:
                nb = self.node_base(s)
                end = self.storage_end(s)
                if end is not None:
                    self.ob(s, 'mem', 'node storage lies inside the memory reserved for it', z3.ULE(p + n, end))
                out.append((s, 'ret', None))
                continue
            if loc[0] == 'cell' and k is not None:
                c = self.cell(s, loc[1])
                if loc[2] + k > self.rep.nodesize:
                    ex.fail(s, 'mem', 'a node is written only inside its memory')
                    k = self.rep.nodesize - loc[2]
                if c.alive:
                    ex.fail(s, 'life', 'a live element is not overwritten')
                vv = S(zx(v, 8))
                if num(vv) is not None and self.rep.g:
                    o = loc[2]
                    while o < loc[2] + k:
                        if o % self.rep.g == 0 and o + self.rep.g <= loc[2] + k:
                            c.b.store(o, bv(int.from_bytes(bytes([num(vv)]) * self.rep.g, 'little'), 8 * self.rep.g))
                            o += self.rep.g
                        else:
                            c.b.store(o, vv)
                            o += 1
                out.append((s, 'ret', None))
                continue
            if loc[0] == 'mem' and k is not None and k <= (1 << 21):
                if loc[1].kind == 'this' and self.role != 'ctor':
                    ex.fail(s, 'mem', 'operations change nothing but the list words and owned nodes')
                if k <= 4096:
                    for i in range(k):
                        ex.mem(s, loc[1]).store(loc[2] + i, zx(v, 8))
                out.append((s, 'ret', None))
                continue
            raise Unsupported("memset " + str(loc[0]))
        return out
    def storage_end(self, st):
        if self.rep.cap:
            return bv(self.rep.data[0] + self.rep.data[1])
        if st.x['bufs']:
            return S(bv(st.x['bufs'][-1][0]) + st.x['bufs'][-1][1])
        return None
    def memcpy(self, st, d, s, n, x):
        k = num(n)
        if k is None or k > 64:
            raise Unsupported("memcpy")
        out = []
        for s1, ld in self.resolve(st, d):
            for s2, ls in self.resolve(s1, s):
                for s3, v in self.load(s2, ls, k, None, x):
                    for s4, _ in self.store(s3, ld, v, None, x):
                        out.append((s4, 'ret', None))
        return out
    def both(self, st, a, b):
        out = []
        for s1, l1 in self.resolve(st, a):
            for s2, l2 in self.resolve(s1, b):
                out.append((s2, l1, l2))
        return out
    def elem_at(self, st, loc):
        """cell if loc is the element of an owned node"""
        if loc[0] == 'cell' and loc[2] == self.rep.valoff:
            return self.cell(st, loc[1])
        return None
    def top_elem(self, st, loc):
        """nobody else runs: the element on top may be used before it is removed"""
        X = self.elemword
        if self.role == 'excl' and loc[0] == 'shared' and loc[2] == self.rep.valoff and not st.x['due'] and X in st.now.W:
            for r in reversed(st.recs):
                if r.word == X and self.ex.valid(st, And(r.t.V[X] == st.now.V[X], r.top == loc[1], r.value == st.now.W[X])):
                    return r
        return None
    def early(self, st, r):
        if not self.spec.get('deliver'):
            self.ex.fail(st, 'elem', 'this operation hands no element to the caller')
        if st.x.get('early') is not None:
            self.ex.fail(st, 'value', 'an element is handed out exactly once and only after its removal')
        st.x['early'] = r
        st.gh['nd'] = S(st.gh['nd'] + bv(1))
    def deliver(self, st, val, out=False):
        ex, g, x = self.ex, st.gh, st.x
        if not self.spec.get('deliver'):
            ex.fail(st, 'elem', 'this operation hands no element to the caller')
        if x['el'] is not None:
            uf, L = x['el']
            e = uf(L - bv(1) - g['nd']) if self.spec.get('reversed') else uf(g['nd'])
            self.ob(st, 'value', 'elements are handed out in the order promised', val == e)
            self.ob(st, 'value', 'only removed elements are handed out', z3.ULT(g['nd'], L))
        elif x['due']:
            self.ob(st, 'value', 'the value handed out is the value of the removed element', val == x['due'][0])
            x['due'] = x['due'][1:]
        else:
            ex.fail(st, 'value', 'an element is handed out exactly once and only after its removal')
        g['nd'] = S(g['nd'] + bv(1))
    def extcall(self, st, callee, args, x):
        ex = self.ex
        rep = self.rep
        outs = []
        if callee == 'vp_alloc':
            self.ob(st, 'alloc', 'node memory comes from the allocator of the container', args[1] == self.arena)
            return self.alloc(st, args[0])
        if callee == 'vp_free':
            self.ob(st, 'free', 'memory is returned to the allocator it came from', args[2] == self.arena)
            return self.free(st, args[0], args[1])
        if callee in ('_ZN1EC1ERKS_', '_ZN1EC2ERKS_'):
            for s, ld, ls in self.both(st, args[0], args[1]):
                if self.is_temp(ld):
                    outs += self.temp_copy(s, ld, ls)
                    continue
                c = self.elem_at(s, ld)
                if c is None or ls[0] != 'in' and not self.is_temp(ls):
                    ex.fail(s, 'elem', 'elements are copied from the input into owned nodes only')
                else:
                    if ls[0] == 'in' and self.nin is not None:
                        self.ob(s, 'mem', 'input is read only inside its range', z3.ULT(ls[1], self.nin))
                    if c.alive:
                        ex.fail(s, 'life', 'a live element is not overwritten')
                    if self.rep.cfg.get('ethrow'):
                        s2 = s.copy()
                        s2.x['threw'] = True
                        outs.append((s2, 'throw', None))
                    c.alive, c.given, c.val = True, False, S(self.INV(ls[1])) if ls[0] == 'in' else ex.mem_load(s, ls, 8)
                    s.gh['nc'] = S(s.gh['nc'] + bv(1))
                outs.append((s, 'ret', None))
            return outs
        if callee in ('_ZN1UC1ERK1E', '_ZN1UC2ERK1E', '_ZN1UC1ERKS_', '_ZN1UC2ERKS_'):
            for s, ld, ls in self.both(st, args[0], args[1]):
                outs += self.temp_copy(s, ld, ls)
            return outs
        if callee in ('_ZN1ED1Ev', '_ZN1ED2Ev', '_ZN1UD1Ev', '_ZN1UD2Ev'):
            for s, ld in self.resolve(st, args[0]):
                if self.is_temp(ld):
                    self.ob(s, 'life', 'a temporary copy is destroyed once', z3.UGE(s.gh['tmp'], bv(1)))
                    s.gh['tmp'] = S(s.gh['tmp'] - 1)
                    outs.append((s, 'ret', None))
                    continue
                c = self.elem_at(s, ld) if 'UD' not in callee else None
                if c is None:
                    ex.fail(s, 'life', 'only elements of owned nodes are destroyed')
                else:
                    if not c.alive:
                        ex.fail(s, 'life', 'an element is destroyed once')
                    if self.spec.get('deliver') and not c.given:
                        ex.fail(s, 'life', 'an element is destroyed only after it was handed out')
                    c.alive = False
                    s.gh['nx'] = S(s.gh['nx'] + bv(1))
                outs.append((s, 'ret', None))
            return outs
        if callee in ('_ZN1EaSERKS_', '_ZN1UaSERK1E', '_ZN1UaSERKS_'):
            for s, ld, ls in self.both(st, args[0], args[1]):
                if ld[0] == 'out' and self.is_temp(ls):
                    self.ob(s, 'value', 'the output argument is assigned', ld[1] == 0)
                    self.deliver(s, ex.mem_load(s, ls, 8))
                    outs.append((s, 'ret', args[0]))
                    continue
                c = self.elem_at(s, ls)
                r = self.top_elem(s, ls) if ld[0] == 'out' and c is None else None
                if r is not None:
                    self.ob(s, 'value', 'the output argument is assigned', ld[1] == 0)
                    self.early(s, r)
                elif ld[0] != 'out' or c is None or not c.alive:
                    ex.fail(s, 'elem', 'output is assigned from a live element of an owned node')
                else:
                    self.ob(s, 'value', 'the output argument is assigned', ld[1] == 0)
                    self.deliver(s, c.val)
                    c.given = True
                outs.append((s, 'ret', args[0]))
            return outs
        if callee.startswith(('_ZN3FnSclE', '_ZNK3FnSclE')):
            for s, ld in self.resolve(st, args[1]):
                self.ob(s, 'value', "the caller's functor is the one called", args[0] == bv(FUN))
                if self.is_temp(ld):
                    self.deliver(s, ex.mem_load(s, ld, 8))
                    outs.append((s, 'ret', None))
                    continue
                c = self.elem_at(s, ld)
                if c is None or not c.alive:
                    ex.fail(s, 'elem', 'the functor receives a live element of an owned node')
                else:
                    self.deliver(s, c.val)
                    c.given = True
                outs.append((s, 'ret', None))
            return outs
        return self.extcall2(st, callee, args, x)
    # copies of an element in local variables
    def is_temp(self, loc):
        return loc[0] == 'mem' and loc[1].kind == 'local'
    def temp_copy(self, s, ld, ls):
        ex = self.ex
        c = self.elem_at(s, ls)
        if c is not None and c.alive and self.is_temp(ld):
            v = c.val
            c.given = True
        elif ls[0] == 'in' and self.is_temp(ld):
            if self.nin is not None:
                self.ob(s, 'mem', 'input is read only inside its range', z3.ULT(ls[1], self.nin))
            v = S(self.INV(ls[1]))
        elif self.is_temp(ls) and self.is_temp(ld):
            v = ex.mem_load(s, ls, 8)
        else:
            ex.fail(s, 'elem', 'a copy is made of a live element of an owned node')
            v = ex.fresh(64)
        outs = []
        if self.rep.cfg.get('ethrow'):
            s2 = s.copy()
            s2.x['threw'] = True
            outs.append((s2, 'throw', None))
        s.gh['tmp'] = S(s.gh['tmp'] + 1)
        if self.is_temp(ld):
            ex.mem_store(s, ld, v)
        outs.append((s, 'ret', None))
        return outs
    def extcall2(self, st, callee, args, x):
        raise Unsupported("call " + callee)
    def alloc(self, st, size):
        ex, rep = self.ex, self.rep
        s2 = st.copy()
        s2.x['threw'] = True
        if rep.flat:
            if not self.spec.get('alloc'):
                ex.fail(st, 'alloc', 'this operation never allocates')
            self.ob(st, 'alloc', 'node memory has the size of a node', size == bv(rep.nodesize))
            ex.fcount += 1
            k = z3.BitVec('new!%d' % ex.fcount, 64)
            f = [z3.ULT(k, bv(1 << 48)), k != 0, z3.Extract(3, 0, k) == 0]
            for a in st.atoms:
                if isinstance(a, Cell):
                    f.append(k != a.key)
            st.facts.append(And(*f))
            st.atoms.append(Cell(uid(), k, self.freshcontent('mem'), fc=True))
            st.gh['allocs'] = S(st.gh['allocs'] + bv(1))
            return [(st, 'ret', k), (s2, 'throw', None)]
        if self.role != 'ctor' or rep.cap:
            ex.fail(st, 'alloc', 'a container of fixed size allocates only during construction')
        base = BUF0 + 0x10000000000 * len(st.x['bufs'])
        nm = 'buf%d' % len(st.x['bufs'])
        if not any(r.name == nm for r in ex.regions):
            ex.add_region(nm, base, 'buf')
        st.x['bufs'] = st.x['bufs'] + ((base, size),)
        return [(st, 'ret', bv(base)), (s2, 'throw', None)]
    def free(self, st, p, size):
        ex, rep = self.ex, self.rep
        outs = []
        if not rep.flat:
            if self.role not in ('dtor', 'ctor'):
                ex.fail(st, 'free', 'node memory is kept while the container lives')
                return [(st, 'ret', None)]
            bufs = st.x['bufs'] if self.role == 'ctor' else self.bufs
            ok = FALSE
            for i, (b, n) in enumerate(bufs):
                if i not in st.x['freed']:
                    if ex.valid(st, p == bv(b)):
                        ok = size == n
                        st.x['freed'] = st.x['freed'] + (i,)
                        break
            self.ob(st, 'free', 'memory is returned once with its address and size', ok)
            return [(st, 'ret', None)]
        for s, loc in self.resolve(st, p):
            if loc[0] != 'cell' or loc[2] != 0:
                ex.fail(s, 'free', 'only owned nodes are returned to the allocator')
            else:
                c = self.cell(s, loc[1])
                if self.role not in ('dtor', 'ctor') and not c.fc:
                    ex.fail(s, 'free', 'node memory is kept while the container lives')
                if c.alive:
                    ex.fail(s, 'life', 'an element is destroyed before its memory is returned')
                self.ob(s, 'free', 'memory is returned with the size of a node', size == bv(rep.nodesize))
                s.atoms = [a for a in s.atoms if a.uid != c.uid]
                if self.role == 'ctor':
                    s.gh['allocs'] = S(s.gh['allocs'] - bv(1))
            outs.append((s, 'ret', None))
        return outs
    # ---------------------------------------------------------------- loops
    def loop_time(self, st, st0, sh):
        self.prevtime = st0.now
        st.x['recmark'] = len(st.recs)
        if self.role == 'conc' or sh.time_fresh:
            st.now = self.newtime(st, st0.now)
        st.x['times'] = ()
        st.x['casok'] = ()
    def time_changed(self, sth, backs):
        return any(s.now is not sth.now for s in backs) and self.role != 'conc'
    def snap_words(self):
        return [X for X in self.WORDS]
    def word_width(self, X):
        return self.rep.ww
    def snap_time(self, st, X, acq):
        ex = self.ex
        p = self.prevtime
        if self.role != 'conc' and st.now is p:
            t = st.now
        else:
            hn = st.now
            t = self.newtime(st, p, only=(X,))
            st.facts.append(z3.ULE(t.V[X], hn.V[X]))
        r = self.observe(st, X, acq, t)
        return r.value
    def handle_ptr(self, st, word, like):
        rep = self.rep
        k = rep.ptr(word)
        if rep.flat:
            return k
        return z3.If(rep.isnull(k), bv(0), rep.addr(k, self.node_base(st) or self.nb))
    # key of a loop carried value
    def hows(self, v):
        if self.rep.flat:
            return ('raw', 'h') if v.size() == 64 else ()
        return {16: ('raw',), 32: ('h',), 64: ('addr',)}.get(v.size(), ())
    def kof(self, how, v):
        rep = self.rep
        if how == 'raw':
            return v
        if how == 'h':
            return rep.ptr(v)
        return self.addrkey(v)
    def addrkey(self, v):
        rep = self.rep
        v = S(v)
        if num(v) == 0:
            return rep.null
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = self.addrkey(v.arg(1)), self.addrkey(v.arg(2))
            if a is None or b is None:
                return None
            for k, o in ((a, b), (b, a)):
                if k.eq(rep.null) and S(z3.If(v.arg(0), a, b)).eq(S(z3.If(o == rep.null, rep.null, o))):
                    return o
            return S(z3.If(v.arg(0), a, b))
        c, d = lin(v)
        nb = rep.base if rep.base is not None else getattr(self, 'nb', None)
        if nb is None:
            return None
        k = self.seqidx(nb, rep.nodesize, v) if (c - nb) & M64 < (1 << 24) else None
        if k is None:
            return None
        n = unzext(k)
        if n is not None and n.size() == 16:
            return n
        return bv(num(k), 16) if num(k) is not None and num(k) < 65536 else None
    def as_key(self, st, v):
        if self.rep.flat or v.size() != 64:
            return None
        return self.addrkey(v)
    def fresh_key(self, st):
        k = self.ex.fresh(16, 'key')
        st.facts.append(self.rep.keyfact(k))
        return k
    def mkptr(self, st, k):
        return S(z3.If(self.rep.isnull(k), bv(0), self.rep.addr(k, self.node_base(st) or self.nb)))
    # ---- symbolic heap at loop headers
    def fold(self, st):
        """put nodes back in front of the chain they were taken from / that they extend"""
        ch = True
        while ch:
            ch = False
            for c in [a for a in st.atoms if isinstance(a, Cell)]:
                for g in [a for a in st.atoms if isinstance(a, Seg)]:
                    if c.alive != g.alive or c.given != g.given:
                        continue
                    l = self.rep.link(g.X, c.b)
                    if not (l.eq(g.head) or self.ex.valid(st, l == g.head)):
                        continue
                    j = S(g.idx - bv(g.step))
                    if g.uf is not None:
                        v = S(g.uf(j))
                        if c.val is None or not (c.val.eq(v) or self.ex.valid(st, c.val == v)):
                            continue
                    n = g.copy()
                    n.head, n.idx = c.key, j
                    st.atoms = [a for a in st.atoms if a.uid not in (c.uid, g.uid)] + [n]
                    ch = True
                    break
                if ch:
                    break
    def tailfold(self, st):
        """make the last node of a chain part of the chain (its link is null)"""
        done = False
        ch = True
        while ch:
            ch = False
            for c in [a for a in st.atoms if isinstance(a, Cell)]:
                for g in [a for a in st.atoms if isinstance(a, Seg)]:
                    if c.alive != g.alive or c.given != g.given or not (g.terminal.eq(c.key) or self.ex.valid(st, g.terminal == c.key)):
                        continue
                    l = self.rep.link(g.X, c.b)
                    if not self.ex.valid(st, self.rep.isnull(l)):
                        continue
                    if g.uf is not None:
                        v = S(g.uf(g.end))
                        if c.val is None or not (c.val.eq(v) or self.ex.valid(st, c.val == v)):
                            continue
                    n = g.copy()
                    n.terminal, n.end = self.rep.null, S(g.end + bv(g.step))
                    st.atoms = [a for a in st.atoms if a.uid not in (c.uid, g.uid)] + [n]
                    ch = done = True
                    break
                if ch:
                    break
        if not done:
            # a single node
            for c in [a for a in st.atoms if isinstance(a, Cell)]:
                for X in (('pool',) if not c.alive else tuple(self.rep.link_e)):
                    if not self.ex.valid(st, self.rep.isnull(self.rep.link(X, c.b))):
                        continue
                    j = self.index_of(c.val)
                    if c.alive and (j is None or X == 'pool'):
                        continue
                    n = Seg(uid(), c.key, self.rep.null, c.val.decl() if c.alive else None, j if c.alive else bv(0), -1,
                            S((j if c.alive else bv(0)) - bv(1)), c.alive, X)
                    n.given = c.given
                    st.atoms = [a for a in st.atoms if a.uid != c.uid] + [n]
                    return True
        return done
    def templates(self, st0, sh):
        if 'tmpl' not in sh.flags:
            self.fold(st0)
            T = []
            for a in st0.atoms:
                d = dict(a=a.copy(), uid=a.uid)
                if isinstance(a, Seg):
                    d.update(kind='seg', heads=None, idx=('same',), nonempty=True, extra=False)
                else:
                    d.update(kind='cell', demote=set())
                T.append(d)
            sh.flags['tmpl'] = T
        return sh.flags['tmpl']
    def header_atoms(self, st, st0, sh, hv, K):
        T = self.templates(st0, sh)
        rep = self.rep
        atoms = []
        for t in T:
            a = t['a'].copy()
            if t['kind'] == 'cell':
                for o in sorted(t['demote']):
                    a.b.store(o, self.ex.fresh(8 * rep.g, 'dem'))
                for X, l, how in t.get('links') or ():       # the link follows a loop variable
                    st.facts.append(rep.link(X, a.b) == self.kof(how, hv[l]))
                if t['demote'] and t.setdefault('keep', a.ver is not None):
                    st.facts.append(rep.tag(rep.linkword(a.b)) == rep.tag(rep.linkword(t['a'].b)))
            else:
                if t['heads']:
                    ks = [self.kof(how, hv[loc]) for loc, how in t['heads']]
                    a.head = S(ks[0])
                    for k in ks[1:]:
                        st.facts.append(k == a.head)
                    st.facts.append(rep.keyfact(a.head))
                if t['idx'][0] == 'aff':
                    a.idx = S(a.idx + K * bv(t['idx'][1] & M64))
                elif t['idx'][0] == 'fresh':
                    a.idx = self.ex.fresh(64, 'sidx')
                f = [(a.head == a.terminal) == (a.idx == a.end), Or(a.idx == a.end, z3.Not(rep.isnull(a.head)))]
                d = S((a.end - a.idx) if a.step == 1 else (a.idx - a.end))
                f.append(z3.ULT(d, bv(1 << 41)))
                if t['nonempty']:
                    f.append(a.idx != a.end)
                st.facts.append(And(*f))
            atoms.append(a)
        st.atoms = atoms
        sh.flags['hatoms'] = {a.uid: a.copy() for a in atoms}
    def refine_atoms(self, ex, st0, sh, sth, hv, live, phis, vals0, back_phi, K):
        T = self.templates(st0, sh)
        changed = False
        locs = [('phi', d) for d, ty, inc in phis if not isinstance(vals0[('phi', d)], tuple) and not z3.is_bool(vals0[('phi', d)])]
        hat = sh.flags['hatoms']
        for t in T:
            if t['kind'] == 'seg' and t['nonempty']:
                a = t['a']
                if not t['extra'] and not ex.valid(st0, a.idx != a.end) or t['extra']:
                    t['nonempty'] = False
                    changed = True
        for s, p in live:
            self.fold(s)
            left = {a.uid: a for a in s.atoms}
            for t in T:
                b = left.pop(t['uid'], None)
                h = hat.get(t['uid'])
                if h is None:
                    continue
                if b is None:
                    if t['kind'] == 'seg' and not t['nonempty']:
                        # consumed on this path: the chain was empty; acceptable only if the head is still its terminal
                        if ex.valid(s, h.idx == h.end):
                            continue
                    raise Unsupported("owned nodes disappear in a loop")
                if t['kind'] == 'cell':
                    if b.alive != h.alive or b.given != h.given or (b.val is not None and not (b.val is h.val or b.val.eq(h.val))):
                        raise Unsupported("element state changes in a loop")
                    for o in range(0, self.rep.nodesize, self.rep.g):
                        x, y = h.b.load(o, self.rep.g, None), b.b.load(o, self.rep.g, None)
                        if o not in t['demote'] and not x.eq(y) and not ex.valid(s, x == y):
                            t['demote'].add(o)
                            changed = True
                    if t['demote'] and 'links' not in t:
                        c0 = [a for a in st0.atoms if a.uid == t['uid']][0]
                        t['links'] = [(X, l, how) for X in self.rep.linkvars for l in locs for how in self.hows(vals0[l])
                                      if self.kmatch(st0, how, vals0[l], self.rep.link(X, c0.b))]
                        changed = True
                    for c in list(t.get('links') or ()):
                        if not self.kmatch(s, c[2], back_phi(s, p, c[1]), self.rep.link(c[0], b.b)):
                            t['links'].remove(c)
                            changed = True
                    if t.get('keep') and not ex.valid(s, self.rep.tag(self.rep.linkword(b.b)) == self.rep.tag(self.rep.linkword(h.b))):
                        t['keep'] = False
                        changed = True
                    continue
                if b.alive != h.alive or b.given != h.given:
                    raise Unsupported("element state changes in a loop")
                a0 = t['a']
                cur_ok = False
                if t['heads'] is None:
                    cur_ok = b.head.eq(a0.head) or ex.valid(s, b.head == a0.head)
                    if not cur_ok:
                        t['heads'] = [(l, how) for l in locs for how in self.hows(vals0[l])
                                      if self.kmatch(st0, how, vals0[l], a0.head)]
                        changed = True
                if t['heads'] is not None:
                    keep = [(l, how) for l, how in t['heads'] if self.kmatch(s, how, back_phi(s, p, l), b.head)]
                    if len(keep) != len(t['heads']):
                        t['heads'] = keep
                        changed = True
                    if not keep:
                        raise Unsupported("no loop variable follows the owned chain")
                    for l, how in keep:
                        if sh.kind.get(l, ('same',))[0] == 'same':
                            pass
                k = t['idx']
                if k[0] == 'same':
                    if not (b.idx.eq(a0.idx) or ex.valid(s, b.idx == a0.idx)):
                        d = num(S(b.idx - h.idx))
                        t['idx'] = ('aff', d - (1 << 64) if d is not None and d >> 63 else d) if d else ('fresh',)
                        changed = True
                elif k[0] == 'aff':
                    if not ex.valid(s, b.idx == h.idx + bv(k[1] & M64)):
                        t['idx'] = ('fresh',)
                        changed = True
                if t['nonempty'] and not ex.valid(s, b.idx != b.end):
                    t['nonempty'] = False
                    changed = True
            # nodes that were not there before: a chain growing at a loop variable
            for b in left.values():
                if not isinstance(b, Cell):
                    continue
                for l in locs:
                    if any(t.get('extra') and (l, how) in (t['heads'] or []) for t in T for how in self.hows(vals0[l])):
                        continue
                    for how in self.hows(vals0[l]):
                        if not self.kmatch(s, how, back_phi(s, p, l), b.key):
                            continue
                        hk = self.kof(how, hv[l])
                        X = self.elemword if b.alive else 'pool'
                        for XX in dict.fromkeys([X] + [Y for Y in self.rep.link_e]):
                            if hk is not None and ex.valid(s, self.rep.link(XX, b.b) == hk):
                                g = self.grow(s, b, self.kof(how, vals0[l]), XX, K)
                                if g is not None:
                                    T.append(dict(a=g, uid=g.uid, kind='seg', heads=[(l, how)], idx=('aff', 1 if g.step == -1 else -1), nonempty=False, extra=True))
                                    changed = True
                                break
                        break
        return changed
    def grow(self, s, b, entry, X, K):
        if b.alive:
            if b.val is None or not z3.is_app(b.val) or b.val.num_args() != 1:
                return None
            uf = b.val.decl()
            e = S(z3.substitute(b.val.arg(0) - bv(1), (K, bv(0))))
        else:
            uf, e = None, bv(0)
        g = Seg(uid(), entry, entry, uf, e, -1, e, b.alive, X)
        g.given = b.given
        return g
    def kmatch(self, st, how, v, key):
        if isinstance(v, tuple) or z3.is_bool(v):
            return False
        k = self.kof(how, v)
        if k is None or k.size() != key.size():
            return False
        k = S(k)
        return k.eq(key) or self.ex.valid(st, k == key)
    def loop_enter(self, st, info):
        pass
    def at_backedge(self, st, info):
        ex = self.ex
        sh, h = info['shape'], info['header']
        self.fold(st)
        T = sh.flags.get('tmpl', [])
        ids = {t['uid'] for t in T}
        for a in st.atoms:
            if a.uid not in ids:
                if isinstance(a, Seg) and ex.valid(st, a.idx == a.end):
                    continue
                ex.fail(st, 'heap', 'no owned node is left behind in a loop')
        if st.x['due'] != h.x['due']:
            ex.fail(st, 'value', 'a removed element is handed out before the next one is removed')
        seg = any(t['kind'] == 'seg' and t['idx'][0] == 'aff' for t in T)
        acts = st.x['acts'] - h.x['acts']
        if acts and acts == st.x.get('adds', 0) - h.x.get('adds', 0) and not seg:
            # such a loop does not come to an end by itself
            self.ob(st, 'post', 'a loop that only adds nodes is bounded by the requested number', TRUE if info['measure'] else FALSE)
        if acts or info['measure'] or seg:
            ex.oblige(st, 'progress', 'every repetition is caused by progress of this or another operation', TRUE)
            return
        quiet = list(st.x['casok'])
        for t in st.x['times']:
            for X in self.WORDS:
                if t.W[X] is not None and h.now.W[X] is not t.W[X]:
                    quiet.append(And(t.W[X] == h.now.W[X], t.V[X] == h.now.V[X]))
        quiet += self.quiet_extra(st, h)
        # a retry starts from a fresh value of the shared word
        for X, ls in sh.snaps.items():
            from loops import snap_f
            for loc, f in ls.items():
                v = info['back'](loc)
                e = snap_f(ex, st, st.now.W[X], f, v, info['entry'][loc])
                self.ob(st, 'progress', 'a retry starts from the current value of the shared word', Implies(And(*quiet), v == e) if quiet else v == e)
        for r in h.recs:
            if any(r.word == X and r.t.id > getattr(self, 'x', 0) for X in sh.snaps) and r is [q for q in h.recs if q.word == r.word][-1]:
                quiet.append(And(r.value == h.now.W[r.word], r.t.V[r.word] == h.now.V[r.word]))
        self.ob(st, 'progress', 'every repetition is caused by progress of this or another operation', z3.Not(And(*quiet)) if quiet else FALSE)
    def quiet_extra(self, st, h):
        return []
    # ---------------------------------------------------------------- end of the operation
    def at_exit(self, st, how, rv):
        ex = self.ex
        ex.covers['exit:' + how] = ex.covers.get('exit:' + how, 0) + 1
        left = [a for a in st.atoms if not (isinstance(a, Seg) and ex.valid(st, a.idx == a.end))]
        if left and self.role != 'ctor':
            ex.fail(st, 'heap', 'every node ends up in the container, in the pool or at the allocator')
        else:
            self.ob(st, 'heap', 'every node ends up in the container, in the pool or at the allocator', TRUE if not left else FALSE)
        if self.opaque:
            self.ob(st, 'life', 'temporary copies are destroyed', st.gh['tmp'] == 0)
        if how == 'throw':
            if self.spec.get('throws') and st.x.get('threw') or self.spec.get('anythrow'):
                self.ob(st, 'exc', 'a failed operation adds and removes nothing', And(st.gh['pushed'] == 0, st.gh['popped'] == 0))
                self.post_throw(st)
            else:
                ex.fail(st, 'exc', 'only an allocation failure is reported by an exception')
            return
        if st.x.get('early') is not None:
            ex.fail(st, 'value', 'an element is handed out exactly once and only after its removal')
        if st.x['el'] is not None:
            self.ob(st, 'value', 'every removed element is handed out', st.gh['nd'] == st.x['el'][1])
        elif st.x['due'] and self.spec.get('deliver'):
            ex.fail(st, 'value', 'every removed element is handed out')
        if self.opaque and self.spec.get('pops') and not self.rep is None:
            self.ob(st, 'life', 'every removed element is destroyed', st.gh['nx'] == st.gh['popped'])
        self.post(st, rv)
    def post_throw(self, st):
        pass
    def exists_rec(self, st, X, f):
        return Or(*[f(r) for r in st.recs if r.word == X] + [FALSE])
    def was_empty(self, st, X):
        return self.exists_rec(st, X, lambda r: self.rep.isnull(r.top))
