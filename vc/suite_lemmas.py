"""Lemmas over the contracts: what every operation guarantees (the actions on the shared words that the obligations of the
list, queue and ring suites allow) implies what every operation relies on (the facts newtime/observe/posfacts/shared_read
of lists.py, queuel.py and spscl.py assume after a step of the environment), for any number of threads, steps and nodes.

Each lemma has the form  Inv(s) and Action(s, s') => Inv(s')  or  J(s) and Action(s, s') => J(s'), J being a statement of
the rely about a fixed earlier state; so it holds after every finite sequence of actions by induction.  The premises of
the actions are exactly formulas of obligations, named in PREMISE."""
import time
import z3
from sym import Ob

I = z3.IntSort()
K = z3.DeclareSort('Node')
D = z3.DeclareSort('Value')
null = z3.Const('null', K)
And, Or, Not, Imp, ForAll, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.ForAll, z3.If
k, k2 = z3.Consts('k k2', K)
i, j = z3.Ints('i j')

CFGS = {'composition': {}}
UNITS = ['list', 'queue', 'ring']

# the obligations (kind, name) that establish the premises of an action; they are generated by lists.py, queuel.py, spscl.py
PREMISE = {
    'list': [('chain', 'the nodes added are owned and linked to the former top'),           # PUSH
             ('version', 'adding a node keeps or advances the version'),
             ('word', 'only a non-empty list loses a node'),                                # POP
             ('word', 'the new top is the successor of the removed node'),
             ('version', 'removing a node advances the version by one'),                    # POP, TAKE
             ('word', 'the whole content is detached'),                                     # TAKE
             ('word', 'shared list words are changed only by compare and swap'),
             ('own', 'only owned nodes are written')],                                      # WRITE
    'queue': [('word', 'only the link of the last node is filled'),                         # LINK
              ('word', 'the tail is at the last node when a node is added'),
              ('chain', 'the node added is owned by the operation'),
              ('chain', 'the node added is the new last node'),
              ('word', 'the tail moves to the next node only'),                             # TAIL
              ('word', 'the head moves to the next node only'),                             # HEAD
              ('word', 'the head never passes the tail'),
              ('version', 'moving a list word advances its version by one'),
              ('word', 'shared list words are changed only by compare and swap'),
              ('own', 'only owned nodes are written')],                                     # WRITE
    'ring': [('index', 'the published index covers exactly the elements processed'),        # PUBLISH, RELEASE
             ('slot', 'an element is created only in a slot known to be free'),             # fill
             ('slot', 'new elements are placed in consecutive slots from the write position'),
             ('slot', 'only elements known to be published are accessed'),                  # RELEASE
             ('slot', 'elements are taken from consecutive slots from the read position'),
             ('index', "an operation never writes the other side's index")],
}

def premises(unit):
    """the premises named above are obligations the suites really generate"""
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    src = ''.join(open(os.path.join(here, f)).read() for f in ('lists.py', 'queuel.py', 'spscl.py'))
    for k, n in PREMISE[unit]:
        if not any("'%s', %s%s%s" % (k, q, n, q) in src for q in '\'"'):
            raise ValueError('no obligation %s/%s' % (k, n))

class List:
    """a list of tagged nodes (stack, node pool): contents at(1..n), top at(n); owner 0 = in the list, > 0 a thread or another container"""
    def __init__(s, n):
        f = lambda nm, *so: z3.Function(nm + n, *so)
        s.V, s.n = z3.Ints('V%s n%s' % (n, n))
        s.at, s.owner, s.pos = f('at', I, K), f('owner', K, I), f('pos', K, I)
        s.link, s.val = f('link', K, K), f('val', K, D)
    def top(s):
        return If(s.n == 0, null, s.at(s.n))
    def inv(s):
        return And(s.n >= 0,
                   ForAll([i], Imp(And(1 <= i, i <= s.n), And(s.at(i) != null, s.owner(s.at(i)) == 0, s.pos(s.at(i)) == i,
                                                              s.link(s.at(i)) == If(i == 1, null, s.at(i - 1)))), patterns=[s.at(i)]),
                   ForAll([k], Imp(s.owner(k) == 0, And(1 <= s.pos(k), s.pos(k) <= s.n, s.at(s.pos(k)) == k)), patterns=[s.owner(k)]))

def frame(a, b, *what):
    out = []
    for w in what:
        fa, fb = getattr(a, w), getattr(b, w)
        if isinstance(fa, z3.FuncDeclRef):
            v = z3.Const('z', fa.domain(0))
            out.append(ForAll([v], fb(v) == fa(v), patterns=[fb(v)]))
        else:
            out.append(fb == fa)
    return And(*out)

def list_actions():
    s, p = List(''), List("'")
    t = z3.Int('t')
    m = z3.Int('m')
    c, cpos = z3.Function('c', I, K), z3.Function('cpos', K, I)
    inc = lambda x: And(1 <= cpos(x), cpos(x) <= m, c(cpos(x)) == x)
    q, o = z3.Const('q', K), z3.Int('o')
    A = {}
    A['PUSH'] = And(m >= 1, t > 0,
                    ForAll([j], Imp(And(1 <= j, j <= m), And(c(j) != null, s.owner(c(j)) == t, cpos(c(j)) == j,
                                                             s.link(c(j)) == If(j == 1, s.top(), c(j - 1)))), patterns=[c(j)]),
                    Or(p.V == s.V, p.V == s.V + 1), p.n == s.n + m,
                    ForAll([i], p.at(i) == If(i <= s.n, s.at(i), c(i - s.n)), patterns=[p.at(i)]),
                    ForAll([k], p.owner(k) == If(inc(k), 0, s.owner(k)), patterns=[p.owner(k)]),
                    ForAll([k], p.pos(k) == If(inc(k), s.n + cpos(k), s.pos(k)), patterns=[p.pos(k)]),
                    frame(s, p, 'link', 'val'))
    A['POP'] = And(t > 0, s.top() != null, p.V == s.V + 1, p.n == s.n - 1,
                   ForAll([k], p.owner(k) == If(k == s.at(s.n), t, s.owner(k)), patterns=[p.owner(k)]),
                   frame(s, p, 'at', 'pos', 'link', 'val'))
    A['TAKE'] = And(t > 0, s.top() != null, p.V == s.V + 1, p.n == 0,
                    ForAll([k], p.owner(k) == If(s.owner(k) == 0, t, s.owner(k)), patterns=[p.owner(k)]),
                    frame(s, p, 'at', 'pos', 'link', 'val'))
    A['WRITE'] = And(t > 0, s.owner(q) == t,
                     ForAll([k], Imp(k != q, And(p.link(k) == s.link(k), p.val(k) == s.val(k))), patterns=[p.link(k)]),
                     ForAll([k], Imp(k != q, And(p.link(k) == s.link(k), p.val(k) == s.val(k))), patterns=[p.val(k)]),
                     frame(s, p, 'V', 'n', 'at', 'pos', 'owner'))
    A['TRANSFER'] = And(t > 0, s.owner(q) == t, o > 0,
                        ForAll([k], p.owner(k) == If(k == q, o, s.owner(k)), patterns=[p.owner(k)]),
                        frame(s, p, 'V', 'n', 'at', 'pos', 'link', 'val'))
    return s, p, t, m, c, A

def list_lemmas():
    s, p, t, m, c, A = list_actions()
    V0, k0, l0, v0 = z3.Int('V0'), z3.Const('k0', K), z3.Const('l0', K), z3.Const('v0', D)
    J = lambda x: And(x.V >= V0, Imp(x.V == V0, And(x.owner(k0) == 0, x.link(k0) == l0, x.val(k0) == v0)))
    me, mine = z3.Int('me'), z3.Const('mine', K)
    e = z3.Int('e')
    for n, a in A.items():
        yield 'the list stays well formed under ' + n, And(s.inv(), a), p.inv()
        yield 'while the version is unchanged the node read at the top stays in the list with its link and value: ' + n, \
            And(s.inv(), a, k0 != null, J(s)), J(p)
        yield 'versions never decrease: ' + n, And(s.inv(), a), p.V >= s.V
        if n != 'TRANSFER':
            yield 'a node owned by one thread is neither taken nor written by another: ' + n, \
                And(s.inv(), a, s.owner(mine) == me, me > 0, me != t), And(p.owner(mine) == me, p.link(mine) == s.link(mine), p.val(mine) == s.val(mine))
        yield 'the top is never a node somebody owns: ' + n, And(s.inv(), a, mine != null, p.owner(mine) > 0), p.top() != mine
        if n in ('WRITE', 'TRANSFER'):
            yield 'the sequence of elements is unchanged by ' + n, And(s.inv(), a, 1 <= e, e <= s.n), And(p.n == s.n, p.val(p.at(e)) == s.val(s.at(e)))
    yield 'PUSH puts its elements on top of the sequence, in the order of the chain', And(s.inv(), A['PUSH'], 1 <= e, e <= p.n), \
        p.val(p.at(e)) == If(e <= s.n, s.val(s.at(e)), s.val(c(e - s.n)))
    yield 'POP removes the last element of the sequence and nothing else', And(s.inv(), A['POP'], 1 <= e, e < s.n), And(p.n == s.n - 1, p.val(p.at(e)) == s.val(s.at(e)))
    yield 'the new top POP may store (the link of the old top) is the top of the remaining list', And(s.inv(), A['POP']), s.link(s.top()) == p.top()
    yield 'TAKE removes the whole sequence; the chain taken runs through all of it', And(s.inv(), A['TAKE'], 1 <= e, e <= s.n), \
        And(p.top() == null, p.owner(s.at(e)) == t, p.link(s.at(e)) == If(e == 1, null, s.at(e - 1)))
    # a compare and swap that succeeds on the same pointer and version acts on what was read before
    yield 'compare and swap on pointer and version: the link read before is the link now', \
        And(s.inv(), J(s), k0 != null, s.V == V0, s.top() == k0), And(s.link(s.top()) == l0, s.val(s.top()) == v0)

    yield from tag_lemmas('the version of the list', s.V, p.V)

def tag_lemmas(what, v, v1):
    """16 bit tags stand for the versions: T(v) = t0 + v modulo 2^16 is what 'advances by one' keeps"""
    t0, a, b = z3.Ints('t0 a b')
    tag = lambda x: (t0 + x) % 65536
    yield 'the tag stays the low bits of ' + what, v1 == v + 1, tag(v1) == (tag(v) + 1) % 65536
    yield 'equal tags mean that %s is the same, if it advanced less than 2^16 times in between' % what, And(a <= b, b < a + 65536, tag(a) == tag(b)), a == b

class Queue:
    def __init__(s, n):
        f = lambda nm, *so: z3.Function(nm + n, *so)
        s.H, s.T, s.L = z3.Ints('H%s T%s L%s' % (n, n, n))
        s.at, s.D, s.owner, s.pos = f('at', I, K), f('D', I, D), f('owner', K, I), f('pos', K, I)
        s.link, s.val = f('link', K, K), f('val', K, D)
    def inv(s):
        return And(0 <= s.H, s.H <= s.T, s.T <= s.L, s.L <= s.T + 1,
                   ForAll([i], Imp(And(s.H <= i, i <= s.L), And(s.at(i) != null, s.owner(s.at(i)) == 0, s.pos(s.at(i)) == i,
                                                                s.link(s.at(i)) == If(i == s.L, null, s.at(i + 1)), Imp(i > s.H, s.val(s.at(i)) == s.D(i)))), patterns=[s.at(i)]),
                   ForAll([k], Imp(s.owner(k) == 0, And(s.H <= s.pos(k), s.pos(k) <= s.L, s.at(s.pos(k)) == k)), patterns=[s.owner(k)]))

def queue_lemmas():
    s, p = Queue(''), Queue("'")
    t, q, o = z3.Int('t'), z3.Const('q', K), z3.Int('o')
    me, mine = z3.Int('me'), z3.Const('mine', K)
    e = z3.Int('e')
    A = {}
    A['LINK'] = And(t > 0, s.owner(q) == t, q != null, s.link(q) == null, s.T == s.L, p.L == s.L + 1,
                    ForAll([i], p.at(i) == If(i == p.L, q, s.at(i)), patterns=[p.at(i)]),
                    ForAll([i], p.D(i) == If(i == p.L, s.val(q), s.D(i)), patterns=[p.D(i)]),
                    ForAll([k], p.owner(k) == If(k == q, 0, s.owner(k)), patterns=[p.owner(k)]),
                    ForAll([k], p.pos(k) == If(k == q, p.L, s.pos(k)), patterns=[p.pos(k)]),
                    ForAll([k], p.link(k) == If(k == s.at(s.L), q, s.link(k)), patterns=[p.link(k)]),
                    frame(s, p, 'H', 'T', 'val'))
    A['TAIL'] = And(s.T < s.L, p.T == s.T + 1, frame(s, p, 'H', 'L', 'at', 'D', 'owner', 'pos', 'link', 'val'))
    A['HEAD'] = And(t > 0, s.H < s.T, p.H == s.H + 1,
                    ForAll([k], p.owner(k) == If(k == s.at(s.H), t, s.owner(k)), patterns=[p.owner(k)]),
                    frame(s, p, 'T', 'L', 'at', 'D', 'pos', 'link', 'val'))
    A['WRITE'] = And(t > 0, s.owner(q) == t,
                     ForAll([k], Imp(k != q, And(p.link(k) == s.link(k), p.val(k) == s.val(k))), patterns=[p.link(k)]),
                     ForAll([k], Imp(k != q, And(p.link(k) == s.link(k), p.val(k) == s.val(k))), patterns=[p.val(k)]),
                     frame(s, p, 'H', 'T', 'L', 'at', 'D', 'owner', 'pos'))
    A['TRANSFER'] = And(t > 0, s.owner(q) == t, o > 0,
                        ForAll([k], p.owner(k) == If(k == q, o, s.owner(k)), patterns=[p.owner(k)]),
                        frame(s, p, 'H', 'T', 'L', 'at', 'D', 'pos', 'link', 'val'))
    p0, k0, d0, l0 = z3.Int('p0'), z3.Const('k0', K), z3.Const('d0', D), z3.Const('l0', K)
    # what stays known of a position once it was linked
    J = lambda x: And(p0 <= x.L, x.at(p0) == k0, x.D(p0) == d0)
    # what stays known of a link that was filled while its node was in the queue
    J2 = lambda x: And(p0 <= x.L, p0 + 1 <= x.L, x.at(p0 + 1) == l0)
    for n, a in A.items():
        yield 'the queue stays well formed (H <= T <= L <= T + 1, nodes distinct, linked in order) under ' + n, And(s.inv(), a), p.inv()
        yield 'positions never decrease: ' + n, And(s.inv(), a), And(p.H >= s.H, p.T >= s.T, p.L >= s.L)
        yield 'a linked position keeps its node and its element: ' + n, And(s.inv(), a, J(s)), J(p)
        yield 'the successor of a linked position never changes: ' + n, And(s.inv(), a, J2(s)), J2(p)
        yield 'a node of the queue keeps its link once it is filled, and its value, until the head has passed it: ' + n, \
            And(s.inv(), a, p.H <= e, e <= s.L), And(Imp(e < s.L, p.link(s.at(e)) == s.link(s.at(e))), Imp(e > p.H, p.val(s.at(e)) == s.D(e)))
        if n != 'TRANSFER':
            yield 'a node owned by one thread is neither taken nor written by another: ' + n, \
                And(s.inv(), a, s.owner(mine) == me, me > 0, me != t), \
                And(p.owner(mine) == me, p.link(mine) == s.link(mine), p.val(mine) == s.val(mine))
        yield 'no node of the queue is owned by anybody: ' + n, And(s.inv(), a, p.H <= e, e <= p.L, p.owner(mine) > 0), p.at(e) != mine
        if n in ('TAIL', 'WRITE', 'TRANSFER'):
            yield 'the sequence of elements is unchanged by ' + n, And(s.inv(), a), And(p.H == s.H, p.L == s.L, Imp(And(s.H < e, e <= s.L), p.val(p.at(e)) == s.val(s.at(e))))
    yield from tag_lemmas('the head position', s.H, p.H)
    yield from tag_lemmas('the tail position', s.T, p.T)
    yield 'LINK appends one element at the end', And(s.inv(), A['LINK'], s.H < e, e <= p.L), And(p.H == s.H, p.val(p.at(e)) == If(e == p.L, s.val(q), s.val(s.at(e))))
    yield 'HEAD removes the first element, the one stored in the new first node', And(s.inv(), A['HEAD'], p.H < e, e <= p.L), \
        And(s.val(p.at(p.H)) == s.D(s.H + 1), p.val(p.at(e)) == s.val(s.at(e)))
    yield 'HEAD and TAIL move to the node the old one links to', And(s.inv(), Or(And(A['HEAD'], e == s.H), And(A['TAIL'], e == s.T))), \
        And(s.link(s.at(e)) == s.at(e + 1), s.at(e + 1) != null)
    yield 'the queue is empty exactly if the first node has no successor', s.inv(), (s.link(s.at(s.H)) == null) == (s.H == s.L)

class Ring:
    """w elements pushed, r elements removed; slot of position x: x mod M, M = capacity + 1"""
    def __init__(s, n):
        s.w, s.r = z3.Ints('w%s r%s' % (n, n))
        s.live, s.val = z3.Function('live' + n, I, z3.BoolSort()), z3.Function('val' + n, I, D)

def ring_lemmas():
    s, p = Ring(''), Ring("'")
    M, m = z3.Ints('M m')
    q = z3.Function('q', I, I)          # x = M * q(x) + slot(x)
    slot = lambda x: x - M * q(x)
    E = z3.Function('E', I, D)          # the elements in push order
    x, y, z = z3.Ints('x y z')
    math = And(M >= 1, ForAll([x], And(0 <= slot(x), slot(x) < M), patterns=[q(x)]))
    inv = lambda a: And(0 <= a.r, a.r <= a.w, a.w <= a.r + M - 1)
    con = lambda a: ForAll([x], Imp(And(a.r <= x, x < a.w), And(a.live(slot(x)), a.val(slot(x)) == E(x))), patterns=[q(x)])
    yield 'positions less than M apart have different slots', And(math, x < y, y < x + M), slot(x) != slot(y)
    apart = ForAll([x, y], Imp(And(x < y, y < x + M), slot(x) != slot(y)), patterns=[z3.MultiPattern(q(x), q(y))])
    yield 'the slots the producer fills are never slots of stored elements', And(math, apart, inv(s), s.r <= x, x < s.w, s.w <= y, y < s.r + M - 1), slot(x) != slot(y)
    PUB = And(m >= 1, s.w + m <= s.r + M - 1, p.w == s.w + m, p.r == s.r)
    REL = And(m >= 1, s.r + m <= s.w, p.r == s.r + m, p.w == s.w)
    yield 'PUBLISH keeps 0 <= w - r <= capacity', And(math, inv(s), PUB), inv(p)
    yield 'RELEASE keeps 0 <= w - r <= capacity', And(math, inv(s), REL), inv(p)
    # the producer writes (before it publishes) only slots of positions w .. r + M - 2; the consumer destroys only slots of r .. w - 1
    fill = And(0 <= m, s.w + m <= s.r + M - 1,
               ForAll([z], Imp(Not(z3.Exists([y], And(s.w <= y, y < s.w + m, z == slot(y)))), And(p.live(z) == s.live(z), p.val(z) == s.val(z)))),
               ForAll([y], Imp(And(s.w <= y, y < s.w + m), And(p.live(slot(y)), p.val(slot(y)) == E(y))), patterns=[q(y)]))
    yield 'filling free slots leaves the stored elements alone', And(math, apart, inv(s), con(s), fill, p.w == s.w, p.r == s.r), con(p)
    yield 'filling and PUBLISH make exactly the new elements part of the sequence', And(math, apart, inv(s), con(s), fill, PUB), con(p)
    yield 'RELEASE takes exactly the first elements off the sequence', And(math, inv(s), con(s), REL, frame(s, p, 'live', 'val')), con(p)
    avail, free = z3.Ints('avail free')
    r0, w0 = z3.Ints('r0 w0')
    yield 'what the producer saw free stays free while the consumer goes on', And(math, inv(s), s.r >= r0, free == r0 + M - 1 - s.w, REL), And(free <= p.r + M - 1 - p.w)
    yield 'what the consumer saw stored stays stored while the producer goes on', And(math, inv(s), s.w >= w0, avail == w0 - s.r, PUB), And(avail <= p.w - p.r)
    yield 'equal indexes mean empty', And(math, apart, inv(s)), (slot(s.w) == slot(s.r)) == (s.w == s.r)
    d = z3.Int('d')
    yield 'positions M apart have the same slot', And(math, y == x + M, q(y) == q(x) + d), slot(x) == slot(y)
    yield 'the successor of the write index is the read index exactly if the ring is full', \
        And(math, inv(s), slot(s.r + M) == slot(s.r), Imp(s.w + 1 < s.r + M, slot(s.r) != slot(s.w + 1))), (slot(s.w + 1) == slot(s.r)) == (s.w == s.r + M - 1)

LEM = {'list': list_lemmas, 'queue': queue_lemmas, 'ring': ring_lemmas}

class Result:
    def __init__(self, op):
        self.op, self.obs, self.nobs, self.covers, self.loopsdone, self.undecided = op, {}, 0, {}, 0, []
        self.pr = self
        self.nq, self.time = 0, 0.0

class Suite:
    CFGS = CFGS
    def __init__(self, cfg, work):
        self.cfg = cfg
    def prepare(self):
        pass
    def info(self):
        return 'lemmas about the contracts; no code'
    def run(self, unit, mode, budget):
        premises(unit)
        r = Result(unit)
        for name, hyp, goal in LEM[unit]():
            s = z3.Solver()
            s.set('timeout', 30000)
            s.add(hyp)
            t = time.time()
            s.push()
            s.set('timeout', 200)
            if s.check() == z3.unsat:       # a lemma about nothing
                raise ValueError('the premises of a lemma contradict each other: ' + name)
            s.pop()
            s.set('timeout', 30000)
            s.add(Not(goal))
            a = s.check()
            r.time += time.time() - t
            r.nq += 1
            r.nobs += 1
            st = 'proved' if a == z3.unsat else 'undecided'
            r.obs[name] = Ob('lemma', name, unit, st, 1, '' if a == z3.unsat else '%s\n%s' % (a, s.sexpr()[:4000]))
        return [r]

def units(cfg):
    return UNITS
def matches(u, names):
    return u in names
def cost(u):
    return 1
