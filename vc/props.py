"""Which proof obligations decide which property.

A property selects units (one operation of one instantiation, executed under one memory mode) and, inside a unit,
the kinds of obligations its argument uses.  Kinds:
  slot value life index order post mem elem free alloc exc heap assert inv progress          (spsc_queue)
  word chain value once version life own elem order mem alloc free heap exc progress post    (stack, queue, pool)
  repr                                                                                        (tagged handles)
  lemma                                                                                       (composition lemmas over the contracts)
"""
ALL = None
SAFE = {'mem', 'assert', 'inv'}

CONS = ('c_cone', 'c_cone_c', 'c_call', 'c_call_c')
def spsc(prefix=ALL, modes=('sc', 'ord'), kinds=ALL, ops=ALL):
    return dict(suite='spsc', modes=modes, kinds=kinds, ops=ops)

def sel(suite, modes=('sc',), kinds=ALL, ops=ALL, skip=(), cfgs=None):
    return dict(suite=suite, modes=modes, kinds=kinds, ops=ops, skip=set(skip), cfgs=cfgs)

NOPROG = lambda k: k != 'progress'

SQ = ('stack', 'queue')
THROW = ('rt-throw', 'fixed-throw')
STHROW = ('rt-throw', 'cap-throw')      # instantiations whose elements may throw when they are copied
RANGE = ('c_push_range', 'c_bpush_range')
UNSYNC = ('c_upush', 'c_upush_range', 'c_upop', 'c_upop_u', 'c_ureserve')
ATOMIC = ('c_catom', 'c_catom_c', 'c_catomr', 'c_catomr_c')
SPUSH = ('c_push', 'c_push_arr', 'c_push_arr5', 'c_push_range')
PUSH = ('c_push', 'c_bpush', 'c_upush', 'c_push_range', 'c_bpush_range', 'c_upush_range')
ALONE = UNSYNC + ('c_empty:excl',)
OWN = {'own', 'chain', 'heap', 'word', 'life', 'elem', 'once'} | SAFE
def both(*a, **k):
    return [sel(s, *a, **k) for s in SQ]

def lem(*which):
    return [sel('lemmas', ops=which)]

PROPS = {
    'C01': [sel('spsc', ('sc', 'ord'), NOPROG)] + lem('ring'),
    'C02': [sel('spsc', ('sc',), {'post', 'index', 'slot', 'alloc', 'value'} | SAFE)] + lem('ring'),
    'C03': [sel('spsc', ('ord',), {'slot', 'order', 'life', 'elem', 'index', 'value'} | SAFE)] + lem('ring'),
    'C04': [sel('spsc', ('sc',), {'life', 'free', 'alloc', 'elem', 'slot', 'index', 'post', 'exc'} | SAFE), sel('spsc', ('sc',), {'life', 'exc', 'elem', 'slot'} | SAFE, ops=SPUSH, cfgs=STHROW)] + lem('ring'),
    'C05': [sel('stack', ('sc',), NOPROG, skip=UNSYNC + RANGE + ATOMIC + ('c_reserve',))] + lem('list'),
    'C06': [sel('stack', ('sc',), NOPROG, ops=RANGE + ('c_upush_range',))] + lem('list'),
    'C07': [sel('stack', ('sc',), NOPROG, ops=ATOMIC)] + lem('list'),
    'C08': [sel('queue', ('sc',), NOPROG, skip=UNSYNC + ('c_reserve', 'c_empty')), sel('queue', ('sc',), NOPROG, ops=('c_pop',), cfgs=THROW)] + lem('queue', 'list'),
    'C09': both(('sc',), OWN) + both(('sc',), OWN, ops=PUSH + ('c_pop', 'c_upop', 'c_dtor'), cfgs=THROW) + lem('list', 'queue'),
    'C10': both(('sc',), {'free', 'heap', 'mem'}) + both(('sc',), NOPROG, ops=('ctor', 'c_dtor')) + lem('list', 'queue'),
    'C11': both(('sc',), {'alloc'} | SAFE) + both(('sc',), {'alloc', 'post', 'exc', 'mem'}, ops=PUSH + ('ctor', 'c_reserve', 'c_ureserve')),
    'C12': [sel('repr')],
    'C13': both(('sc',), {'version'}) + [sel('repr', ops=('next', 'replace', 'construct', 'compare'))] + lem('list', 'queue'),
    'C14': both(('sc',), NOPROG, ops=ALONE) + lem('list', 'queue'),
    'C15': [sel('spsc', ('sc',), {'progress'})] + both(('sc',), {'progress'}),
    'C16': [sel('spsc', ('sc', 'ord'), NOPROG, ops=CONS)] + both(('sc',), NOPROG, ops=CONS + ATOMIC) + lem('ring', 'list', 'queue'),
    'C17': both(('sc',), NOPROG, ops=PUSH + ('ctor', 'c_reserve', 'c_ureserve')) + both(('sc',), NOPROG, ops=PUSH, cfgs=THROW) + [sel('spsc', ('sc',), {'exc', 'alloc', 'free'}, ops=('ctor',)), sel('spsc', ('sc',), NOPROG, ops=SPUSH, cfgs=STHROW)] + lem('list', 'queue', 'ring'),
    'C18': both(('ord',), {'order', 'value', 'chain', 'elem', 'once', 'word'} | SAFE, skip=ALONE) + lem('list', 'queue'),
}

TRUST = {
    'common': [
        'clang 18 front end and the LLVM scalar clean-up passes listed in vc/extract.py (the verified text is the IR they produce from /repo/include)',
        'the IR semantics, the verification-condition generator and the loop-invariant checker in /verif/vc (irparse.py, sym.py, loops.py)',
        'z3 5.3.2 (solver back end); the integer encoding of 64 bit index arithmetic in vc/intblast.py with side conditions',
        'std::atomic as lowered by clang: hardware implements LLVM atomics',
        'the opaque element type, functor and allocator of vc/inst/common.hpp are represented by contracts (element operations and functors do not touch the container; copying an element into a container may throw, other element operations and functors do not; the allocator returns fresh memory or throws)',
    ],
    'spsc': [
        'exactly one producer thread and one consumer thread (documented precondition), environment = any number of operations of the other side',
        'capacity below 2^55, counts below 2^40 (address space), 48 bit addresses',
        'rely conditions of the opposite thread follow from the guarantees proved for its operations in this same run by the composition lemmas of vc/suite_lemmas.py (machine checked, one action at a time; induction over the number of actions is the meta step); that the obligations named in PREMISE are the premises of these lemmas is an argument in DESIGN.md',
    ],
    'lists': [
        'ABA window: fewer than 2^16 removals between a read of a word and the compare-and-swap that uses it (documented limit of 16 bit tags)',
        'rely conditions of other threads follow from the guarantees proved for every operation in this same run by the composition lemmas of vc/suite_lemmas.py (machine checked, one action at a time; induction over the number of actions is the meta step); that the obligations named in PREMISE are the premises of these lemmas is an argument in DESIGN.md',
        'user space addresses below 2^48; sizes below 2^55',
    ],
}
