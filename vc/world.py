"""Common part of the data structure specific logics."""
import z3
from sym import *

THIS = 0x100000000000
IN = 0x200000000000
OUT = 0x300000000000
FUN = 0x310000000000
ALLOCARG = 0x320000000000
ARENA = z3.BitVec('arena', 64)      # the state of the allocator given to the constructor
BUF0 = 0x500000000010      # deliberately not 64 byte aligned

REL = {'release', 'acq_rel', 'seq_cst'}
ACQ = {'acquire', 'acq_rel', 'seq_cst'}

class NeedDetach(Exception):
    pass

class Rec:
    """an atomic read of a shared word by this operation"""
    def __init__(self, word, t, value, acq, x=None):
        self.word, self.t, self.value, self.acq, self.x = word, t, value, acq, x

class World:
    """defaults"""
    def __init__(self, mode):
        self.mode = mode            # 'sc': orders ignored, 'ord': acquire/release decides what is visible
    arena = ARENA
    def allocarg(self, ex, st):
        ex.mem(st, ex.add_region('allocarg', ALLOCARG, 'local')).store(0, ARENA)
    def prover(self):
        return Prover()
    def time_check(self, sth, sh, backs):
        return False
    def bounds(self, K):
        return []
    def rel(self, order):
        return self.mode != 'ord' or order in REL
    def acq(self, order):
        return self.mode != 'ord' or order in ACQ
    def resolve(self, st, addr):
        return [(s, self.ex.locate(s, a)) for s, a in self.ex.split_ite(st, addr)]
    def small(self, st, at, n):
        return False
    def divs(self, st):
        return True
    def fence(self, st, order):
        pass
    # loops
    def loop_time(self, st, st0, sh):
        pass
    def snap_words(self):
        return []
    def time_changed(self, sth, backs):
        return False
    def peel(self, st):
        return False          # treat the first iteration of the next loop separately?
    def header_atoms(self, st, st0, sh, hv, K):
        pass
    def header_facts(self, st, sh, hv, K):
        pass
    def refine_atoms(self, ex, st0, sh, sth, hv, live, phis, vals0, back_phi, K):
        return False
    def tailfold(self, st):
        return False
    def loop_enter(self, st, info):
        pass
    def as_key(self, st, v):
        return None
    def locate(self, st, a):
        return None
    def rmw(self, st, loc, rop, new, order, x):
        raise Unsupported("atomicrmw")
    def seqidx(self, base, esz, a):
        """index term of an address known to lie in the array at base, or None if not a multiple"""
        c, d = lin(a)
        c = (c - base) & M64
        sc = c - (1 << 64) if c >> 63 else c
        if sc % esz:
            return None
        r = bv((sc // esz) & M64)
        for co, at in d.values():
            s = co - (1 << 64) if co >> 63 else co
            if s % esz:
                return None
            r = r + at * bv((s // esz) & M64)
        return S(r)
