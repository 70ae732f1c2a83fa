"""Vocabulary of collections of stored BDDs (bdd_collection)."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV
BOTX, TOPX = 2 ** 64 - 2, 2 ** 64 - 1
_I, _J = z3.Int('i!'), z3.Int('j!')
C = 'C.'
class W:
    """view on a collection; cb: number of the BDD of an instruction, cn: the instruction with given arcs and variable,
    cval: value of an instruction under A"""
    def __init__(self, st): self.st = st
    @property
    def n(self): return self.st['C.bdd_instructions#']
    @property
    def nd(self): return self.st['C.bdd_delimiters#']
    @property
    def nb(self): return self.nd - 1
    def lo(self, i): return z3.Select(self.st['C.bdd_instructions[].lo'], i)
    def hi(self, i): return z3.Select(self.st['C.bdd_instructions[].hi'], i)
    def ix(self, i): return z3.Select(self.st['C.bdd_instructions[].index'], i)
    def d(self, k): return z3.Select(self.st['C.bdd_delimiters[]'], k)
    def cb(self, i): return z3.Select(self.st['G.cb'], i)
    def cn(self, t): return z3.Select(self.st['G.cn'], t)
    def val(self, i): return z3.Select(self.st['G.cval'], i)
    def trip(self, i): return K3.k3(self.lo(i), self.hi(i), self.ix(i))
    def bs(self, b): return z3.Select(self.st['G.bs'], b)     # begin and end of a BDD: d[b], d[b+1]
    def be(self, b): return z3.Select(self.st['G.be'], b)
    def inb(self, i, b): return And(self.bs(b) <= i, i < self.be(b))
def after_each_other(w): return FA([_J, _K], Imp(And(0 <= _J, _J < _K, _K < w.nd), w.be(_J) <= w.bs(_K)), MP(w.be(_J), w.bs(_K)))
def CI_delims(st):
    w = W(st); j, k = _J, _K
    return [('delimiters', And(w.nd >= 1, w.d(iv(0)) == 0, w.d(w.nd - 1) == w.n, w.n <= 2 ** 60)),
            ('begin and end of BDDs', FA(k, Imp(And(0 <= k, k < w.nd), And(w.d(k) == w.bs(k), Imp(k > 0, w.be(k - 1) == w.d(k)), 0 <= w.d(k), w.d(k) <= w.n)), w.d(k))),
            ('BDDs have at least two instructions', FA(k, Imp(And(0 <= k, k < w.nb), And(0 <= w.bs(k), w.bs(k) + 2 <= w.be(k), w.be(k) <= w.n)), w.bs(k), w.be(k))),
            ('BDDs come one after the other', after_each_other(w))]
def CS_at(w, i):
    b = w.cb(i)
    end = w.be(b)
    return And(0 <= b, b < w.nb, w.bs(b) <= i, i < end,
               If(i >= end - 2, And(w.lo(i) == w.hi(i), Or(w.ix(i) == BOTX, w.ix(i) == TOPX), w.val(i) == (w.ix(i) == TOPX)),
                  And(w.lo(i) != w.hi(i), i < w.lo(i), w.lo(i) < end, i < w.hi(i), w.hi(i) < end, w.cb(w.lo(i)) == b, w.cb(w.hi(i)) == b, 0 <= w.ix(i), w.ix(i) < BOTX,
                      w.val(i) == If(z3.Select(A, w.ix(i)), w.val(w.hi(i)), w.val(w.lo(i))))))
def CS_small(w, i):
    b = w.cb(i); end = w.be(b)
    return And(0 <= b, b < w.nb, w.bs(b) <= i, i < end, 0 <= w.ix(i), w.ix(i) <= TOPX, (i >= end - 2) == (w.ix(i) >= BOTX), Imp(w.ix(i) >= BOTX, w.val(i) == (w.ix(i) == TOPX)))
def CS_clauses(st):
    w = W(st); i, k = _I, _K
    inr = And(0 <= i, i < w.n)
    return CI_delims(st) + [
        ('arcs of stored BDDs lead to later instructions of the BDD, values', FA(i, Imp(inr, CS_at(w, i)), w.lo(i), w.hi(i))),
        ('instructions belong to a BDD', FA(i, Imp(inr, CS_small(w, i)), w.ix(i), w.cb(i))),
        ('BDDs end with both terminals', FA(k, Imp(And(0 <= k, k < w.nb), And(w.ix(w.be(k) - 1) != w.ix(w.be(k) - 2), w.cb(w.be(k) - 1) == k, w.cb(w.be(k) - 2) == k)), w.be(k))),
        ('BDDs begin at their delimiter', FA(k, Imp(And(0 <= k, k < w.nb), w.cb(w.bs(k)) == k), w.bs(k)))]
def CO_at(w, i): return And(w.ix(i) < w.ix(w.lo(i)), w.ix(i) < w.ix(w.hi(i)), w.cn(w.trip(i)) == i)
def CO_clauses(st):
    w = W(st); i = _I
    return [('stored BDDs are ordered and reduced', FA(i, Imp(And(0 <= i, i < w.n, w.lo(i) != w.hi(i)), CO_at(w, i)), w.lo(i), w.hi(i)))]
CSCOLS = ['C.bdd_instructions#', 'C.bdd_instructions[].lo', 'C.bdd_instructions[].hi', 'C.bdd_instructions[].index', 'C.bdd_delimiters#', 'C.bdd_delimiters[]', 'G.cb', 'G.cval', 'G.bs', 'G.be']
COCOLS = ['C.bdd_instructions#', 'C.bdd_instructions[].lo', 'C.bdd_instructions[].hi', 'C.bdd_instructions[].index', 'G.cn']
def CT_clauses(st):
    """temporary memory is empty between operations"""
    return [('no BDD under construction', And(st['C.stack#'] == 0)),
            ('temporary tables are empty', And(st['C.generated_nodes?'] == z3.K(AII, z3.BoolVal(False)), st['C.reduction?'] == z3.K(K3, z3.BoolVal(False)), st['C.node_ref_hash?'] == z3.K(I, z3.BoolVal(False))))]
CTCOLS = ['C.stack#', 'C.generated_nodes?', 'C.reduction?', 'C.node_ref_hash?']
GROUPS['CS'] = (CSCOLS, CS_clauses)
GROUPS['CO'] = (COCOLS, CO_clauses)
GROUPS['CT'] = (CTCOLS, CT_clauses)
COLINV = ('CS', 'CO', 'CT')
MOD_COL = [r'C\.bdd_instructions.*', r'C\.bdd_delimiters.*', r'C\.(stack|generated_nodes|reduction|node_ref_hash).*', r'G\.(cb|cn|cval|bs|be)']
def col_world(ex, mgr=False):
    if mgr: mgr_world(ex)
    ex.declare('C', 'bdd_collection')
    for g in ('G.cb', 'G.bs', 'G.be'): ex.st[g] = ex.fresh(g, AII)
    ex.st['G.cn'] = ex.fresh('G.cn', z3.ArraySort(K3, I))
    ex.st['G.cval'] = ex.fresh('G.cval', ABI)
    return Ref('C')
def CEXT(c):
    """what was stored stays as it was"""
    o, s, i, k = W(c.old), W(c.st), _I, _K
    out = [('nothing stored is removed', And(o.n <= s.n, o.nd <= s.nd))]
    for nm in ('lo', 'hi', 'ix', 'val', 'cb'):
        a, b = getattr(s, nm), getattr(o, nm)
        out.append((f'{nm} of stored instructions unchanged', FA(i, Imp(And(0 <= i, i < o.n), a(i) == b(i)), a(i))))
    out.append(('stored BDDs stay in place', FA(k, Imp(And(0 <= k, k < o.nd), s.d(k) == o.d(k)), s.d(k))))
    return out
CONTRACTS = []
