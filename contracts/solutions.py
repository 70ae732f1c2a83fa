"""Evaluation under every assignment, canonicity, and the query for exactly one solution.
EV(..., a, p) is the value of p under the assignment a (recursive definition, given at nodes)."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV
from .store import setg
from .queries import rch, inr, L_reach, L_ind
N = 'BDD::node_struct::'
EVF = z3.Function('EV', AII, AII, AII, I, I, ABI, I, B)
_AL = z3.Const('a!q', ABI)
_BV = z3.Bool('b!q')
def ev(s, a, p): return EVF(s.lo_, s.hi_, s.ix_, s.bot, s.top, a, p)
def D_ev(s, a, p): return And(Imp(s.inner(p), ev(s, a, p) == If(z3.Select(a, s.ix(p)), ev(s, a, s.hi(p)), ev(s, a, s.lo(p)))), Imp(p == s.bot, Not(ev(s, a, p))), Imp(And(p == s.top, s.top != s.bot), ev(s, a, p)))
def L_ev(s):
    """definition of the value (recursion on the index)"""
    return [FA([_AL, _P], D_ev(s, _AL, _P), MP(ev(s, _AL, _P), s.lo(_P))), FA(_AL, And(Not(ev(s, _AL, s.bot)), Imp(s.top != s.bot, ev(s, _AL, s.top))), ev(s, _AL, s.bot), ev(s, _AL, s.top))]

class NodeLemma(sx.Lemma):
    """statement about one node, by induction on the index from the largest one downwards"""
    reveal = ('F',)
    def stmt(self, s, p): raise NotImplementedError
    def trig(self, s, p): raise NotImplementedError
    def hyp(self, s): return [FA(_P, Imp(s.live(_P), self.stmt(s, _P)), *self.trig(s, _P))]
    def more(self, s): return []
    def inst(self, s, p): return []
    def forest(self, ex):
        mgr_world(ex)
        return V(ex.st), [f for _, f in F_clauses(ex.st)]
    def prove(self, ex):
        s, facts = self.forest(ex)
        p = ex.fresh('p', I)
        facts = facts + [s.live(p)] + self.more(s) + self.inst(s, p)
        facts += [Imp(And(s.inner(p), s.live(q), s.ix(q) > s.ix(p)), self.stmt(s, q)) for q in (s.lo(p), s.hi(p))]
        yield 'induction step', facts, self.stmt(s, p)

class Indep(NodeLemma):
    """the value of a node does not depend on variables before its own"""
    key = 'lemma: independence of smaller variables'
    def stmt(self, s, p): return FA([_AL, _X, _BV], Imp(_X < s.ix(p), ev(s, z3.Store(_AL, _X, _BV), p) == ev(s, _AL, p)), ev(s, z3.Store(_AL, _X, _BV), p))
    def inst(self, s, p): return [FA(_AL, D_ev(s, _AL, p), ev(s, _AL, p)), FA(_AL, And(Not(ev(s, _AL, s.bot)), ev(s, _AL, s.top)), ev(s, _AL, s.bot), ev(s, _AL, s.top))]
    def hyp(self, s): return [FA([_AL, _X, _BV, _P], Imp(And(s.live(_P), _X < s.ix(_P)), ev(s, z3.Store(_AL, _X, _BV), _P) == ev(s, _AL, _P)), ev(s, z3.Store(_AL, _X, _BV), _P))]
INDEP = Indep()
class ValEv(NodeLemma):
    """the value recorded for a node is its value under the assignment A"""
    key = 'lemma: recorded values are values'
    def stmt(self, s, p): return s.val(p) == ev(s, A, p)
    def trig(self, s, p): return [ev(s, A, p)]
    def inst(self, s, p): return [D_ev(s, A, p), D_ev(s, A, s.lo(p)), D_ev(s, A, s.hi(p))]
VALEV = ValEv()
SAT = z3.Function('SAT', AII, AII, AII, I, I, I, ABI)
def sat(s, p): return SAT(s.lo_, s.hi_, s.ix_, s.bot, s.top, p)
class Sat(NodeLemma):
    """every node but the false terminal is true under some assignment"""
    key = 'lemma: nodes are satisfiable'
    uses = (Indep.key,)
    def stmt(self, s, p): return Imp(p != s.bot, ev(s, sat(s, p), p))
    def trig(self, s, p): return [sat(s, p)]
    def inst(self, s, p):
        d = z3.If(s.hi(p) != s.bot, z3.Store(sat(s, s.hi(p)), s.ix(p), True), z3.Store(sat(s, s.lo(p)), s.ix(p), False))
        return INDEP.hyp(s) + [Imp(s.inner(p), sat(s, p) == d)] + [D_ev(s, a, q) for q in (p, s.lo(p), s.hi(p)) for a in (sat(s, q), sat(s, p), z3.Store(sat(s, s.hi(p)), s.ix(p), True), z3.Store(sat(s, s.lo(p)), s.ix(p), False))]
SATL = Sat()
DW = z3.Function('DIFF', AII, AII, AII, I, I, I, I, ABI)
def dw(s, p, q): return DW(s.lo_, s.hi_, s.ix_, s.bot, s.top, p, q)
class Canonical(NodeLemma):
    """two different nodes differ under some assignment"""
    key = 'lemma: different nodes have different values under some assignment'
    uses = (Indep.key,)
    def stmt(self, s, p, q): return Imp(And(s.live(p), s.live(q), p != q), ev(s, dw(s, p, q), p) != ev(s, dw(s, p, q), q))
    def indep(self, s): return INDEP.hyp(s)
    def hyp(self, s): return [FA([_P, _Q], self.stmt(s, _P, _Q), dw(s, _P, _Q))]
    def prove(self, ex):
        s, base = self.forest(ex)
        p, q = ex.fresh('p', I), ex.fresh('q', I)
        m = lambda a, b: If(s.ix(a) <= s.ix(b), s.ix(a), s.ix(b))
        # definition of the assignment
        st = lambda a, i, b: z3.Store(a, i, z3.BoolVal(b))
        up = lambda a, b: If(s.hi(a) != b, st(dw(s, s.hi(a), b), s.ix(a), True), st(dw(s, s.lo(a), b), s.ix(a), False))
        dn = lambda a, b: If(a != s.hi(b), st(dw(s, a, s.hi(b)), s.ix(b), True), st(dw(s, a, s.lo(b)), s.ix(b), False))
        same = If(s.hi(p) != s.hi(q), st(dw(s, s.hi(p), s.hi(q)), s.ix(p), True), st(dw(s, s.lo(p), s.lo(q)), s.ix(p), False))
        d = If(And(s.inner(p), s.inner(q), s.ix(p) == s.ix(q)), same, If(And(s.inner(p), s.ix(p) < s.ix(q)), up(p, q), dn(p, q)))
        facts = base + [s.live(p), s.live(q), Imp(Or(s.inner(p), s.inner(q)), dw(s, p, q) == d)] + self.indep(s)
        prs = [(s.hi(p), q), (s.lo(p), q), (p, s.hi(q)), (p, s.lo(q)), (s.hi(p), s.hi(q)), (s.lo(p), s.lo(q))]
        facts += [Imp(m(a, b) > m(p, q), self.stmt(s, a, b)) for a, b in prs]
        facts += [D_ev(s, dw(s, p, q), x) for x in (p, q, s.bot, s.top)] + [D_ev(s, st(dw(s, a, b), i, t), x) for (a, b), i, t in
                  [(prs[0], s.ix(p), True), (prs[1], s.ix(p), False), (prs[2], s.ix(q), True), (prs[3], s.ix(q), False), (prs[4], s.ix(p), True), (prs[5], s.ix(p), False)] for x in (p, q)]
        yield 'induction step', facts, self.stmt(s, p, q)
CANON = Canonical()

class ExactlyOne(Contract):
    """G.w1, G.w2: assignments that make the node true, G.wq: a node on whose variable they differ"""
    key = N + 'exactly_one_solution'
    modifies = [r'G\.w[12q]']
    reveal = ('F',)
    uses = (Indep.key, Sat.key)
    def world(self, ex):
        mgr_world(ex)
        return Ref('H[]', (ex.fresh('p', I),)), []
    def pre(self, c):
        for k, so in (('G.w1', ABI), ('G.w2', ABI), ('G.wq', I)):
            if k not in c.st: c.st[k] = c.ex.fresh(k, so)
        return [('a node', V(c.st).live(c.p))] + inv(c, ('F',))
    def assume(self, c):
        s = V(c.st); p = c.p
        return L_reach(s) + INDEP.hyp(s) + SATL.hyp(s) + [FA(_AL, D_ev(s, _AL, p), ev(s, _AL, p)), FA(_AL, And(Not(ev(s, _AL, s.bot)), ev(s, _AL, s.top)), ev(s, _AL, s.bot), ev(s, _AL, s.top))]
    def decreases(self, c): return [MAXIX - V(c.st).ix(c.p)]
    def ghost_exit(self, c):
        s = V(c.st); p = c.p; ex = c.ex
        w1, w2, wq = c.st['G.w1'], c.st['G.w2'], c.st['G.wq']
        lb, hb = s.lo(p) == s.bot, s.hi(p) == s.bot
        up = lambda w, b: If(lb, z3.Store(w, s.ix(p), True), If(hb, z3.Store(w, s.ix(p), False), z3.Store(sat(s, s.hi(p) if b else s.lo(p)), s.ix(p), z3.BoolVal(b))))
        setg(c, 'G.w1', If(s.term(p), w1, up(w1, True)))
        setg(c, 'G.w2', If(s.term(p), w2, up(w2, False)))
        setg(c, 'G.wq', If(Or(s.term(p), lb, hb), wq, p))
        L_ind(ex, s, p, lambda q: Or(q == p, inr(s, s.lo(p), q), inr(s, s.hi(p), q)))
        for x in (s.lo(p), s.hi(p)):
            for a in (w1, w2, sat(s, x)): ex.assume(D_ev(s, a, x))
    def post(self, c):
        s = V(c.st); p, q = c.p, _Q
        w1, w2, wq = c.st['G.w1'], c.st['G.w2'], c.st['G.wq']
        r = c.ex.bool_of(c.ret)
        at = z3.Select
        return [('true: some assignment makes it true', Imp(r, ev(s, w1, p))),
            ('true: all assignments that make it true agree on its variables', Imp(r, FA([_AL, q], Imp(And(ev(s, _AL, p), inr(s, p, q)), at(_AL, s.ix(q)) == at(w1, s.ix(q))), MP(ev(s, _AL, p), inr(s, p, q))))),
            ('false: no assignment or two that differ on a variable of the BDD', Imp(Not(r), Or(FA(_AL, Not(ev(s, _AL, p)), ev(s, _AL, p)), And(ev(s, w1, p), ev(s, w2, p), inr(s, p, wq), at(w1, s.ix(wq)) != at(w2, s.ix(wq))))))]
CONTRACTS = [INDEP, VALEV, SATL, CANON, ExactlyOne()]
