"""Heights of nodes registered bottom-up."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV
HTF = z3.Function('HT', AII, AII, I, I, I, I)
def ht(s, p): return HTF(s.lo_, s.hi_, s.bot, s.top, p)
def D_ht(s, p):
    """definition of the height (recursion on the index)"""
    m = lambda a, b: If(a >= b, a, b)
    return ht(s, p) == If(s.term(p), 0, 1 + m(ht(s, s.lo(p)), ht(s, s.hi(p))))
class Depth(Contract):
    modifies = [r'D\.depth.*']
    reveal = ('F',)
    def world(self, ex):
        mgr_world(ex)
        ex.declare('D', 'bdd_node_depth')
        return Ref('D'), [ex.fresh('p', I)]
    def has(self, st, q): return z3.Select(st['D.depth?'], q)
    def d(self, st, q): return z3.Select(st['D.depth{}'], q)
    def ok(self, st):
        s, q = V(st), _Q
        return [('registered nodes have their height recorded', FA(q, Imp(self.has(st, q), And(s.live(q), self.d(st, q) == ht(s, q), ht(s, q) >= 0, ht(s, q) <= MAXIX - s.ix(q))), self.has(st, q)))]
    def pre(self, c):
        s, p = V(c.st), c.arg(0)
        return [('a node', And(s.live(p), self.kind(s, p))), ('not registered', Not(self.has(c.st, p)))] + self.children(c) + self.ok(c.st) + inv(c, ('F',))
    def children(self, c): return []
    def ghost_entry(self, c): c.ex.assume(D_ht(V(c.st), c.arg(0)))
    def post(self, c):
        s, p = V(c.st), c.arg(0)
        return self.ok(c.st) + [('the node is registered', FA(_Q, self.has(c.st, _Q) == Or(self.has(c.old, _Q), _Q == p), self.has(c.st, _Q)))]
class AddNode(Depth):
    key = 'BDD::bdd_node_depth::add_node'
    def kind(self, s, p): return s.inner(p)
    def children(self, c):
        s, p = V(c.st), c.arg(0)
        return [('children are registered', And(self.has(c.st, s.lo(p)), self.has(c.st, s.hi(p))))]
    def post(self, c): return Depth.post(self, c) + [('the height is returned', c.r == ht(V(c.st), c.arg(0)))]
class AddBot(Depth):
    key = 'BDD::bdd_node_depth::add_botsink'
    def kind(self, s, p): return p == s.bot
class AddTop(Depth):
    key = 'BDD::bdd_node_depth::add_topsink'
    def kind(self, s, p): return p == s.top
CONTRACTS = [AddNode(), AddBot(), AddTop()]
