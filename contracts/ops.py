"""Contracts of the Boolean operations of the manager."""
from .theory import *

class UniqueFind(Contract):
    """var_struct::unique_find(lo, hi) as the operations see it"""
    key = 'BDD::var_struct::unique_find(node*,node*)'
    modifies = MOD_NODES
    may_throw = True
    groups = ('F', 'T', 'R', 'P', 'PP', 'MI', 'MK')
    def vl(self, c): return c.p, c.arg(0), c.arg(1)
    def pre(self, c):
        s = V(c.st); v, l, h = self.vl(c)
        return [('children are nodes', And(s.live(l), s.live(h))), ('variable exists', And(0 <= v, v < s.nv)),
                ('order of variables', And(v < s.ix(l), v < s.ix(h)))] + inv(c, self.groups)
    def post(self, c):
        s, o = V(c.st), V(c.old); v, l, h = self.vl(c)
        r = c.ret
        trip = K3.k3(l, h, v)
        ex = z3.Select(o.node_, trip)
        return inv(c, self.groups) + EXT(c) + [
            ('equal children: the child itself', Imp(l == h, r == l)),
            ('the node with these children', Imp(l != h, And(s.live(r), s.ix(r) == v, s.lo(r) == l, s.hi(r) == h, r != s.bot, r != s.top))),
            ('its value', s.val(r) == If(z3.Select(A, v), s.val(h), s.val(l))),
            ('order', And(s.live(r), s.ix(r) >= v)),
            ('an existing node is found again', Imp(And(l != h, o.live(ex), ex != o.bot, ex != o.top, o.lo(ex) == l, o.hi(ex) == h, o.ix(ex) == v), And(r == ex, s.live_ == o.live_))),
        ]
    def on_throw(self, c): return inv(c, self.groups) + EXT(c)

class Op(Contract):
    """common part of the operations on handles"""
    modifies = MOD_NODES + MOD_MEMO
    may_throw = True
    reveal = ('F',)
    groups = ALLINV
    nargs = 2
    def world(self, ex):
        m = mgr_world(ex)
        return m, [nref(ex, 'fgh'[i]) for i in range(self.nargs)]
    def ns(self, c): return [c.n(i) for i in range(self.nargs)]
    def pre(self, c):
        s = V(c.st)
        return [('operands are nodes', And(*[s.live(x) for x in self.ns(c)]))] + inv(c, self.groups)
    def fun(self, c, vs): raise NotImplementedError
    def post(self, c):
        s = V(c.st); ns = self.ns(c); r = c.r
        return inv(c, self.groups) + EXT(c) + [
            ('result is a node', s.live(r)),
            ('result has the value of the operation', s.val(r) == self.fun(c, [s.val(x) for x in ns])),
            ('order', Or(s.ix(r) >= TERM_TOP, *[s.ix(r) >= s.ix(x) for x in ns]))]
    def on_throw(self, c): return inv(c, self.groups) + EXT(c)
    def decreases(self, c):
        s = V(c.st); ns = self.ns(c)
        m = sum([MAXIX - s.ix(x) for x in ns])
        return [m, If(ns[0] > ns[1], iv(1), iv(0))] if self.nargs == 2 else [m]

class AndRec(Op):
    key = 'BDD::bdd_mgr::and_rec(node_ref,node_ref)'
    def fun(self, c, v): return And(v[0], v[1])
class OrRec(Op):
    key = 'BDD::bdd_mgr::or_rec(node_ref,node_ref)'
    def fun(self, c, v): return Or(v[0], v[1])
class XorRec(Op):
    key = 'BDD::bdd_mgr::xor_rec(node_ref,node_ref)'
    def fun(self, c, v): return z3.Xor(v[0], v[1])
class Negate(Op):
    key = 'BDD::bdd_mgr::negate'
    nargs = 1
    def fun(self, c, v): return Not(v[0])
    def post(self, c):
        s = V(c.st)
        return Op.post(self, c)
class Ite(Op):
    key = 'BDD::bdd_mgr::ite_rec'
    nargs = 3
    def fun(self, c, v): return If(v[0], v[1], v[2])

CONTRACTS = [UniqueFind(), AndRec(), OrRec(), XorRec(), Negate(), Ite()]
