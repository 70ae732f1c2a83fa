"""Contracts of the handle type node_ref: every way to create, copy, move, assign and destroy a handle keeps the reference count of
every node in step with the number of handles that refer to it."""
from .theory import *
from .theory import _Q, _P

XR = 'H[].xref'
class Handle(Contract):
    raw_handles = True
    modifies = [r'H\[\]\.xref']
    other = None                 # second handle: None, 'handle' or 'node'
    fresh_this = False
    def world(self, ex):
        heap_world(ex)
        this = ex.new_local('x', sx.AggV({'.ref': iv(0) if self.fresh_this else ex.fresh('x', I)}))
        self.o = None
        if self.other == 'handle':
            self.o = this if not self.fresh_this and ex.choose(2) else ex.new_local('o', sx.AggV({'.ref': ex.fresh('o', I)}))
            return this, [self.o]
        if self.other == 'node': return this, [ex.fresh('p', I)]
        return this, []
    def ref(self, c, r, st): return st[r.p + '.ref']
    def hs(self, c):
        """the handles involved: before (old) and after (st)"""
        a = [] if self.o is None or self.o.p == c.this.p else [(self.ref(c, self.o, c.old), self.ref(c, self.o, c.st))]
        return a
    def before(self, c): return None if self.fresh_this else self.ref(c, c.this, c.old)
    def after(self, c): return self.ref(c, c.this, c.st)
    def pre(self, c):
        rs = [self.ref(c, c.this, c.st)] + ([self.ref(c, self.o, c.st)] if self.o is not None else []) + ([c.arg(0)] if self.other == 'node' else [])
        return [(f'handle {i} is null or refers to a node it is counted for', Or(r == 0, And(r > 3, z3.Select(c.st['G.alloc'], r), *([z3.Select(c.st[XR], r) > 0] if self.other != 'node' or i == 0 else [])))) for i, r in enumerate(rs)]
    def post(self, c):
        q, b, a = _Q, self.before(c), self.after(c)
        n = lambda r: If(r == q, 1, 0)
        diff = (n(a) if a is not None else 0) - (n(b) if b is not None else 0) + sum([n(y) - n(x) for x, y in self.hs(c)])
        return [('counts follow the handles', FA(q, Imp(q != 0, z3.Select(c.st[XR], q) == z3.Select(c.old[XR], q) + diff), z3.Select(c.st[XR], q)))] + self.value(c)
    def value(self, c): return []
class FromNode(Handle):
    key = 'BDD::node_ref::node_ref(node*)'
    other = 'node'; fresh_this = True
    def value(self, c): return [('refers to the node', self.after(c) == c.arg(0))]
class CopyCtor(Handle):
    key = 'BDD::node_ref::node_ref(node_ref)'
    other = 'handle'; fresh_this = True
    def value(self, c): return [('refers to the same node', self.after(c) == self.ref(c, self.o, c.old)), ('the other handle is unchanged', self.ref(c, self.o, c.st) == self.ref(c, self.o, c.old))]
class MoveCtor(Handle):
    key = 'BDD::node_ref::node_ref(node_ref&&)'
    other = 'handle'; fresh_this = True
    def value(self, c): return [('refers to the node of the other handle', self.after(c) == self.ref(c, self.o, c.old)), ('the other handle is null', self.ref(c, self.o, c.st) == 0)]
class NullCtor(Handle):
    key = 'BDD::node_ref::node_ref()'
    fresh_this = True
    def value(self, c): return [('null', self.after(c) == 0)]
class Dtor(Handle):
    key = 'BDD::node_ref::~node_ref'
    def after(self, c): return None
class Assign(Handle):
    key = 'BDD::node_ref::operator='
    other = 'handle'
    def value(self, c): return [('refers to the same node', self.after(c) == self.ref(c, self.o, c.old))]
class Same(Handle):
    key = 'BDD::node_ref::operator=='
    modifies = []
    other = 'handle'
    def value(self, c): return [('equal exactly if they refer to the same node', c.r == (self.ref(c, c.this, c.old) == self.ref(c, self.o, c.old)))]
class Different(Handle):
    key = 'BDD::node_ref::operator!='
    modifies = []
    other = 'handle'
    def value(self, c): return [('different exactly if they refer to different nodes', c.r == (self.ref(c, c.this, c.old) != self.ref(c, self.o, c.old)))]
CONTRACTS = [FromNode(), CopyCtor(), MoveCtor(), NullCtor(), Dtor(), Assign(), Same(), Different()]
