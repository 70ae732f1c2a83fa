"""Contracts of literals, of evaluation and of the operators."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV
from .ops import Op, MOD_NODES, MOD_MEMO, Contract
from .life import VLEAVES, PGM
M = 'BDD::bdd_mgr::'

class FindMgr(Contract):
    key = 'BDD::node_struct::find_bdd_mgr'
    reveal = ('F',)
    def world(self, ex):
        mgr_world(ex)
        return Ref('H[]', (ex.fresh('p', I),)), []
    def pre(self, c): return [('a node', V(c.st).live(c.p))] + inv(c, ('F',))
    def post(self, c): return [('the manager of the node', (c.ret if sx.is_z(c.ret) else c.ex.ptr_to_int(c.ret)) == MGR)]
    def decreases(self, c): return [MAXIX - V(c.st).ix(c.p)]
def operator(sym, f, n):
    class C(Op):
        key = f'BDD::operator{sym}(' + ','.join(['node_ref'] * n) + ')'
        nargs = n
        def world(self, ex):
            mgr_world(ex)
            return None, [nref(ex, 'fg'[i]) for i in range(n)]
        def fun(self, c, v): return f(*v)
        def decreases(self, c): return None
    return C()

class Projection(Contract):
    key = M + 'projection'
    modifies = MOD_NODES + [VLEAVES, r'M\.vars#', r'G\.pguser'] + PGM
    may_throw = True
    reveal = ('F',)
    create = True
    def world(self, ex): return mgr_world(ex), [ex.fresh('var', I)]
    def pre(self, c):
        s, v = V(c.st), c.arg(0)
        return [('index', And(0 <= v, v < TERM_TOP - 1))] + ([] if self.create else [('variable exists', v < s.nv)]) + inv(c, ALLINV)
    def loop(c):
        s, o = V(c.st), V(c.pre); i, v = c.ivar(), c.arg(0)
        return inv(c, ALLINV) + [('variables', And(s.nv >= o.nv, i == s.nv, Or(s.nv <= v + 1, s.nv == o.nv))), ('nodes', And(*[c.st[k] == c.pre[k] for k in ('G.live', 'G.val', 'H[].lo', 'H[].hi', 'H[].index', 'H[].hash_key', 'G.alloc')]))]
    loops = [LoopSpec(inv=loop, name='create variables', decreases=lambda c: If(c.arg(0) + 1 > c.ivar(), c.arg(0) + 1 - c.ivar(), 0))]
    def fun(self, x): return x
    def post(self, c):
        s, o, v = V(c.st), V(c.old), c.arg(0)
        return inv(c, ALLINV) + EXT(c) + [('a node', s.live(c.r)), ('value of the literal', s.val(c.r) == self.fun(z3.Select(A, v))),
            ('missing variables are created', s.nv == If(v < o.nv, o.nv, v + 1)) if self.create else ('no variable is created', s.nv == o.nv)]
    def on_throw(self, c): return inv(c, ALLINV) + EXT(c)
class NegProjection(Projection):
    key = M + 'neg_projection'
    create = False
    loops = []
    modifies = MOD_NODES
    def fun(self, x): return Not(x)
class MgrUniqueFind(Contract):
    """bdd_mgr::unique_find"""
    key = M + 'unique_find'
    modifies = MOD_NODES
    may_throw = True
    reveal = ('F',)
    def world(self, ex): return mgr_world(ex), [ex.fresh('var', I), nref(ex, 'l'), nref(ex, 'h')]
    def pre(self, c):
        s = V(c.st); v, l, h = c.arg(0), c.n(1), c.n(2)
        return [('children are nodes', And(s.live(l), s.live(h))), ('variable exists', And(0 <= v, v < s.nv)), ('order of variables', And(v < s.ix(l), v < s.ix(h)))] + inv(c, ALLINV)
    def post(self, c):
        s = V(c.st); v, l, h = c.arg(0), c.n(1), c.n(2)
        return inv(c, ALLINV) + EXT(c) + [('a node', s.live(c.r)), ('its value', s.val(c.r) == If(z3.Select(A, v), s.val(h), s.val(l))), ('order', s.ix(c.r) >= v)]
    def on_throw(self, c): return inv(c, ALLINV) + EXT(c)

class Evaluate(Contract):
    key = 'BDD::node_struct::evaluate'
    reveal = ('F',)
    def world(self, ex):
        mgr_world(ex)
        ex.declare('B', 'std::vector<char>')
        t = ex.st.get('B#!')
        return Ref('H[]', (ex.fresh('p', I),)), [IterV(Ref('B'), iv(0), t), IterV(Ref('B'), ex.st['B#'], t)]
    def pre(self, c):
        s = V(c.st)
        a, b = c.args[0], c.args[1]
        col = c.st[a.c.p + '[]']
        return [('a node', s.live(c.p)), ('values of all variables', And(z3.BoolVal(a.c.p == b.c.p), a.pos >= 0, b.pos == c.st[a.c.p + '#'], b.pos - a.pos >= s.nv)),
                ('the assignment', FA(_K, Imp(And(0 <= _K, _K < s.nv), (z3.Select(col, a.pos + _K) != 0) == z3.Select(A, _K)), z3.Select(col, a.pos + _K)) if not a.pos.eq(iv(0)) else FA(_K, Imp(And(0 <= _K, _K < s.nv), (z3.Select(col, _K) != 0) == z3.Select(A, _K)), z3.Select(col, _K)))] + inv(c, ('F',))
    def post(self, c):
        return [('value of the BDD', c.ex.bool_of(c.ret) == V(c.st).val(c.p))]
    def decreases(self, c): return [MAXIX - V(c.st).ix(c.p)]

CONTRACTS = [FindMgr(), Projection(), NegProjection(), MgrUniqueFind(), Evaluate(), operator('&', And, 2), operator('||', Or, 2), operator('^', z3.Xor, 2), operator('!', Not, 1)]
