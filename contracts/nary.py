"""Contracts of the operations on sequences of operands (argument lists, iterator ranges) and of the cardinality builders.
NT(X,i,j) is the number of true values among X[i..j); X[k] is the value of the k-th operand."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV
from .ops import Op, MOD_NODES, MOD_MEMO, Contract

NT = z3.Function('NT', ABI, I, I, I)
WT = z3.Function('WT', ABI, I, I, I)              # a true operand, if there is one
_I, _J, _M = z3.Ints('i! j! m!')
one = lambda x: If(x, iv(1), iv(0))
def L_nt(X, i, j):
    """facts about the number of true operands (definition, splitting, bounds, witnesses)"""
    n = lambda a, b: NT(X, a, b); at = lambda k: z3.Select(X, k)
    return [n(i, i + 1) == one(at(i)), n(i, i + 2) == one(at(i)) + one(at(i + 1)), n(i, i + 3) == one(at(i)) + one(at(i + 1)) + one(at(i + 2)),
            n(i + 1, i + 3) == one(at(i + 1)) + one(at(i + 2)),
            FA([_I, _M, _J], Imp(And(_I <= _M, _M <= _J), n(_I, _J) == n(_I, _M) + n(_M, _J)), MP(n(_I, _M), n(_M, _J))),
            FA([_I, _J], Imp(_I <= _J, And(0 <= n(_I, _J), n(_I, _J) <= _J - _I)), n(_I, _J)),
            FA([_I, _J], Imp(And(_I <= _J, n(_I, _J) > 0), And(_I <= WT(X, _I, _J), WT(X, _I, _J) < _J, at(WT(X, _I, _J)))), n(_I, _J)),
            FA([_I, _J, _K], Imp(And(_I <= _K, _K < _J, at(_K)), n(_I, _J) > 0), MP(n(_I, _J), at(_K)))]

class Range(Contract):
    """operation on the operands [i,j) of a sequence of handles"""
    modifies = MOD_NODES + MOD_MEMO
    may_throw = True
    reveal = ('F',)
    groups = ALLINV
    least = 1
    extra = 0                    # further integer arguments
    def world(self, ex):
        m = mgr_world(ex)
        ex.declare('B', 'std::vector<node_ref>')
        i, j = ex.fresh('i', I), ex.fresh('j', I)
        X = ex.fresh('X', ABI)
        ex.ghost['opv'] = {'B': X}
        self.X0 = X
        t = ex.st.get('B#!')
        return m, [IterV(Ref('B'), i, t), IterV(Ref('B'), j, t)] + [ex.fresh('b', I) for _ in range(self.extra)]
    def rng(self, c): return c.args[0].pos, c.args[1].pos
    def refs(self, c):
        if not isinstance(c.args[0], IterV) or c.args[0].rev: raise Unsupported('range')
        return c.old[c.args[0].c.p + '[].ref']
    def X(self, c):
        p = c.args[0].c.p
        m = c.ex.ghost.get('opv', {})
        if p in m: return m[p]
        if not hasattr(c, 'xdef'):
            c.xdef = c.ex.fresh('X', ABI)
            c.ex.assume(FA(_K, z3.Select(c.xdef, _K) == z3.Select(c.old['G.val'], z3.Select(self.refs(c), _K)), z3.Select(c.xdef, _K)))
            c.ex.ghost.setdefault('xlast', {})[p] = c.xdef
        return c.xdef
    def pre(self, c):
        s = V(c.st); i, j = self.rng(c); R = self.refs(c); X = self.X(c)
        same = z3.BoolVal(c.args[0].c.p == c.args[1].c.p)
        return [('one sequence', same), ('range of operands', And(0 <= i, i + self.least <= j, j <= c.st[c.args[0].c.p + '#']))] + [(f'argument {k}', And(c.arg(2 + k) >= 0, c.arg(2 + k) < 2 ** 64)) for k in range(self.extra)] + [
            ('operands are nodes', FA(_K, Imp(And(i <= _K, _K < j), s.live(z3.Select(R, _K))), z3.Select(R, _K))),
            ('values of the operands', FA(_K, Imp(And(i <= _K, _K < j), s.val(z3.Select(R, _K)) == z3.Select(X, _K)), z3.Select(R, _K), z3.Select(X, _K)))] + inv(c, self.groups)
    def assume(self, c):
        i, j = self.rng(c)
        return L_nt(self.X(c), i, j) + [NT(self.X(c), i, j) == NT(self.X(c), i, j)]
    def fun(self, c, n, k): raise NotImplementedError
    def post(self, c):
        s = V(c.st); i, j = self.rng(c); r = c.r
        X = self.X(c)
        out = [] if c.body else [('count', f) for f in L_nt(X, i, j)]
        return out + inv(c, self.groups) + EXT(c) + [('result is a node', s.live(r)), ('result has the value of the constraint', s.val(r) == self.fun(c, NT(X, i, j), j - i))]
    def on_throw(self, c): return inv(c, self.groups) + EXT(c)
    def decreases(self, c):
        i, j = self.rng(c)
        return [j - i, iv(self.rank)]
    rank = 0
M = 'BDD::bdd_mgr::'
class AndRange(Range):
    key = M + 'and_rec(it,it)'; least = 2
    def fun(self, c, n, k): return n == k
class OrRange(Range):
    key = M + 'or_rec(it,it)'; least = 2
    def fun(self, c, n, k): return n > 0
class XorRange(Range):
    key = M + 'xor_rec(it,it)'; least = 2
    def fun(self, c, n, k): return n % 2 == 1
class AllFalse(Range):
    key = M + 'all_false'
    def fun(self, c, n, k): return n == 0
class AtMostOne(Range):
    key = M + 'at_most_one'
    def fun(self, c, n, k): return n <= 1
class AtLeastOne(Range):
    key = M + 'at_least_one'
    def fun(self, c, n, k): return n >= 1
class Simplex(Range):
    key = M + 'simplex'
    def fun(self, c, n, k): return n == 1

class Card(Range):
    """the builders with a bound: tables of the results for all bounds of both halves, combined"""
    extra = 1
    def rel(self, n, b): raise NotImplementedError
    def fun(self, c, n, k): return self.rel(n, c.arg(2))
    def best(self, c1, b): raise NotImplementedError
    def ranges(self, c):
        """number of true operands of the two halves"""
        i, j = self.rng(c); X = self.X(c); m = i + (j - i) / 2
        return NT(X, i, m), NT(X, m, j)
    def vec(c):
        v = c.modvecs()
        if len(v) != 1: raise Unsupported(f'table of results not unique: {v}')
        return v[0]
    def _table(which):
        def inv_(c):
            me = c.ex.contract; s = V(c.st); b = c.arg(2)
            v = Card.vec(c); R, n = c.st[v + '[].ref'], c.st[v + '#']
            c1, c2 = me.ranges(c); k = c.ivar()
            def val(x): return (me.rel(c1, x), me.rel(c2, x), And(me.rel(c1, x), me.rel(c2, b - x)))[which]
            d = Ctx2(c, c.pre)
            return inv(c, me.groups) + EXT(d) + [('number of entries', And(n == k, 0 <= k, k <= b + 1)),
                ('entries', FA(_K, Imp(And(0 <= _K, _K < n), And(s.live(z3.Select(R, _K)), s.val(z3.Select(R, _K)) == val(_K))), z3.Select(R, _K)))]
        return inv_
    loops = [LoopSpec(inv=_table(0), name='left', decreases=lambda c: c.arg(2) + 1 - c.ivar()), LoopSpec(inv=_table(1), name='right', decreases=lambda c: c.arg(2) + 1 - c.ivar()),
             LoopSpec(inv=_table(2), name='combine', decreases=lambda c: c.arg(2) + 1 - c.ivar())]
    def ghost_exit(self, c):
        # the entry that shows that the constraint holds
        c1, c2 = self.ranges(c); b = c.arg(2); i, j = self.rng(c)
        c.ex.assume(L_nt_split(self.X(c), i, i + (j - i) / 2, j))
        for X in c.ex.ghost.get('xlast', {}).values():
            k = self.best(c1, b)
            c.ex.assume(Imp(And(0 <= k, k < b + 1, z3.Select(X, k)), NT(X, iv(0), b + 1) > 0))
class Ctx2(sx.Ctx):
    def __init__(self, c, old): sx.Ctx.__init__(self, c.ex, c.st, old, c.this, c.args)
def L_nt_split(X, i, m, j): return Imp(And(i <= m, m <= j), NT(X, i, j) == NT(X, i, m) + NT(X, m, j))
class AtLeast(Card):
    key = M + 'at_least'
    def rel(self, n, b): return n >= b
    def best(self, c1, b): return If(c1 <= b, c1, b)
class AtMost(Card):
    key = M + 'at_most'
    def rel(self, n, b): return n <= b
    def best(self, c1, b): return c1
class Cardinality(Card):
    key = M + 'cardinality'
    def rel(self, n, b): return n == b
    def best(self, c1, b): return c1

# argument lists
def nary(op, n):
    nm = {'and': 'And', 'or': 'Or', 'xor': 'Xor'}[op]
    class C(Op):
        key = M + f'{op}_rec(' + ','.join(['node_ref'] * n) + ')'
        nargs = n
        def world(self, ex):
            m = mgr_world(ex)
            return m, [nref(ex, f'f{i}') for i in range(n)]
        def fun(self, c, v):
            if op == 'and': return And(*v)
            if op == 'or': return Or(*v)
            r = v[0]
            for x in v[1:]: r = z3.Xor(r, x)
            return r
        def decreases(self, c): return None
    C.__name__ = f'{nm}{n}'
    return C()
CONTRACTS = [AndRange(), OrRange(), XorRange(), AllFalse(), AtMostOne(), AtLeastOne(), Simplex(), AtLeast(), AtMost(), Cardinality()] + [nary(o, n) for o in ('and', 'or', 'xor') for n in (3, 4)]
