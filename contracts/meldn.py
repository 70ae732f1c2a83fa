"""Conjunction of N stored BDDs. The functions are templates over the number of operands; one instance is verified with the number kept
symbolic, after a comparison of the trees of all instances (they may differ in nothing but that number)."""
import re
from .meld import *
from .meld import _T, CC
from .coltheory import _I, _J, _K, _P, _Q, _S, _X, _VV
from .colquery import iter_range, rsel
from lbddv import fe
from lbddv.sx import AggV, Ctx
def nval(ex, fn):
    m = re.search(r'<(\d+)ul', ex.ast.demangled.get(fn.get('mangledName'), ''))
    if not m: raise Unsupported('number of operands')
    return int(m.group(1))
def generic(ex):
    """the instance under verification stands for all of them"""
    q = ex.ast.qname[ex.fn['id']]
    fns = [f for f in ex.ast.by_qname[q] if sx.sig_of(f) == sx.sig_of(ex.fn) and re.search(r'<(\d+)ul', ex.ast.demangled.get(f.get('mangledName'), ''))]
    same = ex.ast.__dict__.setdefault('same_instances', {})
    if q not in same: same[q] = len({fe.shape(f, nval(ex, f)) for f in fns}) == 1
    if not same[q]: raise Unsupported('instances differ')
    N = ex.fresh('N', I)
    ex.symN = (nval(ex, ex.fn), N)
    ex.assume(And(1 <= N, N <= 2 ** 32))
    return N
def count(c):
    """number of operands: symbolic in the function under verification and its recursive calls"""
    ex = c.ex
    if c.fn is None or (ex.symN and nval(ex, c.fn) == ex.symN[0]):
        if not ex.symN: raise Unsupported('number of operands')
        return ex.symN[1]
    return iv(nval(ex, c.fn))
def normal(T, N): return FA(_J, Imp(Or(_J < 0, _J >= N), at(T, _J) == 0), at(T, _J))
def arr(v): return v.d['[]'] if isinstance(v, AggV) else v
LEAST = z3.Function('LEAST', AII, AII, I, I)
LEASTW = z3.Function('LEASTW', AII, AII, I, I)
def least(w, T, N): return LEAST(w.st['C.bdd_instructions[].index'], T, N)
def D_least(w, T, N):
    """the least variable of the operands (definition)"""
    x = LEASTW(w.st['C.bdd_instructions[].index'], T, N); v = least(w, T, N)
    return [FA(_J, Imp(And(0 <= _J, _J < N), v <= w.ix(at(T, _J))), at(T, _J)), And(0 <= x, x < N, v == w.ix(at(T, x)))]
INST = '<37ul'
def larr(c, inner=''):
    """the local array the loop writes"""
    v = sorted({k[:k.index('[]')] for k in c.mods if k.startswith('L') and '[]' in k and k[:k.index('[]')] + '#' not in c.st})
    if len(v) != 1: raise Unsupported('array written by the loop')
    return lambda f='': c.st[v[0] + '[]' + f]
class ImplN(Impl):
    key = CC + 'bdd_and_impl(array,map,size_t)'
    instance = INST
    def modifies(self, c): return Impl.modifies + [re.escape(self.gen(c)) + r'[?{].*']
    def world(self, ex):
        this = stack_world(ex)
        N = generic(ex)
        ex.declare('T', f'std::array<unsigned long, {ex.symN[0]}>')
        ex.declare('GN', f'std::unordered_map<std::array<unsigned long, {ex.symN[0]}>, unsigned long>')
        return this, [Ref('T'), Ref('GN'), ex.fresh('limit', I)]
    def N(self, c): return count(c)
    def T(self, c): return named(c.ex, arr(c.arg(0)))
    def gen(self, c): return c.args[1].p
    def lim(self, c): return c.arg(2)
    def pre(self, c): return Impl.pre(self, c) + [('nothing beyond the last operand', normal(self.T(c), self.N(c)))]
    def least(self, c): return least(W(c.st), self.T(c), self.N(c))
    def decreases(self, c):
        for x in D_least(W(c.st), self.T(c), self.N(c)): c.ex.assume(x)
        return [TOPX + 1 - self.least(c)]
    # loops
    def ctx(c): me = c.ex.contract; e = Ctx(c.ex, c.old, c.old, c.ex.entry_this, c.ex.entry_args); return W(c.st), me.T(e), me.N(e)
    def rows(c):
        w, T, N = ImplN.ctx(c); a = larr(c); i = c.ivar(); e = lambda f: z3.Select(a('.' + f), _J)
        return [('index', And(0 <= i, i <= N)), ('instructions of the operands', FA(_J, Imp(And(0 <= _J, _J < i), And(e('lo') == w.lo(at(T, _J)), e('hi') == w.hi(at(T, _J)), e('index') == w.ix(at(T, _J)))), e('lo'), e('hi'), e('index'), at(T, _J)))]
    def trues(c):
        w, T, N = ImplN.ctx(c); i = c.st[c.rangeidx]
        return [('true so far', FA(_J, Imp(And(0 <= _J, _J < i), w.ix(at(T, _J)) == TOPX), at(T, _J)))]
    def falses(c):
        w, T, N = ImplN.ctx(c); i = c.st[c.rangeidx]
        return [('none false so far', FA(_J, Imp(And(0 <= _J, _J < i), w.ix(at(T, _J)) != BOTX), at(T, _J)))]
    def mins(c):
        w, T, N = ImplN.ctx(c); i = c.st[c.rangeidx]; v = c.other()
        return [('least so far', And(least(w, T, N) <= v, v <= TOPX)), ('none is smaller', FA(_J, Imp(And(0 <= _J, _J < i), v <= w.ix(at(T, _J))), at(T, _J)))]
    def cofs(b):
        def inv_(c):
            w, T, N = ImplN.ctx(c); a = larr(c)(); i = c.ivar(); v = least(w, T, N)
            return [('index', And(0 <= i, i <= N)), ('cofactors', FA(_J, Imp(And(0 <= _J, _J < i), z3.Select(a, _J) == cof(w, at(T, _J), v, b)), z3.Select(a, _J), at(T, _J))), ('nothing beyond the last', normal(a, N))]
        return inv_
    def up(c): return ImplN.ctx(c)[2] - c.ivar()
    loops = [LoopSpec(inv=rows, name='operands', decreases=up), LoopSpec(inv=trues, name='all true'), LoopSpec(inv=falses, name='one false'), LoopSpec(inv=mins, name='least variable'),
             LoopSpec(inv=cofs(0), name='low cofactors', decreases=up), LoopSpec(inv=cofs(1), name='high cofactors', decreases=up)]
class AndN(And_):
    key = CC + 'bdd_and(array,size_t)'
    instance = INST
    def world(self, ex):
        this = stack_world(ex)
        generic(ex)
        ex.declare('B', f'std::array<unsigned long, {ex.symN[0]}>')
        return this, [Ref('B'), ex.fresh('limit', I)]
    def N(self, c): return count(c)
    def B(self, c): return named(c.ex, arr(c.arg(0)))
    def T(self, c): return ImplN.T(IMPLN, self.call(c))
    def lim(self, c): return c.arg(1)
    def nrs(self, c): b = self.B(c); return FA(_J, Imp(And(0 <= _J, _J < self.N(c)), And(0 <= at(b, _J), at(b, _J) < W(c.st).nb)), at(b, _J))
    def conj(self, c):
        o, b = W(c.old), self.B(c)
        return FA(_J, Imp(And(0 <= _J, _J < self.N(c)), o.val(o.bs(at(b, _J)))), at(b, _J))
    def ctx(c): me = c.ex.contract; e = Ctx(c.ex, c.old, c.old, c.ex.entry_this, c.ex.entry_args); return W(c.st), me.B(e), me.N(e)
    def firsts(c):
        w, b, N = AndN.ctx(c); a = larr(c)(); i = c.ivar()
        return [('index', And(0 <= i, i <= N)), ('first instructions of the operands', FA(_J, Imp(And(0 <= _J, _J < i), z3.Select(a, _J) == w.bs(at(b, _J))), z3.Select(a, _J), at(b, _J))), ('nothing beyond the last', normal(a, N))]
    loops = [LoopSpec(inv=lambda c: [], name='operands are stored'), LoopSpec(inv=firsts, name='first instructions', decreases=lambda c: AndN.ctx(c)[2] - c.ivar()),
             LoopSpec(inv=And_.out, name='copy', ghost_head=And_.outhead, ghost_exit=And_.outdone, decreases=lambda c: c.ivar() + 1)]
class Construct(Contract):
    key = 'BDD::construct_array(it,it)'
    instance = INST
    def world(self, ex):
        generic(ex)
        return None, iter_range(ex, 'std::vector<unsigned long>')
    def pre(self, c):
        a, b = c.args
        return [('as many as operands', And(z3.BoolVal(a.c.p == b.c.p), 0 <= a.pos, b.pos - a.pos == count(c), b.pos <= c.st[a.c.p + '#']))]
    def loop(c):
        a = larr(c)(); i = c.ivar(); N = c.ex.symN[1]
        its = [x for x in c.mods if isinstance(c.st.get(x), IterV)]
        x = c.ex.entry_args[0]
        return [('index', And(0 <= i, i <= N)), ('iterator', And(*[c.st[k].pos == x.pos + i for k in its])), ('copied', FA(_J, Imp(And(0 <= _J, _J < i), z3.Select(a, _J) == rsel(c, x, _J)), z3.Select(a, _J))), ('nothing beyond the last', normal(a, N))]
    loops = [LoopSpec(inv=loop, name='copy', decreases=lambda c: c.ex.symN[1] - c.ivar())]
    def post(self, c):
        r, N = arr(c.ret if isinstance(c.ret, AggV) else c.ex.load(c.ret)), count(c)
        return [('the elements', FA(_J, Imp(And(0 <= _J, _J < N), at(r, _J) == rsel(c, c.args[0], _J)), at(r, _J))), ('nothing beyond the last', normal(r, N))]
class AndIt(Contract):
    key = CC + 'bdd_and(it,it,size_t)'
    modifies = And_.modifies
    may_throw = True
    def world(self, ex): return stack_world(ex), iter_range(ex, 'std::vector<unsigned long>') + [ex.fresh('limit', I)]
    def n(self, c): return c.args[1].pos - c.args[0].pos
    def pre(self, c):
        a, b, lim = c.args[0], c.args[1], c.arg(2)
        return [('a range', And(z3.BoolVal(a.c.p == b.c.p), 0 <= a.pos, a.pos <= b.pos, b.pos <= c.st[a.c.p + '#'])),
                ('operands are stored BDDs', FA(_J, Imp(And(0 <= _J, _J < self.n(c)), And(0 <= rsel(c, a, _J), rsel(c, a, _J) < W(c.st).nb)), rsel(c, a, _J))), ('a limit', And(2 < lim, lim < 2 ** 64))] + inv(c, COLINV)
    def post(self, c):
        o, w, n, lim, r, a = W(c.old), W(c.st), self.n(c), c.arg(2), c.r, c.args[0]
        ok = r != MAX
        return CEXT(c) + inv(c, COLINV) + [('between one and 49 operands', And(1 <= n, n <= 49)),
            ('a single operand is its own conjunction', Imp(n == 1, And(r == rsel(c, a, 0, c.old), w.n == o.n, w.nd == o.nd))),
            ('if it gives up the collection is unchanged', Imp(Not(ok), And(w.n == o.n, w.nd == o.nd))),
            ('one BDD is appended', Imp(And(n > 1, ok), And(r == o.nb, w.nb == o.nb + 1, w.bs(r) == o.n))),
            ('within the limit', Imp(And(n > 1, ok), w.be(r) - w.bs(r) <= lim)),
            ('without limit it succeeds', Imp(And(n > 1, lim == MAX), ok)),
            ('it is the conjunction', Imp(And(n > 1, ok), w.val(w.bs(r)) == FA(_J, Imp(And(0 <= _J, _J < n), o.val(o.bs(rsel(c, a, _J, c.old)))), rsel(c, a, _J, c.old))))]
    def on_throw(self, c): return CEXT(c) + inv(c, COLINV) + [('no or more than 49 operands', Or(self.n(c) < 1, self.n(c) > 49)), ('nothing is stored', And(W(c.st).n == W(c.old).n, W(c.st).nd == W(c.old).nd))]
IMPLN = ImplN()
CONTRACTS = [IMPLN, AndN(), Construct(), AndIt()]
