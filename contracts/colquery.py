"""Contracts of evaluation, renaming, queries and export of stored BDDs."""
from .coltheory import *
from .coltheory import _I, _J, _K, _P, _Q, _S, _X, _VV
from .ops import MOD_NODES, MOD_MEMO
from .life import VLEAVES, PGM
from .queries import part
from .store import setg
CC = 'BDD::bdd_collection::'

class ColQuery(Contract):
    reveal = ('CS',)
    groups = ('CS',)
    def world(self, ex): return col_world(ex), [ex.fresh('nr', I)] + self.extra(ex)
    def extra(self, ex): return []
    def pre(self, c): return [('index of a BDD', And(0 <= c.arg(0), c.arg(0) < W(c.st).nb))] + inv(c, self.groups)
def iter_range(ex, t):
    ex.declare('B', t)
    k = ex.st.get('B#!')
    return [IterV(Ref('B'), iv(0), k), IterV(Ref('B'), ex.st['B#'], k)]
def rsel(c, a, x, st=None): return z3.Select((st or c.st)[a.c.p + '[]'], x if z3.is_int_value(a.pos) and a.pos.as_long() == 0 else a.pos + x)
class ColEvaluate(ColQuery):
    key = CC + 'evaluate'
    def extra(self, ex): return iter_range(ex, 'std::vector<char>')
    def pre(self, c):
        w, b = W(c.st), c.arg(0); i = _I
        x, y = c.args[1], c.args[2]
        return ColQuery.pre(self, c) + [('values of the variables of the BDD', And(z3.BoolVal(x.c.p == y.c.p), 0 <= x.pos, x.pos <= y.pos, y.pos <= c.st[x.c.p + '#'])),
            ('the assignment', FA(i, Imp(And(0 <= i, i < w.n, w.cb(i) == b, w.ix(i) < BOTX), And(w.ix(i) < y.pos - x.pos, (rsel(c, x, w.ix(i)) != 0) == z3.Select(A, w.ix(i)))), w.ix(i)))]
    def loop(c):
        w, b = W(c.st), c.arg(0)
        i = c.counter()
        return [('an instruction of the BDD', And(w.d(b) <= i, i < w.d(b + 1), w.cb(i) == b)), ('same value as the BDD', w.val(i) == w.val(w.d(b)))]
    loops = [LoopSpec(inv=loop, name='descend', decreases=lambda c: W(c.st).n - c.counter())]
    def post(self, c): return [('value of the BDD', c.ex.bool_of(c.ret) == W(c.st).val(W(c.st).d(c.arg(0))))]
class NrBddNodes(ColQuery):
    key = CC + 'nr_bdd_nodes(size_t)'
    def post(self, c): return [('number of instructions', c.r == W(c.st).d(c.arg(0) + 1) - W(c.st).d(c.arg(0)))]
NIX = z3.Function('NIX', AII, I, I, I, I)          # number of entries equal to v in positions [a,b)
class NrBddNodesVar(ColQuery):
    key = CC + 'nr_bdd_nodes(size_t,size_t)'
    def extra(self, ex): return [ex.fresh('var', I)]
    def nix(self, c, b): w = W(c.st); return NIX(c.st['C.bdd_instructions[].index'], c.arg(1), w.d(c.arg(0)), b)
    def loop(c):
        w, me = W(c.st), c.ex.contract
        i, n = c.ivar(), c.other()
        return [('index', And(w.d(c.arg(0)) <= i, i <= w.d(c.arg(0) + 1))), ('occurrences so far', And(n == me.nix(c, i), 0 <= n, n <= i - w.d(c.arg(0))))]
    def step(c):
        # definition of the number of occurrences
        me, w = c.ex.contract, W(c.st); i = c.ivar()
        c.ex.assume(me.nix(c, i + 1) == me.nix(c, i) + If(w.ix(i) == c.arg(1), 1, 0))
    loops = [LoopSpec(inv=loop, name='count', ghost_head=lambda c: c.ex.assume(c.ex.contract.nix(c, W(c.st).d(c.arg(0))) == 0), ghost_iter=step, decreases=lambda c: W(c.st).n - c.ivar())]
    def post(self, c): return [('number of occurrences', c.r == self.nix(c, W(c.st).d(c.arg(0) + 1)))]
class Instrs(ColQuery):
    """the range of the instructions of a BDD"""
    key = CC + 'get_bdd_instructions'
    inline_ok = True
    modifies = []
    rev = False
    def post(self, c):
        a, b = c.ret.d.get('.0'), c.ret.d.get('.1'); w, n = W(c.st), c.arg(0)
        if not all(isinstance(x, IterV) and x.c.p == 'C.bdd_instructions' and bool(x.rev) == self.rev for x in (a, b)): return [('a range of instructions', z3.BoolVal(False))]
        if self.rev: return [('from the last to the first instruction', And(a.pos == w.d(n + 1) - 1, b.pos == w.d(n) - 1))]
        return [('from the first to the last instruction', And(a.pos == w.d(n), b.pos == w.d(n + 1)))]
class RevInstrs(Instrs):
    key = CC + 'get_reverse_bdd_instructions'
    rev = True
class IsBdd(ColQuery):
    key = CC + 'is_bdd'
    reveal = groups = ('CS', 'CO')
    def loop(c):
        w, b = W(c.st), c.arg(0); i = c.ivar(); t = z3.Const('t!', K3)
        D = [c.st[k] for k in c.mods if k.endswith('?')]
        if len(D) != 1: raise Unsupported('set of instructions')
        return [('index', And(w.d(b) <= i, i <= w.d(b + 1) - 2)), ('instructions seen', FA(t, Imp(z3.Select(D[0], t), w.cn(t) < i), z3.Select(D[0], t)))]
    loops = [LoopSpec(inv=loop, name='instructions', decreases=lambda c: W(c.st).n - c.ivar())]
    def post(self, c): return [('a BDD', c.ex.bool_of(c.ret))]
class ColVariables(ColQuery):
    key = CC + 'variables'
    modifies = [r'G\.cw']
    def pre(self, c):
        if 'G.cw' not in c.st: c.st['G.cw'] = c.ex.fresh('G.cw', AII)
        return ColQuery.pre(self, c)
    def loop(c):
        w, b = W(c.st), c.arg(0); i, j, k = c.ivar(), _J, _K
        vs = c.modvecs()
        if len(vs) != 1: raise Unsupported('list of variables')
        n, v = c.st[vs[0] + '#'], c.st[vs[0] + '[]']
        p = z3.Const('p!' , I)
        pos = lambda j: z3.Select(c.st['G.cpos'], j); src = lambda k: z3.Select(c.st['G.csrc'], k)
        return [('index', And(w.d(b) <= i, i <= w.d(b + 1) - 2)),
                ('entries are variables', FA(k, Imp(And(0 <= k, k < n), And(w.d(b) <= src(k), src(k) < i, z3.Select(v, k) == w.ix(src(k)))), z3.Select(v, k))),
                ('variables are listed', FA(j, Imp(And(w.d(b) <= j, j < i), And(0 <= pos(j), pos(j) < n, z3.Select(v, pos(j)) == w.ix(j))), w.ix(j)))]
    def head(c):
        for g in ('G.cpos', 'G.csrc'): c.ex.st[g] = c.ex.fresh(g, AII)
    def end(c):
        vs = c.modvecs()[0]
        n1 = c.st[vs + '#']; i = c.ivar() - 1
        setg(c, 'G.cpos', z3.Store(c.st['G.cpos'], i, n1 - 1))
        setg(c, 'G.csrc', If(n1 > c.head[vs + '#'], z3.Store(c.st['G.csrc'], n1 - 1, i), c.st['G.csrc']))
    loops = [LoopSpec(inv=loop, name='collect', ghost_head=head, ghost_end=end, decreases=lambda c: W(c.st).n - c.ivar())]
    def post(self, c):
        w, b = W(c.st), c.arg(0); k, j = _K, _J
        n, v = part(c, '#'), part(c, '[]'); x = z3.Select(v, k)
        ins = lambda q: And(w.d(b) <= q, q < w.d(b + 1) - 2)
        q = z3.Int('w!')
        return [('sorted without repetition', FA([j, k], Imp(And(0 <= j, j < k, k < n), z3.Select(v, j) < x), MP(z3.Select(v, j), x))),
                ('entries are variables of instructions', FA(k, Imp(And(0 <= k, k < n), z3.Exists([q], And(ins(q), w.ix(q) == x), patterns=[w.ix(q)])), x)),
                ('variables of instructions are listed', FA(q, Imp(ins(q), z3.Exists([k], And(0 <= k, k < n, x == w.ix(q)), patterns=[x])), w.ix(q)))]
EVCF = z3.Function('EVC', AII, AII, AII, ABI, I, B)
def evc(w, a, i): return EVCF(w.st['C.bdd_instructions[].lo'], w.st['C.bdd_instructions[].hi'], w.st['C.bdd_instructions[].index'], a, i)
def L_evc(w, a):
    """definition of the value of an instruction under an assignment (recursion on the position)"""
    i = _I
    return FA(i, evc(w, a, i) == If(w.ix(i) == TOPX, True, If(w.ix(i) == BOTX, False, If(z3.Select(a, w.ix(i)), evc(w, a, w.hi(i)), evc(w, a, w.lo(i))))), MP(evc(w, a, i), w.lo(i)), MP(evc(w, a, i), w.hi(i)))
class ColRebase(ColQuery):
    """B: the assignment A read through the map; the values recorded for the instructions of the BDD afterwards are their old values under B"""
    modifies = [r'C\.bdd_instructions\[\]\.index', r'G\.c(val|n)']
    groups = ('CS',)
    reveal = ('CS', 'CO')
    def dom(self, c, x): raise NotImplementedError
    def img(self, c, x): raise NotImplementedError
    def pre(self, c):
        w, b = W(c.st), c.arg(0); i = _I
        return ColQuery.pre(self, c) + self.more(c) + [('the map covers the variables of the BDD', FA(i, Imp(And(0 <= i, i < w.n, w.cb(i) == b, w.ix(i) < BOTX), And(self.dom(c, w.ix(i)), 0 <= self.img(c, w.ix(i)), self.img(c, w.ix(i)) < BOTX)), w.ix(i)))]
    def more(self, c): return []
    def renamed(self, c, o, w, upto):
        i = _I; b = c.arg(0)
        return FA(i, w.ix(i) == If(And(o.d(b) <= i, i < upto, o.lo(i) != o.hi(i)), self.img(c, o.ix(i)), o.ix(i)), w.ix(i))
    def loop(c):
        o, w, b = W(c.old), W(c.st), c.arg(0); i = c.ivar()
        return [('index', And(o.d(b) <= i, i <= o.d(b + 1))), ('renamed so far', c.ex.contract.renamed(c, o, w, i))]
    loops = [LoopSpec(inv=loop, name='rename', decreases=lambda c: W(c.old).n - c.ivar())]
    def mono(self, c):
        o, b = W(c.old), c.arg(0); i, j = _I, _J
        v = lambda i: And(0 <= i, i < o.n, o.cb(i) == b, o.ix(i) < BOTX)
        return FA([i, j], Imp(And(v(i), v(j), o.ix(i) < o.ix(j)), self.img(c, o.ix(i)) < self.img(c, o.ix(j))), MP(o.ix(i), o.ix(j)))
    def ghost_exit(self, c):
        ex, o, w, b = c.ex, W(c.old), W(c.st), c.arg(0); i = _I
        Bm, inv_, cn, cv = ex.fresh('B', ABI), ex.fresh('inverse', AII), ex.fresh('G.cn', c.st['G.cn'].sort()), ex.fresh('G.cval', ABI)
        self.B = Bm
        self.mono_ = ex.fresh('mono', B)
        ex.assume(self.mono_ == self.mono(c))
        vb = And(0 <= i, i < o.n, o.cb(i) == b, o.ix(i) < BOTX)
        x, t = _X, z3.Const('t!', K3)
        ex.assume(FA(x, Imp(self.dom(c, x), z3.Select(Bm, x) == z3.Select(A, self.img(c, x))), z3.Select(Bm, x)))
        ex.assume(Imp(self.mono_, FA(i, Imp(vb, z3.Select(inv_, self.img(c, o.ix(i))) == o.ix(i)), o.ix(i))))      # a strictly increasing map has an inverse
        ex.assume(L_evc(o, Bm))
        ex.assume(FA(i, z3.Select(cv, i) == If(o.inb(i, b), evc(o, Bm, i), o.val(i)), z3.Select(cv, i)))
        ex.assume(FA(t, z3.Select(cn, t) == If(o.inb(K3.k0(t), b), o.cn(K3.k3(K3.k0(t), K3.k1(t), z3.Select(inv_, K3.k2(t)))), o.cn(t)), z3.Select(cn, t)))
        ex.st['G.cval'], ex.st['G.cn'] = cv, cn
    def post(self, c):
        o, w, b = W(c.old), W(c.st), c.arg(0); i = _I
        out = inv(c, ('CS',)) + [('variables of the BDD are renamed, nothing else changes', self.renamed(c, o, w, o.d(b + 1)))]
        if not c.body: return out
        return out + [
            ('value under the assignment read through the map', w.val(w.d(b)) == evc(o, self.B, o.d(b))),
            ('values of other BDDs as before', FA(i, Imp(Not(o.inb(i, b)), w.val(i) == o.val(i)), w.val(i)))] + [
            ('if the order is preserved: ' + k, Imp(And(self.mono_, CO_clauses(c.old)[0][1]), f)) for k, f in CO_clauses(c.st)]
class ColRebaseIt(ColRebase):
    key = CC + 'rebase(size_t,it,it)'
    def extra(self, ex): return iter_range(ex, 'std::vector<unsigned long>')
    def it(self, c): return c.args[1], c.args[2]
    def dom(self, c, x): a, b = self.it(c); return And(0 <= x, x < b.pos - a.pos)
    def img(self, c, x): return rsel(c, self.it(c)[0], x, c.old)
    def more(self, c):
        a, b = self.it(c)
        return [('a range', And(z3.BoolVal(a.c.p == b.c.p), 0 <= a.pos, a.pos <= b.pos, b.pos <= c.old[a.c.p + '#']))]
class ColRebaseMap(ColRebase):
    key = CC + 'rebase(size_t,map)'
    def extra(self, ex):
        ex.declare('B', 'std::unordered_map<unsigned long, unsigned long>')
        return [Ref('B')]
    def dom(self, c, x): return z3.Select(c.old[c.args[1].p + '?'], x)
    def img(self, c, x): return z3.Select(c.old[c.args[1].p + '{}'], x)
CONTRACTS = [ColEvaluate(), NrBddNodes(), NrBddNodesVar(), IsBdd(), Instrs(), RevInstrs(), ColVariables(), ColRebaseIt(), ColRebaseMap()]
