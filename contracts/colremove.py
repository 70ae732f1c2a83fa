"""Removal of stored BDDs. Ghosts: the old number of every BDD that stays, the new number, the distance its instructions move."""
from .coltheory import *
from .coltheory import _I, _J, _K, _P, _Q, _S, _X, _VV
from .colquery import iter_range, rsel, CC
from .store import setg
RG = ['G.rold', 'G.rnew', 'G.rcb', 'G.rbs', 'G.rbe', 'G.rd']
_G = z3.Int('r!')
def inc_range(Bj, x, y, nb):
    j, k = _J, _K
    return And(0 <= x, x <= y, FA(j, Imp(And(x <= j, j < y), And(0 <= Bj(j), Bj(j) < nb)), Bj(j)), FA([j, k], Imp(And(x <= j, j < k, k < y), Bj(j) < Bj(k)), MP(Bj(j), Bj(k))))
class Increasing(sx.Lemma):
    """distinct numbers below nb in increasing order are at most nb many (induction on the position)"""
    key = 'lemma: increasing numbers'
    def stmt(self, Bj, x, j): return Bj(j) >= j - x
    def prove(self, ex):
        a = ex.fresh('B', AII); x, y, nb, j = (ex.fresh(n, I) for n in ('x', 'y', 'nb', 'j'))
        Bj = lambda j: z3.Select(a, j)
        h = [inc_range(Bj, x, y, nb)]
        yield 'first', h + [x < y], self.stmt(Bj, x, x)
        yield 'next', h + [x <= j, j + 1 < y, self.stmt(Bj, x, j)], self.stmt(Bj, x, j + 1)
        yield 'count', h + [Imp(x < y, self.stmt(Bj, x, y - 1)), nb >= 0], y - x <= nb
INC = Increasing()
class Remove(Contract):
    key = CC + 'remove'
    modifies = [r'C\.bdd_instructions.*', r'C\.bdd_delimiters.*', r'G\.(cb|cn|cval|bs|be)', r'B\[\]'] + [g.replace('.', r'\.') for g in RG]
    reveal = groups = ('CS', 'CO')
    def world(self, ex):
        this = col_world(ex)
        for g in RG + ['G.rw']: ex.st[g] = ex.fresh(g, AII)
        ex.st['G.rem'] = ex.fresh('G.rem', ABI)
        return this, iter_range(ex, 'std::vector<unsigned long>')
    def B(self, c, j): return z3.Select(c.old['B[]'], j)
    def rng(self, c): return c.args[0].pos, c.args[1].pos
    def rem(self, c, b): return z3.Select(c.st['G.rem'], b)
    def pre(self, c):
        w = W(c.st); j, k = _J, _K
        x, y = self.rng(c); Bj = lambda j: z3.Select(c.st['B[]'], j)
        ab = z3.BoolVal(all(isinstance(a, IterV) and a.c.p == 'B' for a in c.args))
        return [('a range', And(ab, 0 <= x, x <= y, y <= c.st['B#'])), ('numbers of BDDs', FA(j, Imp(And(x <= j, j < y), And(0 <= Bj(j), Bj(j) < w.nb)), Bj(j))),
                ('sorted and distinct', FA([j, k], Imp(And(x <= j, j < k, k < y), Bj(j) < Bj(k)), MP(Bj(j), Bj(k))))] + inv(c, self.groups)
    def assume(self, c):
        # definition of the set of removed BDDs
        j, x, y = _J, *self.rng(c)
        rw = lambda b: z3.Select(c.st['G.rw'], b)
        Bj = lambda j: z3.Select(c.st['B[]'], j)
        # the lemma on increasing numbers: its hypotheses are the preconditions
        return [Imp(W(c.st).nb >= 0, y - x <= W(c.st).nb), FA(j, Imp(And(x <= j, j < y), self.rem(c, Bj(j))), Bj(j)), FA(_K, Imp(self.rem(c, _K), And(x <= rw(_K), rw(_K) < y, Bj(rw(_K)) == _K)), self.rem(c, _K))]
    def order(self, OLD, BS, BE, m): return FA([_J, _K], Imp(And(0 <= _J, _J < _K, _K < m), And(OLD(_J) < OLD(_K), BE(_J) <= BS(_K))), MP(OLD(_J), OLD(_K)), MP(BE(_J), BS(_K)))
    # ---- the BDDs that stay: st holds ghosts; n, nd, d, lo, hi, ix: the new memory; upto: old BDDs considered
    def rel(self, c, b, m, n, d, lo, hi, ix, part=None):
        """b: old BDDs copied completely, m: how many of them stay; part: instructions of BDD b copied"""
        o = W(c.old); g = lambda nm, i: z3.Select(c.st['G.r' + nm], i)
        j, k, q = _J, _K, _Q
        OLD, NEW, NCB, BS, BE, D = [(lambda nm: lambda i: g(nm, i))(nm) for nm in ('old', 'new', 'cb', 'bs', 'be', 'd')]
        src = j + D(NCB(j))
        return [('BDDs that stay', FA(k, Imp(And(0 <= k, k < m), And(0 <= OLD(k), OLD(k) < b, Not(self.rem(c, OLD(k))), NEW(OLD(k)) == k, BE(k) - BS(k) == o.be(OLD(k)) - o.bs(OLD(k)), 0 <= BS(k), BS(k) + 2 <= BE(k), BE(k) <= n, D(k) == o.bs(OLD(k)) - BS(k), D(k) >= 0)), OLD(k), BS(k), BE(k))),
                ('order of the BDDs that stay', self.order(OLD, BS, BE, m)),
                ('delimiters', FA(k, Imp(And(0 <= k, k <= m), And(Imp(k < m, d(k) == BS(k)), Imp(k > 0, BE(k - 1) == d(k)), 0 <= d(k), d(k) <= n)), d(k))),
                ('all others stay', FA(q, Imp(And(0 <= q, q < b, Not(self.rem(c, q))), And(0 <= NEW(q), NEW(q) < m, OLD(NEW(q)) == q)), self.rem(c, q))),
                ('instructions belong to BDDs that stay', FA(j, Imp(And(0 <= j, j < n), And(0 <= NCB(j), NCB(j) < m, BS(NCB(j)) <= j, j < BE(NCB(j)), o.cb(src) == OLD(NCB(j)))), NCB(j))),
                ('instructions are moved', FA(j, Imp(And(0 <= j, j < n), And(ix(j) == o.ix(src),
                    lo(j) == o.lo(src) - If(o.ix(src) >= BOTX, 0, D(NCB(j))), hi(j) == o.hi(src) - If(o.ix(src) >= BOTX, 0, D(NCB(j))))), ix(j), lo(j), hi(j))),
                ('arcs stay inside the BDD', FA(j, Imp(And(0 <= j, j < n, ix(j) < BOTX), And(lo(j) < BE(NCB(j)), hi(j) < BE(NCB(j)), j < lo(j), j < hi(j), NCB(lo(j)) == NCB(j), NCB(hi(j)) == NCB(j))), lo(j), hi(j))),
                ('first and last instructions of a BDD', FA(k, Imp(And(0 <= k, k < m), And(NCB(BS(k)) == k, NCB(BE(k) - 1) == k, NCB(BE(k) - 2) == k)), BS(k), BE(k)))]
    # ---- loops
    def delims(c):
        v = c.modvecs()
        if len(v) != 1: raise Unsupported('new delimiters')
        n, d, i = c.st[v[0] + '#'], c.st[v[0] + '[]'], c.ivar()
        return [('delimiters so far', And(n == i, 0 <= i, i <= c.ex.contract.B(c, c.ex.contract.rng(c)[0]) + 1)), ('same delimiters', FA(_K, Imp(And(0 <= _K, _K < n), z3.Select(d, _K) == W(c.old).d(_K)), z3.Select(d, _K)))]
    def instrs(c):
        v = c.modvecs()
        if len(v) != 1: raise Unsupported('new instructions')
        o = W(c.old)
        n, i = c.st[v[0] + '#'], c.ivar(); L = lambda f: z3.Select(c.st[v[0] + '[].' + f], _K)
        return [('instructions so far', And(n == i, 0 <= i, i <= o.d(c.ex.contract.B(c, c.ex.contract.rng(c)[0])))),
                ('same instructions', FA(_K, Imp(And(0 <= _K, _K < n), And(L('lo') == o.lo(_K), L('hi') == o.hi(_K), L('index') == o.ix(_K))), L('lo'), L('hi'), L('index')))]
    def vecs(c):
        v = sorted({k[:-1] for k in c.st if k.startswith('L') and k.endswith('#')})
        i = [x for x in v if x + '[].lo' in c.st]
        d = [x for x in v if x + '[]' in c.st]
        if len(i) != 1 or len(d) != 1: raise Unsupported('new memory')
        return i[0], d[0]
    def it(c):
        k = [x for x in c.mods if isinstance(c.st.get(x), IterV)]
        if len(k) != 1: raise Unsupported('iterator')
        return c.st[k[0]].pos
    def view(c, vi, vd):
        f = lambda nm: (lambda i: z3.Select(c.st[nm], i))
        return c.st[vi + '#'], f(vd + '[]'), f(vi + '[].lo'), f(vi + '[].hi'), f(vi + '[].index')
    def mainhead(c):
        # what comes before the first removed BDD stays where it is
        me = c.ex.contract
        ident, zero = c.ex.fresh('ident', AII), c.ex.fresh('zero', AII)
        c.ex.assume(FA(_K, z3.Select(ident, _K) == _K, z3.Select(ident, _K)))
        c.ex.assume(FA(_K, z3.Select(zero, _K) == 0, z3.Select(zero, _K)))
        for g, v in (('old', ident), ('new', ident), ('d', zero), ('cb', c.st['G.cb']), ('bs', c.st['G.bs']), ('be', c.st['G.be'])): c.ex.st['G.r' + g] = v
    def main(c):
        me = c.ex.contract; o = W(c.old); x, y = me.rng(c); j = _J
        vi, vd = Remove.vecs(c); b, r = c.ivar(), Remove.it(c)
        n, d, lo, hi, ix = Remove.view(c, vi, vd)
        m = c.st[vd + '#'] - 1
        Bj = me.B(c, j)
        return [('index', And(me.B(c, x) <= b, b <= o.nb, x <= r, r <= y, m == b - (r - x), m >= 0, d(m) == n, d(iv(0)) == 0, n <= o.d(b))),
                ('removed BDDs so far', FA(j, And(Imp(And(x <= j, j < r), Bj < b), Imp(And(r <= j, j < y), Bj >= b)), Bj))] + me.rel(c, b, m, n, d, lo, hi, ix)
    def mainend(c):
        vi, vd = Remove.vecs(c)
        b = c.ivar() - 1; o = W(c.old)
        if c.st[vd + '#'].eq(c.head[vd + '#']): return
        m, n0, n = c.head[vd + '#'] - 1, c.head[vi + '#'], c.st[vi + '#']
        S = lambda g, i, v: setg(c, 'G.r' + g, z3.Store(c.st['G.r' + g], i, v))
        S('old', m, b); S('new', b, m); S('bs', m, n0); S('be', m, n); S('d', m, o.bs(b) - n0)
        nm = c.ex.fresh('G.rcb', AII); old = c.st['G.rcb']
        c.ex.assume(FA(_J, z3.Select(nm, _J) == If(_J >= n0, m, z3.Select(old, _J)), z3.Select(nm, _J)))
        c.ex.st['G.rcb'] = nm
    def mainexit(c):
        z = c.ex.fresh('next', I)
        me = c.ex.contract; r, y = Remove.it(c), me.rng(c)[1]
        c.ex.assume(z == me.B(c, r))
        c.ex.oblige_assume('next removed BDD', Imp(r < y, And(z >= c.ivar(), z < W(c.old).nb)))
    def inner(c):
        v = c.modvecs()
        if len(v) != 1: raise Unsupported('moved instructions')
        vi = v[0]; o = W(c.old); j = _J
        n, i = c.st[vi + '#'], c.ivar(); p = c.pre[vi + '#']
        L = lambda f: z3.Select(c.st[vi + '[].' + f], j); P = lambda f: z3.Select(c.pre[vi + '[].' + f], j)
        i0 = c.pre[c.incvar]; dl = i0 - p
        b = o.cb(i0)
        src = j + dl
        off = If(o.ix(src) >= BOTX, 0, dl)
        return [('index', And(i0 <= i, i <= o.be(b), n == p + (i - i0), dl >= 0)),
                ('moved', FA(j, Imp(And(0 <= j, j < n), If(j < p, And(*[L(f) == P(f) for f in ('lo', 'hi', 'index')]), And(L('index') == o.ix(src), L('lo') == o.lo(src) - off, L('hi') == o.hi(src) - off))), L('lo'), L('hi'), L('index')))]
    def done(c):
        """ghosts of the new memory"""
        ex, o, st = c.ex, W(c.old), c.st
        if c.ex.ghost.get('removed'): return
        c.ex.ghost['removed'] = True
        cn, cv = ex.fresh('G.cn', st['G.cn'].sort()), ex.fresh('G.cval', ABI)
        t = z3.Const('t!', K3); j = _J
        D = lambda i: z3.Select(st['G.rd'], z3.Select(st['G.rcb'], i))
        ex.assume(FA(j, z3.Select(cv, j) == o.val(j + D(j)), z3.Select(cv, j)))
        dl = D(K3.k0(t))
        ex.assume(FA(t, z3.Select(cn, t) == o.cn(K3.k3(K3.k0(t) + dl, K3.k1(t) + dl, K3.k2(t))) - dl, z3.Select(cn, t)))
        ex.st['G.cn'], ex.st['G.cval'] = cn, cv
        for a, b in (('cb', 'rcb'), ('bs', 'rbs'), ('be', 'rbe')): ex.st['G.' + a] = st['G.' + b]
        setg(c, 'G.bs', z3.Store(st['G.rbs'], W(st).nd - 1, W(st).n))
    loops = [LoopSpec(inv=delims, name='delimiters', decreases=lambda c: W(c.old).nd + 1 - c.ivar()), LoopSpec(inv=instrs, name='instructions', decreases=lambda c: W(c.old).n - c.ivar()),
             LoopSpec(inv=main, name='BDDs', ghost_head=mainhead, ghost_end=mainend, ghost_exit=mainexit, decreases=lambda c: W(c.old).nb - c.ivar()),
             LoopSpec(inv=inner, name='move', decreases=lambda c: W(c.old).n - c.ivar()),
             LoopSpec(inv=lambda c: [('index', c.ivar() >= 0)], name='verify', ghost_head=done, decreases=lambda c: W(c.st).nd - c.ivar())]
    def ghost_exit(self, c):
        if c.st['G.rold'] is c.old['G.rold'] or c.st['G.rold'].eq(c.old['G.rold']): Remove.mainhead(c)
        c.st = c.ex.st
        Remove.done(c)
        c.st = c.ex.st
    def post(self, c):
        o, w = W(c.old), W(c.st); x, y = self.rng(c)
        j = _J
        D = z3.Select(c.st['G.rd'], z3.Select(c.st['G.rcb'], j))
        return [('number of BDDs', w.nb == o.nb - (y - x))] + self.rel(c, o.nb, w.nb, w.n, w.d, w.lo, w.hi, w.ix) + [('values are kept', FA(j, Imp(And(0 <= j, j < w.n), w.val(j) == o.val(j + D)), w.val(j)))] + inv(c, self.groups) + [
                ('the list of removed BDDs is kept', c.st['B[]'] == c.old['B[]'])]
CONTRACTS = [INC, Remove()]
