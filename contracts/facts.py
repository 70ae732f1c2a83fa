"""Facts about the functions the specifications use, proved from their definitions. A definition is a recursion on the natural numbers, a
quotient, or (reachability) a least set; each lemma is an induction: base, step, and the statement the contracts use from 'for all n'.
Counts of sets are counts of their elements among the addresses 0 .. BOUND-1; BOUND is an arbitrary number all addresses are below."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV, _N, _H, _ROW
from . import theory, queries, nary
from .queries import rch, inr, L_reach, CM, RCH
from .meld import L_reach_at, StackForest
AIB = ABI
_A, _A2, _A3 = (z3.Const(f'{n}!f', AII) for n in 'abc')
_B1 = z3.Const('s!f', ABI)
_NN = z3.Int('nn!f')
one = lambda x: If(x, iv(1), iv(0))
sel = z3.Select
BOUND = z3.Int('BOUND')
below = lambda x: And(0 <= x, x < BOUND)
class Fact(sx.Lemma):
    def induct(self, name, claim, facts, defs, start=None):
        """claim(n) for all n >= start"""
        n = _NN; a = iv(0) if start is None else start
        k = z3.Const('n!c', I)
        yield name + ' (base)', list(facts) + defs(a), claim(a)
        yield name + ' (step)', list(facts) + [k >= a, claim(k)] + defs(k) + defs(k + 1), claim(k + 1)
    def forall(self, claim, *trig, start=None): return FA(_NN, Imp(_NN >= (iv(0) if start is None else start), claim(_NN)), *[t(_NN) for t in trig])

class Null(Fact):
    """null slots of a table"""
    key = 'lemma: number of null slots'
    def prove(self, ex):
        r, k, x, m = ex.fresh('row', AII), ex.fresh('k', I), ex.fresh('x', I), ex.fresh('m', I)
        d = lambda a: lambda n: [CNT0(a, iv(0)) == 0, Imp(n >= 0, CNT0(a, n + 1) == CNT0(a, n) + one(sel(a, n) == 0)), Imp(n >= 0, WIT0(a, n + 1) == If(sel(a, n) == 0, n, WIT0(a, n)))]
        st = z3.Store(r, k, x)
        both = lambda n: d(r)(n) + d(st)(n)
        up = lambda n: CNT0(st, n) == CNT0(r, n) + If(And(0 <= k, k < n), one(x == 0) - one(sel(r, k) == 0), 0)
        bo = lambda n: And(0 <= CNT0(r, n), CNT0(r, n) <= n)
        wi = lambda n: Imp(CNT0(r, n) > 0, And(0 <= WIT0(r, n), WIT0(r, n) < n, sel(r, WIT0(r, n)) == 0))
        ze = lambda n: Imp(n <= m, CNT0(r, n) == n)
        yield from self.induct('change of one slot', up, [], both)
        yield from self.induct('bounds', bo, [], d(r))
        yield from self.induct('witness', wi, [], lambda n: d(r)(n) + [bo(n)])
        empty = [m >= 0, FA(_K, Imp(And(0 <= _K, _K < m), sel(r, _K) == 0), sel(r, _K))]
        yield from self.induct('empty table', ze, empty, d(r))
        inst = lambda f, **kw: z3.substitute(f, *kw['s'])
        L = L_cnt()
        n = ex.fresh('n', I)
        for i, (f, c, rep) in enumerate(((L[0], up, (x, k, n, r)), (L[1], bo, (n, r)), (L[2], wi, (n, r)))):
            # the quantified fact with constants for its variables (bound in the order of the list, last one first)
            yield f'as used ({i})', [Imp(n >= 0, c(n))], z3.substitute_vars(f.body(), *self.order(f, r, k, x, n))
        yield 'as used (3)', [Imp(m >= 0, ze(m))] + empty, L_cnt_zero(r, m)
        yield 'as used (4)', d(r)(m), L_cnt_step(r, m)
    def order(self, f, r, k, x, n):
        m = {'row!q': r, 'k!': k, 'x!': x, 'n!': n}
        return [m[f.var_name(i)] for i in reversed(range(f.num_vars()))]

class Masks(Fact):
    """masks 2^e-1: x & m is the remainder modulo m+1, UNW(h,s,m) the remainder of s-h"""
    key = 'lemma: masks and probe distances'
    P2, LG, QB, QU = z3.Function('P2', I, I), z3.Function('LG', I, I), z3.Function('QB', I, I, I), z3.Function('QU', I, I, I, I)
    def d_p2(self, e): return [self.P2(iv(0)) == 1, Imp(e >= 0, self.P2(e + 1) == 2 * self.P2(e)), Imp(e >= 1, self.P2(e) == 2 * self.P2(e - 1))]
    def d_pow2(self, m): return pow2(m) == And(self.LG(m) >= 0, m + 1 == self.P2(self.LG(m)))
    def d_lg(self, e): return Imp(e >= 0, self.LG(self.P2(e) - 1) == e)
    def d_band(self, x, m): return Imp(And(pow2(m), x >= 0), And(x == (m + 1) * self.QB(x, m) + band(x, m), 0 <= band(x, m), band(x, m) <= m))
    def d_unw(self, h, s, m): return Imp(pow2(m), And(s - h == (m + 1) * self.QU(h, s, m) + UNW(h, s, m), 0 <= UNW(h, s, m), UNW(h, s, m) <= m))
    def uniq(self, M, q, r, q2, r2):
        """remainders are unique"""
        return Imp(And(M >= 1, M * q + r == M * q2 + r2, 0 <= r, r < M, 0 <= r2, r2 < M), And(q == q2, r == r2))
    def prove(self, ex):
        f = lambda n: ex.fresh(n, I)
        M, q, r, q2, r2, h, s, x, m, e = (f(n) for n in ('M', 'q', 'r', 'q2', 'r2', 'h', 's', 'x', 'm', 'e'))
        P2, LG = self.P2, self.LG
        d = q - q2
        yield 'multiples above', [M >= 1, d >= 1], M * d >= M
        yield 'multiples below', [M >= 1, d <= -1], M * d <= -M
        yield 'distribution', [], M * d == M * q - M * q2
        pr = [Imp(d >= 1, M * d >= M), Imp(d <= -1, M * d <= -M), M * d == M * q - M * q2]
        yield 'remainders are unique', [M >= 1] + pr, self.uniq(M, q, r, q2, r2)
        yield from self.induct('powers are positive', lambda n: P2(n) >= 1, [], self.d_p2)
        big = lambda n: P2(n) >= 2 ** 21
        first = [P2(iv(i + 1)) == 2 * P2(iv(i)) for i in range(64)] + [P2(iv(0)) == 1]
        yield 'small powers', first, And(*[P2(iv(i)) == 2 ** i for i in range(64)])
        small = [P2(iv(i)) == 2 ** i for i in range(64)]
        yield from self.induct('powers grow', big, small, self.d_p2, start=iv(21))
        pos = lambda n: Imp(n >= 0, P2(n) >= 1)
        e = LG(m)
        yield 'as used: masks', small + [self.d_pow2(m), Imp(e >= 21, big(e))] + [Or(e < 0, e >= 21, *[e == i for i in range(21)])] + [self.d_pow2(iv(2 ** i - 1)) for i in range(42)] + [LG(iv(2 ** i - 1)) == i for i in range(42)], L_pow2(m)
        h2, p2 = 2 * m + 1, (m - 1) / 2
        yield 'as used: next mask', [self.d_pow2(m), pos(e), P2(iv(0)) == 1] + self.d_p2(e) + [self.d_pow2(h2), self.d_pow2(P2(e - 1) - 1), self.d_lg(e + 1), self.d_lg(e - 1)], L_pow2_next(m)
        yield 'masks are not negative', [self.d_pow2(m), pos(e)], Imp(pow2(m), m >= 0)
        base = [Imp(pow2(m), m >= 0)]
        one_ = lambda L: z3.substitute_vars(L.body(), *self.consts(L, h, s, x))
        L = L_unw(m)
        u = UNW(h, s, m); w = h + u
        yield 'as used: probe distance', base + [self.d_unw(h, s, m), self.d_band(w, m), self.uniq(m + 1, self.QB(w, m), band(w, m), -self.QU(h, s, m), s)], one_(L[0])
        yield 'as used: masked value', [self.d_band(x, m)] + base, one_(L[1])
        yield 'as used: masked value (2)', [self.d_band(x, m)] + base, one_(L_band(m)[0])
        b = band(x, m)
        yield 'as used: distance to a masked value', base + [self.d_band(x, m), self.d_unw(h, b, m), self.uniq(m + 1, -self.QB(x, m), x - h, self.QU(h, b, m), UNW(h, b, m))], one_(L_unw_at(h, m))
        b = band(h, m)
        yield 'as used: distance from a masked value', base + [self.d_band(h, m), self.d_unw(h, s, m), self.d_unw(b, s, m), self.uniq(m + 1, self.QU(h, s, m), UNW(h, s, m), self.QU(b, s, m) - self.QB(h, m), UNW(b, s, m))], one_(L_unw_mod(m))
        b2 = band(x, 2 * m + 1); q, Q = self.QB(x, m), self.QB(x, 2 * m + 1)
        yield 'as used: doubled mask', base + [Imp(pow2(m), pow2(2 * m + 1)), self.d_band(x, m), self.d_band(x, 2 * m + 1), self.uniq(m + 1, q, band(x, m), 2 * Q, b2), self.uniq(m + 1, q, band(x, m), 2 * Q + 1, b2 - m - 1)], one_(L_band2(m)[0])
        yield 'as used: values below the mask', base + [self.d_band(x, m), self.uniq(m + 1, self.QB(x, m), band(x, m), iv(0), x)], Imp(And(x >= 0, x <= m, pow2(m)), band(x, m) == x)
        v, c = z3.BitVec('v', 64), None
        for i in range(1, 65):
            mk = z3.BitVecVal(2 ** i - 1, 64)
            yield f'machine: and with a mask of {i} bits is the remainder', [], (v & mk) == (z3.URem(v, z3.BitVecVal(2 ** i, 64)) if i < 64 else v)
        w_ = z3.BitVec('w', 64)
        yield 'machine: bounds of and', [], And(z3.ULE(v & w_, v), z3.ULE(v & w_, w_))
        for i in (23, 24, 63): yield f'machine: bounds of exclusive or ({i})', [z3.ULT(v, z3.BitVecVal(2 ** i, 64)), z3.ULT(w_, z3.BitVecVal(2 ** i, 64))], z3.ULT(v ^ w_, z3.BitVecVal(2 ** i, 64))
    def consts(self, f, h, s, x):
        m = {'h!': h, 's!': s, 'x!': x}
        return [m[f.var_name(i)] for i in reversed(range(f.num_vars()))]

class Sets(Fact):
    """numbers of elements of sets of addresses and of marked nodes"""
    key = 'lemma: numbers of elements'
    CN, MN = z3.Function('CARDN', ABI, I, I), z3.Function('CMN', AII, I, I)
    def prove(self, ex):
        a, b = ex.fresh('a', ABI), ex.fresh('b', ABI); m0, m1, m2 = (ex.fresh(f'm{i}', AII) for i in range(3)); r, q, x = ex.fresh('r', I), ex.fresh('q', I), ex.fresh('x', I)
        CN, MN = self.CN, self.MN
        dc = lambda *ss: lambda n: [f for s in ss for f in (CN(s, iv(0)) == 0, Imp(n >= 0, CN(s, n + 1) == CN(s, n) + one(sel(s, n))))]
        dm = lambda *ss: lambda n: [f for s in ss for f in (MN(s, iv(0)) == 0, Imp(n >= 0, MN(s, n + 1) == MN(s, n) + one(sel(s, n) != 0)))]
        at, af = z3.Store(a, r, True), z3.Store(a, r, False)
        E = z3.K(I, z3.BoolVal(False))
        inn = lambda n: And(0 <= r, r < n)
        full = lambda s: CARD(s) == CN(s, BOUND)
        mfull = lambda s: CM(s) == MN(s, BOUND)
        c1 = lambda n: And(CN(at, n) == CN(a, n) + If(inn(n), one(Not(sel(a, r))), 0), CN(af, n) == CN(a, n) - If(inn(n), one(sel(a, r)), 0), CN(a, n) >= 0, CN(af, n) >= 0)
        yield from self.induct('one element', c1, [], dc(a, at, af))
        c2 = lambda n: CN(E, n) == 0
        yield from self.induct('no elements', c2, [], dc(E))
        yield 'as used: one element', [BOUND >= 0, c1(BOUND), c2(BOUND), below(r)] + [full(s) for s in (a, at, af, E)], L_card(a, r)
        sub = [FA(_Q, Imp(sel(a, _Q), sel(b, _Q)), sel(a, _Q))]
        c3 = lambda n: CN(a, n) <= CN(b, n)
        yield from self.induct('subsets', c3, sub, dc(a, b))
        yield 'as used: subsets', [BOUND >= 0, c3(BOUND), full(a), full(b)], CARD(a) <= CARD(b)
        # marked nodes
        cm = lambda m0, m1, p: (lambda n: MN(m1, n) == MN(m0, n) + If(And(0 <= p, p < n), one(sel(m1, p) != 0) - one(sel(m0, p) != 0), 0))
        p = r; m1s = z3.Store(m0, p, x)
        yield from self.induct('one mark', cm(m0, m1s, p), [], dm(m0, m1s))
        yield 'as used: one mark', [BOUND >= 0, below(p), mfull(m0), mfull(m1), cm(m0, z3.Store(m0, p, sel(m1, p)), p)(BOUND)], queries.L_cm(m0, m1, p)
        s1 = z3.Store(m0, p, sel(m1, p)); s2 = z3.Store(s1, q, sel(m1, q))
        yield 'as used: two marks', [BOUND >= 0, below(p), below(q), mfull(m0), mfull(m1), cm(m0, s1, p)(BOUND), cm(s1, s2, q)(BOUND)], queries.L_cm2(m0, m1, p, q)
        dis = FA(_Q, And((sel(m1, _Q) != 0) == Or(sel(m0, _Q) != 0, sel(a, _Q)), Imp(sel(a, _Q), sel(m0, _Q) == 0)), sel(m1, _Q), sel(a, _Q))
        c4 = lambda n: MN(m1, n) == MN(m0, n) + CN(a, n)
        both = lambda n: dm(m0, m1)(n) + dc(a)(n)
        yield from self.induct('disjoint marks', c4, [dis], both)
        yield 'as used: disjoint marks', [BOUND >= 0, mfull(m0), mfull(m1), full(a), Imp(dis, c4(BOUND))], queries.L_cm_set(m0, m1, a)
        cov = FA(_Q, Or(sel(m1, _Q) == sel(m0, _Q), And(sel(m0, _Q) == 0, sel(a, _Q))), sel(m1, _Q))
        c5 = lambda n: MN(m1, n) <= MN(m0, n) + CN(a, n)
        yield from self.induct('new marks', c5, [cov], lambda n: both(n) + [sel(m1, n) == sel(m1, n)])
        yield 'as used: new marks', [BOUND >= 0, mfull(m0), mfull(m1), full(a), Imp(cov, c5(BOUND))], queries.L_cm_sub(m0, m1, a)
        c6 = lambda n: And(0 <= MN(m0, n), MN(m0, n) <= n)
        yield from self.induct('bounds', c6, [], dm(m0))
        yield 'as used: bounds', [0 <= BOUND, BOUND < 2 ** 60, c6(BOUND), mfull(m0)], And(0 <= CM(m0), CM(m0) < 2 ** 60)

class Arcs(Fact):
    """numbers of arcs of live nodes"""
    key = 'lemma: numbers of arcs'
    AN, PN = z3.Function('ARCSN', ABI, AII, AII, I, I, I), z3.Function('PARN', ABI, AII, AII, I, I, I)
    class St:
        def __init__(s, ex, n, live=None): s.live_, s.lo_, s.hi_ = (ex.fresh('live' + n, ABI) if live is None else live), ex.fresh('lo' + n, AII), ex.fresh('hi' + n, AII)
        def live(s, p): return sel(s.live_, p)
        def lo(s, p): return sel(s.lo_, p)
        def hi(s, p): return sel(s.hi_, p)
    def an(self, s, q, n): return self.AN(s.live_, s.lo_, s.hi_, q, n)
    def pn(self, s, q, n): return self.PN(s.live_, s.lo_, s.hi_, q, n)
    def w(self, s, p, q): return If(s.live(p), one(s.lo(p) == q) + one(s.hi(p) == q), 0)
    def defs(self, q, *ss): return lambda n: [f for s in ss for f in (self.an(s, q, iv(0)) == 0, Imp(n >= 0, self.an(s, q, n + 1) == self.an(s, q, n) + self.w(s, n, q)), Imp(n >= 0, self.pn(s, q, n + 1) == If(self.w(s, n, q) > 0, n, self.pn(s, q, n))))]
    def full(self, s): return [FA(_Q, And(sel(arcs(s), _Q) == self.an(s, _Q, BOUND), sel(PAR(s.live_, s.lo_, s.hi_), _Q) == self.pn(s, _Q, BOUND)), sel(arcs(s), _Q)), BOUND >= 0, FA(_P, Imp(s.live(_P), below(_P)), s.live(_P))]
    def prove(self, ex):
        q, p, r = ex.fresh('q', I), ex.fresh('p', I), ex.fresh('r', I)
        o = self.St(ex, 'o')
        d = self.defs(q, o)
        c1 = lambda n: self.an(o, q, n) >= 0
        c2 = lambda n: Imp(self.an(o, q, n) >= 1, And(o.live(self.pn(o, q, n)), Or(o.lo(self.pn(o, q, n)) == q, o.hi(self.pn(o, q, n)) == q)))
        c3 = lambda n: Imp(And(0 <= p, p < n, o.live(p), Or(o.lo(p) == q, o.hi(p) == q)), self.an(o, q, n) >= 1)
        yield from self.induct('not negative', c1, [], d)
        yield from self.induct('a parent', c2, [], d)
        yield from self.induct('children have arcs', c3, [], lambda n: d(n) + [c1(n)])
        L = L_arcs(o)
        sub = lambda f, *t: z3.substitute_vars(f.body(), *t)
        yield 'as used: parents', self.full(o) + [c1(BOUND), c2(BOUND), sel(arcs(o), q) == sel(arcs(o), q)], sub(L[0], q)
        yield 'as used: children', self.full(o) + [o.live(p) == o.live(p)] + [z3.substitute(c3(BOUND), (q, t)) for t in (o.lo(p), o.hi(p))] + [sel(arcs(o), t) >= -1 for t in ()], sub(L[1], p)
        # one node more, one less, the same
        for nm, live, sg, mk in (('one node more', z3.Store(o.live_, r, True), 1, L_arcs_add), ('one node less', z3.Store(o.live_, r, False), -1, L_arcs_sub)):
            s = self.St(ex, 's'); 
            big, small = (s, o) if sg > 0 else (o, s)
            agree = FA(_P, Imp(small.live(_P), And(s.lo(_P) == o.lo(_P), s.hi(_P) == o.hi(_P))), s.lo(_P), s.hi(_P))
            h = [s.live_ == live, agree, Not(o.live(r)) if sg > 0 else o.live(r)]
            c = lambda n: self.an(s, q, n) == self.an(o, q, n) + sg * If(And(0 <= r, r < n), one(big.lo(r) == q) + one(big.hi(r) == q), 0)
            yield from self.induct(nm, c, h, lambda n: self.defs(q, o, s)(n) + [s.lo(n) == s.lo(n)])
            goal = mk(o, s, r)
            yield 'as used: ' + nm, h + self.full(o) + self.full(s) + [c(BOUND), below(r), sel(arcs(s), q) == sel(arcs(s), q), sel(arcs(o), q) == sel(arcs(o), q)], sub(goal.arg(1), q)
            yield 'form: ' + nm, h, goal.arg(0)
        s = self.St(ex, 's', live=o.live_)
        agree = FA(_P, Imp(o.live(_P), And(s.lo(_P) == o.lo(_P), s.hi(_P) == o.hi(_P))), s.lo(_P), s.hi(_P))
        c = lambda n: self.an(s, q, n) == self.an(o, q, n)
        yield from self.induct('same nodes', c, [agree], lambda n: self.defs(q, o, s)(n) + [s.lo(n) == s.lo(n)])
        yield 'as used: same nodes', [agree] + self.full(o) + self.full(s) + [c(BOUND)], sel(arcs(s), q) == sel(arcs(o), q)

class Numbers(Fact):
    """numbers of true operands"""
    key = 'lemma: numbers of true operands'
    def prove(self, ex):
        NT, WT = nary.NT, nary.WT
        X = ex.fresh('X', ABI); i, j, m, k = (ex.fresh(n, I) for n in 'ijmk')
        d = lambda a: lambda n: [NT(X, a, a) == 0, Imp(a <= n, NT(X, a, n + 1) == NT(X, a, n) + one(sel(X, n))), Imp(a <= n, WT(X, a, n + 1) == If(sel(X, n), n, WT(X, a, n)))]
        bo = lambda n: And(0 <= NT(X, i, n), NT(X, i, n) <= n - i)
        sp = lambda n: Imp(i <= m, NT(X, i, n) == NT(X, i, m) + NT(X, m, n))
        wi = lambda n: Imp(NT(X, i, n) > 0, And(i <= WT(X, i, n), WT(X, i, n) < n, sel(X, WT(X, i, n))))
        po = lambda n: Imp(And(i <= k, k < n, sel(X, k)), NT(X, i, n) > 0)
        yield from self.induct('bounds', bo, [], d(i), start=i)
        yield from self.induct('splitting', sp, [], lambda n: d(i)(n) + d(m)(n), start=m)
        yield from self.induct('witness', wi, [], lambda n: d(i)(n) + [Imp(n >= i, bo(n))], start=i)
        yield from self.induct('positive', po, [], lambda n: d(i)(n) + [Imp(n >= i, bo(n))], start=i)
        L = nary.L_nt(X, i, j)
        c = {'i!': i, 'j!': j, 'm!': m, 'k!': k}
        for t, f in enumerate(L):
            facts = [g for n in (i, i + 1, i + 2) for g in d(i)(n)] + [g for n in (i + 1, i + 2) for g in d(i + 1)(n)] if t < 4 else [Imp(j >= i, bo(j)), Imp(j >= m, sp(j)), Imp(j >= i, wi(j)), Imp(j >= i, po(j))]
            yield f'as used ({t})', facts, f if t < 4 else z3.substitute_vars(f.body(), *[c[f.var_name(x)] for x in reversed(range(f.num_vars()))])
        yield 'as used: splitting', [Imp(j >= m, sp(j))], nary.L_nt_split(X, i, m, j)

class Reach(Fact):
    """RCH(p) is the least set that contains p, if p is no terminal, and the inner children of its elements"""
    key = 'lemma: reachable nodes'
    reveal = ('F',)
    def least(self, s, p, S_):
        """the definition applied to the set S_"""
        q = _Q; at = lambda x: sel(S_, x)
        return Imp(And(Or(s.term(p), at(p)), FA(q, Imp(at(q), And(Or(s.term(s.lo(q)), at(s.lo(q))), Or(s.term(s.hi(q)), at(s.hi(q))))), at(q))), FA(q, Imp(inr(s, p, q), at(q)), inr(s, p, q)))
    def closed(self, s, p): return FA(_Q, Imp(inr(s, p, _Q), And(Or(s.term(s.lo(_Q)), inr(s, p, s.lo(_Q))), Or(s.term(s.hi(_Q)), inr(s, p, s.hi(_Q))))), inr(s, p, _Q))
    def root(self, s, p): return Imp(Not(s.term(p)), inr(s, p, p))
    def forest(self, ex):
        mgr_world(ex)
        return V(ex.st), [f for _, f in F_clauses(ex.st)]
    def prove(self, ex):
        s, F = self.forest(ex)
        p, q = ex.fresh('p', I), ex.fresh('q', I)
        def setof(nm, member):
            S_ = ex.fresh(nm, ABI)
            return S_, FA(_Q, sel(S_, _Q) == member(_Q), sel(S_, _Q))
        E = z3.K(I, z3.BoolVal(False))
        no, dno = setof('none', lambda x: z3.BoolVal(False))
        L = L_reach(s)
        sub = lambda f: z3.substitute_vars(f.body(), *[{'p!': p, 'q!': q}[f.var_name(i)] for i in reversed(range(f.num_vars()))])
        nonterm, dnt = setof('nonterm', lambda x: Not(s.term(x)))
        inrp, dr = setof('inrp', lambda x: inr(s, p, x))
        later, dl = setof('later', lambda x: And(s.inner(x), s.ix(x) >= s.ix(p), Or(x == p, s.ix(x) > s.ix(p))))
        for nm, t in (('bottom', s.bot), ('top', s.top)):
            yield 'nothing below ' + nm, [dno, self.least(s, t, no), s.term(t)], FA(_Q, Not(inr(s, t, _Q)), inr(s, t, _Q))
        emp = [FA(_Q, Not(inr(s, t, _Q)), inr(s, t, _Q)) for t in (s.bot, s.top)]
        for i, t in enumerate((s.bot, s.top)):
            yield f'empty set ({i})', [emp[i]], rch(s, t) == E
            yield f'as used ({i})', [rch(s, t) == E, CARD(E) == 0], L[i]
        yield 'as used (2)', emp, sub(L[2])
        yield 'as used (3)', [self.root(s, p)], sub(L[3])
        yield 'no terminals', [dnt, self.least(s, p, nonterm)], FA(_Q, Imp(inr(s, p, _Q), Not(s.term(_Q))), inr(s, p, _Q))
        nt = FA(_Q, Imp(inr(s, p, _Q), Not(s.term(_Q))), inr(s, p, _Q))
        yield 'as used (4)', [nt, self.closed(s, p)], sub(L[4])
        for nm, x in (('low', s.lo(p)), ('high', s.hi(p))):
            yield f'below the {nm} child', [s.inner(p), self.root(s, p), self.closed(s, p), dr, self.least(s, x, inrp)], FA(_Q, Imp(inr(s, x, _Q), inr(s, p, _Q)), inr(s, x, _Q))
        ch = [Imp(s.inner(p), FA(_Q, Imp(inr(s, x, _Q), inr(s, p, _Q)), inr(s, x, _Q))) for x in (s.lo(p), s.hi(p))]
        yield 'as used (5)', ch, sub(L[5])
        yield 'larger variables', F + [s.inner(p), dl, self.least(s, p, later)], FA(_Q, Imp(inr(s, p, _Q), sel(later, _Q)), inr(s, p, _Q))
        yield 'as used (6)', [dl, Imp(s.inner(p), FA(_Q, Imp(inr(s, p, _Q), sel(later, _Q)), inr(s, p, _Q)))], sub(L[6])
        for i, f in enumerate(L_reach_at(s, p)): yield f'as used (one node, {i})', [self.root(s, p)] + ch + emp, f
        # induction with closure required for reachable elements only
        S_ = ex.fresh('S', ABI); at = lambda x: sel(S_, x)
        both, db = setof('both', lambda x: And(at(x), inr(s, p, x)))
        base = Or(s.term(p), at(p))
        step = FA(_Q, Imp(And(inr(s, p, _Q), at(_Q)), And(Or(s.term(s.lo(_Q)), at(s.lo(_Q))), Or(s.term(s.hi(_Q)), at(s.hi(_Q))))), inr(s, p, _Q))
        yield 'as used: induction', [db, self.least(s, p, both), self.root(s, p), self.closed(s, p), base, step], FA(_Q, Imp(inr(s, p, _Q), at(_Q)), inr(s, p, _Q))
class SReach(StackForest, Reach): key = 'lemma: reachable nodes (stack)'
CONTRACTS = [Null(), Masks(), Sets(), Arcs(), Numbers(), Reach(), SReach()]
STORE = (Null.key, Masks.key, Sets.key, Arcs.key)
QUERY = (Reach.key, Sets.key)
# the facts each module of contracts uses; they are proved in every run that uses the module
USED_BY = {'store': STORE, 'gc': STORE, 'life': STORE, 'teardown': (Masks.key, Arcs.key), 'memo': (Masks.key, Arcs.key), 'queries': QUERY, 'solutions': QUERY, 'limited': QUERY,
           'meld': QUERY + (SReach.key,), 'meldn': QUERY + (SReach.key,), 'rebase': QUERY, 'transfer': QUERY, 'nary': (Numbers.key,)}
