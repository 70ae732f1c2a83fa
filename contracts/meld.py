"""Conjunction inside a collection. The BDD under construction is the stack: entry k is a node over earlier entries, entries 0 and 1 are
the terminals. The operands of the recursion are N instructions (array T). The U columns are an arbitrary later stack: what happens when the
node limit is exceeded is stated for the conjunction in any such stack, because it is never finished."""
from .coltheory import *
from .coltheory import _I, _J, _K, _P, _Q, _S, _X, _VV
from .colquery import evc, L_evc, CC
from .queries import rch, inr, L_reach, L_ind
from .solutions import ev, D_ev, dw, Indep, Canonical, ValEv, _AL, _BV
from .store import setg
from .colnode import EntryQuery, entry, EN
from lbddv.sx import AggV, Ctx
def named(ex, t):
    """a constant for the term"""
    if z3.is_const(t): return t
    m = ex.__dict__.setdefault('named_terms', {})
    if t.get_id() not in m or not any(f is m[t.get_id()][2] for f in ex.facts):
        x = ex.fresh('n', t.sort()); f = x == t
        ex.assume(f)
        m[t.get_id()] = (t, x, ex.facts[-1])
    return m[t.get_id()][1]
MAX = 2 ** 64 - 1
class SV:
    """view on the stack"""
    bot, top = iv(0), iv(1)
    def __init__(self, st): self.st = st
    @property
    def n(self): return self.st['C.stack#']
    lo_ = property(lambda s: s.st['C.stack[].lo'])
    hi_ = property(lambda s: s.st['C.stack[].hi'])
    ix_ = property(lambda s: s.st['C.stack[].index'])
    def lo(self, p): return z3.Select(self.lo_, p)
    def hi(self, p): return z3.Select(self.hi_, p)
    def ix(self, p): return z3.Select(self.ix_, p)
    def val(self, p): return z3.Select(self.st['G.sval'], p)
    def node(self, t): return z3.Select(self.st['G.snode'], t)
    def trip(self, p): return K3.k3(self.lo(p), self.hi(p), self.ix(p))
    def live(self, p): return And(0 <= p, p < self.n)
    def inner(self, p): return And(2 <= p, p < self.n)
    def term(self, p): return Or(p == 0, p == 1)
def SF_clauses(st):
    s, p = SV(st), _P
    return [('terminals', And(s.n >= 2, s.n <= 2 ** 60, s.ix(iv(0)) == BOTX, s.ix(iv(1)) == TOPX, s.lo(iv(0)) == s.hi(iv(0)), s.lo(iv(1)) == s.hi(iv(1)), Not(s.val(iv(0))), s.val(iv(1)))),
            ('nodes ordered, reduced, shared', FA(p, Imp(s.inner(p), And(0 <= s.lo(p), s.lo(p) < p, 0 <= s.hi(p), s.hi(p) < p, s.lo(p) != s.hi(p), s.ix(p) < s.ix(s.lo(p)), s.ix(p) < s.ix(s.hi(p)),
                0 <= s.ix(p), s.ix(p) < BOTX, s.val(p) == If(z3.Select(A, s.ix(p)), s.val(s.hi(p)), s.val(s.lo(p))), s.node(s.trip(p)) == p)), s.lo(p), s.hi(p))),
            ('inner nodes have variable indices', FA(p, Imp(s.inner(p), And(0 <= s.ix(p), s.ix(p) < BOTX)), s.ix(p)))]
SFCOLS = ['C.stack#', 'C.stack[].lo', 'C.stack[].hi', 'C.stack[].index', 'G.sval', 'G.snode']
GROUPS['SF'] = (SFCOLS, SF_clauses)
def RED_clauses(st):
    s, t, k = SV(st), z3.Const('t!', K3), _K
    has = lambda t: z3.Select(st['C.reduction?'], t)
    r = lambda t: z3.Select(st['C.reduction{}'], t)
    return [('known nodes are on the stack', FA(t, Imp(has(t), And(2 <= r(t), r(t) < s.n, s.trip(r(t)) == t)), has(t))),
            ('nodes on the stack are known', FA(k, Imp(s.inner(k), And(has(s.trip(k)), r(s.trip(k)) == k)), s.node(s.trip(k)), has(s.trip(k))))]
GROUPS['RED'] = (['C.reduction?', 'C.reduction{}'] + SFCOLS[:4], RED_clauses)
# ---- operands
_T = z3.Const('T!q', AII)
CONJF = z3.Function('CONJN', AII, AII, AII, ABI, AII, I, B)
CONJI = z3.Function('CONJNW', AII, AII, AII, ABI, AII, I, I)
def ccols(w): return [w.st['C.bdd_instructions[].' + f] for f in ('lo', 'hi', 'index')]
def conja(w, a, T, N): return CONJF(*ccols(w), a, T, N)
def at(T, j): return z3.Select(T, j)
def D_conja(w, a, T, N):
    """conja: all N operands are true under a"""
    x = CONJI(*ccols(w), a, T, N)
    c = conja(w, a, T, N)
    return And(Imp(c, FA(_J, Imp(And(0 <= _J, _J < N), evc(w, a, at(T, _J))), evc(w, a, at(T, _J)), at(T, _J))), Or(c, And(0 <= x, x < N, Not(evc(w, a, at(T, x))))))
def small(N): return z3.is_int_value(N) and N.as_long() <= 4
def opsok(w, T, N, v=None):
    if small(N): return And(*[And(0 <= x, x < w.n, *([w.ix(x) >= v] if v is not None else [])) for j in range(N.as_long()) for x in [at(T, iv(j))]])
    return FA(_J, Imp(And(0 <= _J, _J < N), And(0 <= at(T, _J), at(T, _J) < w.n, *([w.ix(at(T, _J)) >= v] if v is not None else []))), at(T, _J))
CJF = z3.Function('CJS', AII, AII, AII, AII, AII, AII, I, AII, I, B)
CJW = z3.Function('CJSW', AII, AII, AII, AII, AII, AII, I, AII, I, ABI)
def cj(s, w, h, T, N): return CJF(s.lo_, s.hi_, s.ix_, *ccols(w), h, T, N)
def cjw(s, w, h, T, N): return CJW(s.lo_, s.hi_, s.ix_, *ccols(w), h, T, N)
def D_cj(s, w, h, T, N):
    """cj: h is the conjunction of the operands under every assignment"""
    a = cjw(s, w, h, T, N)
    return [Imp(cj(s, w, h, T, N), FA(_AL, ev(s, _AL, h) == conja(w, _AL, T, N), ev(s, _AL, h), conja(w, _AL, T, N))), Or(cj(s, w, h, T, N), ev(s, a, h) != conja(w, a, T, N))]
def cof(s, p, v, b): return If(s.ix(p) == v, s.hi(p) if b else s.lo(p), p)
def cofops(w, T, Tb, v, b, N):
    if small(N): return And(*[at(Tb, iv(j)) == cof(w, at(T, iv(j)), v, b) for j in range(N.as_long())])
    return FA(_J, Imp(And(0 <= _J, _J < N), at(Tb, _J) == cof(w, at(T, _J), v, b)), at(Tb, _J), at(T, _J))
# ---- lemmas
def stack_world(ex):
    col_world(ex)
    ex.st['G.sval'] = ex.fresh('G.sval', ABI); ex.st['G.snode'] = ex.fresh('G.snode', z3.ArraySort(K3, I))
    return Ref('C')
class StackForest:
    def forest(self, ex):
        stack_world(ex)
        return SV(ex.st), [f for _, f in SF_clauses(ex.st)]
class SIndep(StackForest, Indep): key = 'lemma: independence of smaller variables (stack)'
class SValEv(StackForest, ValEv): key = 'lemma: recorded values are values (stack)'
class SCanon(StackForest, Canonical): key, uses = 'lemma: different nodes have different values under some assignment (stack)', (SIndep.key,)
SINDEP, SVALEV, SCANON = SIndep(), SValEv(), SCanon()
def colfacts(st): return [f for _, f in CS_clauses(st)] + [f for _, f in CO_clauses(st)]
def D_evc(w, a, i): return evc(w, a, i) == If(w.ix(i) == TOPX, True, If(w.ix(i) == BOTX, False, If(z3.Select(a, w.ix(i)), evc(w, a, w.hi(i)), evc(w, a, w.lo(i)))))
class ColLemma(sx.Lemma):
    """statement about one instruction, by induction from the last one downwards"""
    def prove(self, ex):
        col_world(ex)
        w = W(ex.st); p = ex.fresh('p', I)
        ok = lambda q: And(0 <= q, q < w.n)
        yield 'induction step', colfacts(ex.st) + [ok(p)] + self.inst(w, p) + [Imp(And(ok(q), q > p), self.stmt(w, q)) for q in (w.lo(p), w.hi(p))], self.stmt(w, p)
class CIndep(ColLemma):
    key = 'lemma: independence of smaller variables (stored BDDs)'
    def stmt(self, w, i): return FA([_AL, _X, _BV], Imp(_X < w.ix(i), evc(w, z3.Store(_AL, _X, _BV), i) == evc(w, _AL, i)), evc(w, z3.Store(_AL, _X, _BV), i))
    def hyp(self, w): return [FA([_AL, _X, _BV, _P], Imp(And(0 <= _P, _P < w.n, _X < w.ix(_P)), evc(w, z3.Store(_AL, _X, _BV), _P) == evc(w, _AL, _P)), evc(w, z3.Store(_AL, _X, _BV), _P))]
    def inst(self, w, p): return [FA(_AL, D_evc(w, _AL, p), evc(w, _AL, p))]
class CVal(ColLemma):
    key = 'lemma: recorded values are values (stored BDDs)'
    def stmt(self, w, i): return w.val(i) == evc(w, A, i)
    def hyp(self, w): return [FA(_P, Imp(And(0 <= _P, _P < w.n), self.stmt(w, _P)), evc(w, A, _P))]
    def inst(self, w, p): return [D_evc(w, A, p)]
CINDEP, CVAL = CIndep(), CVal()
class MeldLemma(sx.Lemma):
    uses = (SIndep.key, SCanon.key, CIndep.key)
    def start(self, ex):
        """a stack, a collection, operands"""
        stack_world(ex)
        s, w = SV(ex.st), W(ex.st)
        N, v, h = ex.fresh('N', I), ex.fresh('v', I), ex.fresh('h', I)
        T = ex.fresh('T', AII)
        self.base = [f for _, f in SF_clauses(ex.st)] + colfacts(ex.st)
        return s, w, N, v, h, T, self.base + SINDEP.hyp(s) + CINDEP.hyp(w) + [N >= 1]
def L_ord(s, w, h, T, N, v): return Imp(And(s.live(h), cj(s, w, h, T, N), opsok(w, T, N, v), v <= BOTX), s.ix(h) >= v)
class Order(MeldLemma):
    key = 'lemma: a conjunction does not start before its operands'
    def prove(self, ex):
        s, w, N, v, h, T, facts = self.start(ex)
        d, x = dw(s, s.lo(h), s.hi(h)), s.ix(h)
        a1, a0 = [z3.Store(d, x, z3.BoolVal(b)) for b in (True, False)]
        j = _J; jj = ex.fresh('j', I)
        for a in (a0, a1):
            yield 'operands', facts + [opsok(w, T, N, v), x < v, 0 <= jj, jj < N, at(T, jj) == at(T, jj), evc(w, a, at(T, jj)) == evc(w, a, at(T, jj))], evc(w, a, at(T, jj)) == evc(w, d, at(T, jj))
        facts = self.base + SINDEP.hyp(s) + [N >= 1, Imp(x < v, FA(j, Imp(And(0 <= j, j < N), And(*[evc(w, a, at(T, j)) == evc(w, d, at(T, j)) for a in (a0, a1)])), at(T, j)))]
        yield 'order', facts + [L_ord(s, w, h, T, N, v).arg(0), SCANON.stmt(s, s.lo(h), s.hi(h))] + [D_ev(s, a, h) for a in (a0, a1)] + D_cj(s, w, h, T, N) + [D_conja(w, a, T, N) for a in (a0, a1)], s.ix(h) >= v
def L_cof(s, w, h, T, N, v, b, Tb): return Imp(And(s.live(h), cj(s, w, h, T, N), opsok(w, T, N, v), v < BOTX, cofops(w, T, Tb, v, b, N)), cj(s, w, cof(s, h, v, b), Tb, N))
class Cofactors(MeldLemma):
    key = 'lemma: cofactors of a conjunction of stored BDDs'
    uses = MeldLemma.uses + (Order.key,)
    def prove(self, ex):
        s, w, N, v, h, T, facts = self.start(ex)
        for b in (0, 1):
            Tb = ex.fresh('Tb', AII); hb = ex.fresh('hb', I)
            c = cjw(s, w, hb, Tb, N)
            a = z3.Store(c, v, z3.BoolVal(bool(b)))
            j = _J
            fs = facts + [L_cof(s, w, h, T, N, v, b, Tb).arg(0), L_ord(s, w, h, T, N, v), hb == cof(s, h, v, b)]
            op = FA(j, Imp(And(0 <= j, j < N), evc(w, a, at(T, j)) == evc(w, c, at(Tb, j))), at(T, j), at(Tb, j))
            jj = ex.fresh('j', I); t = at(T, jj)
            yield f'operands of cofactor {b}', fs + [0 <= jj, jj < N, D_evc(w, a, t)], evc(w, a, t) == evc(w, c, at(Tb, jj))
            yield f'cofactor {b}', fs + [op] + D_cj(s, w, h, T, N) + D_cj(s, w, hb, Tb, N) + [D_conja(w, a, T, N), D_conja(w, c, Tb, N), D_ev(s, a, h)], cj(s, w, hb, Tb, N)
def L_comp(s, w, h, T, N, v, r0, T0, r1, T1):
    return Imp(And(s.live(h), s.live(r0), s.live(r1), opsok(w, T, N), v < BOTX, cofops(w, T, T0, v, 0, N), cofops(w, T, T1, v, 1, N), cj(s, w, r0, T0, N), cj(s, w, r1, T1, N),
                   Or(And(h == r0, h == r1), And(s.inner(h), s.ix(h) == v, s.lo(h) == r0, s.hi(h) == r1))), cj(s, w, h, T, N))
class Compose(MeldLemma):
    key = 'lemma: a node over the conjunctions of the cofactors is the conjunction (stored BDDs)'
    uses = ()
    def prove(self, ex):
        s, w, N, v, h, T, facts = self.start(ex)
        r0, r1 = ex.fresh('r', I), ex.fresh('r', I)
        T0, T1 = ex.fresh('T0', AII), ex.fresh('T1', AII)
        a = cjw(s, w, h, T, N)
        fs = self.base + [N >= 1, L_comp(s, w, h, T, N, v, r0, T0, r1, T1).arg(0)]
        j = _J; jj = ex.fresh('j', I); t = at(T, jj)
        body = lambda j: evc(w, a, at(T, j)) == If(z3.Select(a, v), evc(w, a, at(T1, j)), evc(w, a, at(T0, j)))
        yield 'operands', fs + [0 <= jj, jj < N, D_evc(w, a, t)], body(jj)
        yield 'all assignments', fs + [FA(j, Imp(And(0 <= j, j < N), body(j)), at(T, j), at(T1, j), at(T0, j)), D_ev(s, a, h)] + D_cj(s, w, h, T, N) + D_cj(s, w, r0, T0, N) + D_cj(s, w, r1, T1, N) + [D_conja(w, a, x, N) for x in (T, T0, T1)], cj(s, w, h, T, N)
def L_uniq(s, w, h, k, T, N): return Imp(And(s.live(h), s.live(k), cj(s, w, h, T, N), cj(s, w, k, T, N)), h == k)
class Unique(MeldLemma):
    key = 'lemma: there is one conjunction (stored BDDs)'
    uses = (SCanon.key,)
    def prove(self, ex):
        s, w, N, v, h, T, facts = self.start(ex)
        k = ex.fresh('k', I)
        yield 'unique', self.base + [L_uniq(s, w, h, k, T, N).arg(0), SCANON.stmt(s, h, k)] + D_cj(s, w, h, T, N) + D_cj(s, w, k, T, N), h == k
def L_term(s, w, T, N):
    if small(N): return [Imp(And(*[w.ix(at(T, iv(j))) == TOPX for j in range(N.as_long())]), cj(s, w, s.top, T, N))] + [Imp(w.ix(at(T, iv(j))) == BOTX, cj(s, w, s.bot, T, N)) for j in range(N.as_long())]
    """operands that are terminals"""
    j = _J; J = z3.Int('jt!')
    return [Imp(FA(j, Imp(And(0 <= j, j < N), w.ix(at(T, j)) == TOPX), at(T, j)), cj(s, w, s.top, T, N)), FA(J, Imp(And(0 <= J, J < N, w.ix(at(T, J)) == BOTX), cj(s, w, s.bot, T, N)), w.ix(at(T, J)))]
class Terminals(MeldLemma):
    key = 'lemma: conjunctions of terminals'
    uses = ()
    def prove(self, ex):
        s, w, N, v, h, T, facts = self.start(ex)
        j = _J; jj = ex.fresh('j', I)
        a = cjw(s, w, s.top, T, N); x = CONJI(*ccols(w), a, T, N)
        yield 'all true', self.base + [FA(j, Imp(And(0 <= j, j < N), w.ix(at(T, j)) == TOPX), at(T, j)), D_conja(w, a, T, N), D_evc(w, a, at(T, x)), D_ev(s, a, s.top)] + D_cj(s, w, s.top, T, N), cj(s, w, s.top, T, N)
        a = cjw(s, w, s.bot, T, N)
        yield 'one false', self.base + [0 <= jj, jj < N, w.ix(at(T, jj)) == BOTX, D_conja(w, a, T, N), D_evc(w, a, at(T, jj)), D_ev(s, a, s.bot)] + D_cj(s, w, s.bot, T, N), cj(s, w, s.bot, T, N)
# ---- later stacks
def U_state(st):
    u = sx.State()
    for k in st:
        if k.startswith('C.bdd_'): u[k] = st[k]
    for k in SFCOLS: u[k] = z3.Const('U.' + k, st[k].sort())
    return u
def later(u, s): return And(u.n >= s.n, FA(_P, Imp(s.live(_P), And(u.lo(_P) == s.lo(_P), u.hi(_P) == s.hi(_P), u.ix(_P) == s.ix(_P))), s.lo(_P), s.hi(_P), s.ix(_P), u.lo(_P), u.hi(_P), u.ix(_P)))
U_OK = z3.Const('U.stack', B)
LATER = z3.Function('LATERS', I, AII, AII, AII, B)
def lat(s): return LATER(s.n, s.lo_, s.hi_, s.ix_)       # U is later than s; opaque form of later(U, s)
def L_trans(s, o): return Imp(And(lat(s), later(s, o)), lat(o))
def two(ex):
    stack_world(ex)
    s = SV(ex.st); u = SV(U_state(ex.st))
    return s, u, [f for _, f in SF_clauses(ex.st)] + [f for _, f in SF_clauses(u.st)] + [later(u, s)]
class Keep(sx.Lemma):
    key = 'lemma: entries of the stack keep value and structure'
    def prove(self, ex):
        s, u, facts = two(ex)
        p = ex.fresh('p', I); al = ex.fresh('al', ABI)
        ih = lambda f: [Imp(s.inner(p), f(s.lo(p))), Imp(s.inner(p), f(s.hi(p)))]
        D = [D_ev(x, al, y) for x in (s, u) for y in (p, s.lo(p), s.hi(p))]
        yield 'values', facts + [s.live(p)] + D + ih(lambda x: ev(u, al, x) == ev(s, al, x)), ev(u, al, p) == ev(s, al, p)
        base = list(ex.facts)
        for x in (s, u): L_ind(ex, x, p, lambda q, x=x: Or(q == p, inr(x, x.lo(p), q), inr(x, x.hi(p), q)))
        more = ex.facts[len(base):]; ex.facts = base
        yield 'reachable nodes', facts + [s.inner(p)] + L_reach(s) + L_reach(u) + more + ih(lambda x: Imp(Not(s.term(x)), FA(_Q, inr(u, x, _Q) == inr(s, x, _Q), inr(u, x, _Q), inr(s, x, _Q)))), FA(_Q, inr(u, p, _Q) == inr(s, p, _Q), inr(u, p, _Q), inr(s, p, _Q))
def L_keep_ev(u, s): return Imp(later(u, s), FA([_AL, _P], Imp(s.live(_P), ev(u, _AL, _P) == ev(s, _AL, _P)), ev(u, _AL, _P), ev(s, _AL, _P)))
def L_keep_r(u, s): return Imp(later(u, s), FA([_P], Imp(s.inner(_P), rch(u, _P) == rch(s, _P)), rch(u, _P), rch(s, _P)))
def L_keep_cj(u, s, w, N): return Imp(later(u, s), FA([_P, _T], Imp(s.live(_P), cj(u, w, _P, _T, N) == cj(s, w, _P, _T, N)), cj(u, w, _P, _T, N), cj(s, w, _P, _T, N)))
class Trans(sx.Lemma):
    key = 'lemma: later stacks of later stacks are later'
    def prove(self, ex):
        s, u, facts = two(ex)
        o = SV(sx.State({k: z3.Const('O.' + k, ex.st[k].sort()) for k in SFCOLS}))
        yield 'transitive', [later(u, s), later(s, o)], later(u, o)
class KeepConj(sx.Lemma):
    key = 'lemma: conjunctions stay conjunctions (stack)'
    uses = (Keep.key,)
    def prove(self, ex):
        s, u, facts = two(ex)
        w = W(ex.st); h, N = ex.fresh('h', I), ex.fresh('N', I); T = ex.fresh('T', AII)
        yield 'both directions', facts + [s.live(h), L_keep_ev(u, s)] + D_cj(s, w, h, T, N) + D_cj(u, w, h, T, N), cj(u, w, h, T, N) == cj(s, w, h, T, N)
ALLR = z3.Function('ALLREACHED', AII, I, I, I, B)
def allr(T, N, a, b):
    """the conjunction of the operands reaches all entries from a to b in U (opaque)"""
    return ALLR(T, N, a, b)
def D_allr(u, w, T, N, a, b): return allr(T, N, a, b) == FA([_P, _K], Imp(And(u.live(_P), cj(u, w, _P, T, N), a <= _K, _K < b), inr(u, _P, _K)), MP(cj(u, w, _P, T, N), inr(u, _P, _K)))
def L_allr_half(u, w, T, N, v, b, Tb, x, y):
    return Imp(And(opsok(w, T, N, v), v < BOTX, cofops(w, T, Tb, v, b, N), allr(Tb, N, x, y), x >= 2), allr(T, N, x, y))
def L_allr_direct(s, w, h, T, N, x, y): return Imp(And(s.live(h), cj(s, w, h, T, N), FA(_K, Imp(And(x <= _K, _K < y), inr(s, h, _K)), inr(s, h, _K)), x >= 2), allr(T, N, x, y))
def L_allr_join(T, N, x, y, z): return Imp(And(allr(T, N, x, y), allr(T, N, y, z)), allr(T, N, x, z))
class AllReached(MeldLemma):
    key = 'lemma: entries reached from the conjunction'
    uses = (Cofactors.key, Unique.key, Keep.key, KeepConj.key)
    def prove(self, ex):
        s, w, N, v, h, T, _ = self.start(ex)
        u = SV(U_state(ex.st))
        facts = self.base + [f for _, f in SF_clauses(u.st)] + [later(u, s)]
        x, y, z, p, k = [ex.fresh(n, I) for n in 'xyzpk']
        def goal(T, x, y): return inr(u, p, k)
        asm = lambda T, x, y: [u.live(p), cj(u, w, p, T, N), x <= k, k < y]
        for b in (0, 1):
            Tb = ex.fresh('Tb', AII); pb = ex.fresh('pb', I)
            start = [L_allr_half(u, w, T, N, v, b, Tb, x, y).arg(0)]
            ch = u.hi(p) if b else u.lo(p)
            live = [u.live(p), x <= k, k < y] + [f for _, f in SF_clauses(u.st)]
            step = Imp(L_cof(u, w, p, T, N, v, b, Tb).arg(0), cj(u, w, pb, Tb, N))
            for name, case in (('the variable', [u.ix(p) == v, pb == ch]), ('another variable', [u.ix(p) != v, pb == p])):
                yield f'cofactor {b}: {name}, conjunction', start + [step, u.live(p), cj(u, w, p, T, N)], cj(u, w, pb, Tb, N)
                yield f'cofactor {b}: {name}, alive', case + live + [v < BOTX], u.live(pb)
                yield f'cofactor {b}: {name}, reached', start + [D_allr(u, w, Tb, N, x, y), cj(u, w, pb, Tb, N), u.live(pb), x <= k, k < y, inr(u, pb, k) == inr(u, pb, k)], inr(u, pb, k)
                yield f'cofactor {b}: {name}', case + live + [v < BOTX, inr(u, pb, k)] + L_reach_at(u, p) + [inr(u, p, k) == inr(u, p, k)], inr(u, p, k)
        yield 'an existing conjunction', facts + [L_allr_direct(s, w, h, T, N, x, y).arg(0), L_keep_r(u, s), L_keep_cj(u, s, w, N), L_uniq(u, w, h, p, T, N), inr(s, h, k) == inr(s, h, k)] + asm(T, x, y) + L_reach(s) + L_reach(u), inr(u, p, k)
        yield 'intervals', facts + [allr(T, N, x, y), allr(T, N, y, z), D_allr(u, w, T, N, x, y), D_allr(u, w, T, N, y, z)] + asm(T, x, z) + [inr(u, p, k) == inr(u, p, k)], inr(u, p, k)
LEMMAS = (SIndep.key, SValEv.key, SCanon.key, CIndep.key, CVal.key, Order.key, Cofactors.key, Compose.key, Unique.key, Terminals.key, Keep.key, Trans.key, KeepConj.key, AllReached.key)
def light(w):
    """what the recursion needs to know about stored BDDs"""
    i = _I
    ok = And(0 <= i, i < w.n)
    return [FA(i, Imp(ok, And(0 <= w.ix(i), w.ix(i) <= TOPX)), w.ix(i)), FA(i, Imp(ok, And((w.lo(i) == w.hi(i)) == (w.ix(i) >= BOTX),
        Imp(w.ix(i) < BOTX, And(i < w.lo(i), w.lo(i) < w.n, i < w.hi(i), w.hi(i) < w.n, w.ix(i) < w.ix(w.lo(i)), w.ix(i) < w.ix(w.hi(i)))))), w.lo(i), w.hi(i))]
class Light(sx.Lemma):
    key = 'lemma: instructions of stored BDDs'
    def prove(self, ex):
        col_world(ex)
        w = W(ex.st); i = ex.fresh('i', I)
        yield 'instruction', colfacts(ex.st) + [0 <= i, i < w.n, w.lo(i) == w.lo(i), w.ix(i) == w.ix(i)], And(*[z3.substitute_vars(x.body(), i).arg(1) for x in light(w)])
def apply(ex, name, cond, hyp, concl):
    """application of a lemma: its hypotheses are obligations"""
    ex.oblige_assume('lemma hypothesis: ' + name, Imp(cond, hyp))
    ex.assume(Imp(cond, concl))
def L_reach_at(s, p): return [Imp(s.inner(p), And(inr(s, p, p), FA(_K, Imp(Or(inr(s, s.lo(p), _K), inr(s, s.hi(p), _K)), inr(s, p, _K)), inr(s, s.lo(p), _K), inr(s, s.hi(p), _K), inr(s, p, _K)))),
                              FA(_K, And(Not(inr(s, s.bot, _K)), Not(inr(s, s.top, _K))), inr(s, s.bot, _K), inr(s, s.top, _K))]
class Impl(Contract):
    """recursion of the conjunction: operands T (N instructions)"""
    modifies = [r'C\.stack.*', r'C\.reduction.*', r'G\.sval', r'G\.snode']
    reveal = ('SF', 'RED')
    uses = LEMMAS + (Light.key,)
    def N(self, c): raise NotImplementedError
    def T(self, c): raise NotImplementedError
    def gen(self, c): raise NotImplementedError        # the remembered results
    def lim(self, c): raise NotImplementedError
    def memo(self, c, st):
        w, s, t, N = W(st), SV(st), _T, self.N(c)
        g = self.gen(c)
        r = z3.Select(st[g + '{}'], t)
        return [('remembered results are conjunctions', FA(t, Imp(z3.Select(st[g + '?'], t), And(2 <= r, r < s.n, cj(s, w, r, t, N))), z3.Select(st[g + '?'], t)))]
    def pre(self, c):
        w, s = W(c.st), SV(c.st)
        return [('operands', opsok(w, self.T(c), self.N(c))), ('limit', And(s.n <= self.lim(c), self.lim(c) < 2 ** 64))] + inv(c, ('CS', 'CO', 'SF', 'RED')) + self.memo(c, c.st)
    def post(self, c):
        w, s, o, T, N, lim = W(c.st), SV(c.st), SV(c.old), self.T(c), self.N(c), self.lim(c)
        p, k, r = _P, _K, named(c.ex, c.r)
        same = lambda f: FA(p, Imp(o.live(p), getattr(s, f)(p) == getattr(o, f)(p)), getattr(s, f)(p))
        ok = r != MAX
        return [('entries stay', And(o.n <= s.n))] + [(f'{f} of entries unchanged', same(f)) for f in ('lo', 'hi', 'ix', 'val')] + inv(c, ('SF',)) + \
            [(a, Imp(ok, f)) for a, f in inv(c, ('RED',)) + self.memo(c, c.st)] + [
            ('an entry', Imp(ok, And(0 <= r, r < s.n, s.n <= lim))),
            ('result is the conjunction', Imp(ok, cj(s, w, r, T, N))),
            ('all new entries are below the result', Imp(ok, FA(k, Imp(And(o.n <= k, k < s.n), inr(s, r, k)), inr(s, r, k)))),
            ('if it gives up, there are more entries than the limit', Imp(Not(ok), s.n > lim)),
            ('and the conjunction reaches all new entries, wherever it is completed', Imp(And(Not(ok), lat(s), U_OK), allr(T, N, o.n, s.n)))]
    def decreases(self, c): raise NotImplementedError
    def assume(self, c): return light(W(c.st))
    def ghost_exit(self, c):
        ex, st = c.ex, c.st
        w, o, T, N = W(st), SV(c.old), self.T(c), self.N(c)
        # the entry that was pushed, if any
        ks = [k for nm, k in c.calls if '::bdd_and_impl' in nm]
        pushed = len(ks) == 2 and not st['C.stack[].lo'].eq(ks[1].after['C.stack[].lo'])
        if pushed:
            s = SV(st); p = s.n - 1
            setg(c, 'G.sval', z3.Store(st['G.sval'], p, If(z3.Select(A, s.ix(p)), s.val(s.hi(p)), s.val(s.lo(p)))))
            setg(c, 'G.snode', z3.Store(st['G.snode'], s.trip(p), p))
        s = SV(c.ex.st)
        A_ = ex.assume
        if not ks:
            for x in L_term(s, w, T, N): A_(x)
            return
        if len(ks) > 2: return
        T_ = z3.BoolVal(True)
        v = ex.fresh('v', I)
        A_(v == self.least(c))
        ops = [self.T(k) for k in ks]
        olds, news, rs = [SV(k.old) for k in ks], [SV(k.after) for k in ks], [named(ex, k.r) for k in ks]
        apply(ex, 'least index', T_, And(v < BOTX, opsok(w, T, N, v)), T_)
        for b, k in enumerate(ks):
            apply(ex, f'cofactor {b} of the operands', T_, And(cofops(w, T, ops[b], v, b, N), opsok(w, ops[b], N, v + 1)), T_)
            # L_ord, L_allr_half
            A_(Imp(rs[b] != MAX, news[b].ix(rs[b]) >= v + 1))
            A_(Imp(And(U_OK, allr(ops[b], N, olds[b].n, news[b].n)), allr(T, N, olds[b].n, news[b].n)))
        # later stacks: L_trans, L_keep_cj, L_keep_r
        chain = news + ([s] if pushed else [])
        for b in range(len(chain) - 1):
            x, y = chain[b], chain[b + 1]
            apply(ex, 'entries stay', T_, later(y, x), Imp(lat(y), lat(x)))
        for b, k in enumerate(ks):
            x = news[b]
            y = chain[-1]
            for z in ([s] if pushed else []) + ([news[1]] if b == 0 and len(ks) == 2 else []):
                ok = And(rs[b] != MAX)
                if not (z.lo_.eq(x.lo_) and z.n.eq(x.n)):
                    apply(ex, 'entries stay', T_, later(z, x), Imp(ok, And(cj(z, w, rs[b], ops[b], N) == cj(x, w, rs[b], ops[b], N), Imp(x.inner(rs[b]), rch(z, rs[b]) == rch(x, rs[b])))))
            # L_allr_direct
            A_(Imp(And(rs[b] != MAX, U_OK, lat(x)), allr(ops[b], N, olds[b].n, x.n)))
        for x in news: A_(L_reach_at(x, iv(0))[1])
        if pushed: apply(ex, 'entries stay', T_, later(s, news[1]), L_keep_cj(s, news[1], w, N).arg(1))
        for b, x in enumerate(news):
            t = inr(x, rs[b], olds[b].n)
            A_(Imp(x.term(rs[b]), Not(t)))
            ex.oblige_assume('a result with new entries below it is an inner node', Imp(And(rs[b] != MAX, x.n > olds[b].n), x.inner(rs[b])))
        if len(ks) < 2: return
        A_(Imp(U_OK, L_allr_join(T, N, olds[0].n, news[0].n, news[1].n)))
        h = named(ex, s.n - 1 if pushed else c.r)
        cond = T_ if pushed else And(h != MAX)
        for x in L_reach_at(s, h): A_(Imp(cond, x))
        # L_comp
        apply(ex, 'a node over the cofactors', And(cond, rs[0] != MAX, rs[1] != MAX), Or(And(h == rs[0], h == rs[1]), And(s.inner(h), s.ix(h) == v, s.lo(h) == rs[0], s.hi(h) == rs[1])), cj(s, w, h, T, N))
        # L_allr_direct
        if pushed: apply(ex, 'all new entries are below the pushed one', T_, FA(_K, Imp(And(o.n <= _K, _K < s.n), inr(s, h, _K)), inr(s, h, _K)), Imp(And(U_OK, lat(s)), allr(T, N, o.n, s.n)))
class Impl2(Impl):
    key = CC + 'bdd_and_impl(size_t,size_t,size_t)'
    modifies = Impl.modifies + [r'C\.generated_nodes.*']
    def world(self, ex): return stack_world(ex), [ex.fresh(n, I) for n in ('f', 'g', 'limit')]
    def N(self, c): return iv(2)
    def T(self, c): return named(c.ex, z3.Store(z3.Store(z3.K(I, iv(0)), 0, c.arg(0)), 1, c.arg(1)))
    def gen(self, c): return 'C.generated_nodes'
    def lim(self, c): return c.arg(2)
    def least(self, c): w = W(c.st); a, b = w.ix(at(self.T(c), iv(0))), w.ix(at(self.T(c), iv(1))); return If(a <= b, a, b)
    def decreases(self, c): return [2 * W(c.st).n - c.arg(0) - c.arg(1)]
class Interval(sx.Lemma):
    """a set that contains the numbers from 2 to k-1 has at least k-2 elements (induction on k; CARD is monotone)"""
    key = 'lemma: number of elements of an interval'
    def set(self, ex, k):
        S_ = ex.fresh('interval', ABI)
        ex.assume(FA(_Q, z3.Select(S_, _Q) == And(2 <= _Q, _Q < k), z3.Select(S_, _Q)))
        return S_
    def prove(self, ex):
        k = ex.fresh('k', I)
        s2, s0, s1 = self.set(ex, iv(2)), self.set(ex, k), self.set(ex, k + 1)
        F = z3.K(I, z3.BoolVal(False))
        yield 'empty', list(ex.facts), s2 == F
        yield 'no elements', [s2 == F, L_card(s2, iv(0))], CARD(s2) == 0
        yield 'one more', list(ex.facts) + [k >= 2], s1 == z3.Store(s0, k, True)
        yield 'one element more', list(ex.facts) + [k >= 2, s1 == z3.Store(s0, k, True), L_card(s0, k), CARD(s0) == k - 2], CARD(s1) == k + 1 - 2
    def atleast(self, ex, X, k):
        """application to the set X"""
        S_ = self.set(ex, k)
        ex.assume(Imp(k >= 2, CARD(S_) == k - 2))
        ex.assume(Imp(FA(_Q, Imp(z3.Select(S_, _Q), z3.Select(X, _Q)), z3.Select(S_, _Q)), CARD(S_) <= CARD(X)))
INTERVAL = Interval()
class And_(Contract):
    """conjunction of stored BDDs; operands T: first instructions of the BDDs"""
    modifies = MOD_COL + [r'G\.sval', r'G\.snode']
    reveal = ('CS', 'CO', 'CT', 'SF', 'RED')
    uses = LEMMAS + (INTERVAL.key,)
    def N(self, c): raise NotImplementedError
    def T(self, c): raise NotImplementedError
    def nrs(self, c):
        """constraint: all operands are stored BDDs"""
        raise NotImplementedError
    def lim(self, c): raise NotImplementedError
    def pre(self, c):
        for g, so in (('G.sval', ABI), ('G.snode', z3.ArraySort(K3, I))):
            if g not in c.st: c.st[g] = c.ex.fresh(g, so)
        return [('operands are stored BDDs', self.nrs(c)), ('a limit', And(2 < self.lim(c), self.lim(c) < 2 ** 64))] + inv(c, COLINV)
    def ghost_entry(self, c):
        setg(c, 'G.sval', z3.Store(z3.Store(c.ex.fresh('G.sval', ABI), 0, z3.BoolVal(False)), 1, z3.BoolVal(True)))
    def call(self, c):
        ks = [k for nm, k in c.calls if '::bdd_and_impl' in nm]
        if len(ks) != 1: raise Unsupported('recursion of the conjunction')
        return ks[0]
    def root(c):
        """what is known about the stack after the recursion: its last entry is the root"""
        ex, me = c.ex, c.ex.contract
        k = me.call(c); s = SV(k.after); w = W(k.after); r = named(ex, k.r)
        ex.assume(L_reach_at(s, r)[1])
        A_ = ex.assume
        base = len(ex.facts)
        L_ind(ex, s, r, lambda q: And(2 <= q, q <= r))
        A_(Imp(s.term(r), Not(inr(s, r, iv(2)))))
        A_(inr(s, r, s.n - 1) == inr(s, r, s.n - 1)); A_(Imp(inr(s, r, s.n - 1), And(s.n - 1 <= r)))
        return k, s, w, r
    def out(c):
        k = c.ex.contract.call(c); s, o, w = SV(c.st), W(c.pre), W(c.st)
        j, x = c.ivar(), _I
        off, m = o.n, s.n - 1 - j
        p = s.n - 1 - (x - off)
        return [('entries copied', And(-1 <= j, j <= s.n - 1, w.n == off + m))] + [(f'{f} of stored instructions unchanged', FA(x, Imp(And(0 <= x, x < off), getattr(w, f)(x) == getattr(o, f)(x)), getattr(w, f)(x))) for f in ('lo', 'hi', 'ix')] + [
                ('variables', FA(x, Imp(And(off <= x, x < w.n), w.ix(x) == s.ix(p)), w.ix(x))),
                ('arcs', FA(x, Imp(And(off <= x, x < w.n), If(p >= 2, And(w.lo(x) == off + s.n - 1 - s.lo(p), w.hi(x) == off + s.n - 1 - s.hi(p)), w.lo(x) == w.hi(x))), w.lo(x), w.hi(x)))]
    def outhead(c):
        """the last entry is the root"""
        k, s, w, r = And_.root(c)
        c.ex.oblige_assume('the last entry is the root', And(0 <= r, r < s.n, Or(r == s.n - 1, And(r == 0, s.n == 2))))
    def outdone(c):
        ex, st = c.ex, c.ex.st
        if ex.ghost.get('melded'): return
        ex.ghost['melded'] = True
        k = ex.contract.call(c); s, o, w = SV(k.after), W(c.pre), W(st)
        off, b = o.n, o.nb; i, t = _I, z3.Const('t!', K3)
        sz = s.n
        cb, cv, cn = ex.fresh('G.cb', AII), ex.fresh('G.cval', ABI), ex.fresh('G.cn', st['G.cn'].sort())
        p = sz - 1 - (i - off)
        ex.assume(FA(i, z3.Select(cb, i) == If(i >= off, b, o.cb(i)), z3.Select(cb, i)))
        ex.assume(FA(i, z3.Select(cv, i) == If(i >= off, If(p >= 2, s.val(p), w.ix(i) == TOPX), o.val(i)), z3.Select(cv, i)))
        e = off + sz - 1
        ex.assume(FA(t, z3.Select(cn, t) == If(K3.k0(t) >= off, e - s.node(K3.k3(e - K3.k0(t), e - K3.k1(t), K3.k2(t))), o.cn(t)), z3.Select(cn, t)))
        ex.st['G.cb'], ex.st['G.cval'], ex.st['G.cn'] = cb, cv, cn
        ex.st['G.be'] = z3.Store(st['G.be'], b, off + sz)
        ex.st['G.bs'] = z3.Store(st['G.bs'], b + 1, off + sz)
    loops = []
    def ghost_exit(self, c):
        ex = c.ex
        k = self.call(c); s, w, r, u = SV(k.after), W(k.after), named(ex, k.r), SV(U_state(k.after))
        T, N = self.T(c), self.N(c)
        f = SVALEV
        ok = r != MAX
        for x in D_cj(s, w, r, T, N): ex.assume(Imp(ok, x))
        ex.assume(Imp(And(ok, s.live(r)), s.val(r) == ev(s, A, r)))       # SVALEV
        ex.assume(D_conja(w, A, T, N))
        ex.assume(FA(_I, Imp(And(0 <= _I, _I < w.n), w.val(_I) == evc(w, A, _I)), evc(w, A, _I)))       # CVAL
        h = self.h = ex.fresh('h', I)        # any completed conjunction
        ex.assume(Imp(And(Not(ok), lat(s), U_OK), D_allr(u, w, T, N, iv(2), s.n)))
        INTERVAL.atleast(ex, rch(u, h), s.n)
        ex.assume(inr(u, h, iv(2)) == inr(u, h, iv(2)))
    def post(self, c):
        o, w, N, lim, r = W(c.old), W(c.st), self.N(c), self.lim(c), c.r
        ok = r != MAX
        out = [(a, f) for a, f in CEXT(c) + inv(c, COLINV)] + [
            ('if it gives up the collection is unchanged', Imp(Not(ok), And(w.n == o.n, w.nd == o.nd))),
            ('one BDD is appended', Imp(ok, And(r == o.nb, w.nb == o.nb + 1, w.bs(r) == o.n))),
            ('within the limit', Imp(ok, w.be(r) - w.bs(r) <= lim)),
            ('without limit it succeeds', Imp(lim == MAX, ok)),
            ('it is the conjunction', Imp(ok, w.val(w.bs(r)) == self.conj(c)))]
        if not c.body: return out
        k = self.call(c); s, u = SV(k.after), SV(U_state(k.after))
        h = self.h
        return out + [('if it gives up the conjunction has more nodes than the limit, wherever it is completed', Imp(And(Not(ok), lat(s), U_OK, u.live(h), cj(u, W(k.after), h, self.T(c), N)), CARD(rch(u, h)) + 2 > lim))]
    def conj(self, c): raise NotImplementedError
class And2(And_):
    key = CC + 'bdd_and(size_t,size_t,size_t)'
    def world(self, ex): return stack_world(ex), [ex.fresh(n, I) for n in ('i', 'j', 'limit')]
    def N(self, c): return iv(2)
    def T(self, c): w = W(c.old); return named(c.ex, z3.Store(z3.Store(z3.K(I, iv(0)), 0, w.d(c.arg(0))), 1, w.d(c.arg(1))))
    def nrs(self, c): w = W(c.st); return And(*[And(0 <= c.arg(j), c.arg(j) < w.nb) for j in (0, 1)])
    def lim(self, c): return c.arg(2)
    def conj(self, c): o = W(c.old); return And(o.val(o.bs(c.arg(0))), o.val(o.bs(c.arg(1))))
    loops = [LoopSpec(inv=And_.out, name='copy', ghost_head=And_.outhead, ghost_exit=And_.outdone, decreases=lambda c: c.ivar() + 1)]
class And2Int(And2):
    """passes everything on"""
    key = CC + 'bdd_and(int,int,size_t)'
    reveal = ()
    uses = ()
    loops = []
    def ghost_entry(self, c): pass
    def ghost_exit(self, c): pass
    def post(self, c): return [(a, f) for a, f in And_.post(self, self.client(c))]
    def client(self, c):
        d = Ctx(c.ex, c.st, c.old, c.this, c.args, c.ret)
        d.body = False
        return d
class EAnd(EntryQuery):
    key = EN + 'operator&'
    modifies = And_.modifies
    reveal = ()
    groups = COLINV
    def extra(self, ex):
        ex.st['G.sval'] = ex.fresh('G.sval', ABI); ex.st['G.snode'] = ex.fresh('G.snode', z3.ArraySort(K3, I))
        return [entry(ex, 'E2')]
    def req(self, c): return [('a stored BDD', self.isentry(c, 'E2'))]
    def post(self, c):
        r = c.ret if isinstance(c.ret, AggV) else c.ex.load(c.ret)
        if not isinstance(r.d.get('.bdd_col'), Ref) or r.d['.bdd_col'].p != 'C': return [('entry of the collection', z3.BoolVal(False))]
        o, w = W(c.old), W(c.st); b = r.d['.bdd_nr']
        return CEXT(c) + inv(c, COLINV) + [('one BDD is appended', And(b == o.nb, w.nb == o.nb + 1, w.bs(b) == o.n)),
            ('it is the conjunction', w.val(w.bs(b)) == And(o.val(o.bs(c.old['E.bdd_nr'])), o.val(o.bs(c.old['E2.bdd_nr']))))]
CONTRACTS = [SINDEP, SVALEV, SCANON, CINDEP, CVAL, Order(), Cofactors(), Compose(), Unique(), Terminals(), Keep(), Trans(), KeepConj(), AllReached(), Light(), Impl2(), INTERVAL, And2(), And2Int(), EAnd()]
