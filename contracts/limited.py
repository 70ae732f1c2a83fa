"""Contract of the conjunction with a node limit. The U columns are an arbitrary later state of the manager's nodes: the statement about
the failing case speaks about the conjunction in any such state, because it need not exist when the operation gives up."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV
from .ops import Op, MOD_NODES, MOD_MEMO, Contract
from .queries import rch, inr, L_reach, L_ind
from .solutions import ev, D_ev, L_ev, INDEP, CANON, NodeLemma, dw, _AL, _BV
M = 'BDD::bdd_mgr::'
MAX = 2 ** 64 - 1
CJF = z3.Function('CONJ', AII, AII, AII, I, I, I, I, I, B)
CJW = z3.Function('CONJW', AII, AII, AII, I, I, I, I, I, ABI)
_F, _G, _H = z3.Ints('f! g! h!')
def cols(s): return s.lo_, s.hi_, s.ix_, s.bot, s.top
def cj(s, h, f, g): return CJF(*cols(s), h, f, g)
def D_cj(s, h, f, g):
    """CONJ(h,f,g): h is the conjunction of f and g under every assignment"""
    w = CJW(*cols(s), h, f, g)
    e = lambda a: ev(s, a, h) == And(ev(s, a, f), ev(s, a, g))
    return [Imp(cj(s, h, f, g), FA(_AL, e(_AL), ev(s, _AL, h), ev(s, _AL, f), ev(s, _AL, g))), Or(cj(s, h, f, g), Not(e(w)))]
def cof(s, p, v, b): return If(s.ix(p) == v, s.hi(p) if b else s.lo(p), p)
def U_state(ex, s):
    """an arbitrary later state"""
    st = sx.State()
    for k, so in (('H[].lo', AII), ('H[].hi', AII), ('H[].index', AII), ('G.live', ABI), ('G.val', ABI), ('G.node', z3.ArraySort(K3, I)), ('G.alloc', ABI), ('M.vars#', I)): st[k] = z3.Const('U.' + k, so)
    for k in ('M.node_cache_.botsink_', 'M.node_cache_.topsink_'): st[k] = s.st[k]
    return st
def later(u, s):
    """u has all nodes of s, with the same children"""
    return And(u.bot == s.bot, u.top == s.top, FA(_P, Imp(s.live(_P), And(u.live(_P), u.lo(_P) == s.lo(_P), u.hi(_P) == s.hi(_P), u.ix(_P) == s.ix(_P))), s.live(_P)))
U_OK = z3.Const('U.forest', B)                     # the later state is a forest
LATER = z3.Function('LATER', ABI, AII, AII, AII, I, I, B)
def lat(s): return LATER(s.live_, *cols(s))          # U is later than s; opaque form of later(U, s)
def L_trans(s, o):
    st = s.st; d = later(s, o)
    return Imp(And(lat(s), d), lat(o))
def forest(st): return And(*[f for _, f in F_clauses(st)])
def two(ex):
    mgr_world(ex)
    s = V(ex.st); ust = U_state(ex, s)
    return s, V(ust), [f for _, f in F_clauses(ex.st)] + [f for _, f in F_clauses(ust)] + [later(V(ust), s)]
def both_terms(s): return [FA(_AL, And(Not(ev(s, _AL, s.bot)), ev(s, _AL, s.top)), ev(s, _AL, s.bot), ev(s, _AL, s.top))]

def named(ex, t):
    if z3.is_const(t): return t
    x = ex.fresh('n', t.sort()); ex.assume(x == t)
    return x
class Keep(sx.Lemma):
    """values and reachable nodes of existing nodes are the same in later states"""
    key = 'lemma: existing nodes keep value and structure in later states'
    def ev_stmt(self, u, s, p, a=_AL): return ev(u, a, p) == ev(s, a, p)
    def prove(self, ex):
        s, u, facts = two(ex)
        p = ex.fresh('p', I); al = ex.fresh('al', ABI)
        ih = lambda f: [Imp(s.inner(p), f(s.lo(p))), Imp(s.inner(p), f(s.hi(p)))]
        D = [D_ev(x, al, y) for x in (s, u) for y in (p, s.lo(p), s.hi(p))]
        yield 'values', facts + [s.live(p)] + D + ih(lambda x: ev(u, al, x) == ev(s, al, x)), ev(u, al, p) == ev(s, al, p)
        base = list(ex.facts)
        for x in (s, u): L_ind(ex, x, p, lambda q, x=x: Or(q == p, inr(x, x.lo(p), q), inr(x, x.hi(p), q)))
        more = ex.facts[len(base):]; ex.facts = base
        yield 'reachable nodes', facts + [s.inner(p)] + L_reach(s) + L_reach(u) + more + ih(lambda x: Imp(Not(s.term(x)), FA(_Q, inr(u, x, _Q) == inr(s, x, _Q), inr(u, x, _Q), inr(s, x, _Q)))), FA(_Q, inr(u, p, _Q) == inr(s, p, _Q), inr(u, p, _Q), inr(s, p, _Q))
KEEPL = Keep()
def L_keep_r(u, s): return FA(_P, Imp(s.inner(_P), rch(u, _P) == rch(s, _P)), rch(u, _P), rch(s, _P))
def L_keep_cj(u, s): return Imp(later(u, s), FA([_H, _F, _G], Imp(And(s.live(_H), s.live(_F), s.live(_G)), cj(u, _H, _F, _G) == cj(s, _H, _F, _G)), cj(u, _H, _F, _G), cj(s, _H, _F, _G)))
class Trans(sx.Lemma):
    key = 'lemma: later states of later states are later'
    def prove(self, ex):
        s, u, facts = two(ex)
        st = U_state(ex, s); o = sx.State(st)
        for k in list(o): o[k] = z3.Const('O.' + k, o[k].sort()) if 'sink' not in k else o[k]
        yield 'transitive', [later(u, s), later(s, V(o))], later(u, V(o))
class KeepConj(sx.Lemma):
    key = 'lemma: conjunctions stay conjunctions in later states'
    uses = (Keep.key,)
    def prove(self, ex):
        s, u, facts = two(ex)
        h, f, g = [ex.fresh(x, I) for x in 'hfg']
        yield 'both directions', facts + [s.live(h), s.live(f), s.live(g), FA([_AL, _P], Imp(s.live(_P), ev(u, _AL, _P) == ev(s, _AL, _P)), ev(u, _AL, _P), ev(s, _AL, _P))] + D_cj(s, h, f, g) + D_cj(u, h, f, g), cj(u, h, f, g) == cj(s, h, f, g)
class OneNode(sx.Lemma):
    """state s, arbitrary nodes h, f, g"""
    uses = (Indep.key,) if False else ('lemma: independence of smaller variables', CANON.key)
    def start(self, ex):
        mgr_world(ex)
        s = V(ex.st)
        n = [ex.fresh(x, I) for x in 'hfg']
        return s, n, [f for _, f in F_clauses(ex.st)] + [s.live(x) for x in n] + INDEP.hyp(s) + both_terms(s)
def minv(s, f, g): return If(s.ix(f) <= s.ix(g), s.ix(f), s.ix(g))
def L_cof(s, h, f, g):
    v = minv(s, f, g)
    return Imp(And(s.live(h), s.live(f), s.live(g), Or(s.inner(f), s.inner(g)), cj(s, h, f, g)), And(s.ix(h) >= v, *[cj(s, cof(s, h, v, b), cof(s, f, v, b), cof(s, g, v, b)) for b in (0, 1)]))
class Cofactors(OneNode):
    key = 'lemma: the cofactors of a conjunction are the conjunctions of the cofactors'
    def prove(self, ex):
        s, (h, f, g), facts = self.start(ex)
        v, w = minv(s, f, g), s.ix(h)
        d = dw(s, s.lo(h), s.hi(h))
        facts = facts + [Or(s.inner(f), s.inner(g)), cj(s, h, f, g)] + D_cj(s, h, f, g)
        ins = []
        for b in (False, True):
            a = z3.Store(d, w, z3.BoolVal(b))
            ins += [D_ev(s, a, h)]
        low = And(s.ix(h) >= v)
        yield 'index', facts + ins + [CANON.stmt(s, s.lo(h), s.hi(h)), ev(s, d, f) == ev(s, d, f), ev(s, d, g) == ev(s, d, g)], low
        for b in (0, 1):
            hb, fb, gb = [ex.fresh('cof', I) for x in (h, f, g)]
            named = [y == cof(s, x, v, b) for x, y in ((h, hb), (f, fb), (g, gb))]
            c = CJW(*cols(s), hb, fb, gb)
            a = z3.Store(c, v, z3.BoolVal(bool(b)))
            yield f'cofactor {b}', facts + [low] + named + D_cj(s, hb, fb, gb) + [D_ev(s, a, x) for x in (h, f, g)] + [Imp(s.ix(x) > v, ev(s, a, x) == ev(s, c, x)) for x in (hb, fb, gb)], cj(s, hb, fb, gb)
def L_comp(s, h, f, g, r0, r1, fs, gs):
    v = minv(s, f, g)
    return Imp(And(s.live(h), s.live(f), s.live(g), s.live(r0), s.live(r1), Or(s.inner(f), s.inner(g)), *[And(fs[b] == cof(s, f, v, b), gs[b] == cof(s, g, v, b)) for b in (0, 1)], cj(s, r0, fs[0], gs[0]), cj(s, r1, fs[1], gs[1]),
                   Or(And(h == r0, h == r1), And(s.inner(h), s.ix(h) == v, s.lo(h) == r0, s.hi(h) == r1))), cj(s, h, f, g))
class Compose(OneNode):
    key = 'lemma: a node over the conjunctions of the cofactors is the conjunction'
    def prove(self, ex):
        s, (h, f, g), facts = self.start(ex)
        r0, r1 = ex.fresh('r', I), ex.fresh('r', I)
        v = minv(s, f, g); w = CJW(*cols(s), h, f, g)
        fs, gs = [[ex.fresh('cof', I) for b in (0, 1)] for x in (f, g)]
        pre = L_comp(s, h, f, g, r0, r1, fs, gs).arg(0)
        yield 'all assignments', facts + [pre] + D_cj(s, h, f, g) + D_cj(s, r0, fs[0], gs[0]) + D_cj(s, r1, fs[1], gs[1]) + [D_ev(s, w, x) for x in (h, f, g)], cj(s, h, f, g)
def L_uniq(s, f, g): return FA([_H, _K], Imp(And(s.live(_H), s.live(_K), cj(s, _H, f, g), cj(s, _K, f, g)), _H == _K), MP(cj(s, _H, f, g), cj(s, _K, f, g)))
class Unique(OneNode):
    key = 'lemma: there is one conjunction'
    def prove(self, ex):
        s, (h, f, g), facts = self.start(ex)
        k = ex.fresh('k', I); d = dw(s, h, k)
        yield 'unique', facts + [s.live(k), cj(s, h, f, g), cj(s, k, f, g)] + D_cj(s, h, f, g) + D_cj(s, k, f, g) + [CANON.stmt(s, h, k)], h == k
def L_simple(s, f, g):
    """terminal cases"""
    return [cj(s, f, f, f), cj(s, g, g, g), cj(s, g, s.top, g), cj(s, f, f, s.top), cj(s, s.bot, s.bot, g), cj(s, s.bot, f, s.bot), FA([_H, _F, _G], cj(s, _H, _F, _G) == cj(s, _H, _G, _F), cj(s, _H, _F, _G))]
class Simple(OneNode):
    key = 'lemma: conjunctions with equal or constant operands'
    uses = ()
    def prove(self, ex):
        s, (h, f, g), facts = self.start(ex)
        t = L_simple(s, f, g)
        ts = [(f, f, f), (g, g, g), (g, s.top, g), (f, f, s.top), (s.bot, s.bot, g), (s.bot, f, s.bot)]
        for x, (a, b, c) in zip(t, ts): yield 'operands ' + str((a, b, c)).replace('\n', ''), facts + D_cj(s, a, b, c), x
        yield 'exchange', facts + D_cj(s, h, f, g) + D_cj(s, h, g, f), cj(s, h, f, g) == cj(s, h, g, f)
def L_sub(s, h):
    """the nodes below are among the nodes (the cardinality of a finite set is monotone)"""
    out = []
    for x in (s.lo(h), s.hi(h)):
        out.append(Imp(FA(_Q, Imp(inr(s, x, _Q), inr(s, h, _Q)), inr(s, x, _Q)), CARD(rch(s, x)) <= CARD(rch(s, h))))
    return out

ATL = z3.Function('ATLEAST', I, I, I, I, I, B)
def atl(u, f, g, lim):
    """the conjunction of f and g has at least lim nodes in U (opaque)"""
    return ATL(u.bot, u.top, f, g, lim)
def D_atl(u, f, g, lim):
    x = FA(_H, Imp(And(u.live(_H), cj(u, _H, f, g)), CARD(rch(u, _H)) >= lim), cj(u, _H, f, g))
    return atl(u, f, g, lim) == x
def L_atl_half(u, f, g, lim, fb, gb, b):
    v = minv(u, f, g)
    return Imp(And(u.live(f), u.live(g), Or(u.inner(f), u.inner(g)), fb == cof(u, f, v, b), gb == cof(u, g, v, b), atl(u, fb, gb, lim)), atl(u, f, g, lim))
def L_atl_direct(u, s, x, f, g, lim):
    return Imp(And(s.live(x), s.live(f), s.live(g), cj(s, x, f, g), CARD(rch(s, x)) >= lim), atl(u, f, g, lim))
class AtLeastLemmas(sx.Lemma):
    key = 'lemma: the conjunction has at least as many nodes as its cofactors'
    uses = (Cofactors.key, Unique.key, Keep.key, KeepConj.key)
    def prove(self, ex):
        s, u, facts = two(ex)
        f, g, fb, gb, lim, h, x = [ex.fresh(n, I) for n in ('f', 'g', 'fb', 'gb', 'lim', 'h', 'x')]
        for b in (0, 1):
            pre = L_atl_half(u, f, g, lim, fb, gb, b).arg(0)
            yield f'cofactor {b}', facts + [pre, D_atl(u, fb, gb, lim), D_atl(u, f, g, lim), FA(_H, And(L_cof(u, _H, f, g), *L_sub(u, _H)), cj(u, _H, f, g))] + L_reach(u), atl(u, f, g, lim)
        yield 'exchange', facts + [D_atl(u, f, g, lim), D_atl(u, g, f, lim), L_simple(u, f, g)[-1], atl(u, g, f, lim)], atl(u, f, g, lim)
        pre = L_atl_direct(u, s, x, f, g, lim).arg(0)
        yield 'an existing conjunction', facts + [pre, D_atl(u, f, g, lim), L_keep_cj(u, s), L_keep_r(u, s), L_uniq(u, f, g)] + L_reach(s) + L_reach(u), atl(u, f, g, lim)

class AndLimited(Op):
    key = M + 'and_rec_limited'
    modifies = MOD_NODES + MOD_MEMO
    uses = (Keep.key, KeepConj.key, Trans.key, Cofactors.key, Compose.key, Unique.key, Simple.key, AtLeastLemmas.key)
    def for_all(self, s, f, g, h, r): return Imp(And(h == 1, r != 0), cj(s, r, f, g))
    def world(self, ex):
        m, a = Op.world(self, ex)
        return m, a + [ex.fresh('limit', I)]
    def pre(self, c): return Op.pre(self, c) + [('limit', And(0 <= c.arg(2), c.arg(2) < 2 ** 64))]
    def assume(self, c):
        s = V(c.st)
        return L_reach(s)
    def res(self, c):
        r = c.ret
        if isinstance(r, Ref): r = c.ex.load(r, c.st)
        if not isinstance(r, sx.AggV) or set(r.d) != {'.0.ref', '.1'}: raise Unsupported('result pair')
        return r.d['.0.ref'], r.d['.1']
    def U(self, c): return U_state(c.ex, V(c.st))
    def post(self, c):
        s = V(c.st); f, g = c.n(0), c.n(1); lim = c.arg(2)
        r, n = self.res(c)
        f, g = [named(c.ex, x) for x in (f, g)]
        ust = self.U(c); u = V(ust)
        return inv(c, self.groups) + EXT(c) + [
            ('null exactly with the largest size', And((r == 0) == (n == MAX))),
            ('result is a node', Imp(r != 0, s.live(r))),
            ('result has the value of the conjunction', Imp(r != 0, s.val(r) == And(s.val(f), s.val(g)))),
            ('order', Imp(r != 0, Or(s.ix(r) >= TERM_TOP, s.ix(r) >= s.ix(f), s.ix(r) >= s.ix(g)))),
            ('result is the conjunction under every assignment', Imp(r != 0, cj(s, r, f, g))),
            ('the number of its nodes, below the limit', Imp(r != 0, And(n == CARD(rch(s, r)), n < lim))),
            ('if it gives up, the conjunction has at least as many nodes as the limit, wherever it appears', Imp(And(r == 0, lat(s), U_OK), atl(u, f, g, lim)))]
    def ghost_exit(self, c):
        ex = c.ex; s = V(c.st); f, g = c.n(0), c.n(1)
        u = V(self.U(c)); h = None
        A_ = ex.assume
        for x in L_simple(s, f, g): A_(x)
        states = [k.old for _, k in c.calls] + [k.after for _, k in c.calls]
        seen = set()
        for st in states:
            o = V(st)
            key = tuple(x.get_id() for x in cols(o))
            if key in seen or key == tuple(x.get_id() for x in cols(s)): continue
            seen.add(key)
            A_(L_keep_cj(s, o))
            A_(L_trans(s, o))
        A_(Imp(lat(s), later(u, s)))
        lim = c.arg(2)
        A_(atl(u, f, g, lim) == atl(u, g, f, lim))
        for nm, k in c.calls:
            if nm.endswith('nr_nodes()'): A_(Imp(And(U_OK, lat(s)), L_atl_direct(u, s, k.p, f, g, lim)))
        ks = [k for nm, k in c.calls if '::and_rec_limited' in nm]
        for b, k in enumerate(ks):
            if b < 2: A_(Imp(And(U_OK, lat(s)), L_atl_half(u, f, g, lim, k.n(0), k.n(1), b)))
        if len(ks) == 2:
            rs = [self.res(k)[0] for k in ks]
            for nm, k in c.calls:
                if '::unique_find' in nm: A_(L_comp(s, k.ret, f, g, rs[0], rs[1], [x.n(0) for x in ks], [x.n(1) for x in ks]))
CONTRACTS = [KEEPL, KeepConj(), Trans(), Cofactors(), Compose(), Unique(), Simple(), AtLeastLemmas(), AndLimited()]
