"""Contracts of the structural queries. RCH(..., p) is the set of inner nodes reachable from p (the least set that contains p and the
inner children of its elements); CM counts the marked nodes, CARD the elements of a finite set."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV
from .store import setg
N = 'BDD::node_struct::'
RCH = z3.Function('RCH', AII, AII, I, I, I, ABI)
CM = z3.Function('CM', AII, I)
def rch(s, p): return RCH(s.lo_, s.hi_, s.bot, s.top, p)
def inr(s, p, q): return z3.Select(rch(s, p), q)
def L_reach(s):
    """definition of reachability, without the induction principle"""
    p, q = _P, _Q
    return [CARD(rch(s, s.bot)) == 0, CARD(rch(s, s.top)) == 0, FA(q, And(Not(inr(s, s.bot, q)), Not(inr(s, s.top, q))), inr(s, s.bot, q), inr(s, s.top, q)),
            FA(p, Imp(Not(s.term(p)), inr(s, p, p)), rch(s, p)),
            FA([p, q], Imp(inr(s, p, q), And(Not(s.term(q)), Or(s.term(s.lo(q)), inr(s, p, s.lo(q))), Or(s.term(s.hi(q)), inr(s, p, s.hi(q))))), MP(inr(s, p, q), s.lo(q)), MP(inr(s, p, q), s.hi(q))),
            FA([p, q], Imp(And(s.inner(p), Or(inr(s, s.lo(p), q), inr(s, s.hi(p), q))), inr(s, p, q)), inr(s, s.lo(p), q), inr(s, s.hi(p), q)),
            FA([p, q], Imp(And(s.inner(p), inr(s, p, q)), And(s.inner(q), s.ix(q) >= s.ix(p), Or(q == p, s.ix(q) > s.ix(p)))), inr(s, p, q))]
def L_ind(ex, s, p, member):
    """induction: a set with p that is closed under inner children of reachable nodes contains everything reachable; member(q) defines the set"""
    S_ = ex.fresh('S', ABI); q = _Q
    at = lambda x: z3.Select(S_, x)
    ex.assume(FA(q, at(q) == member(q), at(q)))
    base = Or(s.term(p), at(p))
    step = FA(q, Imp(And(inr(s, p, q), at(q)), And(Or(s.term(s.lo(q)), at(s.lo(q))), Or(s.term(s.hi(q)), at(s.hi(q))))), inr(s, p, q))
    ex.assume(Imp(And(base, step), FA(q, Imp(inr(s, p, q), at(q)), inr(s, p, q))))
_MA = z3.Const('ma!q', AII)
L_cm_small = FA(_MA, And(0 <= CM(_MA), CM(_MA) < 2 ** 60), CM(_MA))       # fewer than 2^60 nodes
def L_cm(m0, m1, p):
    on = lambda m: If(z3.Select(m, p) != 0, iv(1), iv(0))
    return Imp(m1 == z3.Store(m0, p, z3.Select(m1, p)), CM(m1) == CM(m0) + on(m1) - on(m0))
def L_cm_set(m0, m1, R):
    """the marked nodes of m1 are those of m0 and, disjoint from them, R"""
    q = _Q
    return Imp(FA(q, And((z3.Select(m1, q) != 0) == Or(z3.Select(m0, q) != 0, z3.Select(R, q)), Imp(z3.Select(R, q), z3.Select(m0, q) == 0)), z3.Select(m1, q), z3.Select(R, q)), CM(m1) == CM(m0) + CARD(R))

class Query(Contract):
    modifies = [r'H\[\]\.marked_']
    reveal = ('F', 'MK')
    def world(self, ex):
        mgr_world(ex)
        return Ref('H[]', (ex.fresh('p', I),)), []
    def assume(self, c): return L_reach(V(c.st)) + [L_cm_small]
    def decreases(self, c): return [MAXIX - V(c.st).ix(c.p)]
class Visit(Query):
    """recursive visits that mark what they have seen"""
    def pre(self, c):
        s = V(c.st); p = c.p
        return [('a node', s.live(p)), ('not marked', Or(s.term(p), s.mark(p) == 0))] + inv(c, ('F',))
    def none_marked(self, o): return FA(_Q, Imp(o.live(_Q), o.mark(_Q) == 0), o.mark(_Q))
    def marks(self, c):
        s, o, p, q = V(c.st), V(c.old), c.p, _Q
        m0, m1 = o.mark, s.mark
        return [('the root is marked', Or(s.term(p), m1(p) == 1)),
            ('only reachable nodes get marked', FA(q, Or(m1(q) == m0(q), And(m0(q) == 0, m1(q) == 1, inr(s, p, q))), m1(q))),
            ('children of marked nodes are marked', FA(q, Imp(And(m0(q) == 0, m1(q) != 0), And(Or(s.term(s.lo(q)), m1(s.lo(q)) != 0), Or(s.term(s.hi(q)), m1(s.hi(q)) != 0))), MP(m1(q), s.lo(q)), MP(m1(q), s.hi(q)))),
            ('exactly the reachable nodes get marked if nothing was marked', Imp(self.none_marked(o), FA(q, Imp(inr(s, p, q), And(m0(q) == 0, m1(q) == 1)), inr(s, p, q))))]
    def ghost_exit(self, c):
        s, o = V(c.st), V(c.old)
        ex = c.ex
        L_ind(ex, s, c.p, lambda q: s.mark(q) != 0)
        for k in c.calls: ex.assume(L_cm(o.mark_, k[1].old['H[].marked_'], c.p))
        ex.assume(L_cm(o.mark_, s.mark_, c.p))
        ex.assume(L_cm_set(o.mark_, s.mark_, rch(s, c.p)))
class NrImpl(Visit):
    key = N + 'nr_nodes_impl'
    def post(self, c):
        s, o = V(c.st), V(c.old)
        return self.marks(c) + [('the result is the number of nodes marked', c.r == CM(s.mark_) - CM(o.mark_)),
            ('it is the number of reachable nodes if nothing was marked', Imp(self.none_marked(o), c.r == CARD(rch(s, c.p))))]
class Unmark(Query):
    key = N + 'unmark'
    def pre(self, c): return [('a node', V(c.st).live(c.p))] + inv(c, ('F',))
    def post(self, c):
        s, o, p, q = V(c.st), V(c.old), c.p, _Q
        m0, m1 = o.mark, s.mark
        return [('the root is not marked', Or(s.term(p), m1(p) == 0)),
            ('only reachable nodes lose their mark', FA(q, Or(m1(q) == m0(q), And(m1(q) == 0, inr(s, p, q))), m1(q))),
            ('children of cleared nodes are cleared', FA(q, Imp(And(m0(q) != 0, m1(q) == 0), And(Or(s.term(s.lo(q)), m1(s.lo(q)) == 0), Or(s.term(s.hi(q)), m1(s.hi(q)) == 0))), MP(m1(q), s.lo(q)), MP(m1(q), s.hi(q)))),
            ('if all reachable nodes were marked none is', Imp(FA(q, Imp(inr(s, p, q), m0(q) != 0), inr(s, p, q)), FA(q, Imp(inr(s, p, q), m1(q) == 0), inr(s, p, q))))]
    def ghost_exit(self, c):
        s = V(c.st)
        L_ind(c.ex, s, c.p, lambda q: s.mark(q) == 0)
class Unmarked(Query):
    """queries that leave the marks as they were"""
    def pre(self, c): return [('a node', V(c.st).live(c.p))] + inv(c, ('F', 'MK'))
    def decreases(self, c): return None
    def post(self, c): return [('marks as before', FA(_Q, V(c.st).mark(_Q) == V(c.old).mark(_Q), V(c.st).mark(_Q)))] + inv(c, ('MK',)) + self.result(c)
class NrNodes(Unmarked):
    key = N + 'nr_nodes'
    def result(self, c): return [('number of reachable nodes', c.r == CARD(rch(V(c.st), c.p)))]
POS = 'G.pos'
def vp(c, i=0): return c.args[i].p
class ListVisit(Visit):
    """visits that also append to a list"""
    elt = 'std::vector<node_struct *>'
    def modifies(self, c): return [r'H\[\]\.marked_', r'G\.pos', sx.re.escape(vp(c)) + r'(#|\[\])']
    def world(self, ex):
        mgr_world(ex)
        ex.declare('B', self.elt)
        ex.st[POS] = ex.fresh('G.pos', AII)
        return Ref('H[]', (ex.fresh('p', I),)), [Ref('B')]
    def pos(self, st, q): return z3.Select(st[POS], q)
    def vec(self, c, st, k): return z3.Select(st[vp(c) + '[]'], k)
    def len(self, c, st): return st[vp(c) + '#']
    def listed(self, c, st): raise NotImplementedError
    def pre(self, c):
        return Visit.pre(self, c) + self.listed(c, c.st)
    def grown(self, c):
        s, o, q = c.st, c.old, _Q
        n0, n1 = self.len(c, o), self.len(c, s)
        return [('earlier entries stay', And(n0 <= n1, FA(_K, Imp(And(0 <= _K, _K < n0), self.vec(c, s, _K) == self.vec(c, o, _K)), self.vec(c, s, _K)))),
                ('positions of earlier entries stay', FA(q, Imp(V(o).mark(q) != 0, self.pos(s, q) == self.pos(o, q)), self.pos(s, q))),
                ('new entries are newly marked', FA(_K, Imp(And(n0 <= _K, _K < n1), self.is_new(c, self.vec(c, s, _K))), self.vec(c, s, _K))),
                ('one entry per marked node', n1 - n0 == CM(V(s).mark_) - CM(V(o).mark_)),
                ('as many entries as reachable nodes if nothing was marked', Imp(self.none_marked(V(o)), n1 - n0 == CARD(rch(V(s), c.p))))]
    def is_new(self, c, x): return And(V(c.old).mark(x) == 0, inr(V(c.st), c.p, x))
    def ghost_exit(self, c):
        self.put(c)
        c.st = c.ex.st
        Visit.ghost_exit(self, c)
class PostImpl(ListVisit):
    key = N + 'nodes_postorder_impl'
    def put(self, c):
        s, p = V(c.st), c.p
        setg(c, POS, If(s.term(p), c.st[POS], z3.Store(c.st[POS], p, self.len(c, c.st) - 1)))
    def listed(self, c, st):
        s, p, q, k = V(st), c.p, _Q, _K
        n, v, pos = self.len(c, st), lambda k: self.vec(c, st, k), lambda q: self.pos(st, q)
        inl = lambda x: Or(s.term(x), And(0 <= pos(x), pos(x) < k, v(pos(x)) == x))
        x = v(k)
        return [('entries are marked nodes, each once', FA(k, Imp(And(0 <= k, k < n), And(s.inner(x), s.mark(x) != 0, pos(x) == k)), x)),
                ('marked nodes below are in the list', FA(q, Imp(And(s.inner(q), s.mark(q) != 0, s.ix(q) >= s.ix(p)), And(0 <= pos(q), pos(q) < n, v(pos(q)) == q)), s.mark(q))),
                ('children before parents', FA(k, Imp(And(0 <= k, k < n), And(inl(s.lo(x)), inl(s.hi(x)))), x))]
    def post(self, c):
        s, p = V(c.st), c.p
        return self.marks(c) + self.grown(c) + self.listed(c, c.st) + [('the root comes last', Or(s.term(p), V(c.old).mark(p) != 0, And(self.len(c, c.st) > 0, self.vec(c, c.st, self.len(c, c.st) - 1) == p)))]
def part(c, k):
    r = c.ret
    if isinstance(r, Ref): r = c.ex.load(r, c.st)
    if isinstance(r, sx.AggV) and k == '[]' and '[].ref' in r.d: k = '[].ref'
    if not isinstance(r, sx.AggV) or k not in r.d: raise Unsupported('result list')
    return r.d[k]
class ListQuery(Unmarked):
    modifies = [r'H\[\]\.marked_', r'G\.pos']
    def pre(self, c):
        if POS not in c.st: c.st[POS] = c.ex.fresh('G.pos', AII)
        return Unmarked.pre(self, c)
    def nodes(self, c):
        s, k, q = V(c.st), _K, _Q
        n, v = part(c, '#'), part(c, '[]'); x = z3.Select(v, k)
        pos = lambda q: z3.Select(c.st[POS], q); R = rch(s, c.p)
        return [('as many entries as reachable nodes', n == CARD(R)), ('entries are reachable nodes, each once', FA(k, Imp(And(0 <= k, k < n), And(z3.Select(R, x), pos(x) == k)), x)),
                ('all reachable nodes are listed', FA(q, Imp(z3.Select(R, q), And(0 <= pos(q), pos(q) < n, z3.Select(v, pos(q)) == q)), z3.Select(R, q)))]
class Postorder(ListQuery):
    key = N + 'nodes_postorder'
    def result(self, c):
        s, k = V(c.st), _K
        n, v = part(c, '#'), part(c, '[]'); x = z3.Select(v, k)
        pos = lambda q: z3.Select(c.st[POS], q)
        inl = lambda y: Or(s.term(y), And(0 <= pos(y), pos(y) < k, z3.Select(v, pos(y)) == y))
        return self.nodes(c) + [('the root comes last', Or(s.term(c.p), And(n > 0, z3.Select(v, n - 1) == c.p))), ('children before parents', FA(k, Imp(And(0 <= k, k < n), And(inl(s.lo(x)), inl(s.hi(x)))), x))]
def L_cm2(m0, m1, a, b):
    on = lambda m, p: If(z3.Select(m, p) != 0, iv(1), iv(0))
    return Imp(And(a != b, m1 == z3.Store(z3.Store(m0, a, z3.Select(m1, a)), b, z3.Select(m1, b))), CM(m1) == CM(m0) + on(m1, a) - on(m0, a) + on(m1, b) - on(m0, b))
def L_cm_sub(m0, m1, R):
    q = _Q
    return Imp(FA(q, Or(z3.Select(m1, q) == z3.Select(m0, q), And(z3.Select(m0, q) == 0, z3.Select(R, q))), z3.Select(m1, q)), CM(m1) <= CM(m0) + CARD(R))
class Bfs(ListQuery):
    key = N + 'nodes_bfs'
    def seqs(c):
        vs = c.modvecs()
        d = [v for v in vs if v + '@' in c.st]; l = [v for v in vs if v + '@' not in c.st]
        if len(d) != 1 or len(l) != 1: raise Unsupported('queue and list')
        return d[0], l[0]
    def queue(c):
        d, l = Bfs.seqs(c)
        return c.st[d + '[]'], c.st[d + '@'], c.st[d + '#']
    def loop(c):
        s, o, p, k, q = V(c.st), V(c.old), c.p, _K, _Q
        D, h, d = Bfs.queue(c); dq, l = Bfs.seqs(c)
        L, n = c.st[l + '[]'], c.st[l + '#']
        pos = lambda q: z3.Select(c.st[POS], q)
        x, t = z3.Select(D, k), h + d
        mk = lambda y: Or(s.term(y), s.mark(y) != 0)
        return [('queue', And(h == n, d >= 0, t >= 1, z3.Select(D, 0) == p)),
            ('nodes taken from the queue', FA(k, Imp(And(0 <= k, k < n), z3.Select(L, k) == x), z3.Select(L, k))),
            ('entries are marked reachable nodes, each once', FA(k, Imp(And(0 <= k, k < t), And(s.inner(x), s.mark(x) == 1, pos(x) == k, inr(s, p, x), o.mark(x) == 0)), x)),
            ('marked nodes have been in the queue', FA(q, Or(s.mark(q) == o.mark(q), And(o.mark(q) == 0, s.mark(q) == 1, 0 <= pos(q), pos(q) < t, z3.Select(D, pos(q)) == q)), s.mark(q))),
            ('root is marked', s.mark(p) == 1),
            ('children of nodes done are marked', FA(k, Imp(And(0 <= k, k < h), And(mk(s.lo(x)), mk(s.hi(x)))), x)),
            ('one entry per marked node', t == CM(s.mark_) - CM(o.mark_))]
    def head(c):
        s = V(c.st); D, h, d = Bfs.queue(c)
        setg(c, POS, z3.Store(c.st[POS], c.p, iv(0)))
        c.ex.assume(L_cm(c.old['H[].marked_'], s.mark_, c.p))
    def it(c):
        s, o = V(c.st), V(c.old)
        c.ex.assume(L_cm_sub(o.mark_, s.mark_, rch(s, c.p)))
    def end(c):
        ex = c.ex
        D1, h1, d1 = Bfs.queue(c); st, m1 = c.st, c.st['H[].marked_']
        c.st = c.head
        D0, h0, d0 = Bfs.queue(c); m0 = c.st['H[].marked_']
        c.st = st
        T0, T1 = h0 + d0, h1 + d1
        p = st[POS]
        p1 = If(T1 > T0, z3.Store(p, z3.Select(D1, T0), T0), p)
        p2 = If(T1 > T0 + 1, z3.Store(p1, z3.Select(D1, T0 + 1), T0 + 1), p1)
        setg(c, POS, p2)
        s = V(st); x = z3.Select(D0, h0)
        for f in (L_cm(m0, m1, s.lo(x)), L_cm(m0, m1, s.hi(x)), L_cm2(m0, m1, s.lo(x), s.hi(x))): ex.assume(f)
    def done(c):
        s, o = V(c.st), V(c.old)
        L_ind(c.ex, s, c.p, lambda q: s.mark(q) != 0)
        c.ex.assume(L_cm_set(o.mark_, s.mark_, rch(s, c.p)))
    loops = [LoopSpec(inv=loop, name='queue', ghost_head=head, ghost_iter=it, ghost_end=end, ghost_exit=done, decreases=lambda c: CARD(rch(V(c.st), c.p)) - Bfs.queue(c)[1])]
    def result(self, c):
        s = V(c.st)
        return self.nodes(c) + [('the root is the first entry', Imp(part(c, '#') > 0, z3.Select(part(c, '[]'), 0) == c.p))]
VN = 'G.vnode'
class VarsImpl(ListVisit):
    """entry k is the variable of node vnode[k]"""
    key = N + 'variables_impl'
    elt = 'std::vector<unsigned long>'
    def modifies(self, c): return [r'H\[\]\.marked_', r'G\.(pos|vnode)', sx.re.escape(vp(c)) + r'(#|\[\])']
    def world(self, ex):
        w = ListVisit.world(self, ex)
        ex.st[VN] = ex.fresh(VN, AII)
        return w
    def pre(self, c):
        for k in (POS, VN):
            if k not in c.st: c.st[k] = c.ex.fresh(k, AII)
        return Visit.pre(self, c)
    def put(self, c):
        # the visit of p starts with its own entry
        p, n0 = c.p, self.len(c, c.old); s = V(c.st)
        for k, i, v in ((POS, p, n0), (VN, n0, p)):
            setg(c, k, If(s.term(p), c.st[k], z3.Store(c.st[k], i, v)))
            c.st = c.ex.st
    def is_new(self, c, x): return z3.BoolVal(True)
    def post(self, c):
        s, o, q, k = V(c.st), V(c.old), _Q, _K
        n0, n1 = self.len(c, c.old), self.len(c, c.st)
        pos = lambda q: self.pos(c.st, q); w = z3.Select(c.st[VN], k)
        return self.marks(c) + [x for x in self.grown(c) if 'positions' not in x[0] and 'newly' not in x[0]] + [
            ('entries are variables of reachable nodes', FA(k, Imp(And(n0 <= k, k < n1), And(inr(s, c.p, w), pos(w) == k, o.mark(w) == 0, s.mark(w) != 0, s.ix(w) == self.vec(c, c.st, k))), self.vec(c, c.st, k))),
            ('variables of marked nodes are listed', FA(q, Imp(And(o.mark(q) == 0, s.mark(q) != 0), And(n0 <= pos(q), pos(q) < n1, self.vec(c, c.st, pos(q)) == s.ix(q))), s.mark(q))),
            ('earlier positions', And(FA(k, Imp(And(0 <= k, k < n0), z3.Select(c.st[VN], k) == z3.Select(c.old[VN], k)), z3.Select(c.st[VN], k)), FA(q, Imp(Or(o.mark(q) != 0, s.mark(q) == 0), pos(q) == self.pos(c.old, q)), pos(q))))]
class Variables(ListQuery):
    key = N + 'variables'
    modifies = [r'H\[\]\.marked_', r'G\.(pos|vnode)']
    def pre(self, c):
        if VN not in c.st: c.st[VN] = c.ex.fresh(VN, AII)
        return ListQuery.pre(self, c)
    def ghost_exit(self, c):
        ex = c.ex
        n, v = part(c, '#'), part(c, '[]'); s = V(c.st)
        self.wit = None
    def result(self, c):
        s, k, q = V(c.st), _K, _Q
        n, v = part(c, '#'), part(c, '[]'); x = z3.Select(v, k); R = rch(s, c.p)
        j = z3.Int('j!'); w = z3.Int('w!')
        sel = lambda i: z3.Select(v, i)
        return [('sorted without repetition', FA([j, k], Imp(And(0 <= j, j < k, k < n), sel(j) < sel(k)), MP(sel(j), sel(k)))),
                ('entries are variables of reachable nodes', FA(k, Imp(And(0 <= k, k < n), z3.Exists([w], And(z3.Select(R, w), s.ix(w) == x), patterns=[z3.Select(R, w)])), x)),
                ('variables of reachable nodes are listed', FA(q, Imp(z3.Select(R, q), z3.Exists([k], And(0 <= k, k < n, sel(k) == s.ix(q)), patterns=[sel(k)])), z3.Select(R, q)))]
CONTRACTS = [VarsImpl(), Variables(), Bfs(), Postorder(), PostImpl(), NrImpl(), Unmark(), NrNodes()]
