"""Import of a BDD into a collection and export from it."""
from .coltheory import *
from .coltheory import _I, _J, _K, _P, _Q, _S, _X, _VV
from .colquery import CC
from .queries import rch, inr, L_reach, POS
from .store import setg
from .ops import MOD_NODES, MOD_MEMO
from .life import VLEAVES, PGM
from .meld import named
_T3 = z3.Const('t!', K3)
class AddBdd(Contract):
    """the nodes in reverse postorder, then both terminals"""
    key = CC + 'add_bdd'
    modifies = MOD_COL + [r'H\[\]\.marked_', r'G\.pos']
    reveal = ('CS', 'CO', 'CT', 'F')
    def world(self, ex):
        this = col_world(ex, mgr=True)
        ex.st[POS] = ex.fresh('G.pos', AII)
        return this, [nref(ex, 'root')]
    def pre(self, c):
        if POS not in c.st: c.st[POS] = c.ex.fresh('G.pos', AII)
        return [('a node', V(c.st).live(c.n(0)))] + inv(c, ('F', 'MK') + COLINV)
    def assume(self, c): return L_reach(V(c.st))
    def pos(c, q): return z3.Select(c.st[POS], q)
    def vec(c):
        v = sorted({r.p for r in c.env.values() if isinstance(r, Ref) and r.p + '[].ref' in c.st and r.p + '#' in c.st and not r.ix})
        if len(v) != 1: raise Unsupported('list of nodes')
        return c.st[v[-1] + '#'], lambda k: z3.Select(c.st[v[-1] + '[].ref'], k)
    def root(c): return c.ex.valof(c.ex.entry_args[0], c.old).d['.ref']
    def idx(c, q):
        """number of the instruction of a node"""
        s, o, n = V(c.st), W(c.old), AddBdd.vec(c)[0]
        return If(q == s.bot, o.n + n, If(q == s.top, o.n + n + 1, o.n + n - 1 - AddBdd.pos(c, q)))
    def head(c):
        s, r = V(c.st), AddBdd.root(c); n, v = AddBdd.vec(c); k, q = _K, _Q
        pos = lambda q: AddBdd.pos(c, q)
        for nm, f in [('as many as reachable nodes', And(n == CARD(rch(s, r)), n > 0)),
                      ('parents first', FA(k, Imp(And(0 <= k, k < n), And(inr(s, r, v(k)), pos(v(k)) == n - 1 - k)), v(k))),
                      ('reachable nodes are listed', FA(q, Imp(inr(s, r, q), And(0 <= pos(q), pos(q) < n, v(n - 1 - pos(q)) == q)), inr(s, r, q))),
                      ('children are listed later', FA(q, Imp(inr(s, r, q), And(Or(s.term(s.lo(q)), And(inr(s, r, s.lo(q)), pos(s.lo(q)) < pos(q))), Or(s.term(s.hi(q)), And(inr(s, r, s.hi(q)), pos(s.hi(q)) < pos(q))))), MP(inr(s, r, q), s.lo(q)), MP(inr(s, r, q), s.hi(q)))),
                      ('the root is listed first', And(inr(s, r, r), v(0) == r))]:
            c.ex.oblige_assume(nm, f)
    def stays(o, w, off):
        return [(f'{f} of stored instructions unchanged', FA(_X, Imp(And(0 <= _X, _X < off), getattr(w, f)(_X) == getattr(o, f)(_X)), getattr(w, f)(_X))) for f in ('lo', 'hi', 'ix')]
    def collect(c):
        s, r, o, w = V(c.st), AddBdd.root(c), W(c.old), W(c.st); n, v = AddBdd.vec(c); i = c.ivar(); x, q = _X, _Q
        h, hv = z3.Select(c.st['C.node_ref_hash?'], q), z3.Select(c.st['C.node_ref_hash{}'], q)
        p = AddBdd.pos(c, q)
        return [('index', And(0 <= i, i <= n)), ('one instruction per node', w.n == o.n + i)] + AddBdd.stays(o, w, o.n) + [
            ('variables', FA(x, Imp(And(o.n <= x, x < w.n), w.ix(x) == s.ix(v(x - o.n))), w.ix(x))),
            ('nodes so far', FA(q, And(h == And(inr(s, r, q), n - 1 - p < i), Imp(h, hv == o.n + n - 1 - p)), h, hv))]
    def arcs(c):
        s, o, w, w0 = V(c.st), W(c.old), W(c.st), W(c.pre); n, v = AddBdd.vec(c); i = c.ivar(); x = _X
        q = v(x - o.n)
        return [('index', And(0 <= i, i <= n))] + AddBdd.stays(o, w, o.n) + [
            ('terminals unchanged', FA(x, Imp(x >= o.n + n, And(w.lo(x) == w0.lo(x), w.hi(x) == w0.hi(x))), w.lo(x), w.hi(x))),
            ('arcs', FA(x, Imp(And(o.n <= x, x < o.n + i), And(w.lo(x) == AddBdd.idx(c, s.lo(q)), w.hi(x) == AddBdd.idx(c, s.hi(q)))), w.lo(x), w.hi(x)))]
    def done(c): AddBdd.ghosts(c, W(c.pre), AddBdd.vec(c))
    def ghosts(c, nodes):
        ex, st = c.ex, c.ex.st
        if ex.ghost.get('added'): return
        ex.ghost['added'] = True
        s, o, w = V(st), W(c.old), W(st); i, t = _I, _T3
        n, v = nodes or (iv(0), None)
        b, off = o.nb, o.n
        cb, cv, cn, nod = ex.fresh('G.cb', AII), ex.fresh('G.cval', ABI), ex.fresh('G.cn', st['G.cn'].sort()), ex.fresh('nod', AII)
        ex.assume(FA(i, z3.Select(cb, i) == If(i >= off, b, o.cb(i)), z3.Select(cb, i)))
        if nodes:
            ex.assume(FA(i, z3.Select(nod, i) == If(i == off + n, s.bot, If(i == off + n + 1, s.top, v(i - off))), z3.Select(nod, i)))
            ex.assume(FA(i, z3.Select(cv, i) == If(i >= off, If(i < off + n, s.val(z3.Select(nod, i)), w.ix(i) == TOPX), o.val(i)), z3.Select(cv, i)))
            c.st = st
            m = lambda k: z3.Select(nod, k)
            ex.assume(FA(t, z3.Select(cn, t) == If(K3.k0(t) >= off, AddBdd.idx(c, z3.Select(s.node_, K3.k3(m(K3.k0(t)), m(K3.k1(t)), K3.k2(t)))), o.cn(t)), z3.Select(cn, t)))
            x = _X
            r = AddBdd.root(c)
            ex.oblige_assume('instructions of nodes', FA(x, Imp(And(off <= x, x < off + n), And(inr(s, r, m(x)), s.inner(m(x)), w.ix(x) == s.ix(m(x)), m(w.lo(x)) == s.lo(m(x)), m(w.hi(x)) == s.hi(m(x)), x < w.lo(x), x < w.hi(x), w.lo(x) < off + n + 2, w.hi(x) < off + n + 2, AddBdd.idx(c, m(x)) == x)), w.lo(x), w.hi(x), w.ix(x)))
        else:
            ex.assume(FA(i, z3.Select(cv, i) == If(i >= off, w.ix(i) == TOPX, o.val(i)), z3.Select(cv, i)))
            cn = o.st['G.cn']
        ex.st['G.cb'], ex.st['G.cval'], ex.st['G.cn'] = cb, cv, cn
        ex.st['G.be'] = z3.Store(st['G.be'], b, off + n + 2)
        ex.st['G.bs'] = z3.Store(st['G.bs'], b + 1, off + n + 2)
    loops = [LoopSpec(inv=collect, name='instructions of the nodes', ghost_head=head, decreases=lambda c: AddBdd.vec(c)[0] - c.ivar()),
             LoopSpec(inv=arcs, name='arcs', ghost_exit=lambda c: AddBdd.ghosts(c, AddBdd.vec(c)), decreases=lambda c: AddBdd.vec(c)[0] - c.ivar())]
    def ghost_exit(self, c):
        AddBdd.ghosts(c, None)
        c.st = c.ex.st
    def post(self, c):
        s, o, w, r, p = V(c.st), W(c.old), W(c.st), c.r, c.n(0)
        return CEXT(c) + inv(c, COLINV) + [('marks as before', FA(_Q, s.mark(_Q) == V(c.old).mark(_Q), s.mark(_Q)))] + inv(c, ('MK',)) + [
            ('one BDD is appended', And(r == o.nb, w.nb == o.nb + 1, w.bs(r) == o.n)),
            ('one instruction per node and two terminals', w.be(r) - w.bs(r) == CARD(rch(s, p)) + 2),
            ('it has the value of the node', w.val(w.bs(r)) == s.val(p))]
class Export(Contract):
    """from the last inner instruction to the first; equal functions are the same handle (C05)"""
    key = CC + 'export_bdd'
    modifies = MOD_NODES
    may_throw = True
    reveal = ('CS', 'CO', 'F')
    def world(self, ex): return col_world(ex, mgr=True), [Ref('M'), ex.fresh('nr', I)]
    def nr(self, c): return c.arg(1)
    def pre(self, c):
        w, s, b, i = W(c.st), V(c.st), self.nr(c), _I
        return [('a stored BDD', And(0 <= b, b < w.nb)), self.vars(c, w, s, b)] + inv(c, ALLINV) + inv(c, ('CS', 'CO'))
    def vars(self, c, w, s, b): return ('its variables exist', FA(_I, Imp(And(0 <= _I, _I < w.n, w.cb(_I) == b, w.ix(_I) < BOTX), w.ix(_I) < s.nv), w.ix(_I)))
    def map(c):
        v = sorted({r.p for r in c.env.values() if isinstance(r, Ref) and r.p + '?' in c.st and r.p + '{}.ref' in c.st})
        if len(v) != 1: raise Unsupported('map of exported nodes')
        d, x = named(c.ex, c.st[v[0] + '?']), named(c.ex, c.st[v[0] + '{}.ref'])
        return lambda k: z3.Select(d, k), lambda k: z3.Select(x, k)
    def loop(c):
        w, s, b = W(c.st), V(c.st), c.ex.contract.nr(c); i, k = c.ivar(), _K
        dom, x = Export.map(c)
        return inv(c, ALLINV) + EXT(c) + [('index', And(w.bs(b) - 1 <= i, i <= w.be(b) - 3)),
            ('exported so far', FA(k, And(dom(k) == And(i < k, k < w.be(b) - 2), Imp(dom(k), And(s.live(x(k)), s.val(x(k)) == w.val(k), s.ix(x(k)) >= w.ix(k)))), dom(k), x(k)))]
    loops = [LoopSpec(inv=loop, name='nodes of the instructions', decreases=lambda c: c.ivar() + 1)]
    def post(self, c):
        s, w, b = V(c.st), W(c.old), self.nr(c)
        return inv(c, ALLINV) + EXT(c) + [('a node', s.live(c.r)), ('it has the value of the stored BDD', s.val(c.r) == w.val(w.bs(b)))]
    def on_throw(self, c): return inv(c, ALLINV) + EXT(c)
class MgrAddBdd(Export):
    """the same with the operations of the manager; creates missing variables"""
    key = 'BDD::bdd_mgr::add_bdd'
    modifies = MOD_NODES + MOD_MEMO + [VLEAVES, r'M\.vars#', r'G\.pguser'] + PGM
    reveal = ('CS', 'F')
    def world(self, ex):
        this = col_world(ex, mgr=True)
        return Ref('M'), [this, ex.fresh('nr', I)]
    def vars(self, c, w, s, b): return ('its variables are variables', FA(_I, Imp(And(0 <= _I, _I < w.n, w.cb(_I) == b, w.ix(_I) < BOTX), w.ix(_I) < TERM_TOP - 1), w.ix(_I)))
    def loop(c):
        w, s, b = W(c.st), V(c.st), c.ex.contract.nr(c); k = _K
        its = [v for v in (c.st.get(m) for m in c.mods) if isinstance(v, IterV)]
        if len(its) != 1: raise Unsupported('iterator')
        i = its[0].pos
        dom, x = Export.map(c)
        return inv(c, ALLINV) + EXT(c) + [('position', And(w.bs(b) <= i, i <= w.be(b))),
            ('exported so far', FA(k, And(dom(k) == And(i <= k, k < w.be(b)), Imp(dom(k), And(s.live(x(k)), s.val(x(k)) == w.val(k)))), dom(k), x(k)))]
    def pos(c): return [v for v in (c.st.get(m) for m in c.mods) if isinstance(v, IterV)][0].pos
    loops = [LoopSpec(inv=loop, name='nodes of the instructions', decreases=pos)]
CONTRACTS = [AddBdd(), Export(), MgrAddBdd()]
