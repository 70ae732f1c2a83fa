"""Renaming of variables. The renamed BDD has under the (arbitrary) assignment A the value of the original under the
assignment that gives every variable the value A gives its image."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV
from .ops import Op, MOD_NODES
from .life import VLEAVES, PGM
from .queries import rch, inr, L_reach, part
from .solutions import ev, D_ev, L_ev, _AL
M = 'BDD::bdd_mgr::'
_Y = z3.Int('y!')
def called(c, name): return [k for nm, k in c.calls if '::' + name + '(' in nm]

class Rebase(Contract):
    modifies = MOD_NODES + [VLEAVES, r'M\.vars#', r'G\.(pguser|pos|vnode)'] + PGM
    may_throw = True
    reveal = ('F',)
    # the map: domain and values
    def dom(self, c, x): raise NotImplementedError
    def img(self, c, x): raise NotImplementedError
    def assume(self, c):
        s = V(c.st)
        return L_reach(s)
    def old_state(self, c): return V(c.old)
    def pre(self, c):
        s, p = V(c.st), c.n(0)
        R = lambda q: inr(s, p, q)
        m = lambda q: self.img(c, s.ix(q))
        return [('operand is a node', s.live(p)),
            ('the map covers the variables of the BDD', FA(_Q, Imp(R(_Q), self.dom(c, s.ix(_Q))), R(_Q))),
            ('the map preserves the order of the variables of the BDD', FA([_Q, _P], Imp(And(R(_Q), R(_P), s.ix(_Q) < s.ix(_P)), m(_Q) < m(_P)), MP(R(_Q), R(_P)))),
            ('images are variables', FA(_X, Imp(self.dom(c, _X), And(0 <= self.img(c, _X), self.img(c, _X) < TERM_TOP - 1)), self.img(c, _X)))] + self.more(c) + inv(c, ALLINV)
    def more(self, c): return []
    def ghost_entry(self, c):
        # B: the assignment A read through the map
        ex = c.ex
        ex.asgB = ex.fresh('B', ABI)
        ex.assume(FA(_X, Imp(self.dom(c, _X), z3.Select(ex.asgB, _X) == z3.Select(A, self.img(c, _X))), z3.Select(ex.asgB, _X)))
    def ghost_exit(self, c):
        o, p = V(c.old), c.n(0)
        c.ex.assume(D_ev(o, self.B(c), p))
        c.ex.assume(Imp(o.inner(p), inr(o, p, p)))       # instance of the definition of reachability
    def B(self, c):
        if c.ex.fn is not None and hasattr(c.ex, 'asgB') and c.ex.contract is self: return c.ex.asgB
        raise Unsupported('call of rebase')
    def post(self, c):
        s, o, p = V(c.st), V(c.old), c.n(0)
        r = c.r
        return inv(c, ALLINV) + EXT(c) + [('a node', s.live(r)),
            ('value of the original under the assignment read through the map', s.val(r) == ev(o, self.B(c), p)),
            ('terminals are mapped to themselves', Imp(o.term(p), r == p)),
            ('variables up to the images exist', FA(_X, Imp(self.dom(c, _X), self.img(c, _X) < s.nv), self.img(c, _X))),
            ('no other variable is created', Or(s.nv == o.nv, s.nv == 1, z3.Exists([_X], And(self.dom(c, _X), s.nv == self.img(c, _X) + 1), patterns=[self.img(c, _X)])))]
    def on_throw(self, c): return inv(c, ALLINV) + EXT(c)
    # loops
    NODES = ('G.live', 'G.val', 'H[].lo', 'H[].hi', 'H[].index', 'H[].hash_key', 'G.alloc', 'M.node_cache_.botsink_', 'M.node_cache_.topsink_')
    def create(c):
        s, o = V(c.st), V(c.pre); i = c.ivar()
        me = c.ex.contract
        return inv(c, ALLINV) + [('variables', And(s.nv >= o.nv, i == s.nv)), ('no more than needed', Or(s.nv == o.nv, s.nv == 1, z3.Exists([_X], And(me.dom(c, _X), s.nv <= me.img(c, _X) + 1), patterns=[me.img(c, _X)]))), ('nodes', And(*[c.st[k] == c.pre[k] for k in Rebase.NODES]))]
    def copy(c):
        me = c.ex.contract
        s, o, p = V(c.st), V(c.old), c.n(0)
        ks = called(c, 'nodes_postorder')
        if not ks: raise Unsupported('no list of nodes')
        k = ks[-1]
        L, n = part(k, '[]'), part(k, '#')
        i = c.ivar()
        mp = sorted({x[:-1] for x in c.mods if x.startswith('L') and x.endswith('?')})
        if len(mp) != 1: raise Unsupported('map of copied nodes')
        D, W = c.st[mp[0] + '?'], c.st[mp[0] + '{}']
        has = lambda q: z3.Select(D, q); im = lambda q: z3.Select(W, q)
        pos = lambda q: z3.Select(k.after['G.pos'], q)
        ok = lambda q: And(has(q), s.live(im(q)), s.val(im(q)) == ev(o, me.B(c), q), Imp(o.inner(q), Or(s.ix(im(q)) >= TERM_TOP, s.ix(im(q)) >= me.img(c, o.ix(q)))))
        return inv(c, ALLINV) + EXT(c) + [('index', And(0 <= i, i <= n)), ('variables as before', s.nv == c.pre['M.vars#']), ('terminals', And(has(o.bot), has(o.top), im(o.bot) == o.bot, im(o.top) == o.top)),
            ('nodes done', FA(_K, Imp(And(0 <= _K, _K < i), ok(z3.Select(L, _K))), z3.Select(L, _K))),
            ('only reachable nodes are in the map', FA(_Q, Imp(has(_Q), Or(o.term(_Q), And(inr(o, p, _Q), pos(_Q) < i))), has(_Q)))]
    def copy_it(c):
        o = V(c.old); ex = c.ex; me = ex.contract
        k = called(c, 'nodes_postorder')[-1]
        x = z3.Select(part(k, '[]'), c.ivar())
        for q in (x, o.lo(x), o.hi(x), o.bot, o.top): ex.assume(D_ev(o, me.B(c), q))
class RebaseMap(Rebase):
    key = M + 'rebase(node_ref,map)'
    def dom(self, c, x): return z3.Select(c.old[self.m(c) + '?'], x)
    def img(self, c, x): return z3.Select(c.old[self.m(c) + '{}'], x)
    def m(self, c): return c.args[1].p
    def world(self, ex):
        m = mgr_world(ex)
        ex.declare('B', 'std::unordered_map<unsigned long, unsigned long>')
        return m, [nref(ex, 'p'), Ref('B')]
    def maximum(c):
        me = c.ex.contract
        vis = c.st[c.rangeidx + '?']
        l = c.other()
        return [('largest image so far', And(FA(_X, Imp(z3.Select(vis, _X), And(me.dom(c, _X), me.img(c, _X) <= l)), z3.Select(vis, _X)), l >= 0, l < TERM_TOP - 1,
                                            Or(l == 0, z3.Exists([_X], And(z3.Select(vis, _X), me.img(c, _X) == l), patterns=[me.img(c, _X)]))))]
    loops = [LoopSpec(inv=maximum, name='largest image'), LoopSpec(inv=Rebase.create, name='create variables'), LoopSpec(inv=Rebase.copy, name='copy', ghost_iter=Rebase.copy_it)]
class RebaseIt(Rebase):
    key = M + 'rebase(node_ref,it,it)'
    def it(self, c): return c.args[1], c.args[2]
    def dom(self, c, x): a, b = self.it(c); return And(0 <= x, x < b.pos - a.pos)
    def img(self, c, x):
        a, b = self.it(c)
        return z3.Select(c.old[a.c.p + '[]'], x if z3.is_int_value(a.pos) and a.pos.as_long() == 0 else a.pos + x)
    def world(self, ex):
        m = mgr_world(ex)
        ex.declare('B', 'std::vector<unsigned long>')
        t = ex.st.get('B#!')
        return m, [nref(ex, 'p'), IterV(Ref('B'), iv(0), t), IterV(Ref('B'), ex.st['B#'], t)]
    def more(self, c):
        a, b = self.it(c)
        return [('a range', And(z3.BoolVal(a.c.p == b.c.p), 0 <= a.pos, a.pos < b.pos, b.pos <= c.old[a.c.p + '#']))]
    loops = [LoopSpec(inv=Rebase.create, name='create variables'), LoopSpec(inv=Rebase.copy, name='copy', ghost_iter=Rebase.copy_it)]
CONTRACTS = [RebaseMap(), RebaseIt()]
