"""Contracts of garbage collection. KEEP and CLOS are arbitrary sets of nodes: every node of KEEP has a handle or a parent in KEEP
(so KEEP may be the set of nodes reachable from handles), CLOS contains all nodes with handles and the children of its nodes
(so CLOS may be the same set)."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV
from .store import VarC, PGM, NCM, setg, T_page, Contract

KEEPS = z3.Const('KEEPSET', ABI)
KPAR = z3.Function('KPAR', I, I)
CLOS = z3.Const('CLOSET', ABI)
GCMOD = [r'H\[\]\.(lo|xref)', r'M\.node_cache_\.(nodeavail|total_nodes)', r'G\.(live|fn|fl|fpos|off|pguser)', r'M\.vars\[\]\.(base|mask|free)'] + PGM
def keep_ok(s):
    """KEEP is supported by handles"""
    q = KPAR(_P)
    return FA(_P, Imp(z3.Select(KEEPS, _P), And(s.live(_P), Or(s.term(_P), s.hc(_P) > 0, And(z3.Select(KEEPS, q), s.inner(q), Or(s.lo(q) == _P, s.hi(q) == _P))))), z3.Select(KEEPS, _P))
def clos_ok(s):
    return And(FA(_P, Imp(s.hc(_P) > 0, z3.Select(CLOS, _P)), s.hc(_P)),
               FA(_P, Imp(And(s.inner(_P), z3.Select(CLOS, _P)), And(z3.Select(CLOS, s.lo(_P)), z3.Select(CLOS, s.hi(_P)))), s.lo(_P), s.hi(_P)))
def shrunk(s, o):
    p = _P
    return [('no node appears', FA(p, Imp(s.live(p), o.live(p)), s.live(p))),
            ('nodes in use keep their children', FA(p, Imp(s.live(p), s.lo(p) == o.lo(p)), s.lo(p))),
            ('released nodes have no references', FA(p, Imp(And(o.live(p), Not(s.live(p))), s.cnt(p) <= 0), s.live(p))),
            ('references only decrease', FA(p, s.xref(p) <= o.xref(p), s.xref(p))),
            ('nodes needed by handles stay', FA(p, Imp(z3.Select(KEEPS, p), s.live(p)), z3.Select(KEEPS, p)))]

def is_while(ex): return ex.cur_loop.get('kind') in ('WhileStmt', 'DoStmt')
class RemoveDead(VarC):
    key = 'BDD::var_struct::remove_dead_nodes'
    modifies = GCMOD + [r'G\.lpos']
    reveal = ('F', 'T', 'R', 'PP')
    G = ('F', 'T', 'R', 'P', 'PP')
    def world(self, ex): return self.wv(ex), []
    def pre(self, c):
        s = V(c.st)
        return [('variable exists', And(0 <= c.p, c.p < s.nv)), ('needed nodes are in use', keep_ok(s))] + inv(c, self.G)
    def assume(self, c):
        m = mask_(c.st, c.p)
        return L_cnt() + L_arcs(V(c.st)) + [L_pow2(m), L_pow2_next(m), T_page(c.st, c.p), T_free(c.st, c.p), CNT0(row_(c.st, c.p), iv(0)) == 0]
    def ghost_entry(self, c):
        c.ex.st['G.lpos'] = c.ex.fresh('G.lpos', AII)
    def lv(c):
        for k in c.st:
            if k.startswith('L') and k.endswith('live_nodes#'): return c.st[k[:-1] + '[]'], c.st[k]
        vs = [k[:-1] for k in c.st if k.startswith('L') and k.endswith('#') and k[:-1] + '[]' in c.st]
        if len(vs) == 1: return c.st[vs[0] + '[]'], c.st[vs[0] + '#']
        raise Unsupported('list of the remaining nodes')
    def _empty(c):
        o, st, v = c.old, c.st, c.p
        s, so = V(st), V(o); k = c.ivar(); m = mask_(o, v); row, orow = row_(st, v), row_(o, v)
        oo = lambda x: z3.Select(o['G.off'], x)
        LV, n = RemoveDead.lv(c); pos = lambda x: z3.Select(st['G.lpos'], x)
        q = z3.Select(LV, _X)
        return inv(c, ('F', 'R', 'P', 'PP')) + [('T: ' + n_, f) for n_, f in T_clauses(st, exc=v)] + shrunk(s, so) + [
            ('range', And(0 <= k, k <= m + 1)),
            ('other pages', FA(_Q, Imp(_Q != base_(o, v), And(z3.Select(st['PG[][]'], _Q) == z3.Select(o['PG[][]'], _Q), z3.Select(st['PGL[]'], _Q) == z3.Select(o['PGL[]'], _Q))), z3.Select(st['PG[][]'], _Q), z3.Select(st['PGL[]'], _Q))),
            ('slots emptied', FA(_S, And(Imp(And(0 <= _S, _S < k), z3.Select(row, _S) == 0), Imp(And(k <= _S, _S <= m), z3.Select(row, _S) == z3.Select(orow, _S))), z3.Select(row, _S))),
            ('nodes not visited yet', FA(_S, Imp(And(k <= _S, _S <= m, z3.Select(orow, _S) != 0), And(s.inner(z3.Select(orow, _S)), s.ix(z3.Select(orow, _S)) == v, oo(z3.Select(orow, _S)) == _S)), z3.Select(orow, _S))),
            ('remaining nodes', FA(_X, Imp(And(0 <= _X, _X < n), And(s.inner(q), s.ix(q) == v, s.cnt(q) > 0, 0 <= oo(q), oo(q) < k, z3.Select(orow, oo(q)) == q, pos(q) == _X)), z3.Select(LV, _X))),
            ('all remaining nodes', FA(_P, Imp(And(s.inner(_P), s.ix(_P) == v, oo(_P) < k), And(0 <= pos(_P), pos(_P) < n, z3.Select(LV, pos(_P)) == _P)), s.live(_P), pos(_P))),
            ('nodes of other variables stay', FA(_P, Imp(And(so.live(_P), Or(so.term(_P), s.ix(_P) != v)), s.live(_P)), so.live(_P), s.live(_P))),
            ('references to earlier variables stay', FA(_P, Imp(And(so.live(_P), s.ix(_P) <= v), s.xref(_P) == so.xref(_P)), s.xref(_P))),
            ('remaining nodes are counted', And(n >= 0, n + CNT0(orow, k) <= k))]
    def _empty_end(c):
        pre_n = RemoveDead.head_n(c)
        ex = c.ex; LV, n = RemoveDead.lv(c)
        k = c.ivar() - 1
        p = z3.Select(row_(c.old, c.p), k)
        ex.st['G.lpos'] = z3.If(n != pre_n, z3.Store(ex.st['G.lpos'], p, pre_n), ex.st['G.lpos'])
        setg(c, 'G.lpos', ex.st['G.lpos'])
        ex.assume(L_cnt_step(row_(c.old, c.p), k))
        for f in L_arcs(V(ex.st)): ex.assume(f)
    def head_n(c):
        st, c.st = c.st, c.head
        r = RemoveDead.lv(c)[1]
        c.st = st
        return r
    def _shrink(c):
        nm = c.counters()[0] if len(c.counters()) == 1 else c.other()
        LV, n = RemoveDead.lv(c); m = mask_(c.old, c.p)
        return [('size', And(pow2(nm), 63 <= nm, nm <= m, Or(nm == m, 8 * n <= 2 * (nm + 1))))]
    def _shrink_end(c):
        st, c.st = c.st, c.head
        nm = c.counters()[0]
        c.st = st
        c.ex.assume(L_pow2(nm)); c.ex.assume(L_pow2_next(nm))
    def _back(c):
        o, st, v = c.old, c.st, c.p
        s, so = V(st), V(o); j = c.ivar(); M = mask_(st, v); row = row_(st, v); b = base_(st, v)
        pre = c.pre
        LV, n = RemoveDead.lv(c); pos = lambda x: z3.Select(st['G.lpos'], x)
        po = lambda x: z3.Select(pre['G.off'], x)
        q = z3.Select(row, _S); lx = z3.Select(LV, _X)
        return inv(c, ('PP',)) + [('range', And(0 <= j, j <= n)),
            ('other pages', FA(_Q, Imp(_Q != b, And(z3.Select(st['PG[][]'], _Q) == z3.Select(pre['PG[][]'], _Q), z3.Select(st['PGL[]'], _Q) == z3.Select(pre['PGL[]'], _Q))), z3.Select(st['PG[][]'], _Q), z3.Select(st['PGL[]'], _Q))),
            ('remaining nodes', FA(_X, Imp(And(0 <= _X, _X < n), And(s.inner(lx), s.ix(lx) == v, pos(lx) == _X)), lx)),
            ('slots hold nodes put back', FA(_S, Imp(And(0 <= _S, _S <= M, q != 0), And(s.inner(q), s.ix(q) == v, s.off(q) == _S, 0 <= pos(q), pos(q) < j, z3.Select(LV, pos(q)) == q)), q)),
            ('nodes put back are in their slots', FA(_X, Imp(And(0 <= _X, _X < j), And(0 <= s.off(lx), s.off(lx) <= M, z3.Select(row, s.off(lx)) == lx)), lx)),
            ('no gap before a node', FA([_P, _S], Imp(And(s.inner(_P), s.ix(_P) == v, 0 <= pos(_P), pos(_P) < j, z3.Select(LV, pos(_P)) == _P, 0 <= _S, _S <= M, UNW(uthash(s, _P), _S, M) < UNW(uthash(s, _P), s.off(_P), M)), z3.Select(row, _S) != 0), MP(s.lo(_P), s.off(_P), z3.Select(row, _S)))),
            ('nodes of other variables', FA(_P, Imp(And(s.live(_P), s.ix(_P) != v), s.off(_P) == po(_P)), s.off(_P))),
            ('other tables', FA(_VV, Imp(_VV != v, free_(st, _VV) == free_(pre, _VV)), free_(st, _VV))),
            ('free slots', And(free_(st, v) == M + 1 - j, CNT0(row, M + 1) == M + 1 - j))]
    def _back_head(c):
        M = mask_(c.st, c.p)
        for f in [L_cnt_zero(row_(c.st, c.p), M + 1)] + L_unw(M): c.ex.assume(f)
    loops = [LoopSpec(match=lambda mods, ex: not is_while(ex) and not any(m.endswith('vars[].free') for m in mods), inv=_empty, name='empty', ghost_end=_empty_end, decreases=lambda c: mask_(c.old, c.p) + 1 - c.ivar()),
             LoopSpec(match=lambda mods, ex: is_while(ex) and not any('PG[' in m for m in mods), inv=_shrink, name='shrink', ghost_end=_shrink_end, decreases=lambda c: c.counters()[0]),
             LoopSpec(match=lambda mods, ex: any('PG[' in m for m in mods), inv=_back, name='put back', ghost_head=_back_head, drop=('T_clauses',), decreases=lambda c: RemoveDead.lv(c)[1] - c.ivar())]
    def post(self, c):
        s, o = V(c.st), V(c.old); v = c.p
        return inv(c, self.G) + shrunk(s, o) + [
            ('nodes of other variables stay', FA(_P, Imp(And(o.live(_P), Or(o.term(_P), s.ix(_P) != v)), s.live(_P)), o.live(_P), s.live(_P))),
            ('references to earlier variables stay', FA(_P, Imp(And(o.live(_P), s.ix(_P) <= v), s.xref(_P) == o.xref(_P)), s.xref(_P))),
            ('every remaining node of the variable has references', FA(_P, Imp(And(s.inner(_P), s.ix(_P) == v), s.cnt(_P) > 0), s.live(_P)))]

class CollectGarbage(Contract):
    key = 'BDD::bdd_mgr::collect_garbage'
    modifies = GCMOD + [r'M\.memo_\.memos\[\]\.r']
    reveal = ('F', 'R', 'MI', 'MK')
    def world(self, ex): return mgr_world(ex), []
    def pre(self, c):
        s = V(c.st)
        return inv(c, ALLINV) + [('needed nodes are in use', keep_ok(s)), ('closed set', clos_ok(s))]
    def assume(self, c): return L_arcs(V(c.st))
    def _loop(c):
        s, o = V(c.st), V(c.old); i = c.ivar()
        return inv(c, ('F', 'T', 'R', 'P', 'PP')) + shrunk(s, o) + [('range', And(0 <= i, i <= s.nv)),
            ('terminals stay', And(s.live(s.bot), s.live(s.top))),
            ('nodes of variables done', FA(_P, Imp(And(s.inner(_P), s.ix(_P) < i), And(s.cnt(_P) > 0, z3.Select(CLOS, _P))), s.live(_P)))]
    def _end(c):
        for f in L_arcs(V(c.ex.st)): c.ex.assume(f)
    loops = [LoopSpec(inv=_loop, name='variables', ghost_end=_end, decreases=lambda c: V(c.st).nv - c.ivar())]
    def post(self, c):
        s, o = V(c.st), V(c.old)
        return inv(c, ALLINV) + shrunk(s, o)[:2] + shrunk(s, o)[3:] + [('only nodes reachable from handles stay', FA(_P, Imp(s.inner(_P), z3.Select(CLOS, _P)), s.live(_P)))]

class NrNodes(Contract):
    key = 'BDD::bdd_mgr::nr_nodes'
    reveal = ('P',)
    def world(self, ex): return mgr_world(ex), []
    def pre(self, c): return inv(c, ('P',))
    def post(self, c): return [('the number of nodes in use', c.r == CARD(V(c.st).live_))]
CONTRACTS = [RemoveDead(), CollectGarbage(), NrNodes()]
