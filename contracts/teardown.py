"""Contracts of destruction: every node and every table page goes back exactly once."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV
from .store import VarC, PageC, PGM, NCM, setg, T_page, T_clauses, row_, mask_, base_, Contract, cache_no, mask_ok
from .gc import GCMOD

def same(c, ks): return [(f'{k} unchanged', c.st[k] == c.old[k]) for k in ks if k in c.st and sx.is_z(c.st[k])]
class VarMove(Contract):
    """the move constructor, as std::vector uses it when it grows"""
    key = 'BDD::var_struct::var_struct(var_struct&&)'
    modifies = [r'M\.vars\[\]\..*', r'O.*', r'G\.pguser']
    FS = ('base', 'mask', 'free', 'var', 'timer')
    def world(self, ex):
        mgr_world(ex)
        ex.declare('O', 'var_struct')
        ex.st['O.bdd_mgr_'] = Ref('M')
        return Ref('M.vars[]', (ex.fresh('v', I),)), [Ref('O')]
    def post(self, c):
        st, o, v = c.st, c.old, c.p
        out = [(f'{f} is moved', z3.Select(st['M.vars[].' + f], v) == o['O.' + f]) for f in self.FS]
        out += [(f'{f} of other variables unchanged', FA(_VV, Imp(_VV != v, z3.Select(st['M.vars[].' + f], _VV) == z3.Select(o['M.vars[].' + f], _VV)), z3.Select(st['M.vars[].' + f], _VV))) for f in self.FS]
        return out + [('the moved variable has no table any more', And(st['O.base'] == 0, st['O.mask'] == 0, st['O.free'] == 0))]
class VarDtor(VarC):
    key = 'BDD::var_struct::~var_struct'
    modifies = PGM
    def world(self, ex): return self.wv(ex), []
    def pre(self, c):
        st, v = c.st, c.p; b, m = base_(st, v), mask_(st, v)
        return [('no table, or an empty table of its own', Or(And(b == 0, m == 0), And(b > 0, mask_ok(m), m <= 524287, z3.Select(st['G.pgown'], b) == -1, z3.Select(st['G.pgcap'], b) >= m + 1,
                 FA(_K, Imp(And(0 <= _K, _K <= m), S_(st['PG[][]'], b, _K) == 0), S_(st['PG[][]'], b, _K)))))] + inv(c, ('PP',))
    def assume(self, c): return [L_pow2(mask_(c.st, c.p))]
    loops = [LoopSpec(name='check', decreases=lambda c: mask_(c.st, c.p) + 1 - c.ivar())]
    def post(self, c):
        st, o, v = c.st, c.old, c.p; b = base_(o, v)
        return inv(c, ('PP',)) + [('the page is given back', Imp(b != 0, z3.Select(st['G.pgown'], b) > 0)),
            ('no other page is', FA(_Q, Imp(And(_Q != b, z3.Select(o['G.pgown'], _Q) == -1), And(z3.Select(st['G.pgown'], _Q) == -1, z3.Select(st['G.pgcap'], _Q) == z3.Select(o['G.pgcap'], _Q), z3.Select(st['PG[][]'], _Q) == z3.Select(o['PG[][]'], _Q))), z3.Select(st['G.pgown'], _Q)))]
RELMOD = [r'H\[\]\.(lo|xref)', r'M\.node_cache_\.(nodeavail|total_nodes)', r'G\.(live|fn|fl|fpos|off)', r'PG\[\]\[\]', r'PGL\[\]']
def no_handles(s): return [('no handles', FA(_P, s.hc(_P) == 0, s.hc(_P)))]
def no_inner(s, v): return FA(_P, Imp(s.inner(_P), s.ix(_P) >= v), s.live(_P))
def pages(c, v, old): return FA(_Q, Imp(_Q != base_(old, v), z3.Select(c.st['PG[][]'], _Q) == z3.Select(old['PG[][]'], _Q)), z3.Select(c.st['PG[][]'], _Q))
class ReleaseNodes(VarC):
    key = 'BDD::var_struct::release_nodes'
    modifies = RELMOD
    reveal = ('F', 'R')
    G = ('F', 'R', 'P')
    def world(self, ex): return self.wv(ex), []
    def pre(self, c):
        s = V(c.st); v = c.p
        return [('variable exists', And(0 <= v, v < s.nv)), ('no node of an earlier variable is left', no_inner(s, v))] + no_handles(s) + inv(c, self.G) + [('T: ' + n, f) for n, f in T_clauses(c.st, lo=v)]
    def assume(self, c): return L_arcs(V(c.st)) + [L_pow2(mask_(c.st, c.p)), T_page(c.st, c.p)]
    def _loop(c):
        o, st, v = c.old, c.st, c.p
        s, so = V(st), V(o); k = c.ivar(); m = mask_(o, v); row, orow = row_(st, v), row_(o, v)
        oo = lambda x: z3.Select(o['G.off'], x)
        return inv(c, ('F', 'R', 'P')) + [('T: ' + n, f) for n, f in T_clauses(st, lo=v + 1)] + [
            ('range', And(0 <= k, k <= m + 1)), ('other pages', pages(c, v, o)), ('no node of an earlier variable', no_inner(s, v)),
            ('slots emptied', FA(_S, And(Imp(And(0 <= _S, _S < k), z3.Select(row, _S) == 0), Imp(And(k <= _S, _S <= m), z3.Select(row, _S) == z3.Select(orow, _S))), z3.Select(row, _S))),
            ('nodes not visited yet', FA(_S, Imp(And(k <= _S, _S <= m, z3.Select(orow, _S) != 0), And(s.inner(z3.Select(orow, _S)), s.ix(z3.Select(orow, _S)) == v, oo(z3.Select(orow, _S)) == _S)), z3.Select(orow, _S))),
            ('nodes of the variable that are left', FA(_P, Imp(And(s.inner(_P), s.ix(_P) == v), And(k <= oo(_P), oo(_P) <= m, z3.Select(orow, oo(_P)) == _P)), s.live(_P))),
            ('no node appears', FA(_P, Imp(s.live(_P), so.live(_P)), s.live(_P)))]
    def _end(c):
        for f in L_arcs(V(c.st)): c.ex.assume(f)
    loops = [LoopSpec(inv=_loop, name='release', ghost_iter=_end, decreases=lambda c: mask_(c.old, c.p) + 1 - c.ivar())]
    def post(self, c):
        s, st, v = V(c.st), c.st, c.p
        return inv(c, self.G) + [('T: ' + n, f) for n, f in T_clauses(st, lo=v + 1)] + [
            ('no node of the variable is left', no_inner(s, v + 1)), ('other pages', pages(c, v, c.old)),
            ('no node appears', FA(_P, Imp(s.live(_P), V(c.old).live(_P)), s.live(_P))),
            ('the table is empty', FA(_S, Imp(And(0 <= _S, _S <= mask_(st, v)), z3.Select(row_(st, v), _S) == 0), z3.Select(row_(st, v), _S)))]
class MgrDtor(Contract):
    key = 'BDD::bdd_mgr::~bdd_mgr'
    modifies = RELMOD
    reveal = ('T', 'F', 'P', 'PP')
    def world(self, ex): return mgr_world(ex), []
    def pre(self, c): return inv(c, ('F', 'T', 'R', 'P', 'PP')) + no_handles(V(c.st))
    def _loop(c):
        s, st, o = V(c.st), c.st, c.old; i = c.ivar()
        return inv(c, ('F', 'R', 'P')) + [('T: ' + n, f) for n, f in T_clauses(st, lo=i)] + [
            ('range', And(0 <= i, i <= s.nv)), ('no node of an earlier variable is left', no_inner(s, i)),
            ('pages', FA(_VV, Imp(And(0 <= _VV, _VV < s.nv), T_page(st, _VV)), base_(st, _VV), mask_(st, _VV))),
            ('tables of earlier variables are empty', FA([_VV, _S], Imp(And(0 <= _VV, _VV < i, 0 <= _S, _S <= mask_(st, _VV)), z3.Select(row_(st, _VV), _S) == 0), z3.Select(row_(st, _VV), _S)))]
    loops = [LoopSpec(inv=_loop, name='variables', decreases=lambda c: V(c.st).nv - c.ivar())]
    def post(self, c):
        s, st = V(c.st), c.st; v = z3.Int('anyv')
        ok = And(0 <= v, v < s.nv)
        ty = c.ex.types
        fs = [f['name'] for f in ty.fields(ty.rec['bdd_mgr'])]
        before = lambda a, b: z3.BoolVal(a in fs and b in fs and fs.index(a) < fs.index(b))
        e = lambda p: Or(p == s.bot, p == s.top)
        return [('no node is left', FA(_P, Imp(s.live(_P), e(_P)), s.live(_P))),
                ('every table is empty and its page is the variable\'s own when the variable is destroyed', Imp(ok, And(T_page(st, v), FA(_S, Imp(And(0 <= _S, _S <= mask_(st, v)), z3.Select(row_(st, v), _S) == 0))))),
                ('the variables are destroyed before the pools they give their pages to', And(before('node_cache_', 'vars'), before('page_cache_', 'vars')))]
class PageDtor(PageC):
    key = 'BDD::unique_table_page_cache::~unique_table_page_cache'
    modifies = []
    def world(self, ex):
        t = self.this(ex)
        ex.st['G.ndel'] = iv(0)
        return t, []
    def on_delete(self, ex, v):
        p = ex.entry_this.p; n = ex.st['G.ndel']
        ex.oblige('each block of pages is deleted once', And(n < ex.st[p + '.pages#'], z3.Select(ex.st[p + '.pages[]'], n) == v))
        nm = ex.fresh('G.ndel', I); ex.assume(nm == n + 1); ex.st['G.ndel'] = nm
        return sx.VOID
    modifies = [r'G\.ndel']
    loops = [LoopSpec(inv=lambda c: [('deleted so far', c.st['G.ndel'] == c.ivar())], name='delete', decreases=lambda c: c.st[c.this.p + '.pages#'] - c.ivar())]
    def post(self, c): return [('all blocks of pages are deleted', c.st['G.ndel'] == c.st[c.this.p + '.pages#'])]
CONTRACTS = [VarMove(), VarDtor(), ReleaseNodes(), MgrDtor(), PageDtor()]
