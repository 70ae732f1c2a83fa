"""Contracts of construction and destruction."""
from .theory import *
from .theory import _K, _P, _Q, _S, _X, _VV
from .store import VarC, PageC, PGM, NCM, setg, cache_no, fresh_page, others_same, T_page, Contract, mask_ok
from .ops import Op

VLEAVES = r'M\.vars\[\]\.(var|mask|free|timer|name|timestamp|aux|up|down|base.*)'
def other_vars(c, v, fs=('base', 'mask', 'free', 'var')):
    return [(f'{f} of other variables unchanged', FA(_VV, Imp(_VV != v, z3.Select(c.st['M.vars[].' + f], _VV) == z3.Select(c.old['M.vars[].' + f], _VV)), z3.Select(c.st['M.vars[].' + f], _VV))) for f in fs]
class PageCtor(PageC):
    key = 'BDD::unique_table_page_cache::unique_table_page_cache'
    modifies = [r'M\.page_cache_\..*']
    def world(self, ex): return self.this(ex), []
    def post(self, c):
        i, n, cnt, av = cache_no(c)
        return [('no page is available', And(c.st[av] == 0, c.st[c.this.p + '.pages#'] == 0))] + [(f'{k} unchanged', c.st[k] == c.old[k]) for k in c.st if k.startswith('M.page_cache_') and not k.startswith(c.this.p + '.') and sx.is_z(c.st[k])]
class VarCtor(VarC):
    key = 'BDD::var_struct::var_struct(size_t,bdd_mgr)'
    modifies = [VLEAVES, r'G\.pguser'] + PGM
    def world(self, ex):
        mgr_world(ex)
        v = ex.fresh('v', I)
        return Ref('M.vars[]', (v,)), [v, Ref('M')]
    def pre(self, c): return [('index', And(c.arg(0) >= 0, c.arg(0) == c.p)), ('manager', z3.BoolVal(isinstance(c.args[1], Ref) and c.args[1].p == 'M'))] + inv(c, ('PP',))
    def assume(self, c): return [L_pow2(iv(63))]
    def post(self, c):
        s, v = c.st, c.p; b = base_(s, v)
        return inv(c, ('PP',)) + other_vars(c, v) + others_same(c) + [
            ('pages of others', FA(_Q, Imp(And(_Q != b, _Q > 0), z3.Select(s['G.pguser'], _Q) == z3.Select(c.old['G.pguser'], _Q)), z3.Select(s['G.pguser'], _Q))),
            ('no other page gets in use', FA(_Q, Imp(And(_Q != b, z3.Select(s['G.pgown'], _Q) == -1), z3.Select(c.old['G.pgown'], _Q) == -1), z3.Select(s['G.pgown'], _Q))),
            ('table of the variable', And(z3.Select(s['M.vars[].var'], v) == v, mask_(s, v) == 63, free_(s, v) == 64, b > 0, z3.Select(s['G.pguser'], b) == v,
                                          z3.Select(s['G.pgcap'], b) >= 64, z3.Select(s['G.pgown'], b) == -1, z3.Select(c.old['G.pgown'], b) != -1, z3.Select(s['M.vars[].timer'], v) == 0)),
            ('it is empty', FA(_K, Imp(And(0 <= _K, _K < 64), z3.Select(row_(s, v), _K) == 0), z3.Select(row_(s, v), _K)))]
class AddVariable(Contract):
    key = 'BDD::bdd_mgr::add_variable'
    modifies = [VLEAVES, r'M\.vars#', r'G\.pguser'] + PGM
    reveal = ('F', 'T')
    def world(self, ex): return mgr_world(ex), []
    def pre(self, c): return [('fewer than 2^41-3 variables', V(c.st).nv < TERM_TOP - 1)] + inv(c, ALLINV)
    def assume(self, c): return L_cnt() + [L_pow2(iv(63))]
    def ghost_exit(self, c): c.ex.assume(L_cnt_zero(row_(c.st, V(c.old).nv), iv(64)))
    def post(self, c):
        return inv(c, ALLINV) + [('the new variable has the next index', c.r == V(c.old).nv), ('one variable more', V(c.st).nv == V(c.old).nv + 1)]
class MemoCtor(Contract):
    key = 'BDD::memo_cache::memo_cache'
    modifies = MOD_MEMO + [r'M\.memo_\..*']
    def world(self, ex):
        mgr_world(ex)
        return Ref('M.memo_'), [Ref('M.node_cache_')]
    def pre(self, c): return [('node cache of the manager', z3.BoolVal(isinstance(c.args[0], Ref) and c.args[0].p == 'M.node_cache_'))]
    def post(self, c):
        st = c.st
        return [('one empty slot', And(st['M.memo_.memos#'] == 1, st['M.memo_.memos_mask'] == 0, z3.Select(st['M.memo_.memos[].r'], 0) == 0))]
class NodeCacheCtor(Contract):
    key = 'BDD::bdd_node_cache::bdd_node_cache'
    modifies = NCM + [r'M\.node_cache_\..*', r'H\[\]\..*']
    reveal = ('P',)
    def world(self, ex):
        mgr_world(ex)
        return Ref('M.node_cache_'), [MGR]
    def pre(self, c):
        a = c.args[0]
        if isinstance(a, sx.PtrV): a = a.r
        if isinstance(a, Ref) and a.p == 'M': ok = z3.BoolVal(True)
        else: ok = c.ex.toint(c.arg(0)) == MGR if not sx.is_z(c.arg(0)) else c.arg(0) == MGR
        return [('manager', ok), ('nothing is in use yet', And(MGR > 3, Not(z3.Select(c.st['G.alloc'], MGR))))]
    def ghost_exit(self, c):
        st = c.ex.st
        e = z3.K(I, z3.BoolVal(False))
        b, t = st[NCP + 'botsink_'], st[NCP + 'topsink_']
        c.ex.assume(L_card(e, b)); c.ex.assume(L_card(z3.Store(e, b, True), t))
        setg(c, 'G.live', z3.Store(z3.Store(e, b, True), t, True))
        setg(c, 'G.fn', iv(0))
    def post(self, c):
        s = V(c.st)
        b, t = s.bot, s.top
        e = z3.K(I, z3.BoolVal(False))
        return inv(c, ('P',)) + [('two terminals', And(s.live_ == z3.Store(z3.Store(e, b, True), t, True), b != t, b > 3, t > 3, z3.Select(s.alloc_, b), z3.Select(s.alloc_, t), Not(z3.Select(s.alloc_, MGR)))),
            ('fields of the terminals', And(s.ix(b) == TERM_BOT, s.ix(t) == TERM_TOP, s.lo(b) == MGR, s.hi(b) == MGR, s.lo(t) == MGR, s.hi(t) == MGR, s.cnt(b) == 1, s.cnt(t) == 1, s.mark(b) == 0, s.mark(t) == 0)),
            ('two nodes', c.st[NCP + 'total_nodes'] == 2)]
NCP = 'M.node_cache_.'
class MgrCtor(Contract):
    key = 'BDD::bdd_mgr::bdd_mgr'
    modifies = [r'M\..*', r'H\[\]\..*', r'G\..*', r'PG.*', r'NP.*']
    reveal = ('F', 'T', 'R', 'PP', 'MI', 'MS', 'MK')
    def world(self, ex): return mgr_world(ex), []
    def pre(self, c):
        s = V(c.st)
        return [('nothing is in use yet', And(MGR > 3, Not(z3.Select(s.alloc_, MGR)))), ('no handles', s.hc_ == z3.K(I, iv(0)))]
    def assume(self, c): return [L_pow2(iv(0))]
    def ghost_exit(self, c):
        st = c.ex.st; s = V(st)
        setg(c, 'G.pfn', z3.K(I, iv(0)))
        setg(c, 'G.val', z3.Store(z3.Store(st['G.val'], s.bot, False), s.top, True))
        for i, (nm, n, cnt) in enumerate(CACHES, 1): c.ex.assume(NCAP(i) == n)      # (the function is defined by this)
        s = V(st)
        for q in (s.bot, s.top):         # a node no live node points to has no arcs
            c.ex.assume(Imp(FA(_P, Imp(s.live(_P), And(s.lo(_P) != q, s.hi(_P) != q)), s.live(_P)), z3.Select(arcs(s), q) == 0))
    def post(self, c):
        return inv(c, ALLINV) + [('two nodes', c.st[NCP + 'total_nodes'] == 2), ('no variables', V(c.st).nv == 0)]

CONTRACTS = [PageCtor(), VarCtor(), AddVariable(), MemoCtor(), NodeCacheCtor(), MgrCtor()]
