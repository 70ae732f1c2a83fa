"""Contracts of the storage layer: node pool, table pages, unique tables."""
from .theory import *
from .ops import UniqueFind

PGM = [r'M\.page_cache_\..*', r'PG\[\]\[\]', r'PGL\[\]', r'G\.(pgown|pgcap|pfl|pfn|pfpos)']
NCM = [r'M\.node_cache_\.(mem_node|nodeavail|nodeptr|total_nodes)', r'NP\[\]\.next', r'G\.(alloc|live|fn|fl|fpos)']
NC = 'M.node_cache_.'
def called(c, name): return [k for k in getattr(c, 'calls', ()) if k[0].split('(')[0].endswith(name)]
def setg(c, k, v):
    nm = c.ex.fresh(k, v.sort()); c.ex.assume(nm == v); c.ex.st[k] = nm
def sto(st, k, *ixv):
    *ix, v = ixv
    return sx.sto(st[k], tuple(ix), v)

# ------------------------------------------------------------------ node pool
class ReserveNode(Contract):
    key = 'BDD::bdd_node_cache::reserve_node'
    modifies = NCM
    reveal = ('P',)
    def world(self, ex):
        mgr_world(ex)
        return Ref('M.node_cache_'), []
    def pre(self, c): return inv(c, ('P',)) + [('fewer than 2^60 nodes', c.st[NC + 'total_nodes'] < 2 ** 60)]
    def assume(self, c): return []
    def decreases(self, c):
        s = c.st
        return [If(Or(s[NC + 'nodeavail'] != 0, s[NC + 'nodeptr'] < s[NC + 'mem_node'] + NPS), iv(0), iv(1))]
    def ghost_exit(self, c):
        if called(c, 'reserve_node') or c.ret is None: return
        ex, o, r = c.ex, c.old, c.r
        ex.assume(L_card(o['G.live'], r))
        setg(c, 'G.live', z3.Store(o['G.live'], r, True))
        setg(c, 'G.fn', o['G.fn'] - If(o[NC + 'nodeavail'] != 0, 1, 0))
    def post(self, c):
        o, s, r = V(c.old), V(c.st), c.r
        return inv(c, ('P',)) + [('a node nobody uses', And(r > 3, Not(o.live(r)), z3.Select(s.alloc_, r), r != s.bot, r != s.top)),
            ('it is in use from now on', s.live_ == z3.Store(o.live_, r, True)),
            ('nodes stay allocated', FA(_P, Imp(z3.Select(o.alloc_, _P), z3.Select(s.alloc_, _P)), z3.Select(s.alloc_, _P))),
            ('the manager stays no node', Imp(Not(z3.Select(o.alloc_, MGR)), Not(z3.Select(s.alloc_, MGR)))),
            ('one node more', c.st[NC + 'total_nodes'] == c.old[NC + 'total_nodes'] + 1)]
_P, _Q, _K, _X, _VV, _S = z3.Ints('p! q! k! x! v! s!')

class FreeNode(Contract):
    key = 'BDD::bdd_node_cache::free_node'
    modifies = [r'M\.node_cache_\.(nodeavail|total_nodes)', r'H\[\]\.(lo|xref)', r'G\.(live|fn|fl|fpos)']
    reveal = ('F', 'P', 'R')
    def world(self, ex):
        mgr_world(ex)
        return Ref('M.node_cache_'), [ex.fresh('p', I)]
    def pre(self, c):
        s, p = V(c.st), c.arg(0)
        return [('an inner node', s.inner(p)), ('nothing refers to it', s.xref(p) + s.hc(p) <= 0)] + inv(c, ('F', 'P', 'R'))
    def assume(self, c): return L_arcs(V(c.st))
    def ghost_exit(self, c):
        ex, o, p = c.ex, c.old, c.arg(0)
        fn = o['G.fn']
        ex.assume(L_card(o['G.live'], p))
        setg(c, 'G.live', z3.Store(o['G.live'], p, False))
        setg(c, 'G.fl', z3.Store(o['G.fl'], fn, p))
        setg(c, 'G.fpos', z3.Store(o['G.fpos'], p, fn))
        setg(c, 'G.fn', fn + 1)
        ex.assume(L_arcs_sub(V(o), V(ex.st), p))
    def post(self, c):
        o, s, p, q = V(c.old), V(c.st), c.arg(0), _Q
        return inv(c, ('F', 'P', 'R')) + [('one node less', s.live_ == z3.Store(o.live_, p, False)), ('only the link of the node changes', FA(q, Imp(q != p, s.lo(q) == o.lo(q)), s.lo(q))),
            ('the children lose an arc', FA(q, s.xref(q) == o.xref(q) - If(q == o.lo(p), 1, 0) - If(q == o.hi(p), 1, 0), s.xref(q))),
            ('one node less is reported', c.st[NC + 'total_nodes'] == c.old[NC + 'total_nodes'] - 1)]

# ------------------------------------------------------------------ page pools
def cache_no(c):
    set_caches(c.ex)
    f = c.this.p.split('.')[-1]
    for i, (nm, n, cnt) in enumerate(CACHES, 1):
        if nm == f: return i, n, cnt, c.this.p + '.page_avail'
    raise Unsupported('page cache ' + c.this.p)
class PageC(Contract):
    all_inst = True
    reveal = ('PP',)
    def field(self, ex):
        set_caches(ex)
        import re
        d = ex.ast.demangled.get(ex.fn.get('mangledName'), '')
        m = re.search(r'unique_table_page_cache<(\d+)\D*,\s*(\d+)\D*>', d)
        for nm, n, cnt in CACHES:
            if m and (n, cnt) == (int(m.group(1)), int(m.group(2))): return nm
        raise Unsupported('page cache instance ' + d)
    def this(self, ex):
        mgr_world(ex)
        return Ref('M.page_cache_.' + self.field(ex))
def others_same(c, r=None):
    """pages in use stay as they are"""
    o, s, q = c.old, c.st, _Q
    out = []
    for k in ('PG[][]', 'G.pgown', 'G.pgcap'):
        out.append((f'{k} of pages in use unchanged', FA(q, Imp(And(z3.Select(o['G.pgown'], q) == -1, *([q != r] if r is not None else [])), z3.Select(s[k], q) == z3.Select(o[k], q)), z3.Select(s[k], q))))
    return out
def fresh_page(c, r, n):
    s = c.st
    return [('no one uses the page', And(r > 0, z3.Select(c.old['G.pgown'], r) != -1, z3.Select(s['G.pgown'], r) == -1)),
            ('the page is large enough', z3.Select(s['G.pgcap'], r) >= n),
            ('the page is empty', FA(_K, Imp(And(0 <= _K, _K < n), S_(s['PG[][]'], r, _K) == 0), S_(s['PG[][]'], r, _K)))]
class IncreasePages(PageC):
    key = 'BDD::unique_table_page_cache::increase_cache'
    modifies = PGM
    def world(self, ex): return self.this(ex), []
    def pre(self, c):
        i, n, cnt, av = cache_no(c)
        return [('no page is left', c.st[av] == 0)] + inv(c, ('PP',))
    def _loop(c):
        s, pre = c.st, c.pre
        b, cnt, N = c.ex.newpages
        i = c.ivar()
        x = _X
        # only the links among the new pages change
        return [('counter', And(0 <= i, i <= cnt - 1)),
                ('links', FA(x, z3.Select(s['PGL[]'], x) == If(And(b <= x, x < b + i), x + 1, z3.Select(pre['PGL[]'], x)), z3.Select(s['PGL[]'], x))),
                ('slots', FA(x, Imp(Not(And(b <= x, x < b + cnt)), z3.Select(s['PG[][]'], x) == z3.Select(pre['PG[][]'], x)), z3.Select(s['PG[][]'], x)))]
    loops = [LoopSpec(inv=_loop, name='link', decreases=lambda c: c.ex.newpages[1] - c.ivar())]
    def ghost_exit(self, c):
        ex, i, n, cnt, av = (c.ex,) + cache_no(c)
        b, k, N = ex.newpages
        x = _X
        st = ex.st
        inr = And(b <= x, x < b + k)
        own, pos, fl = ex.fresh('G.pgown', AII), ex.fresh('G.pfpos', AII), ex.fresh('fl', AII)
        ex.assume(FA(x, z3.Select(own, x) == If(inr, i, z3.Select(st['G.pgown'], x)), z3.Select(own, x)))
        ex.assume(FA(x, z3.Select(pos, x) == If(inr, b + k - 1 - x, z3.Select(st['G.pfpos'], x)), z3.Select(pos, x)))
        ex.assume(FA(x, z3.Select(fl, x) == b + k - 1 - x, z3.Select(fl, x)))
        st['G.pgown'], st['G.pfpos'] = own, pos
        setg(c, 'G.pfl', z3.Store(st['G.pfl'], iv(i), fl))
        setg(c, 'G.pfn', z3.Store(st['G.pfn'], iv(i), k))
    def post(self, c):
        i, n, cnt, av = cache_no(c)
        pg = c.this.p + '.pages'
        own = [('the new block of pages is remembered for its release', And(c.st[pg + '#'] == c.old[pg + '#'] + 1, z3.Select(c.st[pg + '[]'], c.old[pg + '#']) == c.ex.newpages[0],
                FA(_K, Imp(And(0 <= _K, _K < c.old[pg + '#']), z3.Select(c.st[pg + '[]'], _K) == z3.Select(c.old[pg + '[]'], _K)), z3.Select(c.st[pg + '[]'], _K))))] if c.body else []
        return inv(c, ('PP',)) + others_same(c) + own + [('a page is available', c.st[av] != 0), ('no page gets in use', FA(_Q, Imp(z3.Select(c.st['G.pgown'], _Q) == -1, z3.Select(c.old['G.pgown'], _Q) == -1), z3.Select(c.st['G.pgown'], _Q)))]
class ReservePage(PageC):
    key = 'BDD::unique_table_page_cache::reserve_page'
    modifies = PGM
    def world(self, ex): return self.this(ex), []
    def pre(self, c): return inv(c, ('PP',))
    def decreases(self, c):
        i, n, cnt, av = cache_no(c)
        return [If(c.st[av] != 0, iv(0), iv(1))]
    def ghost_entry(self, c):
        # the page handed out becomes used, the list shrinks
        c.ex.assume(True)
    def ghost_exit(self, c):
        if called(c, 'reserve_page') or c.ret is None: return
        i, n, cnt, av = cache_no(c)
        st = c.ex.st
        setg(c, 'G.pgown', z3.Store(st['G.pgown'], c.r, iv(-1)))
        setg(c, 'G.pfn', z3.Store(st['G.pfn'], iv(i), z3.Select(st['G.pfn'], i) - 1))
    def post(self, c):
        i, n, cnt, av = cache_no(c)
        return inv(c, ('PP',)) + fresh_page(c, c.r, n) + others_same(c) + [('no other page gets in use', FA(_Q, Imp(And(_Q != c.r, z3.Select(c.st['G.pgown'], _Q) == -1), z3.Select(c.old['G.pgown'], _Q) == -1), z3.Select(c.st['G.pgown'], _Q)))]
class FreePageC(PageC):
    key = 'BDD::unique_table_page_cache::free_page'
    modifies = PGM
    def world(self, ex):
        t = self.this(ex)
        return t, [ex.fresh('p', I)]
    def pre(self, c):
        i, n, cnt, av = cache_no(c); p = c.arg(0)
        return [('the page is in use and large enough', And(p > 0, z3.Select(c.st['G.pgown'], p) == -1, z3.Select(c.st['G.pgcap'], p) >= n))] + inv(c, ('PP',))
    def ghost_exit(self, c):
        i, n, cnt, av = cache_no(c)
        st, p = c.ex.st, c.arg(0)
        k = z3.Select(st['G.pfn'], i)
        setg(c, 'G.pgown', z3.Store(st['G.pgown'], p, iv(i)))
        setg(c, 'G.pfpos', z3.Store(st['G.pfpos'], p, k))
        setg(c, 'G.pfl', z3.Store(st['G.pfl'], iv(i), z3.Store(z3.Select(st['G.pfl'], i), k, p)))
        setg(c, 'G.pfn', z3.Store(st['G.pfn'], iv(i), k + 1))
    def post(self, c):
        i, n, cnt, av = cache_no(c); p = c.arg(0)
        return inv(c, ('PP',)) + others_same(c, p) + [('no longer in use', z3.Select(c.st['G.pgown'], p) == i), ('no page gets in use', FA(_Q, Imp(z3.Select(c.st['G.pgown'], _Q) == -1, z3.Select(c.old['G.pgown'], _Q) == -1), z3.Select(c.st['G.pgown'], _Q)))]

# ------------------------------------------------------------------ unique tables
class VarC(Contract):
    def wv(self, ex):
        mgr_world(ex)
        v = ex.fresh('v', I)
        ex.assume(And(0 <= v, v < ex.st['M.vars#']))
        return Ref('M.vars[]', (v,))
def mask_ok(m): return And(pow2(m), m >= 63, m <= 1048575)
class NewPage(VarC):
    key = 'BDD::var_struct::new_page'
    modifies = PGM
    may_throw = True
    def world(self, ex): return self.wv(ex), [ex.fresh('m', I)]
    def pre(self, c): return [('size of a table', mask_ok(c.arg(0)))] + inv(c, ('PP',))
    def assume(self, c): return [L_pow2(c.arg(0))]
    def post(self, c):
        return inv(c, ('PP',)) + fresh_page(c, c.r, c.arg(0) + 1) + others_same(c) + [('no other page gets in use', FA(_Q, Imp(And(_Q != c.r, z3.Select(c.st['G.pgown'], _Q) == -1), z3.Select(c.old['G.pgown'], _Q) == -1), z3.Select(c.st['G.pgown'], _Q))), ('a table of this size is possible', c.arg(0) <= 524287)]
    def on_throw(self, c):
        import re
        return [('only if the table is too large', c.arg(0) > 524287)] + [(f'{k} unchanged', c.st[k] == c.old[k]) for k in c.st if sx.is_z(c.st[k]) and any(re.fullmatch(p, k) for p in PGM)]
class FreePageV(VarC):
    key = 'BDD::var_struct::free_page(node**,size_t)'
    modifies = PGM
    def world(self, ex): return self.wv(ex), [ex.fresh('p', I), ex.fresh('m', I)]
    def pre(self, c):
        p, m = c.arg(0), c.arg(1)
        return [('page in use and large enough, or none', Or(p == 0, And(p > 0, mask_ok(m), z3.Select(c.st['G.pgown'], p) == -1, z3.Select(c.st['G.pgcap'], p) >= m + 1)))] + inv(c, ('PP',))
    def assume(self, c): return [L_pow2(c.arg(1))]
    def post(self, c):
        p = c.arg(0)
        return inv(c, ('PP',)) + others_same(c, p) + [('no longer in use', Imp(p != 0, z3.Select(c.st['G.pgown'], p) > 0)), ('no page gets in use', FA(_Q, Imp(z3.Select(c.st['G.pgown'], _Q) == -1, z3.Select(c.old['G.pgown'], _Q) == -1), z3.Select(c.st['G.pgown'], _Q)))]

def function_of(c, t, args):
    """the result term depends on nothing but the given terms: then it is a function of them and UTH or MH names it"""
    sub = [(a, z3.Int(f'arg!{i}')) for i, a in enumerate(args)]
    t2 = z3.substitute(t, *sub)
    return z3.BoolVal(all(x.startswith('arg!') for x in sx.syms(t2)))
class HashCode(VarC):
    key = 'BDD::var_struct::hash_code(node*,node*)'
    def world(self, ex): return self.wv(ex), [ex.fresh('l', I), ex.fresh('r', I)]
    def pre(self, c):
        s = V(c.st); l, r = c.arg(0), c.arg(1)
        return [('children are nodes', And(z3.Select(s.alloc_, l), z3.Select(s.alloc_, r)))]
    def post(self, c):
        s = V(c.st); l, r = c.arg(0), c.arg(1)
        f = ('hash value is in range', And(0 <= c.r, c.r < 2 ** 62))
        if c.body:
            if len(c.ex.trace) > 0: raise Unsupported('hash with branches')
            return [f, ('the hash is a function of the children', function_of(c, c.r, [s.key(l), s.key(r), s.ix(l), s.ix(r), l, r]))]
        return [f, ('function of the children', c.r == uth(s, l, r))]
def table_pre(c, v, st=None):
    """the table of variable v is an allocated page"""
    st = c.st if st is None else st
    return [('table page in use', T_page(st, v))]
class NextFreeSlot(VarC):
    key = 'BDD::var_struct::next_free_slot'
    def world(self, ex): return self.wv(ex), [ex.fresh('k', I)]
    def pre(self, c):
        st, v, k = c.st, c.p, c.arg(0)
        return table_pre(c, v) + [('hash value in range', And(0 <= k, k < 2 ** 62)), ('there is a free slot', CNT0(row_(st, v), mask_(st, v) + 1) > 0)]
    def assume(self, c): return L_cnt() + L_unw(mask_(c.st, c.p)) + [L_unw_at(c.arg(0), mask_(c.st, c.p)), L_pow2(mask_(c.st, c.p))]
    def _loop(c):
        st, v, k = c.st, c.p, c.arg(0)
        m, row = mask_(st, v), row_(st, v)
        l = c.ivar()
        return [('range', And(k <= l, l <= k + UNW(k, WIT0(row, m + 1), m))), ('slots passed are occupied', FA(_S, Imp(And(0 <= _S, _S <= m, UNW(k, _S, m) < l - k), z3.Select(row, _S) != 0), UNW(k, _S, m)))]
    loops = [LoopSpec(inv=_loop, name='probe', decreases=lambda c: c.arg(0) + mask_(c.st, c.p) + 1 - c.ivar())]
    def post(self, c):
        st, v, k, r = c.st, c.p, c.arg(0), c.r
        m, row = mask_(st, v), row_(st, v)
        return [('a free slot of the table', And(0 <= r, r <= m, z3.Select(row, r) == 0)), ('the first one', FA(_S, Imp(And(0 <= _S, _S <= m, UNW(k, _S, m) < UNW(k, r, m)), z3.Select(row, _S) != 0), UNW(k, _S, m), z3.Select(row, _S)))]
class NrFree(VarC):
    key = 'BDD::var_struct::nr_free_slots_debug'
    def world(self, ex): return self.wv(ex), []
    def pre(self, c): return table_pre(c, c.p)
    def assume(self, c): return [CNT0(row_(c.st, c.p), iv(0)) == 0]
    def _loop(c):
        row, m = row_(c.st, c.p), mask_(c.st, c.p)
        i = c.ivar()
        return [('range', And(0 <= i, i <= m + 1)), ('counted', And(c.other() == CNT0(row, i), c.other() <= i, c.other() >= 0))]
    loops = [LoopSpec(inv=_loop, name='count', decreases=lambda c: mask_(c.st, c.p) + 1 - c.ivar(), ghost_end=lambda c: c.ex.assume(L_cnt_step(row_(c.st, c.p), c.ivar() - 1)))]
    def post(self, c): return [('number of free slots', c.r == CNT0(row_(c.st, c.p), mask_(c.st, c.p) + 1))]
class TableLookup(VarC):
    key = 'BDD::var_struct::unique_table_lookup'
    reveal = ('F', 'T')
    def world(self, ex): return self.wv(ex), [ex.fresh('l', I), ex.fresh('h', I)]
    def pre(self, c):
        s = V(c.st); l, h = c.arg(0), c.arg(1)
        return [('children are nodes', And(s.live(l), s.live(h), l != h)), ('variable exists', And(0 <= c.p, c.p < s.nv))] + inv(c, ('F', 'T'))
    def assume(self, c):
        s = V(c.st); m = mask_(c.st, c.p); l, h = c.arg(0), c.arg(1)
        return L_cnt() + L_unw(m) + [L_unw_at(uth(s, l, h), m), L_pow2(m)]
    def _loop(c):
        st, v = c.st, c.p; s = V(st); l, h = c.arg(0), c.arg(1)
        m, row, k = mask_(st, v), row_(st, v), uth(s, l, h)
        i = c.ivar()
        sl = z3.Select(row, _S)
        return [('range', And(k <= i, i <= k + UNW(k, WIT0(row, m + 1), m))), ('slots passed hold other nodes', FA(_S, Imp(And(0 <= _S, _S <= m, UNW(k, _S, m) < i - k), And(sl != 0, Not(And(s.lo(sl) == l, s.hi(sl) == h)))), UNW(k, _S, m)))]
    loops = [LoopSpec(inv=_loop, name='probe', decreases=lambda c: uth(V(c.st), c.arg(0), c.arg(1)) + mask_(c.st, c.p) + 1 - c.ivar())]
    def post(self, c):
        s = V(c.st); l, h, v, r, p = c.arg(0), c.arg(1), c.p, c.r, _P
        return [('the node found has these children and this variable', Imp(r != 0, And(s.inner(r), s.lo(r) == l, s.hi(r) == h, s.ix(r) == v))),
                ('no node has them if none is found', Imp(r == 0, FA(p, Not(And(s.inner(p), s.lo(p) == l, s.hi(p) == h, s.ix(p) == v)), s.lo(p), s.hi(p), s.ix(p))))]

class DoubleCache(VarC):
    key = 'BDD::var_struct::double_cache'
    modifies = PGM + [r'M\.vars\[\]\.(base|mask|free)', r'G\.(off|pguser)']
    may_throw = True
    reveal = ('F', 'T', 'PP')
    def world(self, ex): return self.wv(ex), []
    def pre(self, c): return [('variable exists', And(0 <= c.p, c.p < V(c.st).nv))] + inv(c, ('F', 'T', 'PP'))
    def assume(self, c):
        m = mask_(c.st, c.p)
        return L_cnt() + L_unw(m) + L_unw(2 * m + 1) + [T_page(c.st, c.p), L_pow2(m), L_pow2(2 * m + 1), L_pow2_next(m), L_unw_mod(2 * m + 1)]
    def _loop(c):
        o, st, v, pre = c.old, c.st, c.p, c.pre
        s = V(st); M, row, b = mask_(st, v), row_(st, v), base_(st, v)
        orow = row_(o, v); k = c.ivar(); q = z3.Select(row, _S); om = mask_(o, v)
        oo = lambda x: z3.Select(o['G.off'], x)
        oq = z3.Select(orow, _X)
        return [('range', And(0 <= k, k <= om + 1)),
                ('old slots', FA(_X, Imp(And(0 <= _X, _X <= om, oq != 0), And(s.inner(oq), s.ix(oq) == v, oo(oq) == _X)), z3.Select(orow, _X))),
                ('other pages', FA(_Q, Imp(_Q != b, And(z3.Select(st['PG[][]'], _Q) == z3.Select(pre['PG[][]'], _Q), z3.Select(st['PGL[]'], _Q) == z3.Select(pre['PGL[]'], _Q))), z3.Select(st['PG[][]'], _Q), z3.Select(st['PGL[]'], _Q))),
                ('slots hold moved nodes', FA(_S, Imp(And(0 <= _S, _S <= M, q != 0), And(s.inner(q), s.ix(q) == v, s.off(q) == _S, 0 <= oo(q), oo(q) < k, z3.Select(orow, oo(q)) == q)), z3.Select(row, _S))),
                ('moved nodes are in their slots', FA(_X, Imp(And(0 <= _X, _X < k, oq != 0), And(0 <= s.off(oq), s.off(oq) <= M, z3.Select(row, s.off(oq)) == oq)), z3.Select(orow, _X))),
                ('no gap before a moved node', FA([_P, _S], Imp(And(s.inner(_P), s.ix(_P) == v, 0 <= oo(_P), oo(_P) < k, z3.Select(orow, oo(_P)) == _P, 0 <= _S, _S <= M, UNW(uthash(s, _P), _S, M) < UNW(uthash(s, _P), s.off(_P), M)), z3.Select(row, _S) != 0), MP(s.lo(_P), s.off(_P), z3.Select(row, _S)))),
                ('nodes of other variables', FA(_P, Imp(And(s.live(_P), s.ix(_P) != v), s.off(_P) == oo(_P)), s.off(_P))),
                ('free slots', And(CNT0(row, M + 1) == M + 1 - (k - CNT0(orow, k)), CNT0(orow, k) >= 0, CNT0(orow, k) <= k))]
    loops = [LoopSpec(match=lambda mods, ex: not any('PG[' in m for m in mods), name='check', decreases=lambda c: mask_(c.st, c.p) + 1 - c.ivar()),
             LoopSpec(match=lambda mods, ex: any('PG[' in m for m in mods), inv=_loop, name='rehash', drop=('T_clauses',), decreases=lambda c: mask_(c.old, c.p) + 1 - c.ivar(),
                      ghost_head=lambda c: [c.ex.assume(f) for f in (L_cnt_zero(row_(c.st, c.p), mask_(c.st, c.p) + 1), CNT0(row_(c.old, c.p), iv(0)) == 0)],
                      ghost_end=lambda c: c.ex.assume(L_cnt_step(row_(c.old, c.p), c.ivar() - 1)))]
    def post(self, c):
        return inv(c, ('T', 'PP')) + [('at least half of the slots are free', 2 * free_(c.st, c.p) >= mask_(c.st, c.p) + 1)]
    def on_throw(self, c): return inv(c, ('T', 'PP'))

class UniqueFind2(UniqueFind):
    """the body: the ghost maps grow with the new node"""
    three = False
    reveal = ('F', 'T', 'R', 'P', 'MI', 'PP', 'MK')
    def world(self, ex):
        t = VarC.wv(self, ex)
        l, h = ex.fresh('l', I), ex.fresh('h', I)
        return t, ([t.ix[0]] if self.three else []) + [l, h]
    def assume(self, c):
        st = c.st; s = V(st); v, l, h = self.vl(c)
        m = mask_(st, v)
        return L_cnt() + L_unw(m) + L_arcs(s) + [L_pow2(m), L_pow2_next(m), T_page(st, v), st[NC + 'total_nodes'] < 2 ** 60]
    def decreases(self, c):
        t = z3.Select(c.st['M.vars[].timer'], c.p)
        return [If((t + 1) % 1024 == 0, iv(1), iv(0)), iv(0) if self.three else iv(1)]
    def ghost_exit(self, c):
        if not called(c, 'reserve_node') or c.ret is None: return
        ex, o, r = c.ex, c.old, c.r
        v, l, h = self.vl(c)
        so = V(o)
        setg(c, 'G.node', z3.Store(o['G.node'], K3.k3(l, h, v), r))
        setg(c, 'G.val', z3.Store(o['G.val'], r, If(z3.Select(A, v), so.val(h), so.val(l))))
        k = [k for k in c.calls if k[0].split('(')[0].endswith('next_free_slot')][-1][1]
        setg(c, 'G.off', z3.Store(ex.st['G.off'], r, k.r))
        ex.assume(L_arcs_add(so, V(ex.st), r))
class UniqueFind3(UniqueFind2):
    key = 'BDD::var_struct::unique_find(size_t,node*,node*)'
    three = True
    def vl(self, c): return c.arg(0), c.arg(1), c.arg(2)
    def pre(self, c): return [('the variable is this one', c.arg(0) == c.p)] + UniqueFind2.pre(self, c)

CONTRACTS = [ReserveNode(), FreeNode(), IncreasePages(), ReservePage(), FreePageC(), NewPage(), FreePageV(), HashCode(), NextFreeSlot(), NrFree(), TableLookup(), DoubleCache(), UniqueFind2(), UniqueFind3()]
