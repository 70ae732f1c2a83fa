"""Specification vocabulary: views on the state, representation invariants, mathematical functions."""
import sys
import z3
from lbddv import sx
from lbddv.sx import I, B, iv, Ref, IterV, K3, AII, Contract, LoopSpec, band, bxor, Unsupported
ABI = z3.ArraySort(I, B)
TERM_BOT = 2 ** 41 - 1
TERM_TOP = 2 ** 41 - 2
MAXIX = 2 ** 41
A = z3.Const('A', ABI)                       # an arbitrary assignment
MGR = z3.Int('MGRADDR')
ARCS = z3.Function('ARCS', ABI, AII, AII, AII)   # ARCS(live,lo,hi)[q]: number of arcs of live nodes to q
CARD = z3.Function('CARD', ABI, I)           # number of elements of a finite set

def S_(a, *ix):
    for i in ix: a = z3.Select(a, i)
    return a
def MP(*a):
    KEEP.append(a)                           # z3.MultiPattern drops its arguments before it uses them
    return z3.MultiPattern(*a)
KEEP = []
def FA(vs, body, *pats):
    if not isinstance(vs, (list, tuple)): vs = [vs]
    f = sys._getframe(1)
    q = f'{f.f_code.co_name}_{f.f_lineno}'
    return z3.ForAll(list(vs), body, patterns=list(pats), qid=q) if pats else z3.ForAll(list(vs), body, qid=q)
def And(*a): return z3.And(*a)
def Or(*a): return z3.Or(*a)
def Imp(a, b): return z3.Implies(a, b)
def Not(a): return z3.Not(a)
def If(a, b, c): return z3.If(a, b, c)
_P = z3.Int('p!')
_Q = z3.Int('q!')
_K = z3.Int('k!')

class V:
    """view on a manager state"""
    def __init__(self, st): self.st = st
    def __getattr__(self, k):
        m = {'lo_': 'H[].lo', 'hi_': 'H[].hi', 'ix_': 'H[].index', 'key_': 'H[].hash_key', 'mark_': 'H[].marked_', 'xref_': 'H[].xref',
             'live_': 'G.live', 'val_': 'G.val', 'node_': 'G.node', 'hc_': 'G.hc', 'bot': 'M.node_cache_.botsink_', 'top': 'M.node_cache_.topsink_',
             'nv': 'M.vars#', 'alloc_': 'G.alloc', 'pg_': 'PG[][]', 'off_': 'G.off', 'memo_': 'G.memo'}.get(k)
        if m is None: raise AttributeError(k)
        return self.st[m]
    def lo(self, p): return z3.Select(self.lo_, p)
    def hi(self, p): return z3.Select(self.hi_, p)
    def ix(self, p): return z3.Select(self.ix_, p)
    def key(self, p): return z3.Select(self.key_, p)
    def mark(self, p): return z3.Select(self.mark_, p)
    def xref(self, p): return z3.Select(self.xref_, p)
    def hc(self, p): return z3.Select(self.hc_, p)
    def live(self, p): return z3.Select(self.live_, p)
    def cnt(self, p): return z3.Select(self.xref_, p) + z3.Select(self.hc_, p)      # the xref field of the node
    def val(self, p): return z3.Select(self.val_, p)
    def off(self, p): return z3.Select(self.off_, p)
    def term(self, p): return Or(p == self.bot, p == self.top)
    def inner(self, p): return And(self.live(p), p != self.bot, p != self.top)

# ------------------------------------------------------------------ invariant groups
def F_clauses(st):
    """the forest of live nodes: ordered, reduced, shared; and the value of every node under A"""
    s, p = V(st), _P
    trip = K3.k3(s.lo(p), s.hi(p), s.ix(p))
    body = Imp(s.inner(p), And(s.live(s.lo(p)), s.live(s.hi(p)), s.lo(p) != s.hi(p), s.ix(p) < s.ix(s.lo(p)), s.ix(p) < s.ix(s.hi(p)),
               s.ix(p) >= 0, s.ix(p) < s.nv, s.val(p) == If(z3.Select(A, s.ix(p)), s.val(s.hi(p)), s.val(s.lo(p))),
               z3.Select(s.node_, trip) == p))
    return [('nodes ordered, reduced, shared, with live children', FA(p, body, s.lo(p), s.hi(p))),
            ('inner nodes have variable indices', FA(p, Imp(s.inner(p), And(s.ix(p) >= 0, s.ix(p) < s.nv)), s.ix(p))),
            ('terminals', And(s.live(s.bot), s.live(s.top), s.bot != s.top, Not(s.val(s.bot)), s.val(s.top), s.ix(s.bot) == TERM_BOT, s.ix(s.top) == TERM_TOP,
                              s.lo(s.bot) == MGR, s.hi(s.bot) == MGR, s.lo(s.top) == MGR, s.hi(s.top) == MGR)),
            ('live nodes are addresses', FA(p, Imp(s.live(p), And(p > 3, z3.Select(s.alloc_, p))), s.live(p))),
            ('the manager is no node', And(Not(s.live(MGR)), Not(z3.Select(s.alloc_, MGR)), MGR > 3)),
            ('number of variables', And(s.nv >= 0, s.nv < TERM_TOP))]

def memo_ok(s, f, g, h, r):
    m3 = lambda a, b: If(a <= b, a, b)
    sym = Or(h == 1, h == 2, h == 3)
    op = If(h == 1, And(s.val(f), s.val(g)), If(h == 2, Or(s.val(f), s.val(g)), If(h == 3, z3.Xor(s.val(f), s.val(g)), If(s.val(f), s.val(g), s.val(h)))))
    return And(s.live(f), s.live(g), s.live(r), Or(sym, s.live(h)), s.val(r) == op,
               Or(s.ix(r) >= TERM_TOP, s.ix(r) >= s.ix(f), s.ix(r) >= s.ix(g), And(Not(sym), s.ix(r) >= s.ix(h))))

def MI_clauses(st):
    s, k = V(st), _K
    m = lambda f, i: z3.Select(st['M.memo_.memos[].' + f], i)
    n, mask = st['M.memo_.memos#'], st['M.memo_.memos_mask']
    return [('remembered results are in the slot of their operands', FA(k, Imp(And(0 <= k, k < n, m('r', k) != 0), k == band(mh(s, m('f', k), m('g', k), m('h', k)), mask)), m('r', k))),
            ('remembered results are results of live operands', FA(k, Imp(And(0 <= k, k < n, m('r', k) != 0), memo_ok(s, m('f', k), m('g', k), m('h', k), m('r', k))), m('r', k))),
            ('remembered results were stored', FA(k, Imp(And(0 <= k, k < n, m('r', k) != 0), z3.Select(s.memo_, K3.k3(m('f', k), m('g', k), m('h', k))) == m('r', k)), m('r', k)))]
def MS_clauses(st):
    n, mask = st['M.memo_.memos#'], st['M.memo_.memos_mask']
    from lbddv.stdm import pow2m
    return [('memo mask', And(n >= 1, mask == n - 1, pow2m(mask), n <= 2 ** 40))]

FCOLS = ['H[].lo', 'H[].hi', 'H[].index', 'G.live', 'G.val', 'G.node', 'G.alloc', 'M.node_cache_.botsink_', 'M.node_cache_.topsink_', 'M.vars#']
MICOLS = ['M.memo_.memos#', 'M.memo_.memos[].f', 'M.memo_.memos[].g', 'M.memo_.memos[].h', 'M.memo_.memos[].r', 'M.memo_.memos_mask', 'H[].hash_key', 'G.memo', 'G.live', 'G.val', 'H[].index']
MSCOLS = ['M.memo_.memos#', 'M.memo_.memos_mask']
TCOLS = ['M.vars#', 'G.alloc', 'M.vars[].base', 'M.vars[].mask', 'M.vars[].free', 'M.vars[].var', 'PG[][]', 'H[].lo', 'H[].hi', 'H[].index', 'H[].hash_key',
         'G.live', 'G.off', 'M.node_cache_.botsink_', 'M.node_cache_.topsink_', 'G.pgown', 'G.pgcap', 'G.pguser']
RCOLS = ['H[].xref', 'G.live', 'H[].lo', 'H[].hi', 'G.hc', 'M.node_cache_.botsink_', 'M.node_cache_.topsink_']
PCOLS = ['M.node_cache_.mem_node', 'M.node_cache_.nodeavail', 'M.node_cache_.nodeptr', 'M.node_cache_.botsink_', 'M.node_cache_.topsink_', 'M.node_cache_.total_nodes',
         'G.alloc', 'G.live', 'H[].lo', 'G.fl', 'G.fn', 'G.fpos']
def PPCOLS(st): return sorted(k for k in st if k.startswith('M.page_cache_') and k.endswith('.page_avail')) + ['PGL[]', 'G.pgown', 'G.pgcap', 'G.pfl', 'G.pfn', 'G.pfpos']
# ---- lemmas about finite counts (trusted facts about uninterpreted functions; see DESIGN.md)
UTH = z3.Function('UTH', I, I, I, I, I, I, I)             # hash of a pair of children as a function of their addresses, hash keys and indices
MH = z3.Function('MH', I, I, I, I, I, I, I, I)            # memo hash as a function of the operands' addresses, two hash keys and two indices
CNT0 = z3.Function('CNT0', AII, I, I)         # number of null slots among the first n
WIT0 = z3.Function('WIT0', AII, I, I)         # a null slot, if there is one
UNW = z3.Function('UNW', I, I, I, I)          # UNW(h,s,m): probe distance from hash h to slot s
PAR = z3.Function('PAR', ABI, AII, AII, AII)  # a parent of a node with arcs
_S, _H, _X, _N = z3.Ints('s! h! x! n!')
_ROW = z3.Const('row!q', AII)
def pow2(m):
    from lbddv.stdm import pow2m
    return pow2m(m)
def L_cnt():
    st = z3.Store(_ROW, _K, _X)
    return [FA([_ROW, _K, _X, _N], Imp(And(0 <= _K, _K < _N), CNT0(st, _N) == CNT0(_ROW, _N) - If(z3.Select(_ROW, _K) == 0, 1, 0) + If(_X == 0, 1, 0)), CNT0(st, _N)),
            FA([_ROW, _N], Imp(_N >= 0, And(0 <= CNT0(_ROW, _N), CNT0(_ROW, _N) <= _N)), CNT0(_ROW, _N)),
            FA([_ROW, _N], Imp(And(_N >= 0, CNT0(_ROW, _N) > 0), And(0 <= WIT0(_ROW, _N), WIT0(_ROW, _N) < _N, z3.Select(_ROW, WIT0(_ROW, _N)) == 0)), CNT0(_ROW, _N))]
def L_cnt_step(row, n): return And(CNT0(row, iv(0)) == 0, Imp(n >= 0, CNT0(row, n + 1) == CNT0(row, n) + If(z3.Select(row, n) == 0, 1, 0)))
def L_cnt_zero(row, n): return Imp(And(n >= 0, FA(_K, Imp(And(0 <= _K, _K < n), z3.Select(row, _K) == 0), z3.Select(row, _K))), CNT0(row, n) == n)
def L_unw(m):
    return [FA([_H, _S], Imp(And(pow2(m), _H >= 0, 0 <= _S, _S <= m), And(0 <= UNW(_H, _S, m), UNW(_H, _S, m) <= m, band(_H + UNW(_H, _S, m), m) == _S)), UNW(_H, _S, m)),
            FA([_X], Imp(And(pow2(m), _X >= 0), And(0 <= band(_X, m), band(_X, m) <= m)), band(_X, m))]
def L_unw_at(h, m): return FA([_X], Imp(And(pow2(m), h >= 0, h <= _X, _X <= h + m), UNW(h, band(_X, m), m) == _X - h), band(_X, m))
def L_unw_mod(m): return FA([_H, _S], Imp(And(pow2(m), _H >= 0), UNW(band(_H, m), _S, m) == UNW(_H, _S, m)), UNW(band(_H, m), _S, m))
def L_pow2(m): return And(Imp(And(pow2(m), m >= 63, m <= 1048575), Or(*[m == 2 ** i - 1 for i in range(6, 21)])), *[pow2(iv(2 ** i - 1)) for i in range(0, 42)])
def L_pow2_next(m): return And(Imp(pow2(m), pow2(2 * m + 1)), Imp(And(pow2(m), m >= 1), And(pow2((m - 1) / 2), m == 2 * ((m - 1) / 2) + 1)))
def L_band(m): return [FA([_X], Imp(And(pow2(m), _X >= 0), And(0 <= band(_X, m), band(_X, m) <= m)), band(_X, m))]
def L_band2(m): return [FA([_X], Imp(And(pow2(m), _X >= 0), Or(band(_X, 2 * m + 1) == band(_X, m), band(_X, 2 * m + 1) == band(_X, m) + m + 1)), band(_X, m), band(_X, 2 * m + 1))]
def arcs(s): return ARCS(s.live_, s.lo_, s.hi_)
def L_arcs(s):
    a = arcs(s)
    par = z3.Select(PAR(s.live_, s.lo_, s.hi_), _Q)
    return [FA(_Q, And(z3.Select(a, _Q) >= 0, Imp(z3.Select(a, _Q) >= 1, And(s.live(par), Or(s.lo(par) == _Q, s.hi(par) == _Q)))), z3.Select(a, _Q)),
            FA(_P, Imp(s.live(_P), And(z3.Select(a, s.lo(_P)) >= 1, z3.Select(a, s.hi(_P)) >= 1)), s.lo(_P), s.hi(_P))]
def L_arcs_add(o, s, r):
    """s has one more live node than o, r; the arcs of the others are the same"""
    agree = FA(_P, Imp(o.live(_P), And(s.lo(_P) == o.lo(_P), s.hi(_P) == o.hi(_P))), s.lo(_P), s.hi(_P))
    return Imp(And(Not(o.live(r)), s.live_ == z3.Store(o.live_, r, True), agree),
               FA(_Q, z3.Select(arcs(s), _Q) == z3.Select(arcs(o), _Q) + If(s.lo(r) == _Q, 1, 0) + If(s.hi(r) == _Q, 1, 0), z3.Select(arcs(s), _Q)))
def L_arcs_sub(o, s, r):
    """s has one live node less than o, r; the arcs of the others are the same"""
    agree = FA(_P, Imp(s.live(_P), And(s.lo(_P) == o.lo(_P), s.hi(_P) == o.hi(_P))), s.lo(_P), s.hi(_P))
    return Imp(And(o.live(r), s.live_ == z3.Store(o.live_, r, False), agree),
               FA(_Q, z3.Select(arcs(s), _Q) == z3.Select(arcs(o), _Q) - If(o.lo(r) == _Q, 1, 0) - If(o.hi(r) == _Q, 1, 0), z3.Select(arcs(s), _Q)))
def L_arcs_same(o, s):
    return Imp(And(s.live_ == o.live_, FA(_P, Imp(o.live(_P), And(s.lo(_P) == o.lo(_P), s.hi(_P) == o.hi(_P))), s.lo(_P), s.hi(_P))), arcs(s) == arcs(o))
def L_card(live, r): return And(CARD(z3.Store(live, r, True)) == CARD(live) + If(z3.Select(live, r), 0, 1), CARD(z3.Store(live, r, False)) == CARD(live) - If(z3.Select(live, r), 1, 0), CARD(live) >= 0, CARD(z3.Store(live, r, False)) >= 0,
                                CARD(z3.K(I, z3.BoolVal(False))) == 0)

def uth(s, l, h): return UTH(l, h, s.key(l), s.key(h), s.ix(l), s.ix(h))
def uthash(s, p): return uth(s, s.lo(p), s.hi(p))
def mh(s, f, g, h): return MH(f, g, h, s.key(f), s.key(g), s.ix(f), s.ix(g))
def base_(st, v): return z3.Select(st['M.vars[].base'], v)
def mask_(st, v): return z3.Select(st['M.vars[].mask'], v)
def free_(st, v): return z3.Select(st['M.vars[].free'], v)
def row_(st, v): return z3.Select(st['PG[][]'], base_(st, v))
_VV = z3.Int('v!')
def T_page(st, v):
    b, m = base_(st, v), mask_(st, v)
    return And(pow2(m), m >= 63, m <= 524287, b > 0, z3.Select(st['G.pguser'], b) == v, z3.Select(st['G.pgown'], b) == -1, z3.Select(st['G.pgcap'], b) >= m + 1,
               z3.Select(st['M.vars[].var'], v) == v)
def T_free(st, v): return And(free_(st, v) == CNT0(row_(st, v), mask_(st, v) + 1), 2 * free_(st, v) >= mask_(st, v) - 1)
def T_slot(st, v, k):
    s = V(st); q = z3.Select(row_(st, v), k)
    return Imp(And(0 <= k, k <= mask_(st, v), q != 0), And(s.inner(q), s.ix(q) == v, s.off(q) == k))
def T_node(st, p, v):
    s = V(st)
    return And(0 <= s.off(p), s.off(p) <= mask_(st, v), z3.Select(row_(st, v), s.off(p)) == p)
def T_probe(st, p, k, v):
    s = V(st)
    return Imp(And(0 <= k, k <= mask_(st, v), UNW(uthash(s, p), k, mask_(st, v)) < UNW(uthash(s, p), s.off(p), mask_(st, v))), z3.Select(row_(st, v), k) != 0)
def T_clauses(st, exc=None, nv=None, lo=None):
    s, p, k, v = V(st), _P, _K, _VV
    nv = s.nv if nv is None else nv
    ok = lambda v: And(0 <= v, v < nv, *([v != exc] if exc is not None else []), *([lo <= v] if lo is not None else []))
    okp = lambda p: And(s.inner(p), *([s.ix(p) != exc] if exc is not None else []), *([lo <= s.ix(p)] if lo is not None else []))
    return [('table pages are in use by their variable only and large enough', FA(v, Imp(ok(v), T_page(st, v)), base_(st, v), mask_(st, v), z3.Select(st['M.vars[].var'], v))),
            ('free slots are counted', FA(v, Imp(ok(v), T_free(st, v)), base_(st, v), free_(st, v))),
            ('slots hold nodes of the variable, each once', FA([v, k], Imp(ok(v), T_slot(st, v, k)), *[z3.Select(x, z3.Select(row_(st, v), k)) for x in (s.live_, s.off_, s.ix_, s.lo_, s.key_, st["G.alloc"])])),
            ('nodes are in their table', FA(p, Imp(okp(p), T_node(st, p, s.ix(p))), MP(s.off(p), s.live(p)), MP(s.lo(p), s.off(p)), MP(s.lo(p), s.live(p)))),
            ('no gap before a node', FA([p, k], Imp(okp(p), T_probe(st, p, k, s.ix(p))), MP(s.lo(p), s.off(p), z3.Select(row_(st, s.ix(p)), k))))]
def R_clauses(st):
    s, p = V(st), _P
    return [('handles refer to existing nodes', FA(p, And(s.hc(p) >= 0, Imp(s.hc(p) > 0, s.live(p))), s.hc(p))),
            ('reference counts are the number of arcs', FA(p, Imp(s.live(p), s.xref(p) == z3.Select(arcs(s), p) + If(s.term(p), 1, 0)), s.xref(p)))]
NPS = 4096
def P_clauses(st):
    s, k, x = V(st), _K, _X
    m, av, np = st['M.node_cache_.mem_node'], st['M.node_cache_.nodeavail'], st['M.node_cache_.nodeptr']
    fl = lambda i: z3.Select(st['G.fl'], i)
    fn = st['G.fn']
    return [('current page', And(m > 3, m <= np, np <= m + NPS, fn >= 0, av == If(fn == 0, 0, fl(fn - 1)))),
            ('nodes in use are addresses', FA(_P, Imp(s.live(_P), And(_P > 3, z3.Select(s.alloc_, _P))), s.live(_P))),
            ('nodes of the current page', FA(x, Imp(And(m <= x, x < m + NPS), z3.Select(s.alloc_, x)), z3.Select(s.alloc_, x))),
            ('unused nodes', FA(x, Imp(And(np <= x, x < m + NPS), Not(s.live(x))), s.live(x))),
            ('released nodes', FA(k, Imp(And(0 <= k, k < fn), And(Not(And(np <= fl(k), fl(k) < m + NPS)), fl(k) > 3, z3.Select(s.alloc_, fl(k)), Not(s.live(fl(k))), z3.Select(st['G.fpos'], fl(k)) == k)), fl(k))),
            ('released nodes are linked', FA(k, Imp(And(0 <= k, k < fn), s.lo(fl(k)) == If(k == 0, 0, fl(k - 1))), s.lo(fl(k)))),
            ('nodes in use are counted', And(st['M.node_cache_.total_nodes'] == CARD(s.live_), s.live(s.bot), s.live(s.top), s.bot != s.top))]
NCAP = z3.Function('NCAP', I, I)              # page size of page cache c
def PP_clauses(st):
    c, k = _VV, _K
    pl = lambda c, i: z3.Select(z3.Select(st['G.pfl'], c), i)
    pn = lambda c: z3.Select(st['G.pfn'], c)
    sel = lambda a, i: z3.Select(st[a], i)
    out = [('free pages', FA([c, k], Imp(And(1 <= c, c <= 15, 0 <= k, k < pn(c)), And(pl(c, k) > 0, sel('G.pgown', pl(c, k)) == c, sel('G.pgcap', pl(c, k)) >= NCAP(c), sel('G.pfpos', pl(c, k)) == k)), pl(c, k))),
           ('free pages are linked', FA([c, k], Imp(And(1 <= c, c <= 15, 0 <= k, k < pn(c)), sel('PGL[]', pl(c, k)) == If(k == 0, 0, pl(c, k - 1))), sel('PGL[]', pl(c, k))))]
    for i, (f, n, cnt) in enumerate(CACHES, 1):
        av = st[f'M.page_cache_.{f}.page_avail']
        out.append((f'first free page of {f}', And(NCAP(i) == n, pn(i) >= 0, av == If(pn(i) == 0, 0, pl(i, pn(i) - 1)))))
    return out
CACHES = []
def set_caches(ex):
    if CACHES: return
    from lbddv.sx import targs, clean, tstr
    for f in ex.types.fields(ex.types.rec['unique_table_page_caches']):
        a = targs(clean(tstr(f)))
        CACHES.append((f['name'], int(a[0].rstrip('UL')), int(a[1].rstrip('UL'))))
MKCOLS = ['H[].marked_', 'G.live']
def MK_clauses(st):
    s, p = V(st), _P
    return [('no live node is marked', FA(p, Imp(s.live(p), s.mark(p) == 0), s.mark(p)))]

GROUPS = {'F': (FCOLS, F_clauses), 'MI': (MICOLS, MI_clauses), 'MS': (MSCOLS, MS_clauses), 'T': (TCOLS, T_clauses), 'R': (RCOLS, R_clauses), 'P': (PCOLS, P_clauses),
          'PP': (PPCOLS, PP_clauses), 'MK': (MKCOLS, MK_clauses)}
_uf = {}
def opaque(g, st):
    cols = GROUPS[g][0]
    if callable(cols): cols = cols(st)
    args = [st[c] for c in cols]
    f = _uf.get((g, len(args)))
    if f is None:
        f = z3.Function('INV_' + g, *([a.sort() for a in args] + [B]))
        _uf[(g, len(args))] = f
    return f(*args)

def inv(c, groups, st=None):
    """invariant groups; opaque unless the function under verification reveals them"""
    st = c.st if st is None else st
    rev = getattr(c.ex.contract, 'reveal', ())
    out = []
    for g in groups:
        if g in rev:
            out += [(f'{g}: {n}', f) for n, f in GROUPS[g][1](st)]
        else:
            out.append((f'{g} holds', opaque(g, st)))
    return out

def EXT(c):
    """what every operation leaves as it was: all nodes that were live"""
    o, s, p = V(c.old), V(c.st), _P
    out = []
    for nm, f in (('live', 'live'),):
        out.append(('live nodes stay', FA(p, Imp(o.live(p), s.live(p)), s.live(p))))
    for f in ('lo', 'hi', 'ix', 'key', 'val'):
        a, b = getattr(s, f + '_'), getattr(o, f + '_')
        if a.eq(b): continue
        out.append((f'{f} of live nodes unchanged', FA(p, Imp(o.live(p), z3.Select(a, p) == z3.Select(b, p)), z3.Select(a, p))))
    if not s.alloc_.eq(o.alloc_):
        out.append(('allocated nodes stay', FA(p, Imp(z3.Select(o.alloc_, p), z3.Select(s.alloc_, p)), z3.Select(s.alloc_, p))))
    return out

# ------------------------------------------------------------------ worlds
def heap_world(ex):
    st = ex.st
    for f, so in (('lo', I), ('hi', I), ('index', I), ('hash_key', I), ('marked_', I), ('xref', I)):
        st['H[].' + f] = ex.fresh('H.' + f, AII)
    st['G.alloc'] = ex.fresh('G.alloc', ABI)
    st['G.live'] = ex.fresh('G.live', ABI)
    st['G.val'] = ex.fresh('G.val', ABI)
    st['G.hc'] = ex.fresh('G.hc', AII)
    st['G.node'] = ex.fresh('G.node', z3.ArraySort(K3, I))

def mgr_world(ex):
    st = ex.st
    heap_world(ex)
    ex.declare('M', 'bdd_mgr')
    st['PG[][]'] = ex.fresh('PG', z3.ArraySort(I, AII))
    st['NP[].next'] = ex.fresh('NPnext', AII)
    st['PGL[]'] = ex.fresh('PGL', AII)
    set_caches(ex)
    st['G.memo'] = ex.fresh('G.memo', z3.ArraySort(K3, I))
    st['G.off'] = ex.fresh('G.off', AII)
    for g in ('pgown', 'pgcap', 'pguser', 'fpos', 'fl', 'pfpos', 'pfn'):
        st['G.' + g] = ex.fresh('G.' + g, AII)
    st['G.pfl'] = ex.fresh('G.pfl', z3.ArraySort(I, AII))
    st['G.fn'] = ex.fresh('G.fn', I)
    return Ref('M')

def nref(ex, name):
    r = ex.new_local(name, sx.AggV({'.ref': ex.fresh(name, I)}))
    return r

ALLINV = ('F', 'T', 'R', 'P', 'PP', 'MI', 'MS', 'MK')
MOD_NODES = [r'H\[\]\..*', r'M\.vars\[\]\.(base|mask|free|timer)', r'PG\[\]\[\]', r'PGL\[\]', r'M\.page_cache_\..*', r'M\.node_cache_\.(mem_node|nodeavail|nodeptr|total_nodes)', r'NP\[\]\.next',
             r'G\.(live|val|node|alloc|off|pg.*|f.*|pf.*)']
MOD_MEMO = [r'M\.memo_\.(memos.*|memos_mask|cache_inserts|threshold)', r'G\.memo']
