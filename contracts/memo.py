"""Contracts of the memo cache."""
from .theory import *
from .store import function_of, setg

from .theory import _K, _P, _Q
ME = 'M.memo_.'
def mcol(st, f, k): return z3.Select(st[ME + 'memos[].' + f], k)
def msz(st): return st[ME + 'memos#']
def mmask(st): return st[ME + 'memos_mask']
class Memo(Contract):
    nargs = 0
    def world(self, ex):
        mgr_world(ex)
        return Ref('M.memo_'), [ex.fresh('fghr'[i], I) for i in range(self.nargs)]
    def assume(self, c):
        m = mmask(c.st)
        return L_band(m) + L_band(2 * m + 1) + L_band2(m) + [L_pow2(m), L_pow2_next(m)]
def operands(s, f, g, h): return And(s.live(f), s.live(g), Or(h == 1, h == 2, h == 3, s.live(h)))

class Hash(Memo):
    key = 'BDD::memo_cache::cache_hash'
    nargs = 3
    def pre(self, c):
        s = V(c.st)
        return [('operands are nodes', And(z3.Select(s.alloc_, c.arg(0)), z3.Select(s.alloc_, c.arg(1)), c.arg(1) != 0))]
    def post(self, c):
        s = V(c.st); f, g, h = c.arg(0), c.arg(1), c.arg(2)
        o = [('hash value is in range', And(0 <= c.r, c.r < 2 ** 64))]
        if c.body:
            if len(c.ex.trace) > 0: raise Unsupported('hash with branches')
            return o + [('the hash is a function of the operands', function_of(c, c.r, [s.key(f), s.key(g), s.ix(f), s.ix(g), f, g, h]))]
        return o + [('function of the operands', c.r == mh(s, f, g, h))]

class Lookup(Memo):
    key = 'BDD::memo_cache::cache_lookup'
    nargs = 3
    reveal = ('MI', 'MS', 'R', 'F')
    def pre(self, c):
        s = V(c.st); f, g, h = c.arg(0), c.arg(1), c.arg(2)
        return [('operands are nodes', operands(s, f, g, h))] + inv(c, ('F', 'MI', 'MS', 'R'))
    def assume(self, c): return Memo.assume(self, c) + L_arcs(V(c.st))
    def post(self, c):
        s = V(c.st); f, g, h = c.arg(0), c.arg(1), c.arg(2); r = c.ret
        more = [] if c.body or not getattr(c.ex.contract, 'for_all', None) else [('the result under every assignment', c.ex.contract.for_all(s, f, g, h, r))]
        return more + [('nothing or the result', Or(r == 0, And(r != 0, memo_ok(s, f, g, h, r)))),
                ('nothing or what was stored last for these operands', Or(r == 0, r == z3.Select(s.memo_, K3.k3(f, g, h))))]

class Insert(Memo):
    key = 'BDD::memo_cache::cache_insert'
    nargs = 4
    modifies = MOD_MEMO
    reveal = ('MI', 'MS', 'F')
    def pre(self, c):
        s = V(c.st); f, g, h, r = [c.arg(i) for i in range(4)]
        return [('stored result is the result of the operands', memo_ok(s, f, g, h, r))] + inv(c, ('F', 'MI', 'MS'))
    def ghost_exit(self, c):
        f, g, h, r = [c.arg(i) for i in range(4)]
        setg(c, 'G.memo', z3.Store(c.old['G.memo'], K3.k3(f, g, h), r))
    def post(self, c):
        s, o = V(c.st), V(c.old); f, g, h, r = [c.arg(i) for i in range(4)]
        return inv(c, ('MI', 'MS')) + [('it is the stored result from now on', s.memo_ == z3.Store(o.memo_, K3.k3(f, g, h), r))]

class Double(Memo):
    key = 'BDD::memo_cache::double_cache'
    modifies = MOD_MEMO[:1]
    reveal = ('MI', 'MS', 'F')
    def pre(self, c): return inv(c, ('F', 'MI', 'MS'))
    def _loop(c):
        o, st = c.old, c.st
        s = V(st); n, m = msz(o), mmask(o)
        k, j = c.ivar(), _K
        f, g, h, r = [mcol(st, x, j) for x in 'fghr']
        M = 2 * m + 1
        return [('range', And(0 <= k, k <= n, msz(st) == 2 * n, mmask(st) == M)),
                ('entries are results', FA(j, Imp(And(0 <= j, j < 2 * n, r != 0), And(memo_ok(s, f, g, h, r), z3.Select(s.memo_, K3.k3(f, g, h)) == r)), r)),
                ('moved entries are in their new slots', FA(j, Imp(And(Or(And(0 <= j, j < k), And(n <= j, j < 2 * n)), r != 0), j == band(mh(s, f, g, h), M)), r)),
                ('other entries are in their old slots', FA(j, Imp(And(k <= j, j < n, r != 0), j == band(mh(s, f, g, h), m)), r)),
                ('upper slots are empty', FA(j, Imp(And(n + k <= j, j < 2 * n), r == 0), r))]
    loops = [LoopSpec(inv=_loop, name='rehash', decreases=lambda c: msz(c.old) - c.ivar())]
    def post(self, c): return inv(c, ('MI', 'MS'))

class Purge(Memo):
    """results with a dead operand or a dead result are forgotten, the others stay. Called when nodes have been released:
    nodes are still allocated, those released have no references"""
    key = 'BDD::memo_cache::purge'
    modifies = [r'M\.memo_\.memos\[\]\.r']
    reveal = ('MS',)
    def entries(self, c, k):
        s = V(c.old); f, g, h, r = [mcol(c.old, x, k) for x in 'fghr']
        sym = Or(h == 1, h == 2, h == 3)
        return s, f, g, h, r, sym
    def pre(self, c):
        s, f, g, h, r, sym = self.entries(c, _K)
        al = lambda p: And(z3.Select(s.alloc_, p), p > 3)
        return [('remembered nodes are allocated', FA(_K, Imp(And(0 <= _K, _K < msz(c.st), r != 0), And(al(r), al(f), al(g), Or(sym, al(h)))), r))] + inv(c, ('MS',))
    def _loop(c):
        st, o = c.st, c.old; s = V(st)
        k, j = c.ivar(), _K
        f, g, h, r0 = [mcol(o, x, j) for x in 'fghr']
        r = mcol(st, 'r', j)
        sym = Or(h == 1, h == 2, h == 3)
        al = And(s.cnt(r0) > 0, s.cnt(f) > 0, s.cnt(g) > 0, Or(sym, s.cnt(h) > 0))
        return [('range', And(0 <= k, k <= msz(st))),
                ('seen', FA(j, Imp(And(0 <= j, j < msz(st)), r == If(Or(j >= k, And(r0 != 0, al)), r0, 0)), r, r0))]
    loops = [LoopSpec(inv=_loop, name='purge', decreases=lambda c: msz(c.st) - c.ivar())]
    def post(self, c):
        s, f, g, h, r0, sym = self.entries(c, _K)
        r = mcol(c.st, 'r', _K)
        al = And(s.cnt(r0) > 0, s.cnt(f) > 0, s.cnt(g) > 0, Or(sym, s.cnt(h) > 0))
        return [('exactly results of nodes in use stay', FA(_K, Imp(And(0 <= _K, _K < msz(c.st)), r == If(And(r0 != 0, al), r0, 0)), r))]

CONTRACTS = [Hash(), Lookup(), Insert(), Double(), Purge()]
