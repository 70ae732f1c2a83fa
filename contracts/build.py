"""Contracts for stored BDDs that are built or changed node by node. While a BDD is under construction it is the last one and has no
terminals; UNDEF, TBOT, TTOP are the places of arcs that are not set or lead to terminals."""
from .coltheory import *
from .coltheory import _I, _J, _K
from .colquery import CC
from .colnode import node, ND
from .meld import named
UNDEF, TTOP, TBOT = 2**64 - 3, 2**64 - 2, 2**64 - 1
ICOL = [r'C\.bdd_instructions.*']
def stored(st):
    """the state without the last BDD"""
    s = dict(st); w = W(st)
    s['C.bdd_delimiters#'] = w.nd - 1
    s['C.bdd_instructions#'] = w.d(w.nd - 2)
    return s
def under(c):
    """a BDD is under construction"""
    w = W(c.st)
    s = w.d(w.nd - 2)
    return [('a BDD is under construction', And(w.nd >= 2, w.d(w.nd - 1) == w.n, 0 <= s, s <= w.n, w.n <= 2**60 - 4))] + inv(c, ('CS', 'CO'), st=stored(c.st))
def same(c, hi, but=None):
    """instructions below hi are unchanged (but: columns not considered)"""
    o, w, i = W(c.old), W(c.st), _I
    cols = [('lo', w.lo, o.lo), ('hi', w.hi, o.hi), ('ix', w.ix, o.ix)]
    return [('instructions are kept', FA(i, Imp(And(0 <= i, i < hi), And(*[f(i) == g(i) for n, f, g in cols if n != but])), *[f(i) for n, f, g in cols if n != but]))]
def same_d(c, hi):
    o, w, k = W(c.old), W(c.st), _K
    return [('delimiters are kept', FA(k, Imp(And(0 <= k, k < hi), w.d(k) == o.d(k)), w.d(k)))]
class New(Contract):
    key = CC + 'new_bdd'
    modifies = [r'C\.bdd_delimiters.*']
    reveal = ('CS', 'CO')
    def world(self, ex): return col_world(ex), []
    def pre(self, c): return [('room', W(c.st).nd <= 2**60 - 4)] + inv(c, ('CS', 'CO'))
    def post(self, c):
        o, w = W(c.old), W(c.st)
        return [('an empty BDD follows', And(w.nd == o.nd + 1, w.d(o.nd) == o.n, w.n == o.n, c.r == o.nb))] + same_d(c, o.nd) + inv(c, ('CS', 'CO'), st=stored(c.st))
class AddNode(Contract):
    key = CC + 'add_bdd_node'
    modifies = ICOL + [r'C\.bdd_delimiters.*']
    reveal = ('CS', 'CO')
    def world(self, ex): return col_world(ex), [ex.fresh('var', I)]
    def pre(self, c): return [('a variable', And(0 <= c.arg(0), c.arg(0) < BOTX))] + under(c)
    def post(self, c):
        o, w = W(c.old), W(c.st); n = o.n
        r = c.ret if isinstance(c.ret, sx.AggV) else c.ex.load(c.ret)
        if not isinstance(r.d.get('.bce.bdd_col'), Ref) or r.d['.bce.bdd_col'].p != 'C': return [('node of the collection', z3.BoolVal(False))]
        return [('one instruction follows, its arcs are not set', And(w.n == n + 1, w.ix(n) == c.arg(0), w.lo(n) == UNDEF, w.hi(n) == UNDEF)), ('the BDD ends behind it', And(w.nd == o.nd, w.d(o.nd - 1) == n + 1)),
                ('it is the node', And(r.d['.i'] == n, r.d['.bce.bdd_nr'] == o.nb - 1))] + same(c, n) + same_d(c, o.nd - 1) + inv(c, ('CS', 'CO'), st=stored(c.st))
class Set(Contract):
    """an arc of a node"""
    which = 'lo'
    @property
    def modifies(self): return [r'C\.bdd_instructions\[\]\.' + self.which]
    def world(self, ex):
        col_world(ex)
        return node(ex), self.extra(ex)
    def extra(self, ex): return [node(ex, 'N2')]
    def i(self, c): return c.old['N.i']
    def nr(self, c): return c.old['N.bce.bdd_nr']
    def isnode(self, c, p):
        w, i, b = W(c.st), c.st[p + '.i'], c.st[p + '.bce.bdd_nr']
        return And(0 <= b, b < w.nb, 0 <= w.d(b), w.d(b) <= i, i < w.d(b + 1), w.d(b + 1) <= w.n)
    def pre(self, c): return [('a node', self.isnode(c, 'N'))] + self.req(c)
    def req(self, c): return [('a node', self.isnode(c, 'N2'))]
    def arc(self, c): w = W(c.st); return (w.lo if self.which == 'lo' else w.hi)(self.i(c))
    def target(self, c): return [('the arc leads to the node', self.arc(c) == c.old['N2.i'])]
    def post(self, c):
        o, w, i = W(c.old), W(c.st), _I
        f, g = (w.lo, o.lo) if self.which == 'lo' else (w.hi, o.hi)
        return self.target(c) + [('all other arcs stay', FA(i, Imp(And(0 <= i, i < w.n, i != self.i(c)), f(i) == g(i)), f(i)))]
class SetLo(Set): key = ND + 'set_lo_arc'
class SetHi(Set):
    key = ND + 'set_hi_arc'
    which = 'hi'
class SetTerm(Set):
    """an arc to a terminal, which may still be missing"""
    value = False
    def extra(self, ex): return []
    def last(self, c): return W(c.old).d(self.nr(c) + 1) - 1
    def req(self, c):
        w, e = W(c.st), self.last(c)
        term = lambda i: Or(w.ix(i) == BOTX, w.ix(i) == TOPX)
        return [('a BDD under construction or one with both terminals', Or(Not(term(e)), And(term(e), term(e - 1), w.ix(e) != w.ix(e - 1), w.d(self.nr(c)) < e)))]
    def target(self, c):
        o, a, e = W(c.old), self.arc(c), self.last(c)
        opened = And(o.ix(e) != BOTX, o.ix(e) != TOPX)
        x = TOPX if self.value else BOTX
        return [('the arc is to lead to the terminal', If(opened, a == (TTOP if self.value else TBOT), And(o.ix(a) == x, Or(a == e, a == e - 1))))]
class SetLo0(SetTerm): key = ND + 'set_lo_to_0_terminal'
class SetLo1(SetTerm): key, value = ND + 'set_lo_to_1_terminal', True
class SetHi0(SetTerm): key, which = ND + 'set_hi_to_0_terminal', 'hi'
class SetHi1(SetTerm): key, which, value = ND + 'set_hi_to_1_terminal', 'hi', True
class Close(Contract):
    """G.wf: the nodes form an ordered reduced BDD in which arcs lead to later nodes; then the result is a stored BDD like all others. G.mv: values
    of the nodes, G.mn: the node with given arcs and variable."""
    key = CC + 'close_bdd'
    modifies = ICOL + [r'C\.bdd_delimiters.*', r'G\.(cb|cn|cval|bs|be)']
    may_throw = True
    reveal = ('CS', 'CO')
    def world(self, ex):
        this = col_world(ex)
        ex.st['G.wf'] = ex.fresh('G.wf', z3.BoolSort())
        ex.st['G.mv'], ex.st['G.mn'] = ex.fresh('G.mv', ABI), ex.fresh('G.mn', ex.st['G.cn'].sort())
        return this, []
    def start(self, c): w = W(c.old); return w.d(w.nd - 2)
    def pre(self, c):
        w, i, st = W(c.st), _I, c.st; s = w.d(w.nd - 2)
        inr = And(s <= i, i < w.n)
        arc = lambda x: Or(x == UNDEF, x == TBOT, x == TTOP, And(s <= x, x < w.n))
        later = lambda x: Or(x == TBOT, x == TTOP, And(i < x, x < w.n, w.ix(i) < w.ix(x)))
        mn = lambda t: z3.Select(st['G.mn'], t)
        return under(c) + [('arcs', FA(i, Imp(inr, And(arc(w.lo(i)), arc(w.hi(i)))), w.lo(i), w.hi(i))),
            ('ordered and reduced', Imp(st['G.wf'], FA(i, Imp(inr, And(0 <= w.ix(i), w.ix(i) < BOTX, w.lo(i) != w.hi(i), later(w.lo(i)), later(w.hi(i)), mn(w.trip(i)) == i)), w.lo(i), w.hi(i))))]
    def assume(self, c):
        # values of the nodes exist: recursion over later nodes
        w, i, st = W(c.st), _I, c.st; s = w.d(w.nd - 2)
        mv = lambda x: If(x == TBOT, z3.BoolVal(False), If(x == TTOP, z3.BoolVal(True), z3.Select(st['G.mv'], x)))
        return [Imp(st['G.wf'], FA(i, Imp(And(s <= i, i < w.n), z3.Select(st['G.mv'], i) == If(z3.Select(A, w.ix(i)), mv(w.hi(i)), mv(w.lo(i)))), w.lo(i), w.hi(i)))]
    def tr(self, c, x): n = W(c.old).n; return If(x == TBOT, n + 1, If(x == TTOP, n, x))
    def routed(self, c, lo, upto):
        """arcs of nodes before upto are routed"""
        o, w, i = W(c.old), W(c.st), _I
        s = self.start(c)
        return [('arcs lead to their nodes', FA(i, Imp(And(s <= i, i < upto), And(o.lo(i) != UNDEF, o.hi(i) != UNDEF, w.lo(i) == self.tr(c, o.lo(i)), w.hi(i) == self.tr(c, o.hi(i)))), w.lo(i), w.hi(i)))]
    def loop(c):
        me, o, w, i = c.ex.contract, W(c.old), W(c.st), _I; x, n = c.ivar(), W(c.old).n
        if 'C.bdd_instructions[].lo' not in c.mods: return []
        return [('index', And(me.start(c) <= x, x <= n)),
                ('rest', FA(i, Imp(And(0 <= i, i < n, Or(i < me.start(c), i >= x)), And(w.lo(i) == o.lo(i), w.hi(i) == o.hi(i))), w.lo(i), w.hi(i))),
                ('terminals', And(*[f(n) == TOPX for f in (w.lo, w.hi)], *[f(n + 1) == BOTX for f in (w.lo, w.hi)]))] + me.routed(c, 0, x)
    loops = [LoopSpec(inv=loop, name='arcs', decreases=lambda c: W(c.old).n - c.ivar())]
    def ghost_exit(self, c):
        ex, st, o = c.ex, c.ex.st, W(c.old); j = _J
        s, n, b = self.start(c), o.n, o.nb - 1
        cb, cv, bs, be, cn = ex.fresh('G.cb', AII), ex.fresh('G.cval', ABI), ex.fresh('G.bs', AII), ex.fresh('G.be', AII), ex.fresh('G.cn', st['G.cn'].sort())
        new = lambda a, v: FA(j, z3.Select(a, j) == v, z3.Select(a, j))
        ex.assume(new(cb, If(j >= s, b, o.cb(j))))
        ex.assume(new(cv, If(j >= n, j == n, If(j >= s, z3.Select(c.old['G.mv'], j), o.val(j)))))
        ex.assume(new(bs, If(j == b, s, If(j == b + 1, n + 2, o.bs(j)))))
        ex.assume(new(be, If(j == b, n + 2, o.be(j))))
        t = z3.Const('t!', K3)
        un = lambda x: If(x == n + 1, iv(TBOT), If(x == n, iv(TTOP), x))
        ex.assume(FA(t, z3.Select(cn, t) == If(K3.k0(t) >= s, z3.Select(c.old['G.mn'], K3.k3(un(K3.k0(t)), un(K3.k1(t)), K3.k2(t))), o.cn(t)), z3.Select(cn, t)))
        st.update({'G.cb': cb, 'G.cval': cv, 'G.bs': bs, 'G.be': be, 'G.cn': cn})
        c.st = st
    def post(self, c):
        o, w, i = W(c.old), W(c.st), _I; n = o.n
        wf = c.old['G.wf']
        return [('the terminals follow', And(w.n == n + 2, w.ix(n) == TOPX, w.ix(n + 1) == BOTX, *[f(n) == TOPX for f in (w.lo, w.hi)], *[f(n + 1) == BOTX for f in (w.lo, w.hi)])),
                ('the BDD ends behind them', And(w.nd == o.nd, w.d(o.nd - 1) == n + 2)),
                ('variables are kept', FA(i, Imp(And(0 <= i, i < n), w.ix(i) == o.ix(i)), w.ix(i))),
                ('other BDDs are kept', FA(i, Imp(And(0 <= i, i < self.start(c)), And(w.lo(i) == o.lo(i), w.hi(i) == o.hi(i))), w.lo(i), w.hi(i)))] + same_d(c, o.nd - 1) + self.routed(c, 0, n) + [
                (nm, Imp(wf, f)) for nm, f in inv(c, ('CS', 'CO'))]
    def on_throw(self, c):
        o, q = W(c.old), z3.Int('u!')
        return [('an arc is not set', z3.Exists([q], And(self.start(c) <= q, q < o.n, Or(o.lo(q) == UNDEF, o.hi(q) == UNDEF))))]
CONTRACTS = [New(), AddNode(), SetLo(), SetHi(), SetLo0(), SetLo1(), SetHi0(), SetHi1(), Close()]
