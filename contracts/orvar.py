"""Relaxation by variables. rv: value under A of the BDD under construction; src: old place of an instruction that is moved."""
from .coltheory import *
from .coltheory import _I, _J, _K, _P, _Q, _S, _X, _VV
from .colquery import CC
from .store import setg
from .meld import named
_T3 = z3.Const('t!', K3)
def trunc(st):
    """the collection without its last BDD"""
    t = sx.State(st)
    w = W(st)
    t['C.bdd_instructions#'], t['C.bdd_delimiters#'] = w.d(w.nd - 2), w.nd - 1
    return t
def rv(st, x): return z3.Select(st['G.rv'], x)
def sel(c, v, x): return z3.Select(named(c.ex, c.st[v + '[]']), x)
def earlier(o, w, f):
    return [(f'{nm} of earlier instructions unchanged', FA(_X, Imp(And(0 <= _X, _X < f), getattr(w, nm)(_X) == getattr(o, nm)(_X)), getattr(w, nm)(_X))) for nm in ('lo', 'hi', 'ix')]
class Reduce(Contract):
    """the last instructions form an ordered graph; it becomes a BDD with the same value"""
    key = CC + 'reduce'
    modifies = [r'C\.bdd_instructions.*', r'C\.bdd_delimiters\[\]', r'G\.(cb|cn|cval|bs|be)']
    reveal = ('CS', 'CO')
    def world(self, ex):
        this = col_world(ex)
        ex.st['G.rv'] = ex.fresh('G.rv', ABI)
        return this, []
    def dims(self, c, st=None):
        w = W(st or c.old)
        f, e = w.d(w.nd - 2), w.n
        return w, f, e
    def pre(self, c):
        if 'G.rv' not in c.st: c.st['G.rv'] = c.ex.fresh('G.rv', ABI)
        w, f, e = self.dims(c, c.st); x = _X
        R = lambda x: rv(c.st, x)
        return [('a last BDD', And(w.nd >= 2, 0 <= f, f + 2 <= e, w.d(w.nd - 1) == e, e <= 2 ** 60)),
            ('arcs lead to later instructions, values', FA(x, Imp(And(f <= x, x < e - 2), And(x < w.lo(x), w.lo(x) < e, x < w.hi(x), w.hi(x) < e, w.ix(x) < w.ix(w.lo(x)), w.ix(x) < w.ix(w.hi(x)), 0 <= w.ix(x), w.ix(x) < BOTX,
                R(x) == If(z3.Select(A, w.ix(x)), R(w.hi(x)), R(w.lo(x))))), w.lo(x), w.hi(x))),
            ('both terminals', And(*[And(w.lo(t) == w.hi(t), Or(w.ix(t) == BOTX, w.ix(t) == TOPX), R(t) == (w.ix(t) == TOPX)) for t in (e - 2, e - 1)], w.ix(e - 2) != w.ix(e - 1)))] + inv(c, ('CS', 'CO'), trunc(c.st))
    def vec(c, what):
        v = [k[:-2] for k in c.mods if k.startswith('L') and k.endswith('[]')]
        if len(v) > 1: raise Unsupported(what)
        return v[0] if v else None
    def get(c, k):
        if k not in c.ex.ghost: raise Unsupported('order of the loops of reduce')
        return c.ex.ghost[k]
    # --- bottom up
    def up(c):
        w0, f, e = c.ex.contract.dims(c); w, st = W(c.st), c.st; j, x, t = _J, _X, _T3
        i = c.ivar()
        v = Reduce.vec(c, 'representatives')
        if v is None: return []
        m = sorted({r.p for r in c.env.values() if isinstance(r, Ref) and r.p + '?' in st and r.p.startswith('L')})
        if len(m) != 1: raise Unsupported('map of instructions')
        c.ex.ghost['rep'], c.ex.ghost['map'] = v, m[0]
        n = e - f
        rep = lambda j: sel(c, v, j)
        R = lambda x: rv(st, x)
        dom, img = named(c.ex, st[m[0] + '?']), named(c.ex, st[m[0] + '{}'])
        D, G_ = lambda t: z3.Select(dom, t), lambda t: z3.Select(img, t)
        return [('index', And(f <= i, i <= e - 2)), ('terminals represent themselves', And(rep(n - 1) == e - 1, rep(n - 2) == e - 2)),
            ('representatives have the same value', FA(j, Imp(And(i - f <= j, j < n), And(j + f <= rep(j), rep(j) < e, R(rep(j)) == R(j + f), w.ix(rep(j)) >= w.ix(j + f), rep(rep(j) - f) == rep(j))), rep(j))),
            ('arcs of instructions done', FA(x, Imp(And(i <= x, x < e - 2), And(x < w.lo(x), w.lo(x) < e, x < w.hi(x), w.hi(x) < e, w.ix(x) < w.ix(w.lo(x)), w.ix(x) < w.ix(w.hi(x)),
                rep(w.lo(x) - f) == w.lo(x), rep(w.hi(x) - f) == w.hi(x), R(x) == If(z3.Select(A, w.ix(x)), R(w.hi(x)), R(w.lo(x))),
                If(w.lo(x) == w.hi(x), rep(x - f) == w.lo(x), And(D(w.trip(x)), G_(w.trip(x)) == rep(x - f))))), w.lo(x), w.hi(x))),
            ('instructions in the map', FA(t, Imp(D(t), And(i <= G_(t), G_(t) < e - 2, w.trip(G_(t)) == t, w.lo(G_(t)) != w.hi(G_(t)), rep(G_(t) - f) == G_(t))), D(t), G_(t))),
            ('others unchanged', FA(x, Imp(Or(x < i, x >= e - 2), And(w.lo(x) == w0.lo(x), w.hi(x) == w0.hi(x))), w.lo(x), w.hi(x)))]
    # --- what is reached from the root
    def kept(c, x, st=None): return sel(c, Reduce.get(c, 'keep'), x - c.ex.contract.dims(c)[1]) != 0
    def root(c): return sel(c, Reduce.get(c, 'rep'), iv(0))
    def down(c):
        w0, f, e = c.ex.contract.dims(c); w, st = W(c.st), c.st; j, x = _J, _X
        i = c.ivar()
        v = Reduce.vec(c, 'kept instructions')
        if v is None: return []
        c.ex.ghost['keep'] = v
        r = Reduce.root(c)
        k = lambda j: sel(c, v, j) != 0
        rep = lambda j: sel(c, Reduce.get(c, 'rep'), j)
        return [('index', And(f <= i, i <= e - 2)), ('the root is kept', k(r - f)),
            ('kept instructions', FA(j, Imp(And(0 <= j, j < e - f, k(j)), And(rep(j) == j + f, r <= j + f)), sel(c, v, j))),
            ('children of kept instructions', FA(x, Imp(And(f <= x, x < i, k(x - f)), And(k(w.lo(x) - f), k(w.hi(x) - f))), w.lo(x), w.hi(x)))]
    # --- new places
    def first(c): w0, f, e = c.ex.contract.dims(c); r = Reduce.root(c); return If(r <= e - 2, r, e - 2)
    def src(st, y): return z3.Select(st['G.rsrc'], y)
    def place(c):
        w0, f, e = c.ex.contract.dims(c); st = c.st; j, l, y = _J, _K, _X
        i, nr = c.ivar(), c.other()
        v = Reduce.vec(c, 'new places')
        if v is None: return []
        c.ex.ghost['ni'] = v
        c.ex.ghost['nr'] = [k for k in c.mods if k.startswith('L') and st.get(k) is nr][0]
        ni = lambda j: sel(c, v, j)
        kp = lambda j: Reduce.kept(c, j + f)
        S = lambda y: Reduce.src(st, y)
        n = e - f
        return [('index', And(f <= i, i <= e, 0 <= nr, nr <= i - f)),
            ('places', FA(j, Imp(And(0 <= j, j < i - f), And(f <= ni(j), ni(j) <= f + j, ni(j) <= f + nr, Imp(kp(j), And(ni(j) < f + nr, S(ni(j)) == j + f)), Imp(j + f <= Reduce.first(c), ni(j) == f))), ni(j))),
            ('places are increasing', FA([j, l], Imp(And(0 <= j, j < l, l < i - f), If(kp(j), ni(j) + 1 <= ni(l), ni(j) <= ni(l))), MP(ni(j), ni(l)))),
            ('instructions at the places', FA(y, Imp(And(f <= y, y < f + nr), And(f <= S(y), S(y) < i, kp(S(y) - f), ni(S(y) - f) == y, S(y) >= y)), S(y))),
            ('nothing before the root', Imp(i <= Reduce.first(c), nr == 0)),
            ('terminals come last', And(Imp(i == e, And(ni(n - 1) == f + nr - 1, ni(n - 2) == f + nr - 2)), Imp(i == e - 1, ni(n - 2) == f + nr - 1)))]
    def placehead(c): c.ex.st['G.rsrc'] = c.ex.fresh('G.rsrc', AII)
    def placeend(c):
        h, k = c.head, Reduce.get(c, 'nr')
        w0, f, e = c.ex.contract.dims(c)
        if not c.st[k].eq(h[k]): setg(c, 'G.rsrc', z3.Store(c.st['G.rsrc'], f + h[k], c.ivar() - 1))
    # --- move
    def move(c):
        w0, f, e = c.ex.contract.dims(c); st = c.st; w, p = W(c.st), W(c.pre); x = _X
        i = c.ivar()
        ni = lambda j: sel(c, Reduce.get(c, 'ni'), j); nr = st[Reduce.get(c, 'nr')]
        s = Reduce.src(st, x)
        mv = And(f <= x, x < f + nr, s < i)
        arc = lambda a: If(s < e - 2, ni(a(s) - f), a(s))
        return [('index', And(f <= i, i <= e)), ('low arcs so far', FA(x, w.lo(x) == If(mv, arc(p.lo), p.lo(x)), w.lo(x))), ('high arcs so far', FA(x, w.hi(x) == If(mv, arc(p.hi), p.hi(x)), w.hi(x))), ('variables so far', FA(x, w.ix(x) == If(mv, p.ix(s), p.ix(x)), w.ix(x)))]
    def moved(c):
        ex, st = c.ex, c.ex.st
        w0, f, e = ex.contract.dims(c); p = W(c.pre); o = w0
        if ex.ghost.get('reduced'): return
        ex.ghost['reduced'] = True
        nr = st[Reduce.get(c, 'nr')]; ni, img = st[Reduce.get(c, 'ni') + '[]'], named(ex, st[Reduce.get(c, 'map') + '{}'])
        x, t = _X, _T3
        b = o.nb - 1
        r = Reduce.root(c)
        sr, cb, cv, cn = ex.fresh('G.rplace', AII), ex.fresh('G.cb', AII), ex.fresh('G.cval', ABI), ex.fresh('G.cn', st['G.cn'].sort())
        S = lambda y: Reduce.src(st, y)
        ex.assume(FA(x, z3.Select(sr, x) == If(r == e - 1, If(x == f, e - 1, e - 2), S(x)), z3.Select(sr, x)))
        ex.assume(FA(x, z3.Select(cb, x) == If(x >= f, b, o.cb(x)), z3.Select(cb, x)))
        ex.assume(FA(x, z3.Select(cv, x) == If(x >= f, rv(st, z3.Select(sr, x)), o.val(x)), z3.Select(cv, x)))
        ex.assume(FA(t, z3.Select(cn, t) == If(K3.k0(t) >= f, z3.Select(ni, z3.Select(img, K3.k3(S(K3.k0(t)), S(K3.k1(t)), K3.k2(t))) - f), o.cn(t)), z3.Select(cn, t)))
        ex.st['G.cb'], ex.st['G.cval'], ex.st['G.cn'] = cb, cv, cn
        ex.st['G.be'] = z3.Store(st['G.be'], b, f + nr)
        ex.st['G.bs'] = z3.Store(st['G.bs'], b + 1, f + nr)
        k1 = named(ex, Reduce.first(c)); N = lambda x: z3.Select(named(ex, ni), x - f)
        ex.oblige_assume('the root is kept', Reduce.kept(c, k1))
        ex.oblige_assume('its place', And(N(k1) == f, S(N(k1)) == k1))
        ex.oblige_assume('places of the terminals', And(N(e - 1) == f + nr - 1, N(e - 2) == f + nr - 2, S(N(e - 1)) == e - 1, S(N(e - 2)) == e - 2))
        ex.oblige_assume('the root and the terminals', And(nr >= 2, S(f) == k1, S(f + nr - 1) == e - 1, S(f + nr - 2) == e - 2, Imp(r == e - 1, nr == 2)))
        ex.oblige_assume('inner instructions', FA(x, Imp(And(f <= x, x < f + nr - 2), And(f <= S(x), S(x) < e - 2, S(x) < p.lo(S(x)), S(x) < p.hi(S(x)), 0 <= p.ix(S(x)), p.ix(S(x)) < BOTX)), S(x)))
    loops = [LoopSpec(inv=up, name='bottom up', decreases=lambda c: c.ivar()),
             LoopSpec(inv=down, name='kept', decreases=lambda c: W(c.old).n - c.ivar()),
             LoopSpec(inv=place, name='places', ghost_head=placehead, ghost_end=placeend, decreases=lambda c: W(c.old).n - c.ivar()),
             LoopSpec(inv=move, name='move', ghost_exit=moved, decreases=lambda c: W(c.old).n - c.ivar())]
    def post(self, c):
        o, w = W(c.old), W(c.st); b = o.nb - 1; f = o.d(o.nd - 2)
        return inv(c, ('CS', 'CO')) + earlier(o, w, f) + [
            ('values and numbers of earlier instructions unchanged', FA(_X, Imp(And(0 <= _X, _X < f), And(w.val(_X) == o.val(_X), w.cb(_X) == o.cb(_X))), w.val(_X), w.cb(_X))),
            ('earlier BDDs stay in place', And(w.nd == o.nd, FA(_K, Imp(And(0 <= _K, _K < o.nd - 1), w.d(_K) == o.d(_K)), w.d(_K)))),
            ('not more instructions', And(f + 2 <= w.n, w.n <= o.n)),
            ('same value', And(w.bs(b) == f, w.val(f) == rv(c.old, f)))]
class OrVar(Contract):
    """rvo: evaluation of the original that ends in true as soon as a variable of the positive set is true or one of the negative set is false"""
    key = CC + 'bdd_or_var'
    modifies = [r'C\.bdd_instructions.*', r'C\.bdd_delimiters.*', r'G\.(cb|cn|cval|bs|be|rv|rvo)']
    reveal = ('CS', 'CO')
    def world(self, ex):
        this = col_world(ex)
        for v in ('B', 'D'): ex.declare(v, 'std::unordered_set<unsigned long>')
        ex.st['G.rvo'] = ex.fresh('G.rvo', ABI)
        return this, [ex.fresh('nr', I), Ref('B'), Ref('D')]
    def set(self, c, k, x): return z3.Select(named(c.ex, c.old[c.args[k].p + '?']), x)
    def rvo(self, c, x): return z3.Select(c.ex.old['G.rvo'] if c.body else c.st['G.rvo'], x)
    def pre(self, c):
        if 'G.rvo' not in c.st: c.st['G.rvo'] = c.ex.fresh('G.rvo', ABI)
        return [('index of a BDD', And(0 <= c.arg(0), c.arg(0) < W(c.st).nb))] + inv(c, COLINV)
    def ghost_entry(self, c):
        # recursive definition (arcs of stored BDDs lead to later instructions)
        o, x = W(c.old), _X
        v = lambda x: z3.Select(c.st['G.rvo'], x)
        P, N = (lambda k: lambda x: self.set(c, k, x))(1), (lambda k: lambda x: self.set(c, k, x))(2)
        d = v(x) == If(o.ix(x) >= BOTX, o.ix(x) == TOPX, If(z3.Select(A, o.ix(x)), Or(P(o.ix(x)), v(o.hi(x))), Or(N(o.ix(x)), v(o.lo(x)))))
        c.ex.assume(FA(x, d, MP(v(x), o.lo(x)), MP(v(x), o.hi(x))))
    def off(c): o = W(c.old); return o.n - o.bs(c.arg(0))
    def copied(c, w, upto):
        o, x = W(c.old), _X
        off = OrVar.off(c)
        s = x - off
        t = o.ix(s) >= BOTX
        rng = And(o.n <= x, x < upto)
        return earlier(o, w, o.n) + [('variables of the copy', FA(x, Imp(rng, w.ix(x) == o.ix(s)), w.ix(x))),
            ('arcs of the copy', FA(x, Imp(rng, And(w.lo(x) == o.lo(s) + If(t, 0, off), w.hi(x) == o.hi(s) + If(t, 0, off))), w.lo(x), w.hi(x)))]
    def copy(c):
        o, w = W(c.old), W(c.st); i = c.ivar(); b = c.arg(0)
        return [('index', And(o.bs(b) <= i, i <= o.be(b), w.n == o.n + i - o.bs(b)))] + OrVar.copied(c, w, w.n)
    def reroute(c):
        me = c.ex.contract
        o, w, p, b, x = W(c.old), W(c.st), W(c.pre), c.arg(0), _X
        i = c.ivar()
        e = p.n
        top = If(p.ix(e - 1) == TOPX, e - 1, e - 2)
        done = And(o.n <= x, x < i, p.ix(x) < BOTX)
        return [('index', And(o.n <= i, i <= e))] + [
            ('high arcs', FA(x, w.hi(x) == If(And(done, me.set(c, 1, p.ix(x))), top, p.hi(x)), w.hi(x))),
            ('low arcs', FA(x, w.lo(x) == If(And(done, me.set(c, 2, p.ix(x))), top, p.lo(x)), w.lo(x)))]
    def rerouted(c):
        ex = c.ex
        off, x = OrVar.off(c), _X
        g = ex.fresh('G.rv', ABI)
        ex.assume(FA(x, z3.Select(g, x) == z3.Select(c.old['G.rvo'], x - off), z3.Select(g, x)))
        ex.st['G.rv'] = g
    loops = [LoopSpec(inv=copy, name='copy', decreases=lambda c: W(c.old).n - c.ivar()),
             LoopSpec(inv=reroute, name='reroute', ghost_exit=rerouted, decreases=lambda c: W(c.st).n - c.ivar())]
    def post(self, c):
        o, w, r = W(c.old), W(c.st), c.r
        return CEXT(c) + inv(c, COLINV) + [('one BDD is appended', And(r == o.nb, w.nb == o.nb + 1, w.bs(r) == o.n)),
            ('value of the relaxed BDD', w.val(w.bs(r)) == z3.Select(c.old['G.rvo'], o.bs(c.arg(0))))]
CONTRACTS = [Reduce(), OrVar()]
