"""Contracts of the graph output. What is written is a sequence of pieces (texts, numbers), see stdm; LINES(lo, hi, index, bot, top, t, p) is t
followed by the lines of inner node p. The ghost list G.pv (length G.pn) holds the nodes in the order of their lines, G.pt what had been
written before the lines of each, G.pos the place of each node."""
from .theory import *
from .theory import _K, _P, _Q
from .store import setg
from .queries import *
from .queries import N
from .wrappers import Wrapper
from .coltheory import *
from .coltheory import _I, _J
from .colquery import ColQuery, CC
from .meld import named
from lbddv.stdm import emit
LINES = z3.Function('LINES', AII, AII, AII, I, I, I, I, I)
PN, PV, PT = 'G.pn', 'G.pv', 'G.pt'
OUT = 'std::basic_ostream<char>'
def lines(s, t, p): return LINES(s.lo_, s.hi_, s.ix_, s.bot, s.top, t, p)
def D_lines(s, t, p):
    """definition: the 0-arc, then the 1-arc; nodes are "variable,address", terminals bot and top"""
    names = lambda q, k: ('"', ('n', s.ix(q)), ',', ('n', sx.ptr2int(q)), '"') if k == 2 else (('bot', 'top')[k],)
    kind = lambda q, f: If(q == s.bot, f(0), If(q == s.top, f(1), f(2)))
    me, lo, hi = names(p, 2), s.lo(p), s.hi(p)
    v = kind(lo, lambda a: kind(hi, lambda b: emit(t, *me, ' -> ', *names(lo, a), ' [label="0"]\n', *me, ' -> ', *names(hi, b), ' [label="1"]\n')))
    return lines(s, t, p) == v
HEADER, FOOTER = 'digraph BDD {\n', '}\n'
def sink(c): return c.args[0].p
class PrintRec(Visit):
    key = N + 'print_rec'
    ghost_steps = True
    def modifies(self, c): return [r'H\[\]\.marked_', r'G\.(pos|pn|pv|pt)', sx.re.escape(sink(c))]
    def world(self, ex):
        mgr_world(ex)
        ex.st['OUT'] = ex.fresh('OUT', I)
        for k in (POS, PV, PT): ex.st[k] = ex.fresh(k, AII)
        ex.st[PN] = ex.fresh(PN, I)
        return Ref('H[]', (ex.fresh('p', I),)), [Ref('OUT')]
    def pt(self, st, k): return z3.Select(st[PT], k)
    def pv(self, st, k): return z3.Select(st[PV], k)
    def pos(self, st, q): return z3.Select(st[POS], q)
    def pre(self, c):
        st = c.st
        return Visit.pre(self, c) + [('place in the list', And(st[PN] >= 0, self.pt(st, st[PN]) == st[sink(c)]))]
    def ghost_entry(self, c):
        s, p, st = V(c.st), c.p, c.ex.st
        n, t = st[PN], st[sink(c)]
        c.ex.assume(Imp(s.inner(p), D_lines(s, t, p)))
        at = lambda k, i, v: If(s.term(p), st[k], z3.Store(st[k], i, v))
        new = {POS: at(POS, p, n), PV: at(PV, n, p), PT: at(PT, n + 1, lines(s, t, p)), PN: If(s.term(p), n, n + 1)}
        for k, v in new.items(): setg(c, k, v)
    def post(self, c):
        st, o = c.st, c.old; s, m0, m1, k, q, p = V(st), V(o).mark, V(st).mark, _K, _Q, c.p
        n0, n1 = o[PN], st[PN]; x = self.pv(st, k); pos = lambda q: self.pos(st, q)
        return self.marks(c) + [
            ('what was written ends the list', self.pt(st, n1) == st[sink(c)]),
            ('earlier entries stay', And(n0 <= n1, FA(k, Imp(And(0 <= k, k < n0), x == self.pv(o, k)), x), FA(k, Imp(And(0 <= k, k <= n0), self.pt(st, k) == self.pt(o, k)), self.pt(st, k)),
                FA(q, Imp(Or(m0(q) != 0, m1(q) == 0), pos(q) == self.pos(o, q)), pos(q)))),
            ('entries are newly marked nodes, each once, with their lines', FA(k, Imp(And(n0 <= k, k < n1), And(inr(s, p, x), pos(x) == k, m0(x) == 0, m1(x) != 0, self.pt(st, k + 1) == lines(s, self.pt(st, k), x))), x)),
            ('newly marked nodes are listed', FA(q, Imp(And(m0(q) == 0, m1(q) != 0), And(n0 <= pos(q), pos(q) < n1, self.pv(st, pos(q)) == q)), m1(q))),
            ('one entry per marked node', n1 - n0 == CM(s.mark_) - CM(V(o).mark_)),
            ('as many entries as reachable nodes if nothing was marked', Imp(self.none_marked(V(o)), n1 - n0 == CARD(rch(s, p))))]
class Print(Unmarked):
    key = N + 'print'
    ghost_steps = True
    def modifies(self, c): return [r'H\[\]\.marked_', r'G\.(pos|pn|pv|pt)', sx.re.escape(sink(c))]
    world = PrintRec.world
    def pre(self, c):
        for k in (POS, PV, PT):
            if k not in c.st: c.st[k] = c.ex.fresh(k, AII)
        if PN not in c.st: c.st[PN] = c.ex.fresh(PN, I)
        return Unmarked.pre(self, c)
    def ghost_entry(self, c):
        st = c.ex.st
        setg(c, PN, iv(0))
        setg(c, PT, z3.Store(st[PT], 0, emit(st[sink(c)], HEADER)))
    def result(self, c):
        st, s, k, q = c.st, V(c.st), _K, _Q
        n, R = st[PN], rch(s, c.p)
        pos, x, pt = (lambda q: z3.Select(st[POS], q)), z3.Select(st[PV], k), (lambda k: z3.Select(st[PT], k))
        return [('starts with the header', pt(iv(0)) == emit(c.old[sink(c)], HEADER)),
            ('every reachable node has an entry', And(n == CARD(R), FA(q, Imp(z3.Select(R, q), And(0 <= pos(q), pos(q) < n, z3.Select(st[PV], pos(q)) == q)), z3.Select(R, q)))),
            ('entries are reachable nodes, each once, with their lines', FA(k, Imp(And(0 <= k, k < n), And(z3.Select(R, x), pos(x) == k, pt(k + 1) == lines(s, pt(k), x))), x)),
            ('ends with the footer', st[sink(c)] == emit(pt(n), FOOTER))]
class RefPrint(Wrapper, Print):
    key = 'BDD::node_ref::print'
    ghost_steps = False
    def ghost_entry(self, c): pass
    def world(self, ex):
        a = Print.world(self, ex)[1]
        return nref(ex, 'x'), a
CLS = z3.Function('CLS', AII, I, I, I, I)         # CLS(index, d, q, i): the labels of instructions [d,i) that are in cluster q
HEADER2 = 'digraph BDD\n{\n'
class Graph(ColQuery):
    """Clusters are named by variables, that of the terminals by the largest number. Ghosts: G.gvk, G.gvp, G.gvn clusters in the order
    of printing, place and number of clusters, G.gvt what had been written before each; G.gvv, G.gvr, G.gvo, G.gvm variables in increasing order,
    instruction of the variable in the chain, place and number of variables, G.gvu what had been written before each arrow of the chain;
    G.gvy what had been written before the arcs of each instruction; G.gvw an instruction of each cluster."""
    key = CC + 'export_graphviz'
    ARR = ['G.gv' + x for x in 'kptvrouyw']
    NUM = ['G.gvn', 'G.gvm']
    def modifies(self, c): return [r'G\.gv.', sx.re.escape(self.out(c))]
    def out(self, c): return c.args[1].p
    def world(self, ex):
        this = col_world(ex)
        ex.st['OUT'] = ex.fresh('OUT', I)
        self.ghosts(ex)
        return this, [ex.fresh('nr', I), Ref('OUT')]
    def ghosts(self, ex):
        for k in self.ARR + self.NUM:
            if k not in ex.st: ex.st[k] = ex.fresh(k, AII if k in self.ARR else I)
    def pre(self, c):
        self.ghosts(c.ex)
        return ColQuery.pre(self, c)
    def span(c):
        w, b = W(c.old), c.arg(0)
        return w, w.bs(b), w.be(b)
    def g(c, k): return lambda i: z3.Select(c.st['G.gv' + k], i)
    def cls(w, d, q, i): return CLS(w.st['C.bdd_instructions[].index'], d, q, i)
    def kf(w, i): return If(w.ix(i) >= BOTX, iv(TOPX), w.ix(i))
    def now(c): return c.st[c.ex.contract.out(c)]
    def typed(c, *words):
        """local variables whose type has these words"""
        out = []
        for did, r in c.env.items():
            t = sx.tstr(c.ex.ast.by_id.get(did, {})).replace('basic_string', 'string')
            if isinstance(r, Ref) and not r.ix and all(x in t for x in words): out.append(r.p)
        return out
    def maps(c):
        """domain and values of the map to texts, of the map to instructions"""
        v = sorted(set(Graph.typed(c, 'unordered_map')), key=lambda r: r)
        a = [r for r in v if r in Graph.typed(c, 'string')]; b = [r for r in v if r not in a]
        if len(a) != 1 or len(b) != 1: raise Unsupported('maps of clusters')
        out = []
        for r in (a[0], b[0]):
            d, x = named(c.ex, c.st[r + '?']), named(c.ex, c.st[r + '{}'])
            out += [lambda q, d=d: z3.Select(d, q), lambda q, x=x: z3.Select(x, q)]
        return out
    def collect(c):
        w, d, e = Graph.span(c); i, q, j = c.ivar(), _Q, _J
        dom1, val1, dom2, val2 = Graph.maps(c); cw = Graph.g(c, 'w')
        return [('index', And(d <= i, i <= e)),
            ('clusters', FA(q, And(Imp(dom1(q), And(d <= cw(q), cw(q) < i, Graph.kf(w, cw(q)) == q)), Imp(Not(dom1(q)), Graph.cls(w, d, q, i) == 0)), dom1(q))),
            ('labels', FA(q, Imp(dom1(q), val1(q) == Graph.cls(w, d, q, i)), val1(q))),
            ('instructions have a cluster', FA(j, Imp(And(d <= j, j < i), And(dom1(Graph.kf(w, j)), Imp(w.ix(j) < BOTX, dom2(w.ix(j))))), w.ix(j))),
            ('instructions of clusters', FA(q, Imp(dom2(q), And(0 <= val2(q), d + val2(q) < i, w.ix(d + val2(q)) == q, q < BOTX)), dom2(q), val2(q)))]
    def collect0(c):
        w, d, e = Graph.span(c)
        c.ex.assume(FA(_Q, Graph.cls(w, d, _Q, d) == 0, Graph.cls(w, d, _Q, d)))
    def label(w, d, t, i): return If(w.ix(i) == TOPX, emit(t, ('n', i - d), ' [label="top"];\n'), If(w.ix(i) == BOTX, emit(t, ('n', i - d), ' [label="bot"];\n'), emit(t, ('n', i - d), ' [label="', ('n', w.ix(i)), '"];\n')))
    def step(c):
        # definition
        w, d, e = Graph.span(c); i, q = c.ivar(), _Q
        t = Graph.cls(w, d, q, i)
        c.ex.assume(FA(q, Graph.cls(w, d, q, i + 1) == If(Graph.kf(w, i) == q, Graph.label(w, d, t, i), t), Graph.cls(w, d, q, i + 1)))
    def collected(c):
        w, d, e = Graph.span(c)
        setg(c, 'G.gvw', z3.Store(c.st['G.gvw'], Graph.kf(w, c.ivar() - 1), c.ivar() - 1))
    def vis(c): return lambda q: z3.Select(c.st[c.rangeidx + '?'], q)
    def printed(c):
        w, d, e = Graph.span(c); q, j = _Q, _J
        if c.rangeidx is None or c.rangeidx + '?' not in c.st: raise Unsupported('loop over the clusters')
        vis, K, P, T, n = Graph.vis(c), Graph.g(c, 'k'), Graph.g(c, 'p'), Graph.g(c, 't'), c.st['G.gvn']
        return [('written so far', And(n >= 0, T(iv(0)) == emit(c.old[c.ex.contract.out(c)], HEADER2), T(n) == Graph.now(c))),
            ('clusters printed', FA(j, Imp(And(0 <= j, j < n), And(vis(K(j)), P(K(j)) == j, T(j + 1) == Graph.cluster(w, d, e, T(j), K(j)))), K(j))),
            ('each once', FA(q, Imp(vis(q), And(0 <= P(q), P(q) < n, K(P(q)) == q)), vis(q)))]
    def cluster(w, d, e, t, q): return emit(t, 'subgraph cluster_', ('n', q), ' {\n', ('s', Graph.cls(w, d, q, e)), 'color = blue\n}\n')
    def printed0(c):
        setg(c, 'G.gvn', iv(0))
        setg(c, 'G.gvt', z3.Store(c.st['G.gvt'], 0, Graph.now(c)))
        c.st = c.ex.st
    def rkey(c):
        k = c.ex.ghost.get('key:' + str(c.rangeidx))
        if k is None: raise Unsupported('loop over a map')
        return k
    def printed1(c):
        k, n = Graph.rkey(c), c.st['G.gvn']
        now = Graph.now(c)
        for g, i, v in (('G.gvk', n, k), ('G.gvp', k, n), ('G.gvt', n + 1, now)): setg(c, g, z3.Store(c.st[g], i, v))
        setg(c, 'G.gvn', n + 1)
        c.st = c.ex.st
    def pairs(c):
        """list of pairs"""
        v = [r for r in set(Graph.typed(c, 'vector')) if r + '[][]' in c.st]
        if len(v) != 1: raise Unsupported('list of pairs')
        E = named(c.ex, c.st[v[0] + '[][]'])
        return c.st[v[0] + '#'], lambda j: z3.Select(z3.Select(E, j), 0), lambda j: z3.Select(z3.Select(E, j), 1), v[0] + '[][]'
    def listed(c):
        q, j = _Q, _J
        if c.rangeidx is None or c.rangeidx + '?' not in c.st: raise Unsupported('loop over the clusters')
        dom1, val1, dom2, val2 = Graph.maps(c)
        n, x, y, k = Graph.pairs(c)
        vis, P = Graph.vis(c), Graph.g(c, 'o')
        return [('list of the variables', FA(j, Imp(And(0 <= j, j < n), And(vis(x(j)), P(x(j)) == j, y(j) == val2(x(j)))), x(j), y(j))),
            ('each once', FA(q, Imp(vis(q), And(0 <= P(q), P(q) < n, x(P(q)) == q)), vis(q)))]
    def listed1(c):
        setg(c, 'G.gvo', z3.Store(c.st['G.gvo'], Graph.rkey(c), Graph.pairs(c)[0] - 1))
    def chain0(c):
        ex = c.ex; j, k, q, i = _J, _K, _Q, _I
        w, d, e = Graph.span(c)
        n, x, y, L = Graph.pairs(c)
        f = ex.ghost.get('sorted:' + L)
        if f is None: raise Unsupported('order of the variables')
        dom1, val1, dom2, val2 = Graph.maps(c)
        O = c.st['G.gvo']
        for g in ('G.gvo', 'G.gvv', 'G.gvr'): ex.st[g] = ex.fresh(g, AII)
        c.st = ex.st
        v, r, o = Graph.g(c, 'v'), Graph.g(c, 'r'), Graph.g(c, 'o')
        ex.assume(FA(j, And(v(j) == x(j), r(j) == y(j)), v(j), r(j), x(j), y(j)))
        ex.assume(FA(q, o(q) == f(z3.Select(O, q)), o(q)))
        setg(c, 'G.gvm', n)
        setg(c, 'G.gvu', z3.Store(c.st['G.gvu'], 0, Graph.now(c)))
        c.st = ex.st
        for nm, f in Graph.chain(c): ex.oblige_assume(nm, f)
    def chain(c):
        j, k, q, i = _J, _K, _Q, _I
        w, d, e = Graph.span(c)
        v, r, o, m = Graph.g(c, 'v'), Graph.g(c, 'r'), Graph.g(c, 'o'), c.st['G.gvm']
        return [('variables of the chain', FA(j, Imp(And(0 <= j, j < m), And(0 <= r(j), d + r(j) < e, w.ix(d + r(j)) == v(j), v(j) < BOTX)), v(j))),
                ('all variables are in the chain', FA(i, Imp(And(d <= i, i < e, w.ix(i) < BOTX), And(0 <= o(w.ix(i)), o(w.ix(i)) < m, v(o(w.ix(i))) == w.ix(i))), w.ix(i))),
                ('in increasing order', FA([j, k], Imp(And(0 <= j, j < k, k < m), v(j) < v(k)), MP(v(j), v(k))))]
    def arrows(c, upto):
        r, m, U, j = Graph.g(c, 'r'), c.st['G.gvm'], Graph.g(c, 'u'), _J
        return [('arrows', FA(j, Imp(And(0 <= j, j < upto), U(j + 1) == emit(U(j), ('n', r(j)), ' -> ', ('n', r(j + 1)), ' [style=invis];\n')), U(j + 1)))]
    def chained(c):
        i, m, U = Graph.arrow(c), c.st['G.gvm'], Graph.g(c, 'u')
        return [('index', And(0 <= i, Or(i <= m - 1, i == 0))), ('written so far', And(U(iv(0)) == Graph.g(c, 't')(c.st['G.gvn']), U(i) == Graph.now(c)))] + Graph.arrows(c, i)
    def chained1(c):
        setg(c, 'G.gvu', z3.Store(c.st['G.gvu'], Graph.arrow(c), Graph.now(c)))
    def arrow(c):
        """arrows written: the index counts from the first element or the second one"""
        return c.ivar() - c.pre[c.incvar]
    def last(c): m = c.st['G.gvm']; return Graph.g(c, 'u')(If(m > 0, m - 1, 0))
    def arc(w, d, t, j): return If(w.ix(j) >= BOTX, t, emit(t, ('n', j - d), ' -> ', ('n', w.hi(j) - d), ';\n', ('n', j - d), ' -> ', ('n', w.lo(j) - d), '[style="dashed"];\n'))
    def arcs(c, upto):
        w, d, e = Graph.span(c); Y, j = Graph.g(c, 'y'), _J
        return [('arcs', FA(j, Imp(And(d <= j, j < upto), Y(j + 1) == Graph.arc(w, d, Y(j), j)), Y(j + 1)))]
    def drawn(c):
        w, d, e = Graph.span(c); i, Y = c.ivar(), Graph.g(c, 'y')
        return [('index', And(d <= i, i <= e)), ('written so far', And(Y(d) == Graph.last(c), Y(i) == Graph.now(c)))] + Graph.arcs(c, i)
    def drawn0(c):
        setg(c, 'G.gvy', z3.Store(c.st['G.gvy'], Graph.span(c)[1], Graph.now(c)))
        c.st = c.ex.st
    def drawn1(c): setg(c, 'G.gvy', z3.Store(c.st['G.gvy'], c.ivar(), Graph.now(c)))
    left = lambda c: Graph.span(c)[2] - c.ivar()
    loops = [LoopSpec(inv=collect, name='labels', ghost_head=collect0, ghost_iter=step, ghost_end=collected, decreases=left),
             LoopSpec(inv=printed, name='clusters', ghost_head=printed0, ghost_end=printed1),
             LoopSpec(inv=listed, name='variables', ghost_end=listed1),
             LoopSpec(inv=chained, name='chain', ghost_head=chain0, ghost_end=chained1, decreases=lambda c: c.st['G.gvm'] - c.ivar()),
             LoopSpec(inv=drawn, name='arcs', ghost_head=drawn0, ghost_end=drawn1, decreases=left)]
    def post(self, c):
        w, d, e = Graph.span(c); j, i = _J, _I
        K, P, T, n, U, Y, cw, kf = Graph.g(c, 'k'), Graph.g(c, 'p'), Graph.g(c, 't'), c.st['G.gvn'], Graph.g(c, 'u'), Graph.g(c, 'y'), Graph.g(c, 'w'), Graph.kf
        m = c.st['G.gvm']
        return [('starts with the header', T(iv(0)) == emit(c.old[self.out(c)], HEADER2)),
            ('clusters of instructions, each once, with their labels', FA(j, Imp(And(0 <= j, j < n), And(P(K(j)) == j, d <= cw(K(j)), cw(K(j)) < e, kf(w, cw(K(j))) == K(j), T(j + 1) == Graph.cluster(w, d, e, T(j), K(j)))), K(j))),
            ('every instruction has its cluster', FA(i, Imp(And(d <= i, i < e), And(0 <= P(kf(w, i)), P(kf(w, i)) < n, K(P(kf(w, i))) == kf(w, i))), w.ix(i))),
            ('the chain follows', U(iv(0)) == T(n))] + Graph.chain(c) + Graph.arrows(c, m - 1) + [('the arcs follow', Y(d) == Graph.last(c))] + Graph.arcs(c, e) + [
            ('ends with the footer', Graph.now(c) == emit(Y(e), FOOTER))]
CONTRACTS = [PrintRec(), Print(), RefPrint(), Graph()]
