"""Contracts of the entries and nodes through which stored BDDs are read."""
from .colquery import *
from .colquery import CONTRACTS as COLC
from .colquery import _I, _J, _K
from lbddv.sx import AggV
EN, ND = 'BDD::bdd_collection_entry::', 'BDD::bdd_collection_node::'

def entry(ex, root='E'):
    ex.declare(root, 'bdd_collection_entry')
    ex.st[root + '.bdd_col'] = Ref('C')
    return Ref(root)
def node(ex, root='N'):
    ex.declare(root, 'bdd_collection_node')
    if root + '.bce.bdd_nr' not in ex.st: raise Unsupported('layout of a node')
    ex.st[root + '.bce.bdd_col'] = Ref('C')
    return Ref(root)
class NodeQuery(Contract):
    """this is a node of a stored BDD"""
    reveal = groups = ('CS',)
    inline_ok = True
    def world(self, ex):
        col_world(ex)
        return node(ex), self.extra(ex)
    def extra(self, ex): return []
    E = 'N.bce'                  # the entry
    def nr(self, c): return c.old[self.E + '.bdd_nr']
    def at(self, c): return c.old['N.i']
    def isentry(self, c, p): return And(0 <= c.st[p + '.bdd_nr'], c.st[p + '.bdd_nr'] < W(c.st).nb)
    def isnode(self, c, p): return W(c.st).inb(c.st[p + '.i'], c.st[p + '.bce.bdd_nr'])
    def pre(self, c): return [('a stored BDD', self.isentry(c, self.E)), ('a node of it', self.isnode(c, 'N'))] + self.req(c) + inv(c, self.groups)
    def req(self, c): return []
    def sink(self, c): w = W(c.old); return w.ix(self.at(c)) >= BOTX
    def result(self, c, i):
        r = c.ret if isinstance(c.ret, AggV) else c.ex.load(c.ret)
        if not isinstance(r.d.get('.bce.bdd_col'), Ref) or r.d['.bce.bdd_col'].p != 'C': return [('node of the same collection', z3.BoolVal(False))]
        return [('node of the same BDD', r.d['.bce.bdd_nr'] == self.nr(c)), ('the node', r.d['.i'] == i), ('a node of the BDD', W(c.st).inb(r.d['.i'], self.nr(c)))]
class NLo(NodeQuery):
    key = ND + 'lo'
    def req(self, c): return [('no terminal', Not(self.sink(c)))]
    def post(self, c): return self.result(c, W(c.old).lo(self.at(c)))
class NHi(NLo):
    key = ND + 'hi'
    def post(self, c): return self.result(c, W(c.old).hi(self.at(c)))
class NLow(NLo): key = ND + 'low'
class NHigh(NHi): key = ND + 'high'
class NVar(NodeQuery):
    key = ND + 'variable'
    def post(self, c): return [('variable of the node', c.r == W(c.old).ix(self.at(c)))]
class NBot(NodeQuery):
    key = ND + 'is_botsink'
    def post(self, c): return [('true exactly for the false terminal', c.ex.bool_of(c.ret) == And(self.sink(c), Not(W(c.old).val(self.at(c)))))]
class NTop(NodeQuery):
    key = ND + 'is_topsink'
    def post(self, c): return [('true exactly for the true terminal', c.ex.bool_of(c.ret) == And(self.sink(c), W(c.old).val(self.at(c))))]
class NTerm(NodeQuery):
    key = ND + 'is_terminal'
    def post(self, c): return [('true exactly for the last two instructions', c.ex.bool_of(c.ret) == (self.at(c) >= W(c.old).be(self.nr(c)) - 2))]
class NNext(NodeQuery):
    key = ND + 'next_postorder'
    def req(self, c): return [('neither terminal nor root', And(Not(self.sink(c)), self.at(c) != W(c.old).bs(self.nr(c))))]
    def post(self, c): return self.result(c, self.at(c) - 1)
class NEq(NodeQuery):
    key = ND + 'operator=='
    def extra(self, ex):
        return [node(ex, 'N2')]
    def post(self, c): return [('equal exactly if it is the same instruction', c.ex.bool_of(c.ret) == (self.at(c) == c.old['N2.i']))]
class NNe(NEq):
    key = ND + 'operator!='
    def post(self, c): return [('different exactly if it is not the same instruction', c.ex.bool_of(c.ret) == (self.at(c) != c.old['N2.i']))]
class EntryQuery(NodeQuery):
    E = 'E'
    def world(self, ex):
        col_world(ex)
        return entry(ex), self.extra(ex)
    def pre(self, c): return [('a stored BDD', self.isentry(c, 'E'))] + self.req(c) + inv(c, self.groups)
class EOps(EntryQuery):
    key = CC + 'operator[]'
    def world(self, ex):
        return col_world(ex), [ex.fresh('nr', I)]
    def pre(self, c): return [('a stored BDD', And(0 <= c.arg(0), c.arg(0) < W(c.st).nb))] + inv(c, self.groups)
    def post(self, c):
        r = c.ret if isinstance(c.ret, AggV) else c.ex.load(c.ret)
        if not isinstance(r.d.get('.bdd_col'), Ref) or r.d['.bdd_col'].p != 'C': return [('entry of the collection', z3.BoolVal(False))]
        return [('the stored BDD', r.d['.bdd_nr'] == c.arg(0))]
class ERoot(EntryQuery):
    key = EN + 'root_node'
    def post(self, c): return self.result(c, W(c.old).d(self.nr(c)))
class EFirst(EntryQuery):
    key = EN + 'first_node_postorder'
    def req(self, c): return [('not constant', W(c.old).bs(self.nr(c)) + 2 < W(c.old).be(self.nr(c)))]
    def post(self, c): return self.result(c, W(c.old).be(self.nr(c)) - 3)
class EBot(EntryQuery):
    key = EN + 'botsink'
    want = False
    def post(self, c):
        r = c.ret if isinstance(c.ret, AggV) else c.ex.load(c.ret)
        w = W(c.old)
        return self.result(c, r.d['.i']) + [('the terminal', And(r.d['.i'] >= w.be(self.nr(c)) - 2, w.val(r.d['.i']) == z3.BoolVal(self.want)))]
class ETop(EBot):
    key = EN + 'topsink'
    want = True
class EAt(EntryQuery):
    key = EN + 'operator[]'
    def extra(self, ex): return [ex.fresh('i', I)]
    def req(self, c): w = W(c.old); return [('number of an instruction', And(0 <= c.arg(0), c.arg(0) < w.be(self.nr(c)) - w.bs(self.nr(c))))]
    def post(self, c): return self.result(c, W(c.old).bs(self.nr(c)) + c.arg(0))
class ENr(EntryQuery):
    key = EN + 'nr_nodes()'
    def post(self, c): return [('number of instructions', c.r == W(c.old).be(self.nr(c)) - W(c.old).bs(self.nr(c)))]
class ENrVar(EntryQuery):
    key = EN + 'nr_nodes(size_t)'
    def extra(self, ex): return [ex.fresh('var', I)]
    def post(self, c):
        w = W(c.st)
        return [('number of occurrences', c.r == NIX(c.st['C.bdd_instructions[].index'], c.arg(0), w.bs(self.nr(c)), w.be(self.nr(c))))]
class EVars(EntryQuery):
    key = EN + 'variables'
    modifies = [r'G\.cw']
    def ghost_entry(self, c): c.st['G.cw'] = c.ex.fresh('G.cw', AII)
    def post(self, c):
        w, b = W(c.st), self.nr(c); k, j = _K, _J
        n, v = part(c, '#'), part(c, '[]'); x = z3.Select(v, k)
        ins = lambda q: And(w.bs(b) <= q, q < w.be(b) - 2)
        q = z3.Int('w!')
        return [('sorted without repetition', FA([j, k], Imp(And(0 <= j, j < k, k < n), z3.Select(v, j) < x), MP(z3.Select(v, j), x))),
                ('entries are variables of instructions', FA(k, Imp(And(0 <= k, k < n), z3.Exists([q], And(ins(q), w.ix(q) == x), patterns=[w.ix(q)])), x)),
                ('variables of instructions are listed', FA(q, Imp(ins(q), z3.Exists([k], And(0 <= k, k < n, x == w.ix(q)), patterns=[x])), w.ix(q)))]
from lbddv.sx import Ctx
class ERebaseMap(EntryQuery):
    """passes everything on to the collection"""
    key = EN + 'rebase(map)'
    modifies = [r'C\.bdd_instructions\[\]\.index', r'G\.c(val|n)']
    inner = CC + 'rebase(size_t,map)'
    @property
    def ct(self): return [x for x in COLC if x.key == self.inner][0]
    def extra(self, ex): return self.ct.extra(ex)
    def req(self, c): return self.ct.pre(Ctx(c.ex, c.st, c.old, c.this, [self.nr(c)] + list(c.args)))
    def post(self, c):
        cs = [x for n, x in getattr(c, 'calls', ()) if '::rebase(' in n]
        if c.body and not cs: return [('the collection renames', z3.BoolVal(False))]
        o, w = W(c.old), W(c.st)
        p = Ctx(c.ex, c.st, c.old, c.this, [self.nr(c)] + list(c.args))
        return inv(c, ('CS',)) + [('variables of the BDD are renamed, nothing else changes', self.ct.renamed(p, o, w, o.d(self.nr(c) + 1)))]
class ERebaseIt(ERebaseMap):
    key = EN + 'rebase(it,it)'
    inner = CC + 'rebase(size_t,it,it)'
CONTRACTS = [ERebaseMap(), ERebaseIt()] + [k() for k in (NLo, NHi, NLow, NHigh, NVar, NBot, NTop, NTerm, NNext, NEq, NNe, EOps, ERoot, EFirst, EBot, ETop, EAt, ENr, ENrVar, EVars)]
