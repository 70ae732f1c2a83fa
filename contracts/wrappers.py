"""The public members of handles, managers and collections that pass on to the functions under contract elsewhere: the same contracts,
stated for the node of the handle."""
from .theory import *
from .theory import _K, _P, _Q
from . import queries, solutions, lits, colquery
from .reflists import RefList
from .coltheory import *
R, M, CC = 'BDD::node_ref::', 'BDD::bdd_mgr::', 'BDD::bdd_collection::'
class Wrapper(RefList):
    loops = ()
    inline_ok = True
    def decreases(self, c): return None
class RefNrNodes(Wrapper, queries.NrNodes): key = R + 'nr_nodes'
class RefVariables(Wrapper, queries.Variables): key = R + 'variables'
class RefExactlyOne(Wrapper, solutions.ExactlyOne): key = R + 'exactly_one_solution'
class RefUnmark(Wrapper, queries.Unmark): key = R + 'unmark_rec'
class RefFindMgr(Wrapper, lits.FindMgr): key = R + 'find_bdd_mgr'
class RefEvaluate(Wrapper, lits.Evaluate):
    key = R + 'evaluate'
    def world(self, ex):
        a = lits.Evaluate.world(self, ex)[1]
        return nref(ex, 'x'), a
class Read(Contract):
    """reads the node of the handle"""
    reveal = ('F',)
    inline_ok = True
    inner = False
    def world(self, ex):
        mgr_world(ex)
        return nref(ex, 'x'), []
    def node(self, c): return c.ex.load(Ref(c.this.p + '.ref', c.this.ix), c.old)
    def pre(self, c):
        s = V(c.st); p = c.ex.load(Ref(c.this.p + '.ref', c.this.ix), c.st)
        return [('a node', s.inner(p) if self.inner else s.live(p))] + inv(c, ('F',))
    def post(self, c): return self.value(c, V(c.old), self.node(c)) + [('the handle stays', c.ex.load(Ref(c.this.p + '.ref', c.this.ix), c.st) == self.node(c))]
def reads(name, what, f, inner_=False, boolean=False, handle=False):
    class C(Read):
        key = R + name
        inner = inner_
        def value(self, c, s, p):
            r = c.ex.bool_of(c.ret) if boolean else c.r
            return [(what, r == f(s, p))]
    return C()
READS = [reads('low', 'the low child', lambda s, p: s.lo(p), True), reads('high', 'the high child', lambda s, p: s.hi(p), True),
         reads('address', 'the node', lambda s, p: p), reads('variable', 'the variable', lambda s, p: s.ix(p), True),
         reads('is_botsink', 'true exactly for the false terminal', lambda s, p: p == s.bot, boolean=True), reads('is_topsink', 'true exactly for the true terminal', lambda s, p: p == s.top, boolean=True),
         reads('is_terminal', 'true exactly for terminals', lambda s, p: s.term(p), boolean=True), reads('marked', 'the mark', lambda s, p: s.mark(p) != 0, boolean=True),
         reads('botsink', 'the false terminal', lambda s, p: s.bot), reads('topsink', 'the true terminal', lambda s, p: s.top)]
class SetMark(Read):
    key = R + 'mark'
    modifies = [r'H\[\]\.marked_']
    value_ = 1
    def value(self, c, s, p): return [('only the mark of the node changes', c.st['H[].marked_'] == z3.Store(c.old['H[].marked_'], p, iv(self.value_)))]
class ClearMark(SetMark):
    key = R + 'unmark'
    value_ = 0
class RefCount(Contract):
    key = R + 'reference_count'
    raw_handles = True
    inline_ok = True
    def world(self, ex):
        heap_world(ex)
        return ex.new_local('x', sx.AggV({'.ref': ex.fresh('x', I)})), []
    def pre(self, c):
        r = c.st[c.this.p + '.ref']
        return [('refers to a node', And(r > 3, z3.Select(c.st['G.alloc'], r), z3.Select(c.st['H[].xref'], r) >= 0, z3.Select(c.st['H[].xref'], r) < 2 ** 31))]
    def post(self, c): return [('the count of the node', c.r == z3.Select(c.old['H[].xref'], c.old[c.this.p + '.ref']))]
class OfMgr(Contract):
    reveal = ('F',)
    inline_ok = True
    def world(self, ex): return mgr_world(ex), []
    def pre(self, c): return inv(c, ('F',))
    def post(self, c): return [(self.what, c.r == self.value(V(c.old)))]
class MgrTop(OfMgr):
    key, what = M + 'topsink', 'the true terminal'
    def value(self, s): return s.top
class MgrBot(OfMgr):
    key, what = M + 'botsink', 'the false terminal'
    def value(self, s): return s.bot
class MgrVars(OfMgr):
    key, what = M + 'nr_variables', 'the number of variables'
    def value(self, s): return s.nv
class ColSize(Contract):
    key = CC + 'size'
    reveal = ('CS',)
    inline_ok = True
    def world(self, ex): return col_world(ex, mgr=False), []
    def pre(self, c): return inv(c, ('CS',))
    def post(self, c): return [('the number of stored BDDs', c.r == W(c.old).nb)]
class ColNrBdds(ColSize): key = CC + 'nr_bdds'
CONTRACTS = [RefNrNodes(), RefVariables(), RefExactlyOne(), RefUnmark(), RefFindMgr(), RefEvaluate(), SetMark(), ClearMark(), RefCount(), MgrTop(), MgrBot(), MgrVars(), ColSize(), ColNrBdds()] + READS
