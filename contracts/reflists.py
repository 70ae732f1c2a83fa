"""Lists of nodes as lists of handles: convert_node_to_node_ref turns addresses into handles in place, counting one handle per element."""
from .theory import *
from .theory import _K, _P, _Q
from .queries import Postorder, Bfs, ListQuery, part
from . import queries
XR = 'H[].xref'
_AR, _N = z3.Const('arr!q', AII), z3.Int('n!q')
OCC = z3.Function('OCC', AII, I, I, I)        # OCC(a, n, q): number of i < n with a[i] == q
def L_occ(a, i): return [FA(_Q, OCC(a, iv(0), _Q) == 0, OCC(a, iv(0), _Q)), FA(_Q, OCC(a, i + 1, _Q) == OCC(a, i, _Q) + If(z3.Select(a, i) == _Q, 1, 0), OCC(a, i + 1, _Q), OCC(a, i, _Q))]
class Convert(Contract):
    key = 'BDD::convert_node_to_node_ref'
    raw_handles = True
    modifies = [r'H\[\]\.xref', r'A(#|\[\])', r'B(#|\[\]\.ref)']
    def world(self, ex):
        heap_world(ex)
        ex.declare('A', 'std::vector<node_struct *>')
        ex.declare('B', 'std::vector<node_ref>')
        return None, [Ref('A'), Ref('B')]
    def a(self, c, st, k): return z3.Select(st[c.args[0].p + '[]'], k)
    def n(self, c, st): return st[c.args[0].p + '#']
    def b(self, c, st, k): return z3.Select(st[c.args[1].p + '[].ref'], k)
    def m(self, c, st): return st[c.args[1].p + '#']
    def pre(self, c):
        return [('the list of handles is empty', self.m(c, c.st) == 0)] + self.nodes(c)
    def nodes(self, c):
        k = _K; x = self.a(c, c.st, k)
        return [('elements are nodes', FA(k, Imp(And(0 <= k, k < self.n(c, c.st)), And(x > 3, z3.Select(c.st['G.alloc'], x))), x)), ('counts', FA(_Q, z3.Select(c.st[XR], _Q) >= 0, z3.Select(c.st[XR], _Q)))]
    def moved(self, c):
        return [('the list of addresses is empty', self.n(c, c.st) == 0), ('as many handles as addresses', self.m(c, c.st) == self.n(c, c.old)),
                ('handles of the nodes', FA(_K, Imp(And(0 <= _K, _K < self.m(c, c.st)), self.b(c, c.st, _K) == self.a(c, c.old, _K)), self.b(c, c.st, _K)))]
    def post(self, c):
        a0 = c.old[c.args[0].p + '[]']
        return self.moved(c) + [('one more reference per handle', FA(_Q, z3.Select(c.st[XR], _Q) == z3.Select(c.old[XR], _Q) + OCC(a0, self.n(c, c.old), _Q), z3.Select(c.st[XR], _Q)))]
    def inv(c):
        me = c.ex.contract; i = c.ivar(); n = me.n(c, c.old); a0 = c.old[c.args[0].p + '[]']
        for x in L_occ(a0, i): c.ex.assume(x)
        return [('index', And(0 <= i, i <= n)), ('sizes', me.m(c, c.st) == n), ('elements', FA(_K, Imp(And(0 <= _K, _K < n), me.b(c, c.st, _K) == me.a(c, c.old, _K)), me.b(c, c.st, _K))),
                ('one more reference per handle', FA(_Q, z3.Select(c.st[XR], _Q) == z3.Select(c.old[XR], _Q) + OCC(a0, i, _Q), z3.Select(c.st[XR], _Q))), ('positive', FA(_Q, OCC(a0, i, _Q) >= 0, OCC(a0, i, _Q)))]
    loops = [LoopSpec(inv=inv, name='handles', decreases=lambda c: c.ex.contract.n(c, c.old) - c.ivar())]
class ConvertClient(Convert):
    """the same for callers: counts of handles are not part of the column"""
    raw_handles = False
    def modifies(self, c): return [sx.re.escape(c.args[0].p) + r'(#|\[\])', sx.re.escape(c.args[1].p) + r'(#|\[\]\.ref)']
    def nodes(self, c):
        k = _K; x = self.a(c, c.st, k)
        return [('elements are nodes', FA(k, Imp(And(0 <= k, k < self.n(c, c.st)), And(x > 3, z3.Select(c.st['G.alloc'], x))), x))]
    def post(self, c): return self.moved(c)
Convert.client = ConvertClient()
class RefList:
    """the list of the node, as handles"""
    def world(self, ex):
        mgr_world(ex)
        return nref(ex, 'x'), []
    def of(self, c):
        d = sx.Ctx(c.ex, c.st, c.old, Ref('H[]', (c.ex.load(Ref(c.this.p + '.ref', c.this.ix), c.old),)), c.args, c.ret)
        d.body = c.body
        if hasattr(c, 'calls'): d.calls = c.calls
        return d
    def pre(self, c): return super().pre(self.of(c))
    def post(self, c): return super().post(self.of(c))
    def assume(self, c): return super().assume(self.of(c))
    def ghost_exit(self, c): pass
class RefPostorder(RefList, Postorder):
    key = 'BDD::node_ref::nodes_postorder'
class RefBfs(RefList, Bfs):
    key = 'BDD::node_ref::nodes_bfs'
    loops = ()
CONTRACTS = [Convert(), RefPostorder(), RefBfs()]
