"""Symbolic execution of the clang AST of the real sources against contracts.

One function is executed at a time.  Calls to functions that have a contract use the contract (the
precondition becomes an obligation, the frame is havocked, the postcondition assumed); library
functions without contract are executed in place (so extracted helpers need no annotation); functions
of the C++ standard library are given by the models in stdm.py.  Loops are cut by invariants.
Every path through the function is enumerated by re-execution under a decision trace.
"""
import re
import z3
from . import fe

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
U64 = 2 ** 64
MAXCAP = 2 ** 60          # resource assumption: no container has more elements than this

class Unsupported(Exception):
    pass
class PathEnd(Exception):
    pass
class Restart(Exception):
    pass
class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Continue(Exception): pass
class _Throw(Exception):
    def __init__(self, what): self.what = what

class Ref:
    """lvalue: leaf prefix + index terms; gen: ((container prefix, token), ...) for dangling detection"""
    __slots__ = ('p', 'ix', 'gen')
    def __init__(self, p, ix=(), gen=()):
        self.p, self.ix, self.gen = p, tuple(ix), gen
    def __repr__(self): return f'Ref({self.p},{list(self.ix)})'
class AggV:
    __slots__ = ('d',)
    def __init__(self, d): self.d = d
    def __repr__(self): return f'Agg({self.d})'
class IterV:
    __slots__ = ('c', 'pos', 'tok', 'rev')
    def __init__(self, c, pos, tok, rev=False): self.c, self.pos, self.tok, self.rev = c, pos, tok, rev
class MapIter:
    __slots__ = ('m', 'key', 'found')
    def __init__(self, m, key, found): self.m, self.key, self.found = m, key, found
class MapEntry:
    __slots__ = ('m', 'key')
    def __init__(self, m, key): self.m, self.key = m, key
class PtrV:
    __slots__ = ('r',)
    def __init__(self, r): self.r = r
class Closure:
    __slots__ = ('node', 'env', 'this', 'over')
    def __init__(self, node, env, this, over): self.node, self.env, self.this, self.over = node, env, this, over
class Str:
    def __init__(self, s): self.s = s
class Void: pass
VOID = Void()
class Opaque:
    """a value nothing is known about (streams, generators)"""
    def __init__(self, w=''): self.w = w

def is_z(v): return isinstance(v, z3.ExprRef)
def iv(n): return z3.IntVal(n)

# ------------------------------------------------------------------ types
_INT = {'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
        'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
        'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
        'unsigned long long': (64, False), 'size_t': (64, False), 'std::size_t': (64, False),
        'ptrdiff_t': (64, True), 'std::ptrdiff_t': (64, True), 'size_type': (64, False),
        'difference_type': (64, True), 'uint_fast32_t': (64, False), 'result_type': (64, False)}
_FLT = {'double', 'float', 'long double'}

def clean(t):
    t = t.replace('BDD::', '')
    t = re.sub(r'\b(const|volatile|struct|class|typename|constexpr)\b', '', t)
    t = re.sub(r'\s+', ' ', t).strip()
    while t.endswith('&') or t.endswith(' '):
        t = t[:-1]
    return t.strip()

def targs(t):
    i = t.index('<')
    depth, out, cur = 0, [], ''
    for ch in t[i + 1:t.rindex('>')]:
        if ch in '<(': depth += 1
        if ch in '>)': depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def tstr(n):
    ty = n.get('type', {})
    return ty.get('desugaredQualType') or ty.get('qualType', '')

def inttype(t):
    t = clean(t)
    return _INT.get(t)

K3 = z3.Datatype('K3')
K3.declare('k3', ('k0', I), ('k1', I), ('k2', I))
K3 = K3.create()
AII = z3.ArraySort(I, I)

class Types:
    def __init__(self, ast):
        self.ast = ast
        self.rec = {}
        for q, n in ast.records.items():
            self.rec.setdefault(q.split('::')[-1], n)
            self.rec.setdefault(q.replace('BDD::', ''), n)
    def fields(self, rec):
        out = []
        for c in rec.get('inner', ()):
            if c.get('kind') == 'FieldDecl' and c.get('name'):
                out.append(c)
            elif c.get('kind') == 'CXXRecordDecl' and c.get('tagUsed') == 'union' and not c.get('name'):
                fs = [f for f in c.get('inner', ()) if f.get('kind') == 'FieldDecl']
                if fs: out.append(fs[0])
        return out
    def canon_field(self, fid, name):
        al = self.ast.union_alias.get(fid)
        if al:
            names = [f['name'] for f in al]
            for pref in ('lo', 'hi', 'base', 'data'):
                if pref in names: return pref
            return names[0]
        return name
    def bits(self, fdecl):
        if not fdecl.get('isBitfield'): return None
        for c in fdecl.get('inner', ()):
            if c.get('value') is not None: return int(c['value'])
        raise Unsupported('bit-field width')
    def keysort(self, t):
        t = clean(t)
        if t in _INT or t.endswith('*'): return I
        if t.startswith('std::array<') or t.startswith('array<'): return AII
        if t == 'bdd_instruction': return K3
        if t == 'node_ref': return I
        raise Unsupported('map key type ' + t)
    def layout(self, t):
        """list of (suffix, leaf sort, index sorts)"""
        t = clean(t)
        if t in ('bool',): return [('', B, ())]
        if t in _INT: return [('', I, ())]
        if t in _FLT: return [('', R, ())]
        if t.endswith('*'): return [('', I, ())]
        if t in ('value_type', 'reference'): raise Unsupported('layout of ' + t)
        base = t.split('<')[0].replace('std::', '').replace('__cxx11::', '')
        if base in ('vector', 'deque'):
            el = self.layout(targs(t)[0])
            out = [('#', I, ())] + [('[]' + s, so, (I,) + ix) for s, so, ix in el]
            if base == 'deque': out.append(('@', I, ()))
            return out
        if base == 'array':
            el = self.layout(targs(t)[0])
            return [('[]' + s, so, (I,) + ix) for s, so, ix in el]
        if base == 'unordered_map':
            a = targs(t)
            k = self.keysort(a[0])
            return [('?', B, (k,))] + [('{}' + s, so, (k,) + ix) for s, so, ix in self.layout(a[1])]
        if base in ('unordered_set', 'set'):
            return [('?', B, (self.keysort(targs(t)[0]),))]
        if base in ('tuple', 'pair'):
            out = []
            for i, a in enumerate(targs(t)):
                out += [(f'.{i}' + s, so, ix) for s, so, ix in self.layout(a)]
            return out
        if base in ('basic_string', 'string'): return [('', I, ())]
        if base == 'unique_ptr': return [('', I, ())]
        r = self.rec.get(t) or self.rec.get(t.split('::')[-1]) or (self.rec.get(base) if '<' in t else None)
        if r is not None:
            out = []
            for f in self.fields(r):
                ft = tstr(f)
                if ft.endswith('&'): continue
                nm = self.canon_field(f['id'], f['name'])
                try:
                    out += [('.' + nm + s, so, ix) for s, so, ix in self.layout(ft)]
                except Unsupported:
                    pass
            return out
        raise Unsupported('layout of type ' + t)

def arrsort(leaf, ix):
    s = leaf
    for k in reversed(ix):
        s = z3.ArraySort(k, s)
    return s

def default_of(sort):
    if sort == I: return iv(0)
    if sort == B: return z3.BoolVal(False)
    if sort == R: return z3.RealVal(0)
    if isinstance(sort, z3.ArraySortRef): return z3.K(sort.domain(), default_of(sort.range()))
    raise Unsupported('default of ' + str(sort))

def sel(a, ix):
    for i in ix: a = z3.Select(a, i)
    return a
def sto(a, ix, v):
    if not ix: return v
    if len(ix) == 1: return z3.Store(a, ix[0], v)
    return z3.Store(a, ix[0], sto(z3.Select(a, ix[0]), ix[1:], v))

# uninterpreted bit operations (facts about them are lemmas, see contracts/theory.py)
band = z3.Function('band', I, I, I)
bxor = z3.Function('bxor', I, I, I)
bshl = z3.Function('bshl', I, I, I)
bshr = z3.Function('bshr', I, I, I)
ptr2int = z3.Function('ptr2int', I, I)

class State(dict):
    pass

def sig_of(fn):
    ps = []
    for p in fe.params_of(fn):
        t = p['type'].get('desugaredQualType') or p['type']['qualType']
        c = clean(t)
        if '__normal_iterator' in c or 'iterator' in c: c = 'it'
        elif c in _INT and _INT[c] == (64, False): c = 'size_t'
        elif 'unordered_map' in c: c = 'map'
        elif 'unordered_set' in c: c = 'set'
        elif c.startswith('std::array') or c.startswith('array'): c = 'array'
        elif c in ('node_struct *', 'node *'): c = 'node*'
        elif c.startswith('std::vector') or c.startswith('vector'): c = 'vector'
        c = c.replace('node_struct', 'node').replace(' *', '*')
        if t.rstrip().endswith('&&'): c += '&&'
        ps.append(c)
    return '(' + ','.join(ps) + ')'

class Obligation:
    __slots__ = ('fn', 'kind', 'facts', 'goal', 'path', 'res')
    def __init__(self, fn, kind, facts, goal, path):
        self.fn, self.kind, self.facts, self.goal, self.path, self.res = fn, kind, facts, goal, path, None
    @property
    def name(self): return f'{self.fn} / {self.kind}'

class Ctx:
    """what contract clauses see"""
    def __init__(self, ex, st, old, this, args, ret=None, extra=None):
        self.ex, self.st, self.old, self.this, self.args, self.ret, self.extra = ex, st, old, this, args, ret, extra or {}
    fn = None
    body = False          # the clauses are stated for the body under verification, not for a call
    def arg(self, i): return self.ex.valof(self.args[i], self.old)
    def argnow(self, i): return self.ex.valof(self.args[i], self.st)
    def n(self, i):
        """node address held by argument i (node_ref or node*)"""
        v = self.arg(i)
        if isinstance(v, AggV): return v.d['.ref']
        return v
    @property
    def p(self):
        return self.this.ix[-1]
    @property
    def r(self):
        v = self.ret
        if isinstance(v, Ref): v = self.ex.load(v, self.st)
        if isinstance(v, AggV) and list(v.d) == ['.ref']: return v.d['.ref']
        return v

class Contract:
    """Base class; contracts override what they need."""
    key = None
    modifies = ()            # leaf-name patterns (regex, fullmatch) that may change
    may_throw = False
    inline_ok = False
    trusted = None           # reason if the body is not verified
    client = None            # raw_handles: the contract callers use, in which handles are counted by G.hc
    def pre(self, c): return []
    def post(self, c): return []
    def on_throw(self, c): return []
    def decreases(self, c): return None
    def ghost_exit(self, c): pass
    ghost_steps = False
    def ghost_entry(self, c): pass
    def assume(self, c): return []
    loops = ()
    def world(self, ex): raise NotImplementedError
    def ret_value(self, ex, c, fn): return None

class Lemma(Contract):
    """a statement proved for all states; no code"""
    lemma = True
    def prove(self, ex):
        """declares the world and yields (name, facts, goal)"""
        raise NotImplementedError

class LoopSpec:
    def __init__(self, inv=None, mods=None, decreases=None, ghost_end=None, name='loop', match=None, ghost_exit=None, ghost_head=None, unroll=0, drop=(), ghost_iter=None):
        self.ghost_iter = ghost_iter           # runs in the state at the start of an arbitrary iteration
        self.drop = drop                       # facts (by quantifier name) forgotten in the body
        self.inv, self.decreases, self.ghost_end, self.name, self.match = inv, decreases, ghost_end, name, match
        self.ghost_exit = ghost_exit
        self.ghost_head = ghost_head
        self.unroll = unroll

class LoopCtx(Ctx):
    """state at the loop head (s), at loop entry (pre), at function entry (old)"""
    def counter(self, sort=I):
        """the unique local scalar modified by the loop"""
        c = [k for k in self.mods if k.startswith('L') and is_z(self.st.get(k)) and self.st[k].sort() == sort and '#' not in k and '.' not in k[1:]]
        if len(c) != 1:
            raise Unsupported(f'loop counter not unique: {c}')
        return self.st[c[0]]
    def counters(self):
        return [self.st[k] for k in self.mods if k.startswith('L') and is_z(self.st.get(k)) and self.st[k].sort() == I and '#' not in k and '.' not in k[1:]]
    def pre_of(self, t):
        for k in self.mods:
            if is_z(self.st.get(k)) and self.st[k].eq(t): return self.pre[k]
        raise Unsupported('pre_of')
    def ivar(self):
        """the variable stepped by the for statement"""
        if self.incvar is None: raise Unsupported('loop without a stepped variable')
        return self.st[self.incvar]
    def other(self, sort=I):
        """the other local scalar modified by the loop"""
        c = [k for k in self.mods if k.startswith('L') and k != self.incvar and is_z(self.st.get(k)) and self.st[k].sort() == sort and '#' not in k and '.' not in k[1:]]
        if len(c) != 1: raise Unsupported(f'loop accumulator not unique: {c}')
        return self.st[c[0]]
    def modvecs(self):
        return [k[:-1] for k in self.mods if k.startswith('L') and k.endswith('#')]

class Exec:
    def __init__(self, ast, contracts, quick=None, log=None, max_paths=4000):
        self.ast, self.contracts = ast, contracts
        self.types = Types(ast)
        self.log = log
        self.max_paths = max_paths
        self.keep = []
        _qcache.clear(); _sym.clear()
        self.entail_cache = {}
        self.feas_cache = {}
        self.ref_consts = {}
        from . import stdm
        self.stdm = stdm

    # ---------------------------------------------------------------- driver
    def verify(self, fn, contract):
        """returns list of obligations; raises Unsupported"""
        if fn is None: return self.verify_lemma(contract)
        self.fn, self.contract = fn, contract
        self.fname = self.ast.qname.get(fn['id'], fn.get('name')) + sig_of(fn)
        self.obls, self.seen = [], set()
        self.loop_mods = {}       # loop key -> set of leaves
        self.loop_list = None
        self.loop_shape = {}      # loop -> kind of statement, + if it has an invariant
        self.loop_spec_of = {}
        self.trace = []
        self.exits = []           # facts at normal exits (for the vacuity check)
        self.npaths = 0
        restarts = 0
        while True:
            try:
                self.run_path()
            except Restart:                    # a loop modifies more than assumed: the path starts again with a larger frame
                self.obls, self.seen, self.exits, self.trace, self.loop_spec_of, self.npaths = [], set(), [], [], {}, 0
                restarts += 1
                if restarts > 200: raise Unsupported('loop frame inference does not converge')
                continue
            self.npaths += 1
            if self.npaths > self.max_paths: raise Unsupported('too many paths')
            while self.trace and self.trace[-1][0] + 1 >= self.trace[-1][1]:
                self.trace.pop()
            if not self.trace: break
            self.trace[-1] = (self.trace[-1][0] + 1, self.trace[-1][1])
        return self.obls

    def verify_lemma(self, contract):
        self.fn, self.contract, self.fname = None, contract, contract.key
        self.obls, self.seen, self.trace, self.tpos, self.exits, self.npaths = [], set(), [], 0, [], 1
        self.nfresh = self.nroot = self.depth = 0
        self.st, self.facts, self.guards, self.ghost = State(), [], [], {}
        for name, facts, goal in contract.prove(self):
            base = list(self.facts)
            self.facts = base + list(facts)
            self.oblige(name, goal)
            self.exits.append(list(self.facts))
            self.facts = base
        return self.obls

    def choose(self, n):
        if self.tpos < len(self.trace):
            c = self.trace[self.tpos][0]
        else:
            self.trace.append((0, n)); c = 0
        self.tpos += 1
        return c

    def run_path(self):
        self.tpos = 0
        self.nfresh = 0
        self.nroot = 0
        self.st = State()
        self.facts = []
        self.guards = []
        self.derefd = set()
        self.ranged = set()
        self.stack = []
        self.calls = []
        self.inloop = []
        self.loop_instances = {}
        self.depth = 0
        self.ghost = {}
        self.uptrs = []
        self.rawlocals = []
        fn, ct = self.fn, self.contract
        this, args = ct.world(self)
        self.entry_this, self.entry_args = this, args
        # by-value parameters get their own storage
        env = {}
        self.bind_params(fn, args, env)
        self.old = State(self.st)
        c = Ctx(self, self.st, self.old, this, args)
        for nm, f in ct.pre(c): self.assume(f)
        for f in ct.assume(c): self.assume(f)
        self.old = State(self.st)
        ct.ghost_entry(c)
        if not ct.ghost_steps: self.old = State(self.st)       # ghost_entry only introduces ghost state
        self.measure0 = self._measure(ct, Ctx(self, self.old, self.old, this, args))
        try:
            thrown = None
            try:
                ret = self.exec_body(fn, env, this)
            except _Throw as t:
                thrown = t
            c = Ctx(self, self.st, self.old, this, args, None if thrown else ret)
            c.calls = self.calls
            c.body = True
            if thrown:
                if not ct.may_throw:
                    self.oblige('no exception escapes', z3.BoolVal(False))
                else:
                    ct.ghost_exit(c)
                    self.check_frame(ct)
                    for nm, f in ct.on_throw(c): self.oblige('on exception: ' + nm, f)
            else:
                ct.ghost_exit(c)
                self.exits.append(list(self.facts))
                self.check_frame(ct)
                for nm, f in ct.post(c): self.oblige('post: ' + nm, f)
        except PathEnd:
            pass

    def _measure(self, ct, c):
        m = ct.decreases(c)
        if m is None: return None
        return m if isinstance(m, (list, tuple)) else [m]

    def check_frame(self, ct):
        pats = [re.compile(p) for p in (ct.modifies(Ctx(self, self.st, self.old, self.entry_this, self.entry_args)) if callable(ct.modifies) else ct.modifies)]
        if any(k.endswith('&!') for k in self.st): self.oblige('no two vectors share their memory at the end', z3.BoolVal(False))
        for k, v in self.st.items():
            if k.startswith('L') or k.endswith('!'): continue
            o = self.old.get(k)
            if o is v or (is_z(v) and is_z(o) and v.eq(o)): continue
            if k not in self.old: continue
            if not any(p.fullmatch(k) for p in pats):
                self.oblige(f'frame: {k} unchanged', v == o)

    # ---------------------------------------------------------------- logic
    def fresh(self, name, sort):
        self.nfresh += 1
        c = z3.Const(f'{name}!{self.nfresh}', sort)
        self.keep.append(c)
        return c
    def newroot(self, hint=''):
        self.nroot += 1
        return f'L{self.nroot}' + (f'~{hint}' if hint else '')
    def assume(self, f):
        if f is True or (is_z(f) and z3.is_true(f)): return
        if z3.is_and(f):
            for x in f.children(): self.assume(x)
            return
        self.keep.append(f)
        self.facts.append(f)
    def oblige(self, kind, goal):
        if goal is True: goal = z3.BoolVal(True)
        if goal is False: goal = z3.BoolVal(False)
        if isinstance(goal, (list, tuple)): goal = z3.And(*goal)
        self.keep.append(goal)
        self.keep.extend(self.guards)
        key = (kind, goal.get_id(), tuple(f.get_id() for f in self.facts), tuple(g.get_id() for g in self.guards))
        if key in self.seen: return
        self.seen.add(key)
        facts = list(self.facts)
        self.obls.append(Obligation(self.fname, kind, facts, goal, [t[0] for t in self.trace[:self.tpos]]))
    def oblige_assume(self, kind, goal):
        self.oblige(kind, goal)
        self.assume(goal)

    def ground(self):
        return [f for f in self.facts if not _has_quant(f)]

    def _chk(self, facts, extra, rl=400000):
        s = z3.Solver()
        s.set('rlimit', rl)
        for f in facts: s.add(f)
        s.add(extra)
        return s.check()

    def entails(self, g):
        """cheap, deterministic, sound test used only to simplify (never to discharge an obligation)"""
        g = z3.simplify(g)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        fs = self.ground()
        self.keep.append(g)
        key = (g.get_id(), tuple(f.get_id() for f in fs))
        r = self.entail_cache.get(key)
        if r is None:
            fs2 = relevant(fs, g)
            r = self._chk(fs2, z3.Not(g)) == z3.unsat
            self.entail_cache[key] = r
        return r
    def feasible(self, g):
        fs = self.ground()
        self.keep.append(g)
        key = (g.get_id(), tuple(f.get_id() for f in fs))
        r = self.feas_cache.get(key)
        if r is None:
            r = self._chk(fs, g) != z3.unsat
            self.feas_cache[key] = r
        return r

    def fork(self, cond, what=''):
        """decide a condition: returns python bool"""
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        c = self.choose(2)
        f = cond if c == 0 else z3.Not(cond)
        first = self.tpos >= len(self.trace)
        ok = self.feasible(f)
        if not ok:
            # the other side must then be taken; end this path silently
            self.assume(f)
            raise PathEnd()
        self.assume(f)
        return c == 0

    # ---------------------------------------------------------------- memory
    def leaves(self, p, st=None):
        st = self.st if st is None else st
        n = len(p)
        out = []
        for k in st:
            if k.startswith(p) and (len(k) == n or k[n] in '.[#@?{') and not k.endswith('!'):
                out.append(k)
        return out
    def declare(self, root, t, init='fresh'):
        """storage of type t at root"""
        lay = self.types.layout(t)
        for s, so, ix in lay:
            asort = arrsort(so, ix)
            if init == 'zero': v = default_of(asort)
            else: v = self.fresh(root + s, asort)
            if s.endswith('#') and ix == ():
                if init == 'fresh':
                    self.assume(z3.And(v >= 0, v <= MAXCAP))
                self.st[root + s + '!'] = ('t', root, self.nfresh)
            self.st[root + s] = v
        return Ref(root)
    def check_gen(self, r):
        for cont, tok in r.gen:
            cur = self.st.get(cont + '#!')
            if cur != tok:
                self.oblige(f'no dangling reference or iterator into {cont.split("~")[-1]}', z3.BoolVal(False))
    def load(self, r, st=None):
        st0 = self.st if st is None else st
        if isinstance(r, MapEntry):
            raise Unsupported('load of map entry')
        if st is None: self.check_gen(r)
        if r.p in st0:
            v = st0[r.p]
            if is_z(v): return sel(v, r.ix) if r.ix else v
            return v
        ls = self.leaves(r.p, st0)
        if not ls: raise Unsupported(f'no storage at {r.p}')
        d = {}
        for k in ls:
            v = st0[k]
            d[k[len(r.p):]] = sel(v, r.ix) if is_z(v) and r.ix else v
        return AggV(d)
    def valof(self, a, st=None):
        if isinstance(a, Ref): return self.load(a, self.st if st is None else st)
        return a
    def store(self, r, v):
        if isinstance(v, Ref): v = self.load(v)
        self.check_gen(r)
        if isinstance(v, AggV):
            for s, x in v.d.items():
                self._store1(r.p + s, r.ix, x)
            return
        self._store1(r.p, r.ix, v)
    def _store1(self, k, ix, v):
        if ix:
            a = self.st.get(k)
            if a is None:
                raise Unsupported(f'store to unknown storage {k}')
            if isinstance(v, PtrV): v = self.ptr_to_int(v)
            if isinstance(v, bool): v = z3.BoolVal(v)
            if not is_z(v): raise Unsupported('non-SMT value in container')
            leaf = a
            v = self.coerce_leaf(a, len(ix), v)
            self.st[k] = sto(a, ix, v)
            self.ghost_write(k, ix, v)
            if k.startswith('H') or k.startswith('M') or k.startswith('C') or k.startswith('PG'):
                # name the new array so that quantifier triggers stay simple
                nm = self.fresh(k, a.sort())
                self.assume(nm == self.st[k])
                self.st[k] = nm
            elif k.startswith('L') and not z3.is_const(a):
                nm = self.fresh(k, a.sort())
                self.assume(nm == self.st[k])
                self.st[k] = nm
        else:
            if k in self.st and is_z(self.st[k]) and is_z(v) and self.st[k].sort() != v.sort():
                v = self.coerce(v, self.st[k].sort())
            if isinstance(v, PtrV) and k in self.st and is_z(self.st[k]): v = self.ptr_to_int(v)
            self.st[k] = v
        if k.endswith('#'):
            self.st[k + '!'] = ('t', k, self.nfresh, len(self.facts))
    def ghost_write(self, k, ix, v):
        """ghost state attached to memory: where a node was last stored, which variable uses a page, union overlays"""
        if k == 'PG[][]':
            if 'G.off' in self.st:
                o = self.st['G.off']
                nm = self.fresh('G.off', o.sort())
                self.assume(nm == (z3.If(v == 0, o, z3.Store(o, v, ix[1]))))
                self.st['G.off'] = nm
            self.page_write(ix[0])
        elif k == 'PGL[]':        # the link overlays the slots of the page
            a = self.st['PG[][]']
            nm = self.fresh('PG[][]', a.sort())
            self.assume(nm == z3.Store(a, ix[0], self.fresh('row', AII)))
            self.st['PG[][]'] = nm
        elif k == 'M.vars[].base' and 'G.pguser' in self.st:
            a = self.st['G.pguser']
            nm = self.fresh('G.pguser', a.sort())
            self.assume(nm == z3.Store(a, v, ix[0]))
            self.st['G.pguser'] = nm
    def coerce_leaf(self, a, n, v):
        s = a.sort()
        for _ in range(n): s = s.range()
        return self.coerce(v, s)
    def coerce(self, v, s):
        if v.sort() == s: return v
        if s == I and v.sort() == B: return z3.If(v, iv(1), iv(0))
        if s == B and v.sort() == I: return v != 0
        if s == R and v.sort() == I: return z3.ToReal(v)
        raise Unsupported(f'coerce {v.sort()} to {s}')
    def ptr_to_int(self, v):
        if v.r.p == 'M' : return z3.Int('MGRADDR')
        if v.r.p == 'H[]' and v.r.ix: return v.r.ix[-1]
        raise Unsupported('pointer value in memory')

    def int_of(self, v):
        if is_z(v) and v.sort() == B: return z3.If(v, iv(1), iv(0))
        if isinstance(v, bool): return iv(int(v))
        return v
    def bool_of(self, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        if is_z(v):
            if v.sort() == B: return v
            return v != 0
        if isinstance(v, PtrV): return z3.BoolVal(True)
        if isinstance(v, AggV) and list(v.d) == ['.ref']: return v.d['.ref'] != 0
        raise Unsupported(f'bool of {type(v)}')
    def wrap(self, v, t):
        """machine representation of v in integer type t"""
        w = inttype(t)
        if w is None or not is_z(v) or v.sort() != I: return v
        return self.wrapw(v, w)
    def wrapw(self, v, w):
        v = z3.simplify(v) if z3.is_int_value(z3.simplify(v)) else v
        bits, sg = w
        lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if sg else (0, 2 ** bits - 1)
        if z3.is_int_value(v):
            x = v.as_long()
            if lo <= x <= hi: return v
            x = (x - lo) % (2 ** bits) + lo
            return iv(x)
        if self.entails(z3.And(v >= lo, v <= hi)): return v
        return ('wrap', v, lo, hi, bits)
    def arith(self, v, t):
        """result of + - * in type t; signed arithmetic is treated as mathematical"""
        w = inttype(t)
        if w is None: return v
        if w[1]: return v
        r = self.wrapw(v, w)
        if isinstance(r, tuple):
            _, v, lo, hi, bits = r
            m = 2 ** bits
            return z3.If(v < 0, v + m, z3.If(v >= m, v - m, v)) if self.entails(z3.And(v >= -m, v < 2 * m)) else v % m
        return r
    def cast_int(self, v, t):
        w = inttype(t)
        if w is None: return v
        r = self.wrapw(v, w)
        if isinstance(r, tuple):
            _, v, lo, hi, bits = r
            m = 2 ** bits
            return z3.If(v < lo, v + m, z3.If(v > hi, v - m, v)) if self.entails(z3.And(v >= lo - m, v <= hi + m)) else (v - lo) % m + lo
        return r
    def range_fact(self, v, t, bits=None):
        w = inttype(t)
        if w is None or not is_z(v) or v.sort() != I or z3.is_int_value(v): return
        if v.get_id() in self.ranged: return
        self.ranged.add(v.get_id()); self.keep.append(v)
        b, sg = w
        if bits: b = bits
        if sg: return
        self.assume(z3.And(v >= 0, v < 2 ** b))

    # ---------------------------------------------------------------- functions
    def bind_params(self, fn, args, env):
        ps = fe.params_of(fn)
        for i, p in enumerate(ps):
            if i >= len(args):
                raise Unsupported('default argument')
            a = args[i]
            t = tstr(p)
            if t.rstrip().endswith('&'):
                if not isinstance(a, (Ref, Closure, Opaque)):
                    a = self.materialize(a, p.get('name', ''))
                env[p['id']] = a
            else:
                self.no_raw_handle(t)
                env[p['id']] = self.new_local(p.get('name', 'p'), a)
    def new_local(self, name, v):
        root = self.newroot(name)
        if isinstance(v, Ref): v = self.load(v)
        if isinstance(v, AggV):
            for s, x in v.d.items():
                self.st[root + s] = x
                if s.endswith('#') : self.st[root + s + '!'] = ('t', root, self.nfresh)
            if not v.d: self.st[root] = VOID
        else:
            self.st[root] = v
        return Ref(root)
    def materialize(self, v, name='tmp'):
        if isinstance(v, Ref): return v
        return self.new_local(name or 'tmp', v)

    def contract_of(self, fn):
        q = self.ast.qname.get(fn['id'])
        if q is None: return None
        k = q + sig_of(fn)
        c = self.contracts.get(k) or self.contracts.get(q)
        if c is not None and getattr(c, 'raw_handles', False): return c.client       # handle operations are executed in place
        return c

    def exec_body(self, fn, env, this):
        self.depth += 1
        if self.depth > 60: raise Unsupported('inlining too deep (recursive function without contract): ' + fn.get('name', ''))
        self.stack.append((fn, env, this))
        try:
            if fn['kind'] == 'CXXConstructorDecl':
                self.ctor_inits(fn, env, this)
            try:
                nu = len(self.uptrs)
                self.stmt(fe.body_of(fn), env, this)
                ret = VOID
            except _Return as r:
                ret = r.v
            for u in self.uptrs[nu:]:
                if is_z(self.st.get(u)):
                    self.oblige('memory owned by a local smart pointer is not in use any more when it is released', self.st[u] == 0)
            del self.uptrs[nu:]
            return ret
        finally:
            self.stack.pop()
            self.depth -= 1

    def call(self, fn, this, args):
        ct = self.contract_of(fn)
        if ct is not None and not ct.inline_ok:
            return self.call_contract(fn, ct, this, args)
        if fe.body_of(fn) is None:
            raise Unsupported('no definition of ' + fn.get('name', '?'))
        names = [f['id'] for f, _, _ in self.stack]
        if names.count(fn['id']) >= 2 or (fn['id'] == self.fn['id'] and ct is None):
            raise Unsupported('recursive function without contract: ' + fn.get('name', ''))
        env = {}
        self.bind_params(fn, args, env)
        return self.exec_body(fn, env, this)

    def call_contract(self, fn, ct, this, args):
        nm = self.ast.qname.get(fn['id'], fn.get('name'))
        short = nm.split('::')[-1]
        # arguments by value: snapshot
        a2 = []
        for p, a in zip(fe.params_of(fn), args):
            t = tstr(p)
            if not t.rstrip().endswith('&') and isinstance(a, Ref): a = self.load(a)
            a2.append(a)
        args = a2
        old = State(self.st)
        c = Ctx(self, self.st, old, this, args); c.fn = fn
        for k, f in ct.pre(c): self.oblige_assume(f'call {short} pre: {k}', f)
        if fn['id'] == self.fn['id'] or (ct.key is not None and ct.key in getattr(self.contract, 'mutual', ())) or ct is self.contract:
            m = self._measure(ct, c)
            if m is not None and self.measure0 is not None:
                self.oblige(f'call {short} terminates: measure decreases', lex_less(m, self.measure0))
        # havoc
        pats = [re.compile(p) for p in ct.modifies] if not callable(ct.modifies) else [re.compile(p) for p in ct.modifies(c)]
        tag = f'{short}'
        for k in list(self.st):
            if k.endswith('!') or not is_z(self.st[k]): continue
            if any(p.fullmatch(k) for p in pats):
                self.st[k] = self.fresh(k, self.st[k].sort())
                if k.endswith('#'):
                    self.st[k + '!'] = ('t', k, self.nfresh)
                    self.assume(z3.And(self.st[k] >= 0, self.st[k] <= MAXCAP))
        thrown = False
        if ct.may_throw:
            thrown = self.choose(2) == 1
        if thrown:
            c = Ctx(self, self.st, old, this, args); c.fn = fn
            for k, f in ct.on_throw(c): self.assume(f)
            raise _Throw('from ' + short)
        ret = ct.ret_value(self, Ctx(self, self.st, old, this, args), fn)
        if ret is None: ret = self.havoc_ret(fn)
        c = Ctx(self, self.st, old, this, args, ret); c.fn = fn
        for k, f in ct.post(c): self.assume(f)
        c.after = State(self.st)
        self.calls.append((nm + sig_of(fn), c))
        return ret

    def havoc_ret(self, fn):
        t = fn['type'].get('desugaredQualType') or fn['type']['qualType']
        rt = t[:t.index('(')].strip()
        if rt == 'void' or fn['kind'] in ('CXXConstructorDecl', 'CXXDestructorDecl'): return VOID
        root = self.newroot('ret')
        self.declare(root, rt)
        ref = Ref(root)
        v = self.load(ref)
        if is_z(v): self.range_fact(v, rt)
        if rt.endswith('&'): return ref
        return v

    def ctor_inits(self, fn, env, this):
        for c in fn.get('inner', ()):
            if c.get('kind') != 'CXXCtorInitializer': continue
            ai = c.get('anyInit')
            inner = c.get('inner', [])
            if ai is None:
                continue
            fid = ai['id']
            name = ai.get('name')
            fd = self.ast.by_id.get(fid, ai)
            if not name:
                # anonymous union: initialise the canonical member
                rec = fd
                e = inner[0]
                q = (fd.get('type', {}) or {}).get('qualType', '')
                # find union record by field type location: look for any union alias reachable from the class
                al = None
                for u in self.union_of(fid):
                    al = u
                nm = self.types.canon_field(al[0]['id'], al[0]['name']) if al else None
                if nm is None: continue
                if e.get('kind') == 'CXXDefaultInitExpr':
                    e2 = None
                    for f in al:
                        if f.get('inner'): e2 = f['inner'][0]
                    v = self.rv(e2, env, this) if e2 is not None else None
                else:
                    v = self.rv(e, env, this)
                if v is not None: self.store(Ref(this.p + '.' + nm, this.ix), v)
                continue
            ft = tstr(fd)
            e = inner[0]
            nm = self.types.canon_field(fid, name)
            target = Ref(this.p + '.' + nm, this.ix)
            if ft.endswith('&'):
                self.bind_ref_field(target, self.ev(e, env, this))
                continue
            if e.get('kind') == 'CXXDefaultInitExpr':
                src = fd.get('inner', [])
                src = [x for x in src if x.get('kind', '').endswith('Expr') or x.get('kind', '').endswith('Literal') or 'Cast' in x.get('kind', '') or x.get('kind') == 'InitListExpr']
                if src and not fd.get('isBitfield'):
                    self.init_into(target, ft, src[-1], env, this)
                continue
            self.init_into(target, ft, e, env, this)

    def union_of(self, fid):
        # fid is the id of the implicit field of the anonymous union; its type names the record
        for did, al in self.ast.union_alias.items():
            par = self.ast.parent.get(did)
            if par is None: continue
            gp = self.ast.parent.get(par['id'])
            if gp and any(x.get('id') == fid for x in gp.get('inner', ())):
                return [al]
        return []

    def bind_ref_field(self, target, r):
        k = re.sub(r'\[\]', '', target.p)
        exp = self.refconst(target.p)
        if exp is not None:
            if not (isinstance(r, Ref) and r.p == exp.p):
                self.oblige(f'reference member {target.p} is bound to {exp.p}', z3.BoolVal(False))
            return
        self.st[target.p] = r
    def refconst(self, p):
        for rx, ref in REFCONST:
            if re.fullmatch(rx, p): return ref
        return None

    def init_into(self, target, t, e, env, this):
        """initialise storage target (type t) from expression e"""
        k = e.get('kind')
        t = clean(t)
        if k in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ConstantExpr'):
            return self.init_into(target, t, e['inner'][0], env, this)
        if k == 'CXXConstructExpr' and not self.is_copy_ctor(e):
            return self.construct(target, t, e, env, this)
        v = self.rv(e, env, this)
        if isinstance(v, (IterV, MapIter, PtrV, Closure, Opaque, Str)):
            self.st[target.p] = v
            return
        if target.p not in self.st and not self.leaves(target.p) and not target.ix:
            if isinstance(v, AggV):
                for s, x in v.d.items():
                    self.st[target.p + s] = x
                    if s.endswith('#'): self.st[target.p + s + '!'] = ('t', target.p, self.nfresh)
            else:
                self.st[target.p] = v
            return
        self.store(target, v)

    def is_copy_ctor(self, e):
        inner = [x for x in e.get('inner', ()) if x]
        if len(inner) != 1: return False
        a, b = clean(tstr(e)), clean(tstr(inner[0]))
        return norm_t(a) == norm_t(b)

    def no_raw_handle(self, t):
        if getattr(self.contract, 'raw_handles', False) and clean(t) == 'node_ref': raise Unsupported('temporary handle in a handle operation')
    def construct(self, target, t, e, env, this):
        self.no_raw_handle(tstr(e) or t)
        inner = [x for x in e.get('inner', ()) if x and x.get('kind') != 'CXXDefaultArgExpr']
        t = clean(tstr(e)) if tstr(e) else t
        if self.is_copy_ctor(e):
            return self.store_new(target, self.rv_copy(inner[0], env, this))
        if t == 'node_ref' and not getattr(self.contract, 'raw_handles', False):
            if not inner: return self.store_new(target, AggV({'.ref': iv(0)}))
            v = self.rv(inner[0], env, this)
            if isinstance(v, AggV): return self.store_new(target, v)
            return self.store_new(target, AggV({'.ref': v}))
        r = self.types.rec.get(t)
        if r is not None and not t.startswith('std::'):
            args = [self.ev(x, env, this) for x in inner]
            # user-provided constructor?
            fn = self.find_ctor(r, e, args)
            if fn is not None:
                if not target.ix:
                    self.declare_new(target, t)
                self.call(fn, target, args)
                return
            # implicit default constructor: default member initialisers
            if not args:
                if not target.ix: self.declare_new(target, t)
                self.default_members(target, r, env)
                return
            raise Unsupported('constructor of ' + t)
        return self.stdm.construct(self, target, t, inner, env, this)
    def declare_new(self, target, t):
        if not self.leaves(target.p):
            try:
                self.declare(target.p, t)
            except Unsupported:
                raise
            if not self.leaves(target.p): self.st[target.p] = VOID
    def default_members(self, target, r, env):
        for f in self.types.fields(r):
            src = [x for x in f.get('inner', []) if x.get('kind', '') not in ('ConstantExpr',) or not f.get('isBitfield')]
            src = [x for x in src if not x.get('kind', '').endswith('Attr')]
            if src and f.get('hasInClassInitializer'):
                nm = self.types.canon_field(f['id'], f['name'])
                self.store(Ref(target.p + '.' + nm, target.ix), self.rv(src[-1], env, None))
            elif f.get('name') and not f.get('isBitfield'):
                ft = clean(tstr(f))
                r2 = self.types.rec_of(ft) if hasattr(self.types, 'rec_of') else self.types.rec.get(ft) or self.types.rec.get(ft.split('<')[0])
                if r2 is None or ft.startswith('std::'): continue
                fn = self.find_default_ctor(ft, r2)
                if fn is not None: self.call(fn, Ref(target.p + '.' + self.types.canon_field(f['id'], f['name']), target.ix), [])
    def find_default_ctor(self, t, r):
        if '<' in t:
            ta = [x.rstrip('UL') for x in targs(t)]
            for f in self.ast.by_qname.get('BDD::%s::%s' % ((t.split('<')[0],) * 2), []):
                m = re.search(r'<([^>]*)>', self.ast.demangled.get(f.get('mangledName'), ''))
                if m and [x.strip().rstrip('ul') for x in m.group(1).split(',')] == ta and not fe.params_of(f): return f
            raise Unsupported('constructor of ' + t)
        return self.find_ctor(r, {}, [])
    def store_new(self, target, v):
        if target.ix or target.p in self.st or self.leaves(target.p):
            return self.store(target, v)
        if isinstance(v, AggV):
            for s, x in v.d.items():
                self.st[target.p + s] = x
                if s.endswith('#'): self.st[target.p + s + '!'] = ('t', target.p, self.nfresh)
        else:
            self.st[target.p] = v
    def find_ctor(self, r, e, args):
        n = len(args)
        cands = []
        for c in r.get('inner', ()):
            if c.get('kind') == 'CXXConstructorDecl' and len(fe.params_of(c)) == n and not c.get('isImplicit'):
                d = self.ast.definition(c['id'])
                if d is not None: cands.append(d)
        ct = e.get('ctorType', {}).get('qualType')
        if ct:
            c2 = [d for d in cands if d['type']['qualType'] == ct]
            if c2: return c2[0]
        if len(cands) == 1: return cands[0]
        if len(cands) > 1: raise Unsupported('overloaded constructor')
        return None

    # ---------------------------------------------------------------- statements
    def stmt(self, n, env, this):
        if not n: return
        k = n.get('kind')
        m = getattr(self, 's_' + k, None)
        if m: return m(n, env, this)
        if k and (k.endswith('Expr') or k == 'ExprWithCleanups' or k.endswith('Operator') or k.endswith('Literal')):
            self.ev(n, env, this); return
        raise Unsupported('statement ' + str(k))
    def s_CompoundStmt(self, n, env, this):
        n0 = len(self.rawlocals)
        try:
            for c in n.get('inner', ()): self.stmt(c, env, this)
        except (_Return, _Throw, _Break, _Continue):
            self.drop_rawlocals(n0)
            raise
        self.drop_rawlocals(n0)
    def drop_rawlocals(self, n0):
        """handles declared in the block are destroyed (only where handle operations are executed in place)"""
        while len(self.rawlocals) > n0:
            r = self.rawlocals.pop()
            d = [self.ast.definition(f['id']) for f in self.ast.by_qname.get('BDD::node_ref::~node_ref', ())]
            if not d or d[0] is None: raise Unsupported('destructor of node_ref')
            self.call(d[0], r, [])
    def s_NullStmt(self, n, env, this): pass
    def s_AttributedStmt(self, n, env, this):
        self.stmt(n['inner'][-1], env, this)
    def s_DeclStmt(self, n, env, this):
        for c in n.get('inner', ()):
            k = c.get('kind')
            if k == 'VarDecl': self.vardecl(c, env, this)
            elif k == 'DecompositionDecl': self.decomp(c, env, this)
            elif k in ('StaticAssertDecl', 'TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'CXXRecordDecl', 'EmptyDecl'): pass
            else: raise Unsupported('declaration ' + str(k))
    def vardecl(self, c, env, this):
        t = tstr(c)
        if c.get('storageClass') == 'static':
            init = [x for x in c.get('inner', ()) if 'kind' in x]
            if inttype(t) is not None and init and 'const' in c['type']['qualType']:
                env[c['id']] = self.new_local(c.get('name'), self.rv(init[-1], env, this))
            else:
                env[c['id']] = Opaque(clean(t))
            return
        init = [x for x in c.get('inner', ()) if x.get('kind', '') not in ('FullComment',) and not x.get('kind', '').endswith('Attr')]
        if t.rstrip().endswith('&') or c['type'].get('qualType', '').rstrip().endswith('&'):
            v = self.ev(init[-1], env, this)
            if not isinstance(v, (Ref, MapEntry, Closure, Opaque)): v = self.materialize(v, c.get('name'))
            env[c['id']] = v
            return
        root = self.newroot(c.get('name', ''))
        target = Ref(root)
        env[c['id']] = target
        if not init:
            self.declare(root, t)
            return
        if clean(t) == 'node_ref' and getattr(self.contract, 'raw_handles', False):
            e = init[-1]
            while e.get('kind') in ('ExprWithCleanups', 'ParenExpr'): e = e['inner'][0]
            if e.get('kind') != 'CXXConstructExpr': raise Unsupported('handle in a handle operation')
            args = [self.ev(x, env, this) for x in e.get('inner', ()) if x]
            d = self.find_ctor(self.types.rec['node_ref'], e, args)
            if d is None: raise Unsupported('constructor of node_ref')
            self.st[root + '.ref'] = iv(0)
            self.call(d, target, args)
            self.rawlocals.append(target)
            return
        self.init_into(target, t, init[-1], env, this)
        if clean(t).replace('std::', '').startswith('unique_ptr<') and root not in self.uptrs: self.uptrs.append(root)
        if root not in self.st and not self.leaves(root):
            raise Unsupported('initialisation of ' + c.get('name', ''))
        if root in self.st and is_z(self.st[root]):
            w = inttype(t)
            if w is not None and self.st[root].sort() == I and clean(t) == 'bool': self.st[root] = self.st[root] != 0
            elif self.st[root].sort() == B and w is not None and clean(t) != 'bool': self.st[root] = self.int_of(self.st[root])
    def decomp(self, c, env, this):
        bind = [x for x in c['inner'] if x.get('kind') == 'BindingDecl']
        init = [x for x in c['inner'] if x.get('kind') != 'BindingDecl'][0]
        isref = c['type']['qualType'].rstrip().endswith('&')
        v = self.ev(init, env, this)
        if isinstance(v, Ref) and not isref: v = self.load(v)
        if isinstance(v, MapEntry):
            parts = [self.key_ref(v), self.entry_second(v)]
            if not isref: parts = [self.new_local('b', self.load(p) if isinstance(p, Ref) else p) for p in parts]
        else:
            if not isinstance(v, Ref): v = self.materialize(v, 'decomp')
            parts = [Ref(v.p + f'.{i}', v.ix, v.gen) for i in range(len(bind))]
            for i, p in enumerate(parts):
                if not self.leaves(p.p) : raise Unsupported('structured binding')
        for b, p in zip(bind, parts):
            env[b['id']] = p if isinstance(p, Ref) else self.materialize(p)
    def key_ref(self, e):
        return self.materialize(self.stdm.unkey(self, e.key), 'key')
    def entry_second(self, e):
        return Ref(e.m.p + '{}', e.m.ix + (e.key,), e.m.gen)

    def s_ReturnStmt(self, n, env, this):
        inner = [x for x in n.get('inner', ()) if x]
        if not inner: raise _Return(VOID)
        fn = self.stack[-1][0]
        t = fn['type'].get('desugaredQualType') or fn['type']['qualType']
        rt = t[:t.index('(')].strip()
        if '->' in t and rt.startswith('auto'): rt = t[t.index('->') + 2:].strip()
        v = self.ev(inner[0], env, this)
        if not rt.endswith('&') and isinstance(v, Ref): v = self.load(v)
        raise _Return(v)
    def s_IfStmt(self, n, env, this):
        inner = list(n['inner'])
        if n.get('hasInit'): self.stmt(inner.pop(0), env, this)
        if n.get('hasVar'): raise Unsupported('if with declaration')
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        b = self.bool_of(self.rv(cond, env, this))
        if self.fork(b): self.stmt(then, env, this)
        elif els: self.stmt(els, env, this)
    def s_BreakStmt(self, n, env, this): raise _Break()
    def s_ContinueStmt(self, n, env, this): raise _Continue()
    def s_SwitchStmt(self, n, env, this):
        inner = [x for x in n['inner'] if x]
        v = self.int_of(self.rv(inner[0], env, this))
        body = inner[-1]
        # flatten labels
        items = []   # (labels, stmt)
        def flat(s):
            labels = []
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    labels.append(s['inner'][0]); s = s['inner'][-1]
                else:
                    labels.append(None); s = s['inner'][-1]
            items.append((labels, s))
        for s in body.get('inner', ()): flat(s)
        start = None
        default = None
        for i, (labels, s) in enumerate(items):
            for l in labels:
                if l is None: default = i; continue
                lv = self.int_of(self.rv(l, env, this))
                if start is None and self.fork(v == lv): start = i
            if start is not None: break
        if start is None:
            if default is None: return
            start = default
        try:
            for labels, s in items[start:]: self.stmt(s, env, this)
        except _Break:
            pass
    def s_CXXTryStmt(self, n, env, this):
        raise Unsupported('try')

    # loops ---------------------------------------------------------------
    def s_ForStmt(self, n, env, this):
        init, cvar, cond, inc, body = n['inner'][:5]
        if init: self.stmt(init, env, this)
        self.loop(n, lambda: self.bool_of(self.rv(cond, env, this)) if cond else z3.BoolVal(True),
                  lambda: self.stmt(body, env, this), (lambda: self.ev(inc, env, this)) if inc else None, env)
    def s_WhileStmt(self, n, env, this):
        inner = n['inner']
        if n.get('hasVar'):
            decl, cond, body = inner[0], inner[1], inner[2]
            if len(decl.get('inner', ())) != 1 or 'node_ref' in tstr(decl['inner'][0]): raise Unsupported('while with declaration')
            def test():
                self.stmt(decl, env, this)
                return self.bool_of(self.rv(cond, env, this))
            return self.loop(n, test, lambda: self.stmt(body, env, this), None, env)
        cond, body = inner[0], inner[1]
        self.loop(n, lambda: self.bool_of(self.rv(cond, env, this)), lambda: self.stmt(body, env, this), None, env)
    def s_DoStmt(self, n, env, this):
        body, cond = n['inner'][0], n['inner'][1]
        first = {'f': True}
        # do-while: the first test is true
        root = self.newroot('dofirst')
        self.st[root] = z3.BoolVal(True)
        def c():
            f = self.st[root]
            if z3.is_true(f): return z3.BoolVal(True)
            return z3.Or(f, self.bool_of(self.rv(cond, env, this)))
        def b():
            self.st[root] = z3.BoolVal(False)
            self.stmt(body, env, this)
        self.loop(n, c, b, None, env)
    def s_CXXForRangeStmt(self, n, env, this):
        inner = [x for x in n['inner'] if x]
        decls = [x for x in inner if x.get('kind') == 'DeclStmt']
        rng = decls[0]['inner'][0]
        loopvar = decls[-1]
        body = inner[-1]
        vals = self.init_list(rng['inner'][-1], env, this)
        if vals is not None:
            # a list written out: one copy of the body per element
            var = loopvar['inner'][0]
            if var['kind'] == 'DecompositionDecl' or any(not is_z(v) for v in vals): raise Unsupported('range over a list')
            for v in vals:
                env[var['id']] = self.new_local(var.get('name'), v)
                try: self.stmt(body, env, this)
                except _Continue: pass
                except _Break: break
            return
        r = self.ev(rng['inner'][-1], env, this)
        if not isinstance(r, Ref): r = self.materialize(r, 'range')
        var = loopvar['inner'][0]
        if r.p + '?' in self.st or any(k == r.p + '?' for k in self.st):
            return self.stdm.range_map(self, n, r, var, body, env, this)
        N = self.stdm.array_len(self, tstr(rng))
        idx = self.newroot('rangeidx')
        self.st[idx] = iv(0)
        tok = self.st.get(r.p + '#!')
        size = lambda: N if N is not None else self.load(Ref(r.p + '#', r.ix))
        n0 = size()
        if r.p + '&!' in self.st: raise Unsupported('vector that shares its elements')
        def bind():
            el = Ref(r.p + '[]', r.ix + (self.st[idx],), r.gen + (((r.p, tok),) if tok is not None else ()))
            if var['kind'] == 'DecompositionDecl': raise Unsupported('range decomposition')
            if tstr(var).rstrip().endswith('&') or var['type'].get('qualType', '').rstrip().endswith('&'):
                env[var['id']] = el
            else:
                env[var['id']] = self.new_local(var.get('name'), self.load(el))
        def inc(): self.st[idx] = self.st[idx] + 1
        self.loop(n, lambda: self.st[idx] < n0, lambda: (bind(), self.stmt(body, env, this)), inc, env,
                  auto=lambda: z3.And(self.st[idx] >= 0, self.st[idx] <= n0), rangeidx=idx)

    def spec_for(self, key, mods, known):
        """loop specifications of the function under verification are given in source order"""
        if key in self.loop_spec_of: return self.loop_spec_of[key]
        used = [s for s in self.loop_spec_of.values() if s is not None]
        for s in self.contract.loops:
            if any(s is u for u in used): continue
            if s.match is not None and not known: return None
            if s.match is None or s.match(mods, self):
                self.loop_spec_of[key] = s
                return s
        self.loop_spec_of[key] = None
        return None

    def loop(self, n, cond, body, inc, env, auto=None, rangeidx=None):
        base = n.get('id') or str(id(n))
        inst = self.loop_instances.get(base, 0)
        self.loop_instances[base] = inst + 1
        key = (base,)
        mkey = (base, self.tkey())
        mods = self.loop_mods.setdefault(mkey, set())
        nroot0 = self.nroot
        pre = State(self.st)
        if not hasattr(self, 'loop_order'): self.loop_order = []
        self.cur_loop = n
        known = self.mods_known(mkey)
        spec = self.spec_for(key, mods, known)
        self.loop_shape[base] = n['kind'] + ('+' if spec is not None else '')
        if not known: spec = None
        lc = LoopCtx(self, self.st, self.old, self.entry_this, self.entry_args)
        lc.calls = self.calls
        lc.pre, lc.mods, lc.env, lc.rangeidx = pre, sorted(mods), env, rangeidx
        lc.incvar = self.incvar_of(n, env, rangeidx)
        autos = self.auto_inv(n, pre, mods, env) if rangeidx is None else []
        def invs():
            lc.st = self.st
            out = []
            if auto: out.append(('index', auto()))
            for f in autos: out.append(('bound', f()))
            if spec and spec.inv: out += list(spec.inv(lc))
            return out
        lname = spec.name if spec else 'loop'
        if spec and spec.ghost_head: spec.ghost_head(lc)
        pre = State(self.st); lc.pre = pre
        if known:
            for k, f in invs(): self.oblige(f'{lname} entry: {k}', f)
        # havoc
        for k in sorted(mods):
            v = self.st.get(k)
            if v is None: continue
            if is_z(v):
                self.st[k] = self.fresh(k, v.sort())
                if k.endswith('#'):
                    self.st[k + '!'] = ('t', k, self.nfresh)
                    self.assume(z3.And(self.st[k] >= 0, self.st[k] <= MAXCAP))
            elif isinstance(v, IterV):
                self.st[k] = IterV(v.c, self.fresh(k, I), v.tok, v.rev)
            elif k.endswith('!'):
                pass
            else:
                raise Unsupported(f'loop modifies non-SMT variable {k}')
        self.havoc_ranges(mods)
        if known:
            for k, f in invs(): self.assume(f)
        head = State(self.st)
        lc.head = head
        c = cond()
        lc.st = self.st
        taken = self.fork(c)
        if not taken:
            if spec and spec.ghost_exit: spec.ghost_exit(lc)
            return
        if spec and spec.drop: self.facts = [f for f in self.facts if not (z3.is_quantifier(f) and f.qid().startswith(spec.drop))]
        if spec and spec.ghost_iter: spec.ghost_iter(lc)
        m0 = None
        if spec and spec.decreases:
            lc.st = head
            m0 = spec.decreases(lc)
            m0 = m0 if isinstance(m0, (list, tuple)) else [m0]
        self.inloop.append(n)
        try:
            try:
                body()
            except _Continue:
                pass
            if inc: inc()
        except _Break:
            self.inloop.pop()
            self._upd_mods(mkey, mods, head, nroot0)
            lc.st = self.st
            return
        except (_Return, _Throw):
            self.inloop.pop()
            self._upd_mods(mkey, mods, head, nroot0)
            raise
        self.inloop.pop()
        self._upd_mods(mkey, mods, head, nroot0)
        if not self.mods_known(mkey):
            self.loop_known.add(mkey)
            raise Restart()
        lc.st = self.st
        lc.mods = sorted(mods)
        if spec and spec.ghost_end:
            spec.ghost_end(lc)
            self._upd_mods(mkey, mods, head, nroot0)         # ghost state changes too
            lc.st = self.st
        for k, f in invs(): self.oblige(f'{lname} preserved: {k}', f)
        if m0 is not None:
            lc.st = self.st
            m1 = spec.decreases(lc)
            m1 = m1 if isinstance(m1, (list, tuple)) else [m1]
            self.oblige(f'{lname} terminates', lex_less(m1, m0))
        raise PathEnd()
    def tkey(self): return len(self.stack)
    @property
    def loop_known(self):
        if not hasattr(self, '_lk') or self._lk[0] is not self.loop_mods: self._lk = (self.loop_mods, set())
        return self._lk[1]
    def mods_known(self, mkey): return mkey in self.loop_known
    def _upd_mods(self, mkey, mods, head, nroot0):
        new = set()
        for k, v in self.st.items():
            if k not in head: continue
            o = head[k]
            if v is o: continue
            if is_z(v) and is_z(o) and v.eq(o): continue
            if isinstance(v, IterV) and isinstance(o, IterV) and v.pos.eq(o.pos): continue
            if isinstance(v, PtrV) and isinstance(o, PtrV) and v.r.p == o.r.p and v.r.ix == o.r.ix: continue
            if k.endswith('!') and v == o: continue
            new.add(k)
        new = {k for k in new if not k.endswith('!')}
        if not new <= mods:
            mods |= new
            raise Restart()
    def havoc_ranges(self, mods):
        for k in mods:
            pass
    def incvar_of(self, n, env, rangeidx):
        if rangeidx is not None: return rangeidx
        if n.get('kind') == 'WhileStmt' or n.get('kind') == 'ForStmt' and not n['inner'][3]: return self.stepped(n['inner'][-1], env)
        if n.get('kind') != 'ForStmt': return None
        inc = n['inner'][3]
        while inc and inc.get('kind') in ('ExprWithCleanups', 'ParenExpr'): inc = inc['inner'][0]
        if inc and inc.get('kind') == 'BinaryOperator' and inc.get('opcode') == ',':        # ++i, ++it: the integer steps
            parts = []
            def flat(x):
                while x.get('kind') in ('ExprWithCleanups', 'ParenExpr'): x = x['inner'][0]
                if x.get('kind') == 'BinaryOperator' and x.get('opcode') == ',': flat(x['inner'][0]); flat(x['inner'][1])
                else: parts.append(x)
            flat(inc)
            ints = [x for x in parts if x.get('kind') in ('UnaryOperator', 'CompoundAssignOperator', 'BinaryOperator')]
            inc = ints[0] if len(ints) == 1 else None
        if not inc or not inc.get('inner'): return None
        e = inc['inner'][-1] if inc.get('kind') == 'CXXOperatorCallExpr' else inc['inner'][0]
        if e.get('kind') != 'DeclRefExpr': return None
        r = env.get(e['referencedDecl']['id'])
        return r.p if isinstance(r, Ref) and not r.ix else None
    def stepped(self, body, env):
        """the one local number that a statement of the body counts"""
        out = set()
        for x in body.get('inner', ()) if body.get('kind') == 'CompoundStmt' else (body,):
            while x and x.get('kind') in ('ExprWithCleanups', 'ParenExpr') and x.get('inner'): x = x['inner'][0]
            if not x or x.get('kind') not in ('UnaryOperator', 'CompoundAssignOperator') or x.get('opcode') not in ('++', '--', '+=', '-='): continue
            e = x['inner'][0]
            if e.get('kind') != 'DeclRefExpr': continue
            r = env.get(e['referencedDecl']['id'])
            if isinstance(r, Ref) and not r.ix: out.add(r.p)
        return out.pop() if len(out) == 1 else None
    def auto_inv(self, n, pre, mods, env):
        """bounds for counters that are initialised, compared with < <= != and only incremented"""
        out = []
        if n.get('kind') != 'ForStmt': return out
        inc = n['inner'][3]
        if not inc or inc.get('kind') != 'UnaryOperator' or inc.get('opcode') not in ('++', '--'): return out
        up = inc['opcode'] == '++'
        e = inc['inner'][0]
        if e.get('kind') != 'DeclRefExpr': return out
        r = env.get(e['referencedDecl']['id'])
        if not isinstance(r, Ref) or r.ix or r.p not in pre: return out
        v0 = pre[r.p]
        if not is_z(v0) or v0.sort() != I: return out
        if up: out.append(lambda: self.st[r.p] >= v0)
        else: out.append(lambda: self.st[r.p] <= v0)
        return out

    # ---------------------------------------------------------------- expressions
    def ev(self, n, env, this):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        return m(n, env, this)
    def rv(self, n, env, this):
        v = self.ev(n, env, this)
        if isinstance(v, Ref): v = self.load(v)
        return v
    def rv_copy(self, n, env, this): return self.rv(n, env, this)

    def _pass(self, n, env, this): return self.ev(n['inner'][0], env, this)
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = _pass
    symN = None               # (value of the template parameter in the instance under verification, its symbol)
    def e_SubstNonTypeTemplateParmExpr(self, n, env, this):
        v = self.ev(n['inner'][-1], env, this)
        if self.symN and z3.is_int_value(v) and v.as_long() == self.symN[0]: return self.symN[1]
        return v
    def e_MaterializeTemporaryExpr(self, n, env, this):
        v = self.ev(n['inner'][0], env, this)
        return v
    def e_IntegerLiteral(self, n, env, this): return iv(int(n['value']))
    def e_CharacterLiteral(self, n, env, this): return iv(int(n['value']))
    def e_FloatingLiteral(self, n, env, this): return z3.RealVal(str(n['value'])) if 'e' not in str(n['value']).lower() else z3.RealVal(repr(float(n['value'])))
    def e_CXXBoolLiteralExpr(self, n, env, this): return z3.BoolVal(bool(n['value']))
    def e_CXXNullPtrLiteralExpr(self, n, env, this): return iv(0)
    def e_GNUNullExpr(self, n, env, this): return iv(0)
    def e_StringLiteral(self, n, env, this): return Str(n.get('value', ''))
    def e_ImplicitValueInitExpr(self, n, env, this):
        t = clean(tstr(n))
        lay = self.types.layout(t)
        if len(lay) == 1 and lay[0][0] == '': return default_of(lay[0][1])
        return AggV({s: default_of(arrsort(so, ix)) for s, so, ix in lay})
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_CXXThisExpr(self, n, env, this): return PtrV(this)
    def e_PredefinedExpr(self, n, env, this): return Str('fn')
    def e_UnaryExprOrTypeTraitExpr(self, n, env, this):
        return self.fresh('sizeof', I)
    def e_CXXDefaultArgExpr(self, n, env, this):
        inner = [x for x in n.get('inner', ()) if x]
        if inner: return self.ev(inner[0], env, this)
        raise Unsupported('default argument')
    def e_CXXThrowExpr(self, n, env, this): raise _Throw('throw')

    def e_DeclRefExpr(self, n, env, this):
        d = n['referencedDecl']
        did = d['id']
        if did in env: return env[did]
        for fn, e2, t2 in reversed(self.stack):
            if did in e2: return e2[did]
        g = self.ast.by_id.get(did)
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return ('fn', d)
        if d['kind'] == 'VarDecl' and g is not None:
            init = [x for x in g.get('inner', ()) if 'kind' in x and not x['kind'].endswith('Attr')]
            if init:
                v = self.rv(init[-1], {}, None)
                if d['name'] in ('botsink_index', 'topsink_index') and is_z(v) and v.sort() == R:
                    v = z3.ToInt(v)
                return self.materialize(v, d['name'])
            q = self.ast.qname.get(did)
        if d['kind'] == 'VarDecl':
            v = self.stdm.global_value(self, d, n)
            if v is not None: return v
        raise Unsupported(f"reference to {d.get('kind')} {d.get('name')}")

    def e_MemberExpr(self, n, env, this):
        name = n.get('name', '')
        b = self.ev(n['inner'][0], env, this)
        mid = n.get('referencedMemberDecl')
        md = self.ast.by_id.get(mid)
        if md is not None and md.get('kind') in fe.FUNK or 'bound member function' in n['type'].get('qualType', ''):
            return ('meth', name, mid, b, n)
        if md is not None and md.get('kind') == 'VarDecl':
            return self.e_DeclRefExpr({'kind': 'DeclRefExpr', 'referencedDecl': {'id': mid, 'kind': 'VarDecl', 'name': name}, 'type': n['type']}, env, this)
        if n.get('isArrow'):
            if isinstance(b, Ref): b = self.load(b)
            b = self.deref(b, n['inner'][0])
        if isinstance(b, MapEntry):
            if name == 'second': return self.entry_second(b)
            if name == 'first': return self.key_ref(b)
        if not name:           # anonymous union
            return b
        if not isinstance(b, Ref):
            if isinstance(b, AggV): b = self.materialize(b)
            else: raise Unsupported(f'member {name} of {type(b).__name__}')
        if name == 'first': name = '0' if (b.p + '.0') in self.st or self.leaves(b.p + '.0') else name
        if name == 'second': name = '1' if (b.p + '.1') in self.st or self.leaves(b.p + '.1') else name
        nm = self.types.canon_field(mid, name)
        if b.p == 'PAGE':     # union of slots and free-list link: the link overlays slot 0
            if name == 'data': return Ref('PGROW', b.ix)
            return Ref('PGL[]', b.ix)
        if b.p == 'NPAGE':
            if name == 'data': return Ref('NPDATA', b.ix)
            return Ref('NP[].next', b.ix)
        p = b.p + '.' + nm
        if md is not None and tstr(md).endswith('&'):
            rc = self.refconst(p)
            if rc is not None: return rc
            v = self.st.get(p)
            if isinstance(v, Ref): return v
            raise Unsupported('reference member ' + p)
        return Ref(p, b.ix, b.gen)

    def deref(self, v, n=None):
        """object a pointer refers to"""
        if isinstance(v, PtrV): return v.r
        if isinstance(v, Ref): v = self.load(v)
        if isinstance(v, PtrV): return v.r
        if isinstance(v, (IterV, MapIter)): return self.stdm.iter_deref(self, v)
        if is_z(v):
            t = clean(tstr(n)) if n is not None else ''
            if t.endswith('*'): t = t[:-1].strip()
            if t in ('node', 'node_struct', 'BDD::node_struct', 'value_type', 'element_type') or t == '':
                self.deref_node(v)
                return Ref('H[]', (v,))
            if t == 'bdd_mgr':
                self.oblige('pointer denotes the manager', v == z3.Int('MGRADDR'))
                return Ref('M')
            if t.startswith('unique_table_page<'):
                return Ref('PAGE', (v,))
            if t.startswith('bdd_node_page') or t.startswith('std::unique_ptr<bdd_node_page'):
                return Ref('NPAGE', (v,))
            if t.endswith('*'):      # node**
                return Ref('PG[]', (v,))
            if t.startswith('pointer') or t.startswith('std::unique_ptr'):
                return Ref('NPAGE', (v,))
            raise Unsupported('dereference of ' + t)
        raise Unsupported(f'dereference of {type(v).__name__}')
    def deref_node(self, v):
        k = v.get_id()
        if k in self.derefd: return
        self.derefd.add(k); self.keep.append(v)
        al = self.st.get('G.alloc')
        if al is not None:
            self.oblige('pointer dereferenced is a node', z3.Select(al, v))

    # casts
    def e_ImplicitCastExpr(self, n, env, this): return self.cast(n, env, this)
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr
    def cast(self, n, env, this):
        ck = n.get('castKind')
        sub = n['inner'][-1]
        if ck == 'ToVoid':
            self.ev(sub, env, this); return VOID
        v = self.ev(sub, env, this)
        if ck == 'LValueToRValue':
            if isinstance(v, Ref):
                r = v
                v = self.load(v)
                if is_z(v) and v.sort() == I:
                    bits = None
                    if sub.get('kind') == 'MemberExpr':
                        md = self.ast.by_id.get(sub.get('referencedMemberDecl'))
                        if md is not None and md.get('isBitfield'): bits = self.types.bits(md)
                    self.range_fact(v, tstr(n), bits)
                    if r.p == 'H[].xref' and not getattr(self.contract, 'raw_handles', False):
                        v = v + z3.Select(self.st['G.hc'], r.ix[0])
            return v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase', None):
            return v
        if isinstance(v, Ref): v = self.load(v)
        if ck == 'IntegralCast':
            v = self.int_of(v)
            if clean(tstr(n)) == 'bool': return v != 0
            return self.cast_int(v, tstr(n))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'): return self.bool_of(v)
        if ck == 'IntegralToFloating': return z3.ToReal(self.int_of(v))
        if ck == 'FloatingToIntegral':
            s = z3.simplify(v)
            return z3.simplify(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
        if ck == 'FloatingCast': return v
        if ck in ('NullToPointer',): return iv(0)
        if ck == 'BitCast':
            return v
        if ck == 'PointerToIntegral':
            if isinstance(v, PtrV) and v.r.p == 'H[]' and v.r.ix: v = self.ptr_to_int(v)
            if is_z(v):
                r = ptr2int(v); self.range_fact(r, 'unsigned long'); return r
            return self.fresh('ptr', I)
        if ck == 'ConstructorConversion': return v
        raise Unsupported('cast ' + str(ck))

    # operators
    def e_UnaryOperator(self, n, env, this):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '!':
            return z3.Not(self.bool_of(self.rv(sub, env, this)))
        if op == '*':
            v = self.rv(sub, env, this)
            if isinstance(v, ('x'.__class__,)): raise Unsupported('deref')
            return self.deref(v, sub)
        if op == '&':
            v = self.ev(sub, env, this)
            return self.addrof(v)
        if op in ('++', '--'):
            r = self.ev(sub, env, this)
            v = self.load(r)
            if isinstance(v, IterV):
                new = IterV(v.c, v.pos + (1 if op == '++' else -1), v.tok, v.rev)
            else:
                if is_z(v) and v.sort() == I: self.range_fact(v, tstr(sub))
                new = self.arith(v + (1 if op == '++' else -1), tstr(sub))
            self.store(r, new)
            if isinstance(r, Ref) and r.p == 'H[].xref' and n.get('isPostfix') and not getattr(self.contract, 'raw_handles', False): return v + z3.Select(self.st['G.hc'], r.ix[0])
            return v if n.get('isPostfix') else r
        v = self.rv(sub, env, this)
        if op == '-': return self.arith(-self.int_of(v), tstr(n)) if v.sort() != R else -v
        if op == '+': return v
        if op == '~':
            w = inttype(tstr(n))
            v = self.int_of(v)
            return iv(2 ** w[0] - 1) - v if not w[1] else -v - 1
        raise Unsupported('unary ' + op)
    def addrof(self, v):
        if isinstance(v, Ref):
            if v.p == 'H[]' : return v.ix[0]
            if v.p == 'NPDATA[]': return v.ix[0] + v.ix[1]
            if v.p == 'PAGE': return v.ix[0]
            return PtrV(v)
        raise Unsupported('address of ' + type(v).__name__)

    def e_BinaryOperator(self, n, env, this):
        op = n['opcode']
        L, Rn = n['inner']
        if op == ',':
            self.ev(L, env, this); return self.ev(Rn, env, this)
        if op == '=':
            if clean(tstr(L)).endswith('node_ref'): pass
            v = self.rv(Rn, env, this)
            r = self.ev(L, env, this)
            v = self.fit(L, v)
            self.store_any(r, v)
            return r
        if op in ('&&', '||'):
            l = self.bool_of(self.rv(L, env, this))
            ls = z3.simplify(l)
            if op == '&&' and z3.is_false(ls): return z3.BoolVal(False)
            if op == '||' and z3.is_true(ls): return z3.BoolVal(True)
            g = l if op == '&&' else z3.Not(l)
            r = self.guarded(g, lambda: self.bool_of(self.rv(Rn, env, this)))
            return z3.And(l, r) if op == '&&' else z3.Or(l, r)
        l, r = self.rv(L, env, this), self.rv(Rn, env, this)
        return self.binop(op, l, r, n, L, Rn)
    def fit(self, L, v):
        """value stored into the bit-field or integer object L"""
        if is_z(v):
            t = tstr(L)
            if v.sort() == B and clean(t) != 'bool' and inttype(t): v = self.int_of(v)
            if L.get('kind') == 'MemberExpr':
                md = self.ast.by_id.get(L.get('referencedMemberDecl'))
                if md is not None and md.get('isBitfield'):
                    b = self.types.bits(md)
                    if not self.entails(z3.And(v >= 0, v < 2 ** b)): v = v % (2 ** b)
        return v
    def store_any(self, r, v):
        if isinstance(r, Ref):
            if r.p == 'H[].xref' and is_z(v) and not getattr(self.contract, 'raw_handles', False):
                v = v - z3.Select(self.st['G.hc'], r.ix[0])      # the column counts arcs only; handles are counted by G.hc
            if not r.ix and not is_z(v) and not isinstance(v, AggV):
                if r.p in self.st and is_z(self.st[r.p]) and isinstance(v, PtrV):
                    return self.store(r, v)
                self.st[r.p] = v; return
            return self.store(r, v)
        raise Unsupported('assignment to ' + type(r).__name__)
    def guarded(self, g, f):
        """evaluate f under the assumption g; effects are merged"""
        st0 = State(self.st)
        nf = len(self.facts)
        self.facts.append(g); self.keep.append(g)
        v = f()
        new = self.facts[nf + 1:]
        del self.facts[nf:]
        for x in new: self.assume(z3.Implies(g, x))
        for k, o in st0.items():
            w = self.st.get(k)
            if w is o: continue
            if is_z(w) and is_z(o):
                if not w.eq(o): self.st[k] = z3.If(g, w, o)
            elif k.endswith('!'): pass
            elif w != o: raise Unsupported('effect in short-circuit operand')
        return v
    def binop(self, op, l, r, n, L=None, Rn=None):
        if isinstance(l, (IterV, MapIter)) or isinstance(r, (IterV, MapIter)):
            return self.stdm.iter_binop(self, op, l, r)
        if isinstance(l, PtrV) or isinstance(r, PtrV):
            return self.ptr_binop(op, l, r)
        if isinstance(l, AggV) or isinstance(r, AggV): raise Unsupported('operator on aggregates')
        if not (is_z(l) and is_z(r)): raise Unsupported(f'operator {op} on {type(l).__name__},{type(r).__name__}')
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if l.sort() != r.sort():
                if R in (l.sort(), r.sort()):
                    l = z3.ToReal(self.int_of(l)) if l.sort() != R else l
                    r = z3.ToReal(self.int_of(r)) if r.sort() != R else r
                else: l, r = self.int_of(l), self.int_of(r)
            if op == '==': return l == r
            if op == '!=': return l != r
            l, r = self.int_of(l), self.int_of(r)
            if l.sort() == R:
                if l.decl().kind() == z3.Z3_OP_DIV and self.entails(l.arg(1) > 0): l, r = l.arg(0), r * l.arg(1)
                elif r.decl().kind() == z3.Z3_OP_DIV and self.entails(r.arg(1) > 0): l, r = l * r.arg(1), r.arg(0)
            return {'<': l < r, '<=': l <= r, '>': l > r, '>=': l >= r}[op]
        l, r = self.int_of(l), self.int_of(r)
        t = tstr(n)
        if l.sort() == R or r.sort() == R:
            l = z3.ToReal(l) if l.sort() != R else l
            r = z3.ToReal(r) if r.sort() != R else r
            if op == '/':
                self.oblige('division by zero', r != 0)
                return l / r
            return {'+': l + r, '-': l - r, '*': l * r}[op]
        lt = clean(tstr(L)) if L is not None else ''
        if lt.endswith('*') and op in ('+', '-'):
            return l + r if op == '+' else l - r
        if op == '+': return self.arith(l + r, t)
        if op == '-': return self.arith(l - r, t)
        if op == '*': return self.arith(l * r, t)
        if op == '/':
            self.oblige('division by zero', r != 0)
            if self.entails(z3.And(l >= 0, r > 0)): return l / r
            q = z3.If(l >= 0, l, -l) / z3.If(r >= 0, r, -r)
            return z3.If((l >= 0) == (r >= 0), q, -q)
        if op == '%':
            self.oblige('division by zero', r != 0)
            if self.entails(z3.And(l >= 0, r > 0)): return l % r
            m = z3.If(l >= 0, l, -l) % z3.If(r >= 0, r, -r)
            return z3.If(l >= 0, m, -m)
        if op in ('&', '|', '^', '<<', '>>'):
            ls, rs = z3.simplify(l), z3.simplify(r)
            if z3.is_int_value(ls) and z3.is_int_value(rs):
                a, b = ls.as_long(), rs.as_long()
                return self.arith(iv({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op]), t)
            if op == '<<' and z3.is_int_value(rs): return self.arith(l * (2 ** rs.as_long()), t)
            if op == '>>' and z3.is_int_value(rs): return l / (2 ** rs.as_long())
            if op == '&': return self.stdm.bit_and(self, l, r)
            if op == '^': return self.stdm.bit_xor(self, l, r)
        raise Unsupported('operator ' + op)
    def ptr_binop(self, op, l, r):
        if isinstance(l, PtrV) and isinstance(r, PtrV):
            a, b = l.r, r.r
            if a.p != b.p:
                if op == '==': return z3.BoolVal(False)
                if op == '!=': return z3.BoolVal(True)
                raise Unsupported('pointer comparison')
            if not a.ix:
                eq, lt = z3.BoolVal(True), z3.BoolVal(False)
            else:
                eq = z3.And(*[x == y for x, y in zip(a.ix, b.ix)])
                lt = a.ix[-1] < b.ix[-1]
            gt = z3.And(z3.Not(eq), z3.Not(lt))
            return {'==': eq, '!=': z3.Not(eq), '<': lt, '<=': z3.Or(lt, eq), '>': gt, '>=': z3.Or(gt, eq)}[op]
        p, o = (l, r) if isinstance(l, PtrV) else (r, l)
        if is_z(o) and z3.is_int_value(z3.simplify(o)) and z3.simplify(o).as_long() == 0:
            return z3.BoolVal(op == '!=')
        if p.r.p == 'M':
            e = z3.Int('MGRADDR') == o
            return e if op == '==' else z3.Not(e)
        raise Unsupported('pointer operation')
    def e_CompoundAssignOperator(self, n, env, this):
        op = n['opcode'][:-1]
        L, Rn = n['inner']
        r = self.rv(Rn, env, this)
        ref = self.ev(L, env, this)
        l = self.load(ref)
        if isinstance(ref, Ref) and ref.p == 'H[].xref' and not getattr(self.contract, 'raw_handles', False): l = l + z3.Select(self.st['G.hc'], ref.ix[0])
        if is_z(l) and l.sort() == I: self.range_fact(l, tstr(L))
        v = self.binop(op, l, r, n, L, Rn)
        if is_z(v) and v.sort() == I: v = self.cast_int(v, tstr(L))
        self.store_any(ref, self.fit(L, v))
        return ref
    def e_ConditionalOperator(self, n, env, this):
        c, a, b = n['inner']
        fail = find_assert_fail(b)
        if fail is not None and tstr(n) == 'void':
            # assert(cond)
            cv = self.bool_of(self.rv(c, env, this))
            self.oblige_assume('assert(%s)' % fail, cv)
            if z3.is_false(z3.simplify(cv)): raise PathEnd()
            return VOID
        cv = z3.simplify(self.bool_of(self.rv(c, env, this)))
        if z3.is_true(cv): return self.ev(a, env, this)
        if z3.is_false(cv): return self.ev(b, env, this)
        if self.pure(a) and self.pure(b):
            va = self.guarded(cv, lambda: self.ev(a, env, this))
            vb = self.guarded(z3.Not(cv), lambda: self.ev(b, env, this))
            lv = n.get('valueCategory') in ('lvalue', 'xvalue')
            if isinstance(va, Ref) and isinstance(vb, Ref) and va.p == vb.p and len(va.ix) == len(vb.ix) and va.gen == vb.gen:
                return Ref(va.p, [z3.If(cv, x, y) for x, y in zip(va.ix, vb.ix)], va.gen)
            if not lv:
                if isinstance(va, Ref): va = self.load(va)
                if isinstance(vb, Ref): vb = self.load(vb)
                m = merge(cv, va, vb, self)
                if m is not None: return m
        return self.ev(a, env, this) if self.fork(cv) else self.ev(b, env, this)
    def pure(self, n):
        """no loops/throws inside: evaluation under a guard is possible"""
        st = [n]
        while st:
            x = st.pop()
            if not isinstance(x, dict): continue
            k = x.get('kind')
            if k in ('CXXThrowExpr', 'LambdaExpr', 'CXXNewExpr', 'CXXDeleteExpr'): return False
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                f = self.callee_decl(x)
                if f is None:
                    nm = callee_name(x)
                    if nm in ('low', 'high'): pass
                    if nm in self.stdm.PURE: pass
                    else: return False
                else:
                    ct = self.contract_of(f)
                    if ct is not None:
                        if ct.may_throw or ct.modifies: return False
                    else:
                        nm = f.get('name')
                        if nm not in ('low', 'high', 'lo', 'hi', 'address', 'variable', 'is_terminal', 'is_botsink', 'is_topsink', 'topsink', 'botsink', 'node_ref', 'dead', 'marked'): return False
            st.extend(x.get('inner', ()))
        return True
    def callee_decl(self, x):
        c = x['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c.get('kind') == 'MemberExpr': return self.ast.definition(c.get('referencedMemberDecl'))
        if c.get('kind') == 'DeclRefExpr': return self.ast.definition(c['referencedDecl']['id'])
        return None

    def e_ArraySubscriptExpr(self, n, env, this):
        b = self.rv(n['inner'][0], env, this)
        i = self.int_of(self.rv(n['inner'][1], env, this))
        t = clean(tstr(n['inner'][0]))
        if is_z(b) and (t.startswith('unique_table_page')):
            return Ref('PAGE', (b + i,))
        if is_z(b) and t.endswith('**') or (is_z(b) and t.endswith('* *')):
            self.page_bounds(b, i)
            return Ref('PG[][]', (b, i))
        if is_z(b):
            self.deref_node(b + i)
            return Ref('H[]', (b + i,))
        raise Unsupported('subscript of ' + t)
    def array_extent(self, txt):
        m = re.match(r'\d+', txt.strip())
        if m:
            k = int(m.group(0))
            return self.symN[1] if self.symN and self.symN[0] == k else iv(k)
        raise Unsupported('array extent ' + txt)
    def arrkey(self, a): return a
    def rand_bits(self):
        return 64
    def node_page_len(self):
        r = self.types.rec['bdd_node_page']
        for f in self.types.fields(r):
            if f['name'] == 'data': return int(re.match(r'\d+', targs(clean(tstr(f)))[1]).group(0))
    def page_write(self, b):
        a = self.st.get('PGL[]')
        if a is not None:
            nm = self.fresh('PGL[]', a.sort())
            self.assume(nm == z3.Store(a, b, self.fresh('garbage', I)))
            self.st['PGL[]'] = nm
    def page_bounds(self, b, i):
        cap = self.st.get('G.pgcap')
        if cap is not None:
            self.oblige('page index within the page in use', z3.And(i >= 0, i < z3.Select(cap, b), z3.Select(self.st['G.pgown'], b) == -1))

    # calls
    def e_CallExpr(self, n, env, this):
        inner = n['inner']
        f = self.ev(inner[0], env, this)
        if isinstance(f, Ref): f = self.load(f)
        if isinstance(f, tuple) and f[0] == 'fn':
            d = f[1]
            fn = self.ast.definition(d['id'])
            if fn is not None:
                return self.call(fn, None, [self.arg(d['id'], i, a, env, this) for i, a in enumerate(inner[1:])])
            return self.stdm.call(self, d['name'], n, inner[1:], env, this)
        if isinstance(f, Closure):
            return self.call_closure(f, [self.ev(a, env, this) for a in inner[1:]])
        if isinstance(f, tuple) and f[0] == 'meth':
            return self.method(f, inner[1:], n, env, this)
        raise Unsupported('call')
    def call_closure(self, f, args):
        op = None
        for c in f.node['inner'][0].get('inner', ()):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': op = c
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                ms = [x for x in c['inner'] if x.get('kind') == 'CXXMethodDecl' and fe.body_of(x) is not None]
                if ms: op = ms[-1]
        if op is None or fe.body_of(op) is None: raise Unsupported('lambda body')
        env2 = {}
        self.bind_params(op, args, env2)
        for k, v in f.over.items(): env2.setdefault(k, v)
        env3 = dict(f.env); env3.update(env2)
        self.depth += 1
        self.stack.append((op, env3, f.this))
        try:
            try:
                self.stmt(fe.body_of(op), env3, f.this)
                return VOID
            except _Return as r:
                return r.v
        finally:
            self.stack.pop(); self.depth -= 1
    def e_LambdaExpr(self, n, env, this):
        rec = n['inner'][0]
        fields = [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        caps = [x for x in n['inner'][1:] if x and x.get('kind') != 'CompoundStmt']
        over = {}
        for f, c in zip(fields, caps):
            t = f['type']['qualType']
            if t.endswith('&') or t.endswith('*'): continue
            v = self.ev(c, env, this)
            d = c
            while d.get('kind') != 'DeclRefExpr' and d.get('inner'): d = d['inner'][0]
            if d.get('kind') == 'DeclRefExpr':
                over[d['referencedDecl']['id']] = self.new_local('cap', v)
        # visible environment: all frames
        e = {}
        for fn, e2, t2 in self.stack: e.update(e2)
        e.update(env)
        return Closure(n, LiveEnv(e, env), this, over)
    def e_CXXMemberCallExpr(self, n, env, this):
        f = self.ev(n['inner'][0], env, this)
        return self.method(f, n['inner'][1:], n, env, this)
    def method(self, f, argn, n, env, this):
        _, name, mid, b, me = f
        fn = self.ast.definition(mid)
        if me.get('isArrow') and not isinstance(b, (IterV, MapIter)):
            if isinstance(b, Ref): b = self.load(b)
            obj = self.deref(b, me['inner'][0])
        else:
            obj = b
        if fn is not None:
            if not isinstance(obj, Ref): obj = self.materialize(obj)
            args = [self.arg(mid, i, a, env, this) for i, a in enumerate(argn)]
            return self.call(fn, obj, args)
        return self.stdm.method(self, name, obj, argn, n, me, env, this)
    def arg(self, did, i, a, env, this):
        """argument i of a call; default arguments are found at the declarations"""
        if a.get('kind') != 'CXXDefaultArgExpr' or any(a.get('inner', ())): return self.ev(a, env, this)
        while did:
            d = self.ast.by_id.get(did, {})
            ps = [x for x in d.get('inner', ()) if x.get('kind') == 'ParmVarDecl']
            ini = [x for x in ps[i].get('inner', ()) if x.get('kind', '').endswith(('Expr', 'Literal'))] if i < len(ps) else []
            if ini: return self.ev(ini[0], {}, this)
            did = d.get('previousDecl')
        raise Unsupported('default argument')
    def e_CXXOperatorCallExpr(self, n, env, this):
        inner = n['inner']
        c = inner[0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        d = c['referencedDecl']
        fn = self.ast.definition(d['id'])
        if fn is not None:
            nm = fn.get('name')
            if nm == 'operator()':
                f = self.ev(inner[1], env, this)
                if isinstance(f, Ref): f = self.load(f)
                if isinstance(f, Closure):
                    return self.call_closure(f, [self.ev(a, env, this) for a in inner[2:]])
            args = [self.ev(a, env, this) for a in inner[1:]]
            if fn['kind'] == 'CXXMethodDecl':
                obj = args[0]
                if not isinstance(obj, Ref): obj = self.materialize(obj)
                if nm == 'operator=' and self.is_handle(obj) and not getattr(self.contract, 'raw_handles', False):
                    self.store(obj, args[1]); return obj
                return self.call(fn, obj, args[1:])
            return self.call(fn, None, args)
        if d['name'] == 'operator()':
            f = self.ev(inner[1], env, this)
            if isinstance(f, Ref): f = self.load(f)
            if isinstance(f, Closure):
                return self.call_closure(f, [self.ev(a, env, this) for a in inner[2:]])
            return self.stdm.call_operator(self, f, n, [self.ev(a, env, this) for a in inner[2:]])
        return self.stdm.operator(self, d['name'], n, inner[1:], env, this)
    def is_handle(self, obj):
        return isinstance(obj, Ref) and (obj.p + '.ref') in self.st
    def e_CXXConstructExpr(self, n, env, this):
        self.no_raw_handle(tstr(n))
        if self.is_copy_ctor(n):
            inner = [x for x in n['inner'] if x]
            v = self.ev(inner[0], env, this)
            if isinstance(v, Ref): v = self.load(v)
            return v
        root = self.newroot('tmp')
        t = clean(tstr(n))
        self.construct(Ref(root), t, n, env, this)
        if root in self.uptrs: self.uptrs.remove(root)      # the value is moved into its object
        return self.load(Ref(root))
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def e_InitListExpr(self, n, env, this):
        t = clean(tstr(n))
        inner = [x for x in n.get('inner', ()) if x]
        r = self.types.rec.get(t)
        base = t.split('<')[0].replace('std::', '')
        if base == 'array':
            # {{a,b,...}}
            while len(inner) == 1 and inner[0].get('kind') == 'InitListExpr': inner = [x for x in inner[0].get('inner', ()) if x]
            arr = z3.K(I, iv(0))
            for i, x in enumerate(inner): arr = z3.Store(arr, i, self.int_of(self.rv(x, env, this)))
            return AggV({'[]': arr})
        if r is not None:
            d = {}
            for f, x in zip(self.types.fields(r), inner):
                v = self.rv(x, env, this)
                nm = '.' + self.types.canon_field(f['id'], f['name'])
                if isinstance(v, AggV):
                    for s, y in v.d.items(): d[nm + s] = y
                else: d[nm] = v
            return AggV(d)
        if len(inner) == 1: return self.rv(inner[0], env, this)
        if not inner: return self.e_ImplicitValueInitExpr(n, env, this)
        raise Unsupported('initialiser list of ' + t)
    def e_CXXStdInitializerListExpr(self, n, env, this):
        raise Unsupported('initializer_list')
    def init_list(self, n, env, this):
        """values of a braced list that is passed as std::initializer_list, None if n is something else"""
        while n.get('kind') in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXStdInitializerListExpr') and len(n.get('inner', ())) == 1:
            if n['kind'] == 'CXXStdInitializerListExpr':
                m = n['inner'][0]
                while m.get('kind') in ('MaterializeTemporaryExpr', 'ImplicitCastExpr') and len(m.get('inner', ())) == 1: m = m['inner'][0]
                if m.get('kind') != 'InitListExpr': return None
                return [self.rv(x, env, this) for x in m.get('inner', ())]
            n = n['inner'][0]
        return None
    def e_CXXNewExpr(self, n, env, this): return self.stdm.new(self, n, env, this)
    def e_CXXDeleteExpr(self, n, env, this): return self.stdm.delete(self, n, env, this)
    def e_CXXDefaultInitExpr(self, n, env, this): raise Unsupported('default init')

class LiveEnv(dict):
    """closure environment: sees later changes of the enclosing frame's bindings"""
    def __init__(self, base, live):
        dict.__init__(self, base); self.live = live
    def __contains__(self, k): return k in self.live or dict.__contains__(self, k)
    def __getitem__(self, k):
        if k in self.live: return self.live[k]
        return dict.__getitem__(self, k)

REFCONST = [
    (r'M\.vars\[\]\.bdd_mgr_', Ref('M')),
    (r'M\.memo_\.node_cache', Ref('M.node_cache_')),
]

def norm_t(t):
    t = clean(t)
    t = t.replace('unsigned long', 'size_t').replace('std::size_t', 'size_t').replace('node_struct', 'node')
    return t.replace(' ', '')

def callee_name(x):
    c = x['inner'][0]
    while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
    if c.get('kind') == 'MemberExpr': return c.get('name')
    if c.get('kind') == 'DeclRefExpr': return c['referencedDecl'].get('name')

def find_assert_fail(n):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict): continue
        if x.get('kind') == 'CallExpr' and callee_name(x) in ('__assert_fail', '__assert', '__assert_rtn'):
            a = x['inner'][1]
            while a.get('kind') != 'StringLiteral' and a.get('inner'): a = a['inner'][0]
            return a.get('value', '').strip('"')
        if x.get('kind') in ('ConditionalOperator',): continue
        st.extend(x.get('inner', ()))
    return None

def merge(c, a, b, ex=None):
    if is_z(a) and is_z(b):
        if a.sort() != b.sort():
            if ex is None: return None
            a, b = ex.int_of(a), ex.int_of(b)
            if a.sort() != b.sort(): return None
        return a if a.eq(b) else z3.If(c, a, b)
    if isinstance(a, AggV) and isinstance(b, AggV) and set(a.d) == set(b.d):
        d = {}
        for k in a.d:
            m = merge(c, a.d[k], b.d[k], ex)
            if m is None: return None
            d[k] = m
        return AggV(d)
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.r.p == b.r.p and len(a.r.ix) == len(b.r.ix):
        return PtrV(Ref(a.r.p, [z3.If(c, x, y) for x, y in zip(a.r.ix, b.r.ix)], a.r.gen))
    return None

def lex_less(m1, m0):
    f = z3.BoolVal(False)
    for a, b in reversed(list(zip(m1, m0))):
        f = z3.Or(z3.And(a >= 0, a < b), z3.And(a == b, f)) if not z3.is_false(z3.simplify(f)) else z3.And(b >= 0, a < b, a >= 0)
    return f

_qcache = {}
def _has_quant(f):
    i = f.get_id()
    r = _qcache.get(i)          # entries keep their term alive: ids of dead terms are used again
    if r is None:
        r = _qcache[i] = (z3.is_quantifier(f) or any(_has_quant(c) for c in f.children()), f)
    return r[0]
_sym = {}
def syms(f):
    i = f.get_id()
    r = _sym.get(i)
    if r is not None: return r[0]
    else:
        r = set()
        st, seen = [f], set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(x.decl().name())
            elif z3.is_quantifier(x): st.append(x.body())
            st.extend(x.children())
        _sym[i] = (r, f)
    return r
def relevant(fs, g, rounds=3):
    want = set(syms(g))
    chosen, rest = [], list(fs)
    for _ in range(rounds):
        nxt = []
        for f in rest:
            if syms(f) & want: chosen.append(f)
            else: nxt.append(f)
        new = set()
        for f in chosen: new |= syms(f)
        if new <= want: break
        want |= new
        rest = nxt
    return chosen
