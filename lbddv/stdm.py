"""Models of the parts of the C++ standard library the sources use (trusted; see DESIGN.md).

vector/deque: prefix+'#' size, prefix+'[]'+suffix columns (deque: absolute positions, '@' is the head)
unordered_map/set: prefix+'?' domain, prefix+'{}'+suffix values; keys are SMT terms, see mkkey.
"""
import re
import z3
from . import sx as S
from .sx import (I, B, R, iv, is_z, Ref, AggV, IterV, MapIter, MapEntry, PtrV, Closure, Opaque, Str, VOID,
                 Unsupported, clean, targs, tstr, inttype, default_of, arrsort, MAXCAP, K3, AII, sel)

PURE = {'size', 'begin', 'end', 'min', 'max', 'count', 'distance', 'get', 'front', 'back', 'pow', 'empty',
        'operator[]', 'operator==', 'operator!=', 'operator*', 'operator+', 'operator-', 'find', 'operator->', 'prev', 'next'}

def base_t(t):
    return clean(t).split('<')[0].replace('std::', '').replace('__cxx11::', '')

# ------------------------------------------------------------------ helpers
def is_vec(ex, r): return isinstance(r, Ref) and (r.p + '#') in ex.st
def is_deque(ex, r): return (r.p + '@') in ex.st
def is_map(ex, r): return isinstance(r, Ref) and (r.p + '?') in ex.st
def vsize(ex, r): return ex.load(Ref(r.p + '#', r.ix))
def head(ex, r): return ex.load(Ref(r.p + '@', r.ix)) if is_deque(ex, r) else iv(0)
def set_size(ex, r, n): ex.store(Ref(r.p + '#', r.ix), n)
def tok(ex, r): return ex.st.get(r.p + '#!')
def elem(ex, r, i, check=True):
    if check: ex.oblige('index within the container', z3.And(i >= 0, i < vsize(ex, r)))
    t = tok(ex, r)
    if r.p + '&!' in ex.st: return Ref(ex.st[r.p + '&!'] + '[].ref', (i,))       # shares the elements of another vector
    return Ref(r.p + '[]', r.ix + (z3.simplify(head(ex, r) + i) if is_deque(ex, r) else i,), r.gen + (((r.p, t),) if t is not None else ()))
def cols(ex, r): return [k for k in ex.st if k.startswith(r.p + '[]') and not k.endswith('!')]

def array_len(ex, t):
    t = clean(t)
    if base_t(t) == 'array':
        return ex.array_extent(targs(t)[1])
    return None

def mkkey(ex, v):
    if isinstance(v, Ref): v = ex.load(v)
    if is_z(v):
        return ex.int_of(v)
    if isinstance(v, AggV):
        d = v.d
        if list(d) == ['.ref']: return d['.ref']
        if list(d) == ['[]']: return ex.arrkey(d['[]'])
        if set(d) == {'.lo', '.hi', '.index'}: return K3.k3(d['.lo'], d['.hi'], d['.index'])
    if isinstance(v, PtrV): return ex.ptr_to_int(v)
    raise Unsupported('map key value')
def unkey(ex, key):
    if key.sort() == I: return key
    if key.sort() == K3: return AggV({'.lo': K3.k0(key), '.hi': K3.k1(key), '.index': K3.k2(key)})
    if key.sort() == AII: return AggV({'[]': key})
    raise Unsupported('unkey')

def key_from_node(ex, n, env, this, mapref):
    """a key given by an expression; braces are typed by the map"""
    v = ex.rv(n, env, this)
    return mkkey(ex, v)

# ------------------------------------------------------------------ strings and streams
# A string, and what has been written to a stream, is a number that names a sequence of pieces: 0 is empty, O_L(t, c) is t followed by the
# text with code c, O_N(t, n) is t followed by the decimal digits of n, O_S(t, s) is t followed by the string s. Adjacent texts are joined,
# so that the same characters written by different statements get the same name. (Streams with default formatting.)
O_L, O_N, O_S = z3.Function('O_L', I, I, I), z3.Function('O_N', I, I, I), z3.Function('O_S', I, I, I)
TEXTS = {}
def code(t):
    import hashlib
    c = int(hashlib.sha1(t.encode()).hexdigest()[:12], 16)
    if TEXTS.setdefault(c, t) != t: raise Unsupported('texts with the same code')
    return iv(c)
def isapp(t, f): return z3.is_app(t) and t.decl().eq(f)
def isite(t): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE
def o_text(t, x):
    if x == '': return t
    if isite(t): return z3.If(t.arg(0), o_text(t.arg(1), x), o_text(t.arg(2), x))
    if isapp(t, O_L): return O_L(t.arg(0), code(TEXTS[t.arg(1).as_long()] + x))
    return O_L(t, code(x))
def o_num(t, n):
    if isite(t): return z3.If(t.arg(0), o_num(t.arg(1), n), o_num(t.arg(2), n))
    if isite(n): return z3.If(n.arg(0), o_num(t, n.arg(1)), o_num(t, n.arg(2)))
    if z3.is_int_value(n): return o_text(t, str(n.as_long()))
    return O_N(t, n)
def o_str(t, s):
    if isite(s): return z3.If(s.arg(0), o_str(t, s.arg(1)), o_str(t, s.arg(2)))
    if z3.is_int_value(s) and s.as_long() == 0: return t
    if isapp(s, O_L): return o_text(o_str(t, s.arg(0)), TEXTS[s.arg(1).as_long()])
    if isapp(s, O_N): return o_num(o_str(t, s.arg(0)), s.arg(1))
    if isapp(s, O_S): return o_str(o_str(t, s.arg(0)), s.arg(1))
    if z3.is_int_value(t) and t.as_long() == 0: return s
    if isite(t): return z3.If(t.arg(0), o_str(t.arg(1), s), o_str(t.arg(2), s))
    return O_S(t, s)
def emit(t, *parts):
    """parts: texts, numbers ('n', term) and strings ('s', term)"""
    for x in parts: t = o_text(t, x) if isinstance(x, str) else o_num(t, x[1]) if x[0] == 'n' else o_str(t, x[1])
    return t
def is_string(t): return base_t(t).split('::')[-1] in ('string', 'basic_string')
def is_stream(t): return base_t(t).split('::')[-1] in ('ostream', 'basic_ostream', 'iostream', 'basic_iostream')
def text_of(v):
    import json
    try: return json.loads(v.s)
    except ValueError: raise Unsupported('text ' + v.s)
def append(ex, t, v, ty):
    """t followed by v, a value of C++ type ty"""
    if isinstance(v, Ref): v = ex.load(v)
    if isinstance(v, Str): return o_text(t, text_of(v))
    if isinstance(v, tuple) and v[0] == 'fn' and v[1].get('name') == 'endl': return o_text(t, '\n')
    if not is_z(v): raise Unsupported('output of ' + ty)
    if is_string(ty): return o_str(t, v)
    c = clean(ty)
    if c == 'char':
        v = z3.simplify(v)
        if z3.is_int_value(v): return o_text(t, chr(v.as_long()))
    elif inttype(c): return o_num(t, ex.int_of(v))
    raise Unsupported('output of ' + ty)

# ------------------------------------------------------------------ construction
def construct(ex, target, t, inner, env, this):
    b = base_t(t)
    st = ex.st
    if b in ('vector', 'deque'):
        if not inner:
            new_vec(ex, target, t, iv(0)); return
        first = inner[0]
        ft = clean(tstr(first))
        if inttype(ft):
            n = ex.int_of(ex.rv(first, env, this))
            if len(inner) > 1:
                val = ex.rv(inner[1], env, this)
            else: val = None
            new_vec(ex, target, t, n, val); return
        raise Unsupported('vector constructor')
    if b == 'unordered_map' or b == 'unordered_set' or b == 'set':
        if inner: raise Unsupported('map constructor')
        for s, so, ix in ex.types.layout(t):
            a = arrsort(so, ix)
            st[target.p + s] = default_of(a) if s == '?' else ex.fresh(target.p + s, a)
        st[target.p + '#!'] = ('t', target.p, ex.nfresh)
        return
    if b == 'array':
        if not inner:
            ex.declare_new(target, t)
            # elements outside the array do not exist; they are given a fixed value, so that equal arrays are equal keys
            N, a, j = array_len(ex, t), st.get(target.p + '[]'), z3.Int('j!')
            if a is not None and not target.ix and a.sort() == AII: ex.assume(z3.ForAll([j], z3.Implies(z3.Or(j < 0, j >= N), z3.Select(a, j) == 0), patterns=[z3.Select(a, j)]))
            return
        raise Unsupported('array constructor')
    if b == 'unique_ptr':
        if not inner: v = iv(0)
        else: v = ex.rv(inner[0], env, this)
        if not target.ix and target.p not in st:
            st[target.p] = v
        else: ex.store(target, v)
        if target.p.startswith('L'): ex.uptrs.append(target.p)
        return
    if b in ('tuple', 'pair'):
        ts = targs(t)
        if not inner:
            for s, so, ix in ex.types.layout(t): st[target.p + s] = default_of(arrsort(so, ix))
            return
        if len(inner) == len(ts):
            for i, x in enumerate(inner):
                v = ex.rv(x, env, this)
                put_new(ex, Ref(target.p + f'.{i}', target.ix), v, ts[i])
            return
    if is_string(t):
        inner = [x for x in inner if x.get('kind') != 'CXXDefaultArgExpr']
        v = iv(0)
        if len(inner) > 1: raise Unsupported('string constructor')
        if inner: v = append(ex, v, ex.rv(inner[0], env, this), tstr(inner[0]))
        put_new(ex, target, v, t); return
    if b in ('random_device', 'mt19937', 'uniform_int_distribution'):
        st[target.p] = Opaque(b); return
    if b in ('__normal_iterator', '__gnu_cxx::__normal_iterator'):
        v = ex.rv(inner[0], env, this)
        st[target.p] = v; return
    raise Unsupported('constructor of ' + t)

def put_new(ex, target, v, t):
    if is_z(v) and inttype(t) and clean(t) != 'bool' and v.sort() == B: v = ex.int_of(v)
    if clean(t) == 'node_ref' and is_z(v): v = AggV({'.ref': v})
    ex.store_new(target, v)

def new_vec(ex, target, t, n, val=None):
    for s, so, ix in ex.types.layout(t):
        a = arrsort(so, ix)
        k = target.p + s
        if s == '#': v = n
        elif s == '@': v = iv(0)
        elif z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0: v = ex.fresh(k, a)
        else:
            if len(ix) > 1: raise Unsupported('vector of containers')
            d = default_of(so)
            if val is not None:
                x = val
                if isinstance(x, AggV): x = x.d[s[2:]]
                d = ex.coerce(x, so)
            v = z3.K(I, d)
        ex.st[k] = v
    ex.st[target.p + '#!'] = ('t', target.p, ex.nfresh, len(ex.facts))
    if not z3.is_int_value(z3.simplify(n)): ex.assume(z3.And(n >= 0, n <= MAXCAP))

# ------------------------------------------------------------------ free functions
def call(ex, name, n, argn, env, this):
    E = lambda i: ex.ev(argn[i], env, this)
    V = lambda i: ex.rv(argn[i], env, this)
    if name in ('max', 'min') and not argn:
        w = inttype(tstr(n))
        if w is None: raise Unsupported('numeric_limits')
        bits, sg = w
        if name == 'max': return iv(2 ** (bits - (1 if sg else 0)) - 1)
        return iv(-(2 ** (bits - 1)) if sg else 0)
    if name in ('min', 'max') and len(argn) == 2:
        a, b = E(0), E(1)
        va = ex.load(a) if isinstance(a, Ref) else a
        vb = ex.load(b) if isinstance(b, Ref) else b
        if isinstance(va, PtrV) and isinstance(vb, PtrV):
            lt = ex.ptr_binop('<', vb, va)       # b < a
            gt = ex.ptr_binop('<', va, vb)
            c = z3.simplify(lt if name == 'min' else gt)   # take b
            m = S.merge(c, vb, va, ex)
            if m is None: raise Unsupported('min of pointers')
            return m
        va, vb = ex.int_of(va), ex.int_of(vb)
        return z3.If(vb < va, vb, va) if name == 'min' else z3.If(va < vb, vb, va)
    if name == 'swap':
        return swap(ex, E(0), E(1))
    if name == 'move' or name == 'forward':
        return E(0)
    if name == 'distance':
        a, b = V(0), V(1)
        if isinstance(a, IterV) and isinstance(b, IterV):
            return dir_(a) * (b.pos - a.pos) if a.rev else b.pos - a.pos
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.r.p != b.r.p: raise Unsupported('distance of unrelated pointers')
            return b.r.ix[-1] - a.r.ix[-1]
        if is_z(a) and is_z(b): return b - a
        raise Unsupported('distance')
    if name == 'get':
        o = E(0)
        m = re.search(r'get<(\d+)', str(n.get('_targ', '')))
        raise Unsupported('std::get')
    if name == 'make_pair' or name == 'make_tuple' or name == 'tie':
        d = {}
        for i, a in enumerate(argn):
            v = ex.rv(a, env, this)
            if isinstance(v, AggV):
                for s, x in v.d.items(): d[f'.{i}{s}'] = x
            else: d[f'.{i}'] = v
        return AggV(d)
    if name in ('prev', 'next'):
        it = V(0)
        k = ex.int_of(V(1)) if len(argn) > 1 and argn[1].get('kind') != 'CXXDefaultArgExpr' else iv(1)
        if name == 'prev': k = -k
        if not isinstance(it, IterV): raise Unsupported(name)
        return adv(it, k)
    if name == 'pow':
        a, b = z3.simplify(ex.int_of(V(0))), z3.simplify(ex.int_of(V(1)))
        if a.sort() == R: a = z3.simplify(z3.ToInt(a))
        if b.sort() == R: b = z3.simplify(z3.ToInt(b))
        if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() >= 0:
            return z3.RealVal(a.as_long() ** b.as_long())
        raise Unsupported('pow')
    if name == 'fill':
        a, b, v = V(0), V(1), V(2)
        return fill(ex, a, b, v)
    if name == 'reverse': return reverse(ex, V(0), V(1))
    if name == 'sort' and len(argn) in (2, 3): return sort(ex, V(0), V(1), V(2) if len(argn) == 3 else None)
    if name == 'unique' and len(argn) == 2: return unique(ex, V(0), V(1))
    if name == 'is_sorted' and len(argn) == 2:
        a, b = V(0), V(1)
        col = onecol(ex, a.c)
        i = z3.Int('i!s')
        return z3.ForAll([i], z3.Implies(z3.And(a.pos <= i, i + 1 < b.pos), z3.Select(col, i) <= z3.Select(col, i + 1)), patterns=[z3.Select(col, i)])
    if name == 'max_element' and len(argn) == 2:
        a, b = V(0), V(1)
        col = onecol(ex, a.c)
        i, r = z3.Int('i!m'), ex.fresh('maxel', I)
        ex.oblige('range of max_element is valid', a.pos <= b.pos)
        ex.assume(z3.Implies(a.pos < b.pos, z3.And(a.pos <= r, r < b.pos)))
        ex.assume(z3.Implies(a.pos >= b.pos, r == b.pos))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(a.pos <= i, i < b.pos), z3.Select(col, i) <= z3.Select(col, r)), patterns=[z3.Select(col, i)]))
        return IterV(a.c, r, a.tok, a.rev)
    if name == 'to_string' and len(argn) == 1:
        w = inttype(clean(tstr(argn[0])))
        if w is None: raise Unsupported('to_string')
        return o_num(iv(0), ex.int_of(V(0)))
    if name == 'memcpy': return memcpy(ex, V(0), V(1), argn[2])
    raise Unsupported('library function ' + str(name))

def memcpy(ex, a, b, size):
    """of whole vectors, between one of node addresses and one of handles (both hold one address per element): the destination takes over
    the memory of the source; from then on the source shares its elements ('&!' names the owner) until it is overwritten"""
    while size.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): size = size['inner'][0]
    if size.get('kind') != 'UnaryExprOrTypeTraitExpr' or size.get('name') != 'sizeof': raise Unsupported('memcpy')
    if not (isinstance(a, PtrV) and isinstance(b, PtrV)): raise Unsupported('memcpy')
    a, b = a.r, b.r
    for r in (a, b):
        if r.ix or not is_vec(ex, r) or is_deque(ex, r) or is_map(ex, r): raise Unsupported('memcpy')
    col = lambda r: r.p + ('[].ref' if r.p + '[].ref' in ex.st else '[]')
    if set(cols(ex, a)) != {col(a)} or set(cols(ex, b)) != {col(b)}: raise Unsupported('memcpy')
    shared = [k for k in ex.st if k.endswith('&!')]
    if a.p + '&!' in ex.st:
        ex.oblige('memory of a vector is not duplicated by memcpy', vsize(ex, b) == 0)
        if b.p + '&!' in ex.st or any(ex.st[k] == b.p for k in shared): raise Unsupported('memcpy')
        del ex.st[a.p + '&!']
        ex.st[a.p + '#'] = ex.st[b.p + '#']; ex.st[col(a)] = ex.st[col(b)]
        return VOID
    if shared: raise Unsupported('memcpy')
    ex.oblige('memory of a vector is not lost by memcpy', vsize(ex, a) == 0)
    if col(a) == col(b).replace(b.p, a.p): raise Unsupported('memcpy')
    ex.st[a.p + '#'] = ex.st[b.p + '#']; ex.st[col(a)] = ex.st[col(b)]
    ex.st[a.p + '#!'] = ('t', a.p, ex.nfresh, 'memcpy')
    if col(b).endswith('.ref'): raise Unsupported('memcpy')
    ex.st[b.p + '&!'] = a.p
    return VOID

def dir_(a): return -1 if a.rev else 1
def adv(it, k): return IterV(it.c, z3.simplify(it.pos + (k if not it.rev else -k)), it.tok, it.rev)
def onecol(ex, c):
    ks = cols(ex, c)
    if len(ks) != 1: raise Unsupported('algorithm on a container of records')
    v = ex.st[ks[0]]
    return sel(v, c.ix)

def swap(ex, a, b):
    if not (isinstance(a, Ref) and isinstance(b, Ref)): raise Unsupported('swap of values')
    va, vb = ex.load(a), ex.load(b)
    if isinstance(va, AggV):
        la = [k for k in va.d]
        if set(va.d) != set(vb.d): raise Unsupported('swap of different layouts')
        sa, sb = {k: va.d[k] for k in la}, {k: vb.d[k] for k in la}
        for k in la:
            if not is_z(sa[k]):
                ex.st[a.p + k], ex.st[b.p + k] = sb[k], sa[k]
                continue
            ex._store1(a.p + k, a.ix, sb[k]); ex._store1(b.p + k, b.ix, sa[k])
    else:
        ex.store_any(a, vb); ex.store_any(b, va)
    return VOID

def range_cols(ex, a, b):
    if not (isinstance(a, IterV) and isinstance(b, IterV)) or a.c.p != b.c.p: raise Unsupported('algorithm range')
    if a.rev or b.rev: raise Unsupported('reverse range')
    ex.oblige('iterator range within the container', z3.And(a.pos >= 0, a.pos <= b.pos, b.pos <= rng_end(ex, a.c)))
    return cols(ex, a.c)
def rng_end(ex, c):
    if (c.p + '#') in ex.st: return head(ex, c) + vsize(ex, c)
    if c.p == 'PAGE' or c.p.startswith('PG'): return z3.Select(ex.st['G.pgcap'], c.ix[0])
    raise Unsupported('end of container')

def fill(ex, a, b, v):
    if not isinstance(a, IterV): raise Unsupported('fill')
    i = z3.Int('i!f')
    if a.c.p == 'PGROW':
        k = 'PG[][]'
        old = ex.st[k]
        base = a.c.ix[0]
        ex.oblige('filled range within the page', z3.And(0 <= a.pos, b.pos <= z3.Select(ex.st['G.pgcap'], base)))
        if not z3.is_int_value(z3.simplify(v)) or z3.simplify(v).as_long() != 0: raise Unsupported('fill of a page')
        row = ex.fresh('row', AII)
        orow = z3.Select(old, base)
        ex.page_write(base)
        ex.assume(z3.ForAll([i], z3.Select(row, i) == z3.If(z3.And(a.pos <= i, i < b.pos), v, z3.Select(orow, i)), patterns=[z3.Select(row, i)]))
        nm = ex.fresh(k, old.sort())
        ex.assume(nm == z3.Store(old, base, row))
        ex.st[k] = nm
        return VOID
    for k in range_cols(ex, a, b):
        old = ex.st[k]
        if a.c.ix: raise Unsupported('fill of nested')
        val = v.d[k[len(a.c.p) + 2:]] if isinstance(v, AggV) else v
        nm = ex.fresh(k, old.sort())
        val = ex.coerce(val, old.sort().range())
        ex.assume(z3.ForAll([i], z3.Select(nm, i) == z3.If(z3.And(a.pos <= i, i < b.pos), val, z3.Select(old, i)), patterns=[z3.Select(nm, i)]))
        ex.st[k] = nm
    return VOID

def reverse(ex, a, b):
    i = z3.Int('i!r')
    for k in range_cols(ex, a, b):
        old = ex.st[k]
        nm = ex.fresh(k, old.sort())
        ex.assume(z3.ForAll([i], z3.Select(nm, i) == z3.If(z3.And(a.pos <= i, i < b.pos), z3.Select(old, a.pos + b.pos - 1 - i), z3.Select(old, i)), patterns=[z3.Select(nm, i)]))
        # the same fact read from the old side, so that it is found from either array
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(a.pos <= i, i < b.pos), z3.Select(nm, a.pos + b.pos - 1 - i) == z3.Select(old, i)), patterns=[z3.Select(old, i)]))
        ex.st[k] = nm
    return VOID

def sort(ex, a, b, cmp=None):
    ks = range_cols(ex, a, b)
    if len(ks) != 1: raise Unsupported('sort of records')
    k = ks[0]
    old = ex.st[k]
    el = old.sort().range()
    less = ordering(ex, el, k, a.c.p, cmp)
    nm = ex.fresh(k, old.sort())
    ex.nperm = getattr(ex, 'nperm', 0) + 1
    p = z3.Function(f'perm!{ex.nfresh}', I, I); q = z3.Function(f'pinv!{ex.nfresh}', I, I)
    i, j = z3.Ints('i!o j!o')
    inr = lambda x: z3.And(a.pos <= x, x < b.pos)
    srt = z3.Not(less(z3.Select(nm, j), z3.Select(nm, i)))
    if cmp is None: ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(a.pos <= i, i <= j, j < b.pos), z3.Select(nm, i) <= z3.Select(nm, j)), patterns=[z3.MultiPattern(z3.Select(nm, i), z3.Select(nm, j))]))
    else: ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(a.pos <= i, i < j, j < b.pos), srt), patterns=[z3.MultiPattern(z3.Select(nm, i), z3.Select(nm, j))]))
    ex.assume(z3.ForAll([i], z3.If(inr(i), z3.And(inr(p(i)), z3.Select(nm, i) == z3.Select(old, p(i)), q(p(i)) == i), z3.Select(nm, i) == z3.Select(old, i)), patterns=[z3.Select(nm, i)]))
    ex.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(q(i)), z3.Select(nm, q(i)) == z3.Select(old, i), p(q(i)) == i)), patterns=[z3.Select(old, i)]))
    ex.st[k] = nm
    ex.ghost['sorted:' + k] = q          # where each element of the old list is in the sorted one
    return VOID
def ordering(ex, el, k, c, cmp):
    """the relation the elements are sorted by; a comparison function has to be a strict weak ordering"""
    if cmp is None:
        if el != I: raise Unsupported('sort of records')
        return lambda x, y: x < y
    if not isinstance(cmp, Closure): raise Unsupported('comparison function')
    X, Y, Z = [ex.fresh('element', el) for _ in range(3)]
    suf = k[len(c) + 2:]
    def run(x, y):
        n = len(ex.trace), ex.tpos
        r = ex.bool_of(ex.call_closure(cmp, [ex.new_local('element', AggV({suf: v}) if suf else v) for v in (x, y)]))
        if (len(ex.trace), ex.tpos) != n: raise Unsupported('comparison function with branches')
        return r
    f = run(X, Y)
    L = lambda x, y: z3.substitute(f, (X, x), (Y, y))
    ex.oblige('comparison function is irreflexive', z3.Not(L(X, X)))
    ex.oblige('comparison function is transitive', z3.Implies(z3.And(L(X, Y), L(Y, Z)), L(X, Z)))
    ex.oblige('incomparability is transitive', z3.Implies(L(X, Z), z3.Or(L(X, Y), L(Y, Z))))
    return L

def unique(ex, a, b):
    ks = range_cols(ex, a, b)
    if len(ks) != 1: raise Unsupported('unique of records')
    k = ks[0]
    old = ex.st[k]
    nm = ex.fresh(k, old.sort())
    r = ex.fresh('uniq', I)
    w = z3.Function(f'uw!{ex.nfresh}', I, I); v = z3.Function(f'uv!{ex.nfresh}', I, I)
    i, j = z3.Ints('i!u j!u')
    inr = lambda x: z3.And(a.pos <= x, x < b.pos)
    out = lambda x: z3.And(a.pos <= x, x < r)
    ex.assume(z3.And(a.pos <= r, r <= b.pos, z3.Implies(a.pos < b.pos, a.pos < r)))
    nodup = ex.fresh('nodup', B)
    ex.assume(nodup == z3.ForAll([i, j], z3.Implies(z3.And(a.pos <= i, j == i + 1, j < b.pos), z3.Select(old, i) != z3.Select(old, j)), patterns=[z3.MultiPattern(z3.Select(old, i), z3.Select(old, j))]))
    if ex.fork(nodup): return b         # nothing to do
    srt = ex.fresh('sorted', B)
    ex.assume(srt == z3.ForAll([i, j], z3.Implies(z3.And(a.pos <= i, i <= j, j < b.pos), z3.Select(old, i) <= z3.Select(old, j)), patterns=[z3.MultiPattern(z3.Select(old, i), z3.Select(old, j))]))
    ex.assume(z3.Implies(srt, z3.ForAll([i, j], z3.Implies(z3.And(a.pos <= i, i < j, j < r), z3.Select(nm, i) < z3.Select(nm, j)), patterns=[z3.MultiPattern(z3.Select(nm, i), z3.Select(nm, j))])))
    ex.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(out(w(i)), z3.Select(nm, w(i)) == z3.Select(old, i))), patterns=[z3.Select(old, i)]))
    ex.assume(z3.ForAll([i], z3.Implies(out(i), z3.And(inr(v(i)), w(v(i)) == i, z3.Select(old, v(i)) == z3.Select(nm, i))), patterns=[z3.Select(nm, i)]))
    ex.st[k] = nm
    return IterV(a.c, r, a.tok, a.rev)

# ------------------------------------------------------------------ member functions
def method(ex, name, obj, argn, n, me, env, this):
    if isinstance(obj, (IterV, MapIter)): raise Unsupported('iterator method ' + name)
    ot = clean(tstr(me['inner'][0]))
    if me.get('isArrow') and ot.endswith('*'): ot = ot[:-1].strip()
    V = lambda i: ex.rv(argn[i], env, this)
    if isinstance(obj, Ref) and obj.p in ('PG[][]', 'PGROW', 'NPDATA') or base_t(ot) == 'array':
        N = array_len(ex, ot)
        if name == 'size': return N
        if name in ('begin', 'end', 'data', 'cbegin', 'cend'):
            if obj.p == 'PGROW' or obj.p == 'NPDATA':
                return IterV(obj, iv(0) if 'begin' in name or name == 'data' else N, None)
            return IterV(obj, iv(0) if 'begin' in name else N, None)
        if name == 'fill':
            return fill(ex, IterV(obj, iv(0), None), IterV(obj, N, None), V(0))
        raise Unsupported('array method ' + name)
    if not isinstance(obj, Ref):
        if is_z(obj) and name == 'get': return obj
        obj = ex.materialize(obj)
    if base_t(ot) == 'unique_ptr' or name in ('get', 'release', 'reset') and obj.p in ex.st:
        if name == 'get': return ex.load(obj)
        if name == 'release':
            v = ex.load(obj); ex.store(obj, iv(0)); return v
        raise Unsupported('unique_ptr::' + name)
    if is_vec(ex, obj): return vec_method(ex, name, obj, argn, n, env, this, ot)
    if is_map(ex, obj): return map_method(ex, name, obj, argn, n, env, this)
    raise Unsupported(f'method {name} of {ot}')

def vec_method(ex, name, obj, argn, n, env, this, ot):
    if name not in ('size', 'empty', 'operator[]', 'at') and (obj.p + '&!' in ex.st or any(k.endswith('&!') and ex.st[k] == obj.p for k in ex.st)): raise Unsupported('vector that shares its elements')
    V = lambda i: ex.rv(argn[i], env, this)
    if name == 'size': return vsize(ex, obj)
    if name == 'empty': return vsize(ex, obj) == 0
    if name in ('begin', 'cbegin'): return IterV(obj, head(ex, obj), tok(ex, obj))
    if name in ('end', 'cend'): return IterV(obj, z3.simplify(head(ex, obj) + vsize(ex, obj)) if is_deque(ex, obj) else vsize(ex, obj), tok(ex, obj))
    if name in ('rbegin', 'rend'): 
        p = vsize(ex, obj) - 1 if name == 'rbegin' else iv(-1)
        return IterV(obj, p, tok(ex, obj), True)
    if name == 'front':
        ex.oblige('front of a non-empty container', vsize(ex, obj) > 0)
        return elem(ex, obj, iv(0), False)
    if name == 'back':
        ex.oblige('back of a non-empty container', vsize(ex, obj) > 0)
        return elem(ex, obj, z3.simplify(vsize(ex, obj) - 1), False)
    if name in ('operator[]', 'at'):
        return elem(ex, obj, ex.int_of(V(0)))
    if name in ('reserve', 'shrink_to_fit'):
        for a in argn: ex.rv(a, env, this)
        set_size(ex, obj, vsize(ex, obj))
        return VOID
    if name == 'clear':
        set_size(ex, obj, iv(0)); return VOID
    if name == 'push_back':
        v = V(0)
        push(ex, obj, v); return VOID
    if name == 'emplace_back':
        el = targs(ot)[0]
        sz = vsize(ex, obj)
        if ex.types.rec.get(clean(el).split('::')[-1]) is not None and clean(el) not in ('node_ref',):
            rec = ex.types.rec.get(clean(el).split('::')[-1])
            args = [ex.ev(a, env, this) for a in argn]
            args = [ex.load(a) if isinstance(a, Ref) and a.p in ex.st and is_z(ex.st[a.p]) and not a.ix and False else a for a in args]
            fn = ex.find_ctor(rec, {}, args)
            if fn is None: raise Unsupported('emplace_back constructor')
            snap = [ex.new_local('arg', ex.load(a)) if isinstance(a, Ref) and a.p in ex.st and is_z(ex.st[a.p]) else a for a in args]
            target = Ref(obj.p + '[]', obj.ix + (sz,))
            ex.call(fn, target, snap)
            set_size(ex, obj, sz + 1)
            ex.assume(sz + 1 <= MAXCAP)
            return Ref(obj.p + '[]', obj.ix + (sz,))
        push(ex, obj, V(0)); return VOID
    if name == 'pop_back':
        ex.oblige('pop_back of a non-empty container', vsize(ex, obj) > 0)
        set_size(ex, obj, vsize(ex, obj) - 1); return VOID
    if name == 'pop_front' and is_deque(ex, obj):
        ex.oblige('pop_front of a non-empty container', vsize(ex, obj) > 0)
        ex.store(Ref(obj.p + '@', obj.ix), head(ex, obj) + 1)
        set_size(ex, obj, vsize(ex, obj) - 1); return VOID
    if name == 'resize':
        m = ex.int_of(V(0))
        if is_deque(ex, obj): raise Unsupported('deque::resize')
        sz = vsize(ex, obj)
        val = V(1) if len(argn) > 1 and argn[1].get('kind') != 'CXXDefaultArgExpr' else None
        if not ex.entails(m <= sz):
            i = z3.Int('i!z')
            for k in cols(ex, obj):
                old = ex.st[k]
                if obj.ix: raise Unsupported('resize of nested vector')
                d = default_of(old.sort().range())
                if isinstance(val, AggV): d = val.d[k[len(obj.p) + 2:]]
                elif val is not None: d = ex.coerce(val, old.sort().range())
                nm = ex.fresh(k, old.sort())
                ex.assume(z3.ForAll([i], z3.Select(nm, i) == z3.If(z3.And(sz <= i, i < m), d, z3.Select(old, i)), patterns=[z3.Select(nm, i)]))
                ex.st[k] = nm
        set_size(ex, obj, m)
        ex.assume(m <= MAXCAP)
        return VOID
    if name == 'erase' and len(argn) == 2:
        a, b = V(0), V(1)
        if not (isinstance(a, IterV) and isinstance(b, IterV)): raise Unsupported('erase')
        if not ex.entails(b.pos == vsize(ex, obj)): raise Unsupported('erase in the middle')
        ex.oblige('iterator range within the container', z3.And(a.pos >= 0, a.pos <= b.pos))
        set_size(ex, obj, a.pos)
        return IterV(obj, a.pos, tok(ex, obj))
    if name == 'insert' and len(argn) == 2 and not is_deque(ex, obj):
        a, vals = V(0), ex.init_list(argn[1], env, this)
        if vals is None: vals = [V(1)] if 'initializer_list' not in tstr(argn[1]) else None
        if vals is None or not isinstance(a, IterV): raise Unsupported('vector::insert')
        if not ex.entails(a.pos == vsize(ex, obj)): raise Unsupported('insertion in the middle')
        for v in vals: push(ex, obj, v)
        return IterV(obj, a.pos, tok(ex, obj))
    raise Unsupported('vector::' + name)

def push(ex, obj, v):
    sz = vsize(ex, obj)
    pos = head(ex, obj) + sz if is_deque(ex, obj) else sz
    target = Ref(obj.p + '[]', obj.ix + (pos,))
    if is_z(v) and (obj.p + '[].ref') in ex.st: v = AggV({'.ref': v})
    if isinstance(v, Str): raise Unsupported('string')
    ex.store(target, v)
    set_size(ex, obj, sz + 1)
    ex.assume(sz + 1 <= MAXCAP)

def map_method(ex, name, obj, argn, n, env, this):
    dom = lambda: sel(ex.st[obj.p + '?'], obj.ix)
    if name == 'count' or name == 'contains':
        k = key_from_node(ex, argn[0], env, this, obj)
        d = z3.Select(dom(), k)
        return z3.If(d, iv(1), iv(0)) if name == 'count' else d
    if name == 'find':
        k = key_from_node(ex, argn[0], env, this, obj)
        return MapIter(obj, k, z3.Select(dom(), k))
    if name == 'end' or name == 'cend': return MapIter(obj, None, z3.BoolVal(False))
    if name == 'clear':
        ex._store1(obj.p + '?', obj.ix, default_of(sel(ex.st[obj.p + '?'], obj.ix).sort())); return VOID
    if name == 'empty':
        d = dom()
        return d == default_of(d.sort())
    if name in ('insert', 'emplace'):
        vals = [k for k in ex.st if k.startswith(obj.p + '{}')]
        if not vals and (obj.p + '{}') not in ex.st:      # a set
            k = key_from_node(ex, argn[0], env, this, obj)
            ex._store1(obj.p + '?', obj.ix + (k,), z3.BoolVal(True))
            return VOID
        if name == 'emplace' and len(argn) == 2:
            kv, vv = ex.rv(argn[0], env, this), ex.rv(argn[1], env, this)
        else:
            p = pair_parts(ex, argn[0], env, this)
            kv, vv = p
        k = mkkey(ex, kv)
        had = z3.Select(dom(), k)
        ex._store1(obj.p + '?', obj.ix + (k,), z3.BoolVal(True))
        for c in vals:
            suf = c[len(obj.p) + 2:]
            if isinstance(vv, AggV): x = vv.d[suf]
            else: x = vv
            if suf == '.ref' and is_z(vv): x = vv
            o = sel(ex.st[c], obj.ix + (k,))
            x = ex.coerce(x, o.sort()) if is_z(x) else x
            h = z3.simplify(had)
            if z3.is_false(h) or ex.entails(z3.Not(had)): nv = x
            elif z3.is_true(h) or ex.entails(had): nv = o
            else: nv = z3.If(had, o, x)
            ex._store1(c, obj.ix + (k,), nv)
        return VOID
    if name == 'erase' and len(argn) == 1:
        k = key_from_node(ex, argn[0], env, this, obj)
        ex._store1(obj.p + '?', obj.ix + (k,), z3.BoolVal(False))
        return VOID
    if name == 'size':
        # some number, zero exactly if the map is empty
        d = dom(); m = ex.fresh('mapsize', I); k = z3.Const('k!m', d.sort().domain())
        ex.assume(z3.And(m >= 0, m <= MAXCAP, (m == 0) == (d == default_of(d.sort()))))
        return m
    if name == 'reserve':
        for a in argn: ex.rv(a, env, this)
        return VOID
    raise Unsupported('map::' + name)

def map_at(ex, obj, k):
    """operator[]: a missing key is inserted with a default value"""
    vals = [c for c in ex.st if c.startswith(obj.p + '{}')]
    if not vals: raise Unsupported('operator[] of a set')
    had = z3.Select(sel(ex.st[obj.p + '?'], obj.ix), k)
    if not ex.entails(had):
        for c in vals:
            o = sel(ex.st[c], obj.ix + (k,))
            ex._store1(c, obj.ix + (k,), z3.If(had, o, default_of(o.sort())))
        ex._store1(obj.p + '?', obj.ix + (k,), z3.BoolVal(True))
    return Ref(obj.p + '{}', obj.ix + (k,), obj.gen)
def pair_parts(ex, n, env, this):
    """key and value of the pair expression given to insert"""
    m = n
    while m.get('kind') in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr') and m.get('inner'):
        m = m['inner'][-1]
    if m.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'):
        inner = [x for x in m.get('inner', ()) if x and x.get('kind') != 'CXXDefaultArgExpr']
        if len(inner) == 2:
            return ex.rv(inner[0], env, this), ex.rv(inner[1], env, this)
        if len(inner) == 1:
            return pair_parts(ex, inner[0], env, this)
    v = ex.rv(n, env, this)
    if isinstance(v, AggV):
        return sub(v, '.0'), sub(v, '.1')
    raise Unsupported('pair expression')
def sub(v, s):
    if s in v.d: return v.d[s]
    d = {k[len(s):]: x for k, x in v.d.items() if k.startswith(s)}
    return AggV(d)

# ------------------------------------------------------------------ operators
def operator(ex, name, n, argn, env, this):
    ty = [tstr(a) for a in argn]
    if name == 'operator<<' and is_stream(ty[0]):
        r = ex.ev(argn[0], env, this)
        if not isinstance(r, Ref): raise Unsupported('stream')
        v = ex.ev(argn[1], env, this)
        ex.store(r, append(ex, ex.load(r), v, ty[1]))
        return r
    if name == 'operator+' and any(is_string(t) for t in ty):
        t = append(ex, iv(0), ex.rv(argn[0], env, this), ty[0])
        return append(ex, t, ex.rv(argn[1], env, this), ty[1])
    if name in ('operator+=', 'operator=') and is_string(ty[0]):
        v = ex.rv(argn[1], env, this)
        r = ex.ev(argn[0], env, this)
        if not isinstance(r, Ref): r = ex.materialize(r)
        ex.store(r, append(ex, ex.load(r) if name == 'operator+=' else iv(0), v, ty[1]))
        return r
    if name == 'operator[]':
        o = ex.ev(argn[0], env, this)
        if not isinstance(o, Ref): o = ex.materialize(o)
        i = ex.rv(argn[1], env, this)
        if is_vec(ex, o): return elem(ex, o, ex.int_of(i))
        if is_map(ex, o): return map_at(ex, o, mkkey(ex, i))
        ot = clean(tstr(argn[0]))
        if base_t(ot) == 'array':
            N = array_len(ex, ot)
            i = ex.int_of(i)
            ex.oblige('index within the array', z3.And(i >= 0, i < N))
            if o.p == 'PGROW': return Ref('PG[][]', o.ix + (i,))
            return Ref(o.p + '[]', o.ix + (i,), o.gen)
        raise Unsupported('operator[] of ' + ot)
    if name == 'operator=':
        r = ex.ev(argn[0], env, this)
        v = ex.rv(argn[1], env, this)
        if not isinstance(r, Ref): raise Unsupported('assignment')
        if isinstance(v, (IterV, MapIter)): ex.st[r.p] = v; return r
        ex.store(r, v)
        return r
    if name in ('operator++', 'operator--'):
        r = ex.ev(argn[0], env, this)
        v = ex.load(r)
        if not isinstance(v, IterV): raise Unsupported(name)
        nv = adv(v, iv(1) if name == 'operator++' else iv(-1))
        ex.st[r.p] = nv
        return v if len(argn) > 1 else r
    if name in ('operator+', 'operator-', 'operator==', 'operator!=', 'operator<', 'operator<=', 'operator>', 'operator>='):
        a, b = ex.rv(argn[0], env, this), ex.rv(argn[1], env, this)
        op = name[8:]
        if isinstance(a, (IterV, MapIter)): return iter_binop(ex, op, a, b)
        if isinstance(a, AggV) and isinstance(b, AggV) and op in ('==', '!=') and set(a.d) == set(b.d) and not any('#' in k for k in a.d):
            e = z3.And(*[a.d[k] == b.d[k] for k in a.d])
            return e if op == '==' else z3.Not(e)
        raise Unsupported(name)
    if name in ('operator+=', 'operator-='):
        r = ex.ev(argn[0], env, this)
        v = ex.load(r)
        k = ex.int_of(ex.rv(argn[1], env, this))
        if not isinstance(v, IterV): raise Unsupported(name)
        ex.st[r.p] = adv(v, k if name == 'operator+=' else -k)
        return r
    if name == 'operator*':
        v = ex.rv(argn[0], env, this)
        return iter_deref(ex, v)
    if name == 'operator->':
        v = ex.rv(argn[0], env, this)
        return v
    raise Unsupported('library operator ' + str(name))

def iter_deref(ex, v):
    if isinstance(v, MapIter):
        if v.key is None: raise Unsupported('dereference of end()')
        ex.oblige('map iterator dereferenced is not end()', v.found)
        return MapEntry(v.m, v.key)
    if isinstance(v, IterV):
        c = v.c
        if c.p == 'PGROW': return Ref('PG[][]', c.ix + (v.pos,))
        if (c.p + '#') in ex.st:
            cur = tok(ex, c)
            if v.tok is not None and cur != v.tok:
                ex.oblige(f'no dangling iterator into {c.p.split("~")[-1]}', z3.BoolVal(False))
            h = head(ex, c)
            ex.oblige('iterator dereferenced is within the container', z3.And(v.pos >= h, v.pos < h + vsize(ex, c)))
            return Ref(c.p + '[]', c.ix + (v.pos,), c.gen + (((c.p, v.tok),) if v.tok is not None else ()))
        return Ref(c.p + '[]', c.ix + (v.pos,))
    if is_z(v): return ex.deref(v)
    if isinstance(v, PtrV): return v.r
    raise Unsupported('dereference')

def iter_binop(ex, op, a, b):
    if isinstance(a, IterV) and isinstance(b, IterV):
        if a.c.p != b.c.p: raise Unsupported('iterators of different containers')
        x, y = (a.pos, b.pos) if not a.rev else (b.pos, a.pos)
        return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '-': lambda: x - y}[op]()
    if isinstance(a, IterV) and op in ('+', '-'):
        k = ex.int_of(b)
        return adv(a, k if op == '+' else -k)
    if isinstance(b, IterV) and op == '+': return adv(b, ex.int_of(a))
    if isinstance(a, MapIter) and isinstance(b, MapIter) and op in ('==', '!='):
        if a.key is None and b.key is None: e = z3.BoolVal(True)
        elif b.key is None: e = z3.Not(a.found)
        elif a.key is None: e = z3.Not(b.found)
        else: raise Unsupported('comparison of map iterators')
        return e if op == '==' else z3.Not(e)
    raise Unsupported('iterator operator ' + op)

# ------------------------------------------------------------------ bits, globals, memory
pow2m = z3.Function('pow2m', I, B)      # m is 2^k - 1 for some k
def md(l, m): return S.band(l, m)

def bit_and(ex, l, r):
    """l & r; facts hold for all non-negative integers"""
    v = S.band(l, r)
    ex.assume(z3.Implies(z3.And(l >= 0, r >= 0), z3.And(v >= 0, v <= r, v <= l)))
    ex.assume(z3.Implies(z3.And(l >= 0, l <= r, pow2m(r)), v == l))
    return v
def bit_xor(ex, l, r):
    v = S.bxor(l, r)
    k = ('xor', l.get_id(), r.get_id())
    ex.keep += [l, r]
    ex.assume(z3.Implies(z3.And(l >= 0, r >= 0), v >= 0))
    for b in (23, 24, 64):
        ex.assume(z3.Implies(z3.And(l >= 0, r >= 0, l < 2 ** b, r < 2 ** b), v < 2 ** b))
    return v

def global_value(ex, d, n):
    return None

def call_operator(ex, f, n, args):
    """operator() of library objects: random number generators yield any value of their range"""
    if isinstance(f, Opaque):
        w = f.w
        v = ex.fresh('random', I)
        if 'uniform_int_distribution' in w:
            ex.assume(z3.And(v >= 0, v < 2 ** ex.rand_bits()))
        else:
            ex.range_fact(v, 'unsigned int')
        return v
    raise Unsupported('call operator')

def new(ex, n, env, this):
    t = clean(tstr(n))
    if t.endswith('*'): t = t[:-1].strip()
    if t.startswith('bdd_node_page'):
        b = ex.fresh('newpage', I)
        x = z3.Int('x!n')
        al = ex.st['G.alloc']
        N = ex.node_page_len()
        ex.assume(b > 3)
        ex.assume(z3.ForAll([x], z3.Implies(z3.And(b <= x, x < b + N), z3.Not(z3.Select(al, x))), patterns=[z3.Select(al, x)]))
        mgr = z3.Int('MGRADDR')
        ex.assume(z3.Not(z3.And(b <= mgr, mgr < b + N)))       # new memory is disjoint from the manager
        na = ex.fresh('G.alloc', al.sort())
        ex.assume(z3.ForAll([x], z3.Select(na, x) == z3.Or(z3.Select(al, x), z3.And(b <= x, x < b + N)), patterns=[z3.Select(na, x)]))
        ex.st['G.alloc'] = na
        ex.store(Ref('NP[].next', (b,)), iv(0))
        ex.newnodes = (b, N)
        return b
    if t.startswith('unique_table_page<'):
        # array of pages: consecutive, not allocated before, links are null (default member initialiser)
        N = int(targs(t)[0].rstrip('UL'))
        ext = [x for x in n.get('inner', ()) if x.get('kind') not in ('CXXConstructExpr', 'InitListExpr')]
        if not n.get('isArray') or not ext: raise Unsupported('new page')
        cnt = ex.int_of(ex.rv(ext[0], env, this))
        b = ex.fresh('newpages', I)
        x = z3.Int('x!n')
        own, cap, lk = ex.st['G.pgown'], ex.st['G.pgcap'], ex.st['PGL[]']
        inr = z3.And(b <= x, x < b + cnt)
        ex.assume(b > 0)
        ex.assume(z3.ForAll([x], z3.Implies(inr, z3.Select(own, x) == 0), patterns=[z3.Select(own, x)]))
        ncap, nl = ex.fresh('G.pgcap', cap.sort()), ex.fresh('PGL[]', lk.sort())
        ex.assume(z3.ForAll([x], z3.Select(ncap, x) == z3.If(inr, N, z3.Select(cap, x)), patterns=[z3.Select(ncap, x)]))
        ex.assume(z3.ForAll([x], z3.Select(nl, x) == z3.If(inr, 0, z3.Select(lk, x)), patterns=[z3.Select(nl, x)]))
        ex.st['G.pgcap'], ex.st['PGL[]'] = ncap, nl
        nown = ex.fresh('G.pgown', own.sort())
        ex.assume(z3.ForAll([x], z3.Select(nown, x) == z3.If(inr, -2, z3.Select(own, x)), patterns=[z3.Select(nown, x)]))
        ex.st['G.pgown'] = nown
        ex.newpages = (b, cnt, N)
        return b
    raise Unsupported('new ' + t)
def delete(ex, n, env, this):
    v = ex.rv(n['inner'][0], env, this)
    return ex.contract.on_delete(ex, v)

# ------------------------------------------------------------------ range-for over maps
def range_map(ex, n, r, var, body, env, this):
    """every key of the map is visited exactly once in some order; visited is the set of keys done"""
    dom = sel(ex.st[r.p + '?'], r.ix)
    ks = dom.sort().domain()
    root = ex.newroot('visited')
    ex.st[root + '?'] = z3.K(ks, z3.BoolVal(False))
    more = ex.newroot('more')
    k0 = z3.Const('k!v', ks)
    # one nondeterministic step: either all keys are visited or there is an unvisited key
    cur = {}
    def cond():
        key = ex.fresh('key', ks)
        left = ex.fresh('left', B)
        vis = ex.st[root + '?']
        ex.assume(z3.Implies(left, z3.And(z3.Select(dom, key), z3.Not(z3.Select(vis, key)))))
        ex.assume(z3.Implies(z3.Not(left), z3.ForAll([k0], z3.Implies(z3.Select(dom, k0), z3.Select(vis, k0)), patterns=[z3.Select(dom, k0)])))
        cur['key'] = key
        return left
    def bodyf():
        key = cur['key']
        ex.ghost['key:' + root] = key
        e = MapEntry(r, key)
        if var['kind'] == 'DecompositionDecl':
            bind = [x for x in var['inner'] if x.get('kind') == 'BindingDecl']
            kr = ex.key_ref(e)
            env[bind[0]['id']] = kr
            v2 = ex.entry_second(e)
            env[bind[1]['id']] = ex.new_local('v', ex.load(v2))
        elif (r.p + '{}') in ex.st or any(k.startswith(r.p + '{}') for k in ex.st): env[var['id']] = e
        else: env[var['id']] = ex.key_ref(e)
        ex.stmt(body, env, this)
    def inc():
        ex._store1(root + '?', (cur['key'],), z3.BoolVal(True))
    ex.loop(n, cond, bodyf, inc, env, auto=lambda: z3.ForAll([k0], z3.Implies(z3.Select(ex.st[root + '?'], k0), z3.Select(dom, k0)), patterns=[z3.Select(ex.st[root + '?'], k0)]), rangeidx=root)
