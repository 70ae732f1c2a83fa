"""Front end: mechanically extracts the clang AST of the real sources in /repo on every run.

Nothing is rewritten by hand: the functions that are verified are the AST nodes clang builds from
/repo/src/*.cpp and /repo/include/*.h (one translation unit, see fe/all.cpp, plus explicit template
instantiations).  The AST is indexed by mangled name.
"""
import json, os, subprocess, sys, hashlib, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LBDD_REPO', '/repo')

class FEError(Exception):
    pass

def run_clang(repo=REPO):
    cmd = ['clang++', '-std=c++17', '-w', '-fsyntax-only', '-include', f'{VERIF}/fe/shim.h',
           f'-I{repo}/include', f'-I{repo}/src', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=BDD', f'{VERIF}/fe/all.cpp']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise FEError('clang failed:\n' + p.stderr.decode()[:4000])
    return p.stdout.decode()

def load_docs(s):
    dec = json.JSONDecoder()
    i, n, out = 0, len(s), []
    while True:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(s, i)
        out.append(o)
    return out

FUNK = {'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'}

class AST:
    def __init__(self, docs):
        self.by_id = {}          # decl id -> decl node
        self.fun_def = {}        # mangled name -> FunctionDecl node with body
        self.qname = {}          # decl id -> qualified name
        self.mangled_of = {}     # decl id -> mangled name
        self.by_qname = {}       # qualified name -> [definition nodes]
        self.records = {}        # record qualified name -> record node
        self.union_alias = {}    # field decl id -> canonical field name
        self.parent = {}
        for d in docs:
            self._walk(d, None, ())
        # qualified names of functions come from their mangled names
        ms = sorted({n['mangledName'] for n in self.by_id.values() if n.get('kind') in FUNK and n.get('mangledName')})
        out = subprocess.run(['c++filt'], input='\n'.join(ms) + '\n', stdout=subprocess.PIPE, text=True).stdout.splitlines()
        self.demangled = dict(zip(ms, out))
        for did, n in list(self.by_id.items()):
            if n.get('kind') in FUNK:
                self._fun(n)

    def _walk(self, n, parent, scope):
        if not isinstance(n, dict) or 'kind' not in n:
            return
        k = n['kind']
        nid = n.get('id')
        newscope = scope
        if k.endswith('Decl') and nid:
            if nid not in self.by_id or n.get('inner') and not self.by_id[nid].get('inner'):
                self.by_id[nid] = n
            self.parent.setdefault(nid, parent)
            nm = n.get('name', '')
            if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl',
                     'ClassTemplatePartialSpecializationDecl'):
                newscope = scope + ((nm,) if nm else ())
                q = '::'.join(newscope)
                n['_scope'] = scope
                self.qname[nid] = q
                if k != 'NamespaceDecl' and n.get('completeDefinition'):
                    self.records.setdefault(q, n)
                    self._unions(n)
            else:
                self.qname[nid] = '::'.join(scope + ((nm,) if nm else ()))
            if k in FUNK:
                n['_scope'] = scope
                newscope = scope
        for c in n.get('inner', ()):
            self._walk(c, n, newscope)

    def _unions(self, rec):
        # anonymous unions: every member is an alias of the first one with the same storage
        for c in rec.get('inner', ()):
            if c.get('kind') == 'CXXRecordDecl' and c.get('tagUsed') == 'union' and not c.get('name'):
                fs = [f for f in c.get('inner', ()) if f.get('kind') == 'FieldDecl']
                for f in fs:
                    self.union_alias[f['id']] = fs
    def _fun(self, n):
        nid = n['id']
        q = None
        pid = n.get('parentDeclContextId')
        if pid and pid in self.qname:
            q = self.qname[pid] + '::' + n.get('name', '')
        elif n.get('previousDecl') and n['previousDecl'] in self.qname:
            q = self.qname[n['previousDecl']]
        m = n.get('mangledName')
        if m and self.demangled.get(m, m) != m and 'lambda' not in self.demangled[m] and not n.get('name', '').startswith('operator'):
            q2 = qname_of(self.demangled[m], n.get('name', ''))
            if q2: q = q2
        if q:
            self.qname[nid] = q
        if m:
            self.mangled_of[nid] = m
            if body_of(n) is not None and not is_dependent(n):
                if m not in self.fun_def:
                    self.fun_def[m] = n
                    self.by_qname.setdefault(self.qname[nid], []).append(n)

    def definition(self, declid):
        m = self.mangled_of.get(declid)
        if m and m in self.fun_def:
            return self.fun_def[m]
        n = self.by_id.get(declid)
        if n is not None and n.get('kind') in FUNK and body_of(n) is not None:
            return n
        return None

def qname_of(d, name):
    """qualified name without template arguments of a demangled function name"""
    out, depth = '', 0
    for ch in d:
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif ch == '(' and depth == 0: break
        elif depth == 0: out += ch
    out = out.strip().split(' ')[-1]
    return out if out.startswith('BDD::') and out.split('::')[-1] == name else None

def body_of(fn):
    for c in fn.get('inner', ()):
        if c and c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None

def params_of(fn):
    return [c for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']

_DEP = re.compile(r'dependent type|\bITERATOR\b|\bVAR_MAP\b|\bBDD_ITERATOR\b|NODES\.\.\.|\bSTREAM\b|\bVAR_SET\b|type-parameter')
def is_dependent(fn):
    return bool(_DEP.search(fn.get('type', {}).get('qualType', ''))) 

def load(repo=REPO):
    import gc
    gc.disable()
    docs = load_docs(run_clang(repo))
    a = AST(docs)
    gc.enable()
    return a

def shape(n, k):
    """the tree of an instance of a template with value k of its parameter, with the parameter made symbolic"""
    if not isinstance(n, dict): return n
    if n.get('kind') in ('TemplateArgument', 'FullComment'): return None
    if n.get('kind') == 'SubstNonTypeTemplateParmExpr': return 'N'
    if n.get('kind') == 'PredefinedExpr': return 'function name'
    txt = lambda t: re.sub(rf'\b{k}(UL|ul)?\b', 'N', re.sub(r'const char\[\d+\]', 'text', re.sub(r'at /[^ )]*', '', t))) if isinstance(t, str) else t
    out = [n.get('kind'), n.get('name'), n.get('opcode'), n.get('value'), n.get('castKind'), n.get('isArrow'), n.get('isPostfix'), n.get('valueCategory'), txt((n.get('type') or {}).get('qualType'))]
    d = n.get('referencedDecl') or {}
    out.append((d.get('kind'), d.get('name'), txt((d.get('type') or {}).get('qualType'))))
    out.append(tuple(x for x in (shape(c, k) for c in n.get('inner', ())) if x is not None))
    return tuple(out)
if __name__ == '__main__':
    import time
    t = time.time()
    a = load()
    print(time.time() - t, len(a.by_id), len(a.fun_def))
    for q in sorted(a.by_qname):
        if 'BDD::' in q and 'std::' not in q and 'lambda' not in q:
            for f in a.by_qname[q]:
                print(q, '|', f['type']['qualType'], '|', f.get('mangledName', '')[:60])
