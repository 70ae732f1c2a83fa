"""Runs the check of one property: extracts the code, generates every obligation of the functions the property
depends on, discharges them, searches for failing inputs on the real code, writes evidence and verdict."""
import json, os, re, shutil, subprocess, sys, time, importlib, traceback, hashlib, signal
from concurrent.futures import ProcessPoolExecutor, as_completed, wait, FIRST_COMPLETED
import multiprocessing as mp
from . import fe, sx, smt
import z3

VERIF = fe.VERIF
REPO = fe.REPO
NPROC = int(os.environ.get('LBDD_JOBS', '0')) or os.cpu_count() or 4

def load_contracts():
    CS = {}
    for m in sorted(os.listdir(VERIF + '/contracts')):
        if m.endswith('.py') and m not in ('__init__.py', 'theory.py', 'props.py'):
            for c in importlib.import_module('contracts.' + m[:-3]).CONTRACTS: CS[c.key] = c
    return CS

def instances(ast, c):
    if getattr(c, 'lemma', False): return [None]
    q = c.key.split('(')[0]
    fns = [f for f in ast.by_qname.get(q, []) if ('(' not in c.key) or q + sx.sig_of(f) == c.key]
    if len(fns) > 1 and not getattr(c, 'all_inst', False):
        pick = getattr(c, 'instance', None)
        if pick: fns = [f for f in fns if pick in fn_id(ast, f)] or fns
        fns = fns[:1]
    return fns

def fn_id(ast, fn): return 'lemma' if fn is None else ast.demangled.get(fn.get('mangledName'), ast.qname.get(fn['id'], fn.get('name', '?')))

def callees(ast, CS, fn):
    """contracts of the functions a body calls (through functions without contract)"""
    if fn is None: return ()
    out, seen, st = set(), set(), [fn]
    while st:
        f = st.pop()
        if f['id'] in seen: continue
        seen.add(f['id'])
        todo = [f]
        while todo:
            x = todo.pop()
            if not isinstance(x, dict): continue
            ids = []
            if x.get('referencedMemberDecl'): ids.append(x['referencedMemberDecl'])
            if isinstance(x.get('referencedDecl'), dict) and x['referencedDecl'].get('kind') in fe.FUNK: ids.append(x['referencedDecl']['id'])
            if x.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                pass
            for i in ids:
                d = ast.definition(i)
                if d is None: continue
                q = ast.qname.get(d['id'])
                if q is None: continue
                c = CS.get(q + sx.sig_of(d)) or CS.get(q)
                if c is not None and (not getattr(c, 'raw_handles', False) or c.client is not None):
                    out.add(c.key)
                    if c.inline_ok: st.append(d)
                else: st.append(d)
            todo.extend(x.get('inner', ()))
    return out

def closure(ast, CS, roots):
    done, st, missing = [], list(roots), []
    facts = importlib.import_module('contracts.facts')
    while st:
        k = st.pop(0)
        if k in done: continue
        c = CS.get(k)
        if c is None: missing.append(k); continue
        done.append(k)
        fns = instances(ast, c)
        if not fns: missing.append(k)
        for f in fns:
            for k2 in sorted(callees(ast, CS, f)):
                if k2 not in done: st.append(k2)
        for k2 in tuple(getattr(c, 'uses', ())) + tuple(facts.USED_BY.get(type(c).__module__.split('.')[-1], ())):
            if k2 not in done: st.append(k2)
    return done, missing

def shape(ex): return ' '.join(sorted(getattr(ex, 'loop_shape', {}).values()))
def expected_loops():
    """the loops (kind of statement, with or without invariant) of the functions the contracts were written for"""
    try: return json.load(open(VERIF + '/contracts/loops.json'))
    except OSError: return {}

# ------------------------------------------------------------------ workers (forked; AST and contracts are inherited)
G = {}
def gen(task):
    key, fi = task
    ast, CS = G['ast'], G['cs']
    c = CS[key]
    fn = instances(ast, c)[fi]
    t = time.time()
    ex = sx.Exec(ast, CS)
    sys.setrecursionlimit(30000)
    try:
        ob = ex.verify(fn, c)
    except sx.Unsupported as e:
        return dict(key=key, fi=fi, fn=fn_id(ast, fn) if fn is not None else key, unsupported=str(e), secs=time.time() - t, groups=[], kinds=[], vac=[])
    except (RecursionError, KeyError, TypeError, AttributeError, IndexError, z3.Z3Exception, ValueError) as e:
        return dict(key=key, fi=fi, fn=fn_id(ast, fn) if fn is not None else key, unsupported=f'{type(e).__name__}: {e} ' + traceback.format_exc(limit=-3), secs=time.time() - t, groups=[], kinds=[], vac=[])
    groups, order = {}, []
    for i, o in enumerate(ob):
        g = z3.simplify(o.goal) if not z3.is_quantifier(o.goal) else o.goal
        if z3.is_true(g): continue
        k = tuple(f.get_id() for f in o.facts)
        if k not in groups: groups[k] = []; order.append(k)
        groups[k].append(i)
    out = []
    for k in order:
        ids = groups[k]
        for j in range(0, len(ids), 12):
            part = ids[j:j + 12]
            out.append((part, smt.to_smt2(ob[part[0]].facts, ob[part[0]].goal) if len(part) == 1 else smt.to_smt2_group(ob[part[0]].facts, [ob[i].goal for i in part])))
    exits = ex.exits
    pick = exits[:1] + exits[len(exits) // 2:len(exits) // 2 + 1] + exits[-1:] if exits else []
    vac = [smt.to_smt2(e, z3.BoolVal(False)) for e in pick]
    G.setdefault('gen', {})[(key, fi)] = None
    return dict(key=key, fi=fi, fn=fn_id(ast, fn) if fn is not None else key, unsupported=None, secs=time.time() - t, groups=out, kinds=[o.kind for o in ob], paths=ex.npaths, vac=vac, exits=len(exits), contract=c.key, loops=shape(ex))

def split(task):
    """obligations of a group one by one: regenerate the function and emit single problems"""
    key, fi, ids = task
    ast, CS = G['ast'], G['cs']
    c = CS[key]
    ex = sx.Exec(ast, CS)
    sys.setrecursionlimit(30000)
    ob = ex.verify(instances(ast, c)[fi], c)
    return [(i, smt.to_smt2(ob[i].facts, ob[i].goal)) for i in ids]

def solve(job): return smt.discharge(job)
def vacuous(text):
    try: return smt.run_z3(text, {'smt.mbqi': False, 'smt.auto_config': False}, 4) == 'unsat'
    except z3.Z3Exception: return False

# ------------------------------------------------------------------ harness
def build_harness(outdir, col, extra=()):
    exe = f'{outdir}/harness'
    base = ['g++', '-std=c++17', '-O1', '-g', '-D_GLIBCXX_ASSERTIONS', '-ffunction-sections', '-Wl,--gc-sections', '-w', f'-I{REPO}/include', f'-I{REPO}/src'] + (['-DWITH_COLLECTION'] if col else []) + list(extra)
    for more in ([], ['-DPUBLIC_ONLY']):
        p = subprocess.run(base + more + [f'{VERIF}/replay/harness.cpp', '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0: return exe, ' '.join(more), ''
    return None, '', p.stdout[-3000:]

def run_harness(exe, prop, seeds, secs, outdir, tag=''):
    """several searches in parallel; returns (failures, episodes)"""
    ps = []
    for s in seeds:
        lg = f'{outdir}/search{tag}-{s}.log'
        o = open(f'{outdir}/search{tag}-{s}.out', 'w')
        ps.append((s, lg, o.name, subprocess.Popen([exe, prop, str(s), str(secs), lg], stdout=o, stderr=subprocess.STDOUT, cwd=outdir)))
    fails, eps = [], 0
    for s, lg, out, p in ps:
        try:
            rc = p.wait(timeout=secs * 3 + 120)
        except subprocess.TimeoutExpired:
            p.send_signal(signal.SIGTERM)
            try: p.wait(timeout=10)
            except subprocess.TimeoutExpired: p.kill(); p.wait()
            rc = 'hang'
        t = open(out, errors='replace').read()
        m = re.search(r'OK (\d+) episode', t)
        if rc == 0:
            if m: eps += int(m.group(1))
        elif rc == 3: pass
        else: fails.append(dict(seed=s, rc=rc, out=t[-3000:], log=lg))
    return fails, eps

# ------------------------------------------------------------------ one property
def known_findings():
    p = VERIF + '/known-findings'
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) (.*)', l)
            if m: out.append((m.group(1), m.group(2)))
    return out

def check(prop):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    thorough = tier == 'thorough'
    props = importlib.import_module('contracts.props')
    P = props.PROPS[prop]
    outdir = f'{VERIF}/out/{prop}'
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    notes = []
    # harness is compiled and run while obligations are discharged
    hsecs = P.get('secs', 8) if not thorough else 150
    hseeds = [seed] if not thorough else [seed + i for i in range(4)]
    def harness_job(q):
        try:
            os.setpgrp()
            exe, mode, err = build_harness(outdir, P.get('collection', False))
            if exe is None: q.put((None, mode, err, [], 0)); return
            f, e = run_harness(exe, prop, hseeds, hsecs, outdir)
            q.put((exe, mode, '', f, e))
        except BaseException as e:
            q.put((None, '', repr(e), [], 0))
    q = mp.Queue()
    hp = mp.Process(target=harness_job, args=(q,)); hp.start()

    functions, failed, unsupported, missing, solver_time, nob, ndis = [], [], [], [], 0.0, 0, 0
    backends = {}
    feerr = None
    keys = []
    if P['roots']:
        try:
            sys.setrecursionlimit(30000)
            G['ast'] = fe.load()
            G['cs'] = load_contracts()
        except fe.FEError as e:
            feerr = str(e)
    if P['roots'] and feerr is None:
        keys, missing = closure(G['ast'], G['cs'], P['roots'])
        timeout = 20 if not thorough else 60
        with ProcessPoolExecutor(max(2, NPROC - 1), mp_context=mp.get_context('fork')) as pool:
            futs = {}
            for k in keys:
                c = G['cs'][k]
                if c.trusted is None and not getattr(c, 'lemma', False) and type(c).world is sx.Contract.world: c.trusted = 'body not verified'
            tasks = [(k, i) for k in keys if G['cs'][k].trusted is None for i in range(len(instances(G['ast'], G['cs'][k])))]
            for t in tasks: futs[pool.submit(gen, t)] = ('gen', t)
            info = {}
            while futs:
                done, _ = wait(list(futs), return_when=FIRST_COMPLETED)
                for f in done:
                    kind, t = futs.pop(f)
                    if kind == 'gen':
                        r = f.result(); info[t] = r
                        if r['unsupported']: unsupported.append((r['fn'], r['unsupported'])); continue
                        nob += len(r['kinds'])
                        n = len(r['kinds'])
                        r['open'] = sum(len(ids) for ids, _ in r['groups'])
                        r['ok'] = n - r['open']; ndis += r['ok']
                        backends['simplifier'] = backends.get('simplifier', 0) + r['ok']
                        for gi, (ids, text) in enumerate(r['groups']):
                            futs[pool.submit(solve, (gi, text if len(ids) == 1 else (text, len(ids)), timeout if len(ids) == 1 else 0))] = ('solve', (t, ids, text))
                        r['vacres'] = []
                        for v in r['vac']: futs[pool.submit(vacuous, v)] = ('vac', t)
                        r['groups'] = len(r['groups']); r['vac'] = None
                    elif kind == 'solve':
                        key, ids, text = t; r = info[key]
                        _, verdict, be, secs = f.result(); solver_time += secs
                        if verdict == 'proved':
                            r['ok'] += len(ids); ndis += len(ids); backends[be] = backends.get(be, 0) + len(ids)
                        elif len(ids) > 1:
                            for j, i in enumerate(ids):
                                futs[pool.submit(solve, (i, (text, len(ids), j), timeout))] = ('solve', (key, [i], None))
                        else:
                            failed.append((r['fn'], r['kinds'][ids[0]], verdict, (key, ids[0])))
                    elif kind == 'vac':
                        info[t]['vacres'].append(f.result())
            # the invariants belong to the loops they were written for: a proof that fails for other loops decides nothing
            exp = expected_loops()
            for t in tasks:
                r = info[t]
                bad = [x for x in failed if x[3][0] == t]
                if not bad or r['unsupported'] or r['loops'] in exp.get(t[0], [r['loops']]): continue
                failed = [x for x in failed if x[3][0] != t]
                nob -= len(r['kinds']); ndis -= r['ok']
                r['unsupported'] = f"loops changed ({exp[t[0]][0] or 'none'} -> {r['loops'] or 'none'}) and the invariants do not fit them: {len(bad)} obligations open, first: {bad[0][1]} ({bad[0][2]})"
                unsupported.append((r['fn'], r['unsupported']))
            # texts of failed obligations
            for fn, kd, verdict, (key, i) in failed[:5]:
                try:
                    text = pool.submit(split, (key[0], key[1], [i])).result()[0][1]
                    open(f'{outdir}/obligation-{len(os.listdir(outdir))}.smt2', 'w').write(f'; {fn}\n; {kd}\n{text}')
                except Exception: pass
            for t in tasks:
                r = info[t]
                if r['unsupported']: continue
                v = r['vacres']
                if v and all(v): failed.append((r['fn'], 'vacuity: no execution reaches the end of the function', 'vacuous', (t, -1)))
                functions.append(dict(function=r['fn'], contract=r['key'], obligations=len(r['kinds']), discharged=r['ok'], paths=r['paths'], solver_problems=r['groups'], generation_s=round(r['secs'], 2)))
    trusted = [f"{k}: {G['cs'][k].trusted}" for k in keys if G.get('cs') and G['cs'][k].trusted]
    exe, mode, herr, hf, eps = q.get(); hp.join()
    bounded = []
    if feerr: bounded.append(dict(function='*', reason='sources could not be extracted: ' + feerr[:500]))
    for fn, why in unsupported: bounded.append(dict(function=fn, reason='outside the verifier\'s reach: ' + why[:300]))
    for k in missing: bounded.append(dict(function=k, reason='no function of this name and signature in the sources any more'))
    for b in P.get('bounded', ()): bounded.append(b)
    if exe is None: notes.append('the search on the real code could not be built: ' + herr[-400:])
    # a failed or unreachable proof: search longer for a failing input
    if not hf and exe is not None and (failed or unsupported or missing or feerr):
        f2, e2 = run_harness(exe, prop, [seed * 31 + 7 + i for i in range(max(2, NPROC - 1))], int(os.environ.get("LBDD_LONG", P.get("long", 100))), outdir, 'long')
        hf += f2; eps += e2
    # verdict
    viol = []
    if hf:
        h = hf[0]
        rp = f'{outdir}/replay.txt'
        ep = re.search(r'episode seed=(\d+)', h['out'])
        if not ep:
            try: ep = re.search(r'episode seed (\d+)', open(h['log'], errors='replace').read())
            except OSError: pass
        with open(rp, 'w') as w:
            w.write(f"property {prop}: failing input found on the real code\n{h['out']}\n")
            if ep: w.write(f"replay: {exe} {prop} {h['seed']} 1 /tmp/replay.log {ep.group(1)}\n")
            w.write('build: g++ -std=c++17 -O1 -g -D_GLIBCXX_ASSERTIONS -ffunction-sections -Wl,--gc-sections -w -I%s/include -I%s/src %s %s %s/replay/harness.cpp\n' % (REPO, REPO, '-DWITH_COLLECTION' if P.get('collection') else '', mode, VERIF))
            for fn, kd, v, _ in failed: w.write(f'failed obligation: {fn} / {kd} ({v})\n')
            try: w.write('--- log of the episode\n' + open(h['log'], errors='replace').read()[-20000:])
            except OSError: pass
        viol.append((rp, '', h['out'].strip().splitlines()[0] if h['out'].strip() else str(h['rc'])))
    elif failed:
        rp = f'{outdir}/replay.txt'
        with open(rp, 'w') as w:
            w.write(f'property {prop}: obligations that could not be discharged\n')
            for fn, kd, v, _ in failed: w.write(f'{fn} / {kd}\n  verifier: {v}\n')
            w.write(f'search on the real code: {eps} episodes, no failing input\n')
            for f in sorted(os.listdir(outdir)):
                if f.endswith('.smt2'): w.write(f'solver problem: {outdir}/{f}\n')
        viol.append((rp, ' no-failing-input-found', f'{failed[0][0]} / {failed[0][1]}'))
    z3v = z3.get_version_string()
    level = P.get('level', 'proof') if nob else 'exploration'
    cov = dict(functions_under_contract=len(functions), obligations=nob, discharged=ndis, checker_cmd=f'python3-vt check.py {prop}',
               trusted_base=props.TRUSTED + P.get('trusted', []) + ([f'contract not verified against a body: {t}' for t in trusted]),
               backends=backends, solver_time_s=round(solver_time, 1), functions=functions, bounded=bounded,
               search_episodes=eps, search_mode=mode or 'full', notes=notes,
               extraction='clang 18 AST of all files in /repo/src and /repo/include, one translation unit; dropped: include guards and comments (comments do not reach the AST); nothing rewritten; functions without a contract are listed in DESIGN.md')
    if level == 'exploration':
        cov.update(evaluations=eps, distinct_nontrivial=eps, rule='one evaluation is one randomly generated episode (a history of operations on a fresh manager or collection, seed-derived, each with its own seed) compared step by step with a truth-table model', samples=[open(h).read()[-1500:] for h in [f'{outdir}/search-{hseeds[0]}.log'] if os.path.exists(h)])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=props.ASSUMPTIONS + P.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    for p, w in known_findings():
        if p == prop: print(f'KNOWN-FINDING: property={p} {w}')
    print(f'{prop}: {len(functions)} functions, {ndis}/{nob} obligations discharged, {len(unsupported)} beyond reach, {len(missing)} missing, {eps} episodes, {time.time()-t0:.1f}s (solver {solver_time:.0f}s)')
    for fn, why in unsupported: print(f'  bounded only: {fn}: {why.splitlines()[0][:200]}')
    for k in missing: print(f'  bounded only: {k}: not found')
    for fn, kd, v, _ in failed[:20]: print(f'  not discharged: {fn} / {kd} ({v})')
    for n in notes: print('  note: ' + n[:300])
    if viol:
        rp, suf, what = viol[0]
        print('  ' + what)
        print(f'VIOLATION property={prop} replay={rp}{suf}')
        return 1
    try: os.unlink(exe) if exe else None
    except OSError: pass
    return 0
