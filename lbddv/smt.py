"""Discharging obligations: each one is an SMT problem (facts and negated goal), decided by z3 (in process), then by
other configurations and cvc5 when z3 gives up."""
import os, select, signal, subprocess, tempfile, time, multiprocessing as mp
import z3

def to_smt2(facts, goal):
    s = z3.Solver()
    for f in facts: s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()

def to_smt2_group(facts, goals):
    """one text for several goals under the same facts; pick() selects all or one of them"""
    s = z3.Solver()
    for f in facts: s.add(f)
    for i, g in enumerate(goals): s.add(z3.Implies(z3.Bool(f'goal!!{i}'), z3.Not(g)))
    t = s.to_smt2()
    return t[:t.rindex('(check-sat)')]
def pick(text, n, i=None):
    if i is None: return text + '(assert (or ' + ' '.join(f'goal!!{k}' for k in range(n)) + '))\n(check-sat)\n'
    return text + ''.join(f'(assert {f"goal!!{k}" if k == i else f"(not goal!!{k})"})\n' for k in range(n)) + '(check-sat)\n'

CONFIGS = [
    ('z3', {'smt.mbqi': False, 'smt.auto_config': False, 'smt.case_split': 3}),
    ('z3', {'smt.mbqi': False, 'smt.auto_config': False, 'smt.solve_eqs': False}),
    ('z3', {'smt.mbqi': False, 'smt.auto_config': False, 'smt.arith.solver': 2}),
    ('z3', {}),
    ('z3', {'smt.mbqi': False}),
]
def run_z3(text, opts, timeout):
    """in a child process: z3 does not look at its time limit everywhere"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        v = 'unknown'
        try: v = run_z3_here(text, opts, timeout)
        except BaseException as e: v = 'error ' + str(e)[:200]
        try: os.write(w, v.encode())
        finally: os._exit(0)
    os.close(w)
    try:
        if select.select([r], [], [], timeout + 3)[0]: return os.read(r, 400).decode(errors='replace') or 'unknown'
        return 'unknown (time limit ignored)'
    finally:
        os.close(r)
        try: os.kill(pid, signal.SIGKILL)
        except ProcessLookupError: pass
        os.waitpid(pid, 0)
def run_z3_here(text, opts, timeout):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set('timeout', int(timeout * 1000))
    s.set('random_seed', 1)
    for k, v in opts.items():
        try: s.set(k, v)
        except z3.Z3Exception: s.set(k.replace('smt.', ''), v)
    s.from_string(text)
    return str(s.check())
def run_cvc5(text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + text); name = f.name
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={int(timeout*1000)}', '--full-saturate-quant' if False else '--quiet', name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 5)
        o = p.stdout.strip().splitlines()
        return o[0] if o else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(name)

def discharge(job):
    """job = (id, text, timeout) -> (id, verdict, backend, seconds)"""
    jid, text, timeout = job
    if isinstance(text, tuple): text = pick(*text)
    t0 = time.time()
    ver = f'z3-{z3.get_version_string()}'
    if timeout <= 0: plan = [(0, 2.0), ('cvc5', 3.0)]              # a group: split if this is not enough
    else: plan = [(0, min(2.0, timeout)), (1, min(2.0, timeout)), (4, min(2.0, timeout)), ('cvc5', min(6.0, timeout)), (0, timeout), (1, timeout), (4, timeout / 2), (2, timeout / 2), (3, timeout / 2), ('cvc5', timeout)]
    r = 'unknown'
    for i, lim in plan:
        try:
            r = run_cvc5(text, lim) if i == 'cvc5' else run_z3(text, CONFIGS[i][1], lim)
        except z3.Z3Exception as e:
            r = 'error ' + str(e)
        if r == 'unsat': return jid, 'proved', 'cvc5' if i == 'cvc5' else ver + (f'/cfg{i}' if i else ''), time.time() - t0
    return jid, r, 'all', time.time() - t0
