"""contracts/loops.json: the loops of every function under contract in the current sources (run on an unchanged tree only)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lbddv import runner, fe
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
if __name__ == '__main__':
    sys.setrecursionlimit(30000)
    runner.G['ast'] = fe.load(); runner.G['cs'] = runner.load_contracts()
    tasks = [(k, i) for k, c in runner.G['cs'].items() if c.trusted is None and not getattr(c, 'lemma', False) for i in range(len(runner.instances(runner.G['ast'], c)))]
    out = {}
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as pool:
        for r in pool.map(runner.gen, tasks):
            if r['unsupported']: print(r['key'], r['unsupported'][:200]); continue
            out.setdefault(r['key'], set()).add(r['loops'])
    p = runner.VERIF + '/contracts/loops.json'
    json.dump({k: sorted(v) for k, v in sorted(out.items())}, open(p, 'w'), indent=0)
    print(len(out), 'functions')
