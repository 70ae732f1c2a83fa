"""Creates and validates planted bugs: seed(id, prop, edits, demo, needs, breaks). Works on a scratch copy of /repo."""
import os, subprocess, shutil, json, sys
W = '/tmp/mkseed'
ENV = dict(os.environ, CC='gcc', CXX='g++')
def sh(c, cwd=None, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=ENV)
def prepare():
    if not os.path.exists(W + '/repo/.git'):
        os.makedirs(W, exist_ok=True)
        sh(f'git -C /repo worktree prune; git clone -q /repo {W}/repo')
    sh(f'git -C {W}/repo fetch -q origin; git -C {W}/repo reset -q --hard origin/HEAD; git -C {W}/repo clean -fdq -e _build')
def build():
    B = W + '/repo/_build'
    r = sh(f'cmake -Wno-dev -S {W}/repo -B {B} -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g" -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_POLICY_VERSION_MINIMUM=3.5 && ninja -C {B}')
    return r.returncode == 0, r.stdout[-2000:]
def tests():
    B = W + '/repo/_build'
    r = sh(f"ctest --test-dir {B} -j8 --timeout 120 -E '^test_bdd_and_or$'")
    r2 = sh('timeout 120 ./test_bdd_collection_or_var', B + '/test')
    return r.returncode == 0 and r2.returncode == 0, r.stdout[-800:]
BASE = subprocess.run('git -C /repo rev-list --max-parents=0 HEAD', shell=True, stdout=subprocess.PIPE, text=True).stdout.strip()
DEMO_SH = '''#!/bin/bash
# run in the repository after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w %s -Iinclude -Isrc "$d/demo.cpp" %s -o "$t/demo" || exit 98
( ulimit -c 0; ulimit -v 16000000; cd "$t" && timeout 200 ./demo )
'''
SRCS = ' '.join('src/' + f for f in ['bdd_node.cpp', 'bdd_node_cache.cpp', 'bdd_memo_cache.cpp', 'bdd_node_depth.cpp', 'bdd_var.cpp', 'bdd_mgr.cpp', 'bdd_collection.cpp'])
def seed(id, prop, edits, demo, needs, breaks, flags='', srcs=SRCS):
    prepare()
    d = f'/verif/seeded/{id}'
    for f, old, new in edits:
        p = f'{W}/repo/{f}'
        s = open(p).read()
        if s.count(old) != 1: print(id, 'edit matches', s.count(old), repr(old[:60])); return False
        open(p, 'w').write(s.replace(old, new))
    # lines must be original ones
    diff = sh(f'git -C {W}/repo diff').stdout
    bl_bad = []
    for f, old, new in edits:
        bl = sh(f'git -C /repo blame -s {f}').stdout.splitlines()
        cur = sh(f'git -C {W}/repo diff -U0 {f}').stdout.splitlines()
        import re
        for l in cur:
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
            if m:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + n):
                    if not bl[i - 1].startswith('^') : bl_bad.append((f, i))
    if bl_bad: print(id, 'touches lines of own commits', bl_bad)
    ok, out = build()
    if not ok: print(id, 'does not build', out); return False
    ok, out = tests()
    if not ok: print(id, 'tests fail', out[-500:]); return False
    t = f'{W}/demo'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    open(t + '/demo.cpp', 'w').write(demo)
    open(t + '/demo.sh', 'w').write(DEMO_SH % (flags, srcs))
    os.chmod(t + '/demo.sh', 0o755)
    r = sh(f'bash {t}/demo.sh', W + '/repo')
    if r.returncode == 0: print(id, 'demo does not fail with the patch', r.stdout[-500:]); return False
    r0 = sh(f'bash {t}/demo.sh', '/repo')
    if r0.returncode != 0: print(id, 'demo fails on the unchanged tree', r0.returncode, r0.stdout[-800:]); return False
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(t + '/demo.cpp', d); shutil.copy(t + '/demo.sh', d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print(id, 'kept; demo with patch:', r.returncode, r.stdout.strip()[-150:])
    return True
HEAD = r'''
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <random>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <map>
#include <array>
#include <tuple>
#include <memory>
#include <algorithm>
#include <string>
#include <stdexcept>
#include <functional>
#include <iostream>
#include <deque>
#define private public
#include "bdd_mgr.h"
#include "bdd_collection.h"
#undef private
using namespace BDD;
#define REQ(c) do { if(!(c)) { printf("FAIL line %d: %s\n", __LINE__, #c); fflush(stdout); _Exit(1); } } while(0)
static bool ev(node_ref f, std::vector<char> a) { return f.evaluate(a.begin(), a.end()); }
// a random function of the n variables given, built bottom-up
static node_ref rnd(bdd_mgr& m, const std::vector<node_ref>& v, size_t i, std::mt19937& g) {
    if(i == v.size()) return g() % 2 ? m.topsink() : m.botsink();
    node_ref l = rnd(m, v, i + 1, g), h = rnd(m, v, i + 1, g);
    return m.unique_find(v[i].variable(), l, h);
}
'''
