// Drivers for the properties of bdd_collection: stored BDDs are modelled by truth tables.
struct CW {
    W w; bdd_collection c; Rng& r; int K;
    struct E { TT t; std::vector<bdd_instruction> snap; std::vector<size_t> vm; };
    std::vector<E> es;
    CW(Rng& rng, int k) : w(rng, k, rng.flip()), r(rng), K(k) {}
    size_t D(size_t i) { return c.bdd_delimiters[i]; }
    // relative copy of a stored BDD
    std::vector<bdd_instruction> rel(size_t i) {
        REQ(i + 1 < c.bdd_delimiters.size() && D(i) <= D(i + 1) && D(i + 1) <= c.bdd_instructions.size(), "delimiters of bdd %zu are broken", i);
        std::vector<bdd_instruction> o;
        for(size_t q = D(i); q < D(i + 1); ++q) { bdd_instruction x = c.bdd_instructions[q]; if(!x.is_botsink() && !x.is_topsink()) { x.lo -= D(i); x.hi -= D(i); } else x.lo = x.hi = 0; o.push_back(x); }
        return o;
    }
    static int posof(const std::vector<size_t>& vm, size_t v) { for(size_t i = 0; i < vm.size(); ++i) if(vm[i] == v) return int(i); return -1; }
    bool mono(const std::vector<size_t>& vm) { for(size_t i = 0; i + 1 < vm.size(); ++i) if(vm[i] >= vm[i + 1]) return false; return true; }
    // structure and truth table of stored bdd i
    TT check(size_t i, const std::vector<size_t>& vm, bool strict = true) {
        auto v = rel(i); size_t n = v.size(); REQ(n >= 2, "stored bdd %zu has %zu instructions", i, n);
        REQ((v[n - 1].is_botsink() && v[n - 2].is_topsink()) || (v[n - 1].is_topsink() && v[n - 2].is_botsink()), "stored bdd %zu does not end in both terminals", i);
        std::vector<TT> t(n); std::set<std::array<size_t, 3>> seen; std::vector<char> reach(n, 0); reach[0] = 1;
        for(size_t q = 0; q + 2 < n; ++q) {
            REQ(!v[q].is_botsink() && !v[q].is_topsink(), "terminal inside stored bdd %zu", i);
            REQ(v[q].lo > q && v[q].hi > q && v[q].lo < n && v[q].hi < n, "arc of stored bdd %zu leaves it or points backwards", i);
            int p = posof(vm, v[q].index); REQ(p >= 0, "stored bdd %zu has foreign variable %zu", i, v[q].index);
            for(size_t s : {v[q].lo, v[q].hi}) if(s + 2 < n) REQ(!strict || posof(vm, v[s].index) > p, "stored bdd %zu is not ordered", i);
            if(strict) { REQ(v[q].lo != v[q].hi, "stored bdd %zu has an instruction with equal children", i); REQ(seen.insert({v[q].lo, v[q].hi, v[q].index}).second, "stored bdd %zu has duplicate instructions", i); }
            if(reach[q]) reach[v[q].lo] = reach[v[q].hi] = 1;
        }
        if(strict) for(size_t q = 0; q + 2 < n; ++q) REQ(reach[q], "stored bdd %zu has an unreachable instruction", i);
        for(size_t q = n; q-- > 0;) {
            if(v[q].is_botsink()) continue; if(v[q].is_topsink()) { t[q] = w.full; continue; }
            const TT& x = w.vt[posof(vm, v[q].index)]; t[q] = (x & t[v[q].hi]) | (~x & t[v[q].lo] & w.full);
        }
        return t[0];
    }
    size_t minimal(const TT& t) { node_ref x = w.build(t, 0, 0); return x.nr_nodes() + 2; }
    void add(const TT& t, const std::vector<size_t>& vm) { es.push_back({t, rel(es.size()), vm}); }
    static bool same(const std::vector<bdd_instruction>& a, const std::vector<bdd_instruction>& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(a[i] != b[i]) return false; return true; }
    void verify(const char* what) {
        REQ(c.nr_bdds() == es.size() && c.size() == es.size(), "%s: %zu stored bdds, should be %zu", what, c.nr_bdds(), es.size());
        REQ(c.bdd_delimiters[0] == 0 && c.bdd_delimiters.back() == c.bdd_instructions.size(), "%s: delimiters do not cover the instructions", what);
        for(size_t i = 0; i < es.size(); ++i) {
            REQ(same(rel(i), es[i].snap), "%s: stored bdd %zu was changed", what, i);
            TT t = check(i, es[i].vm); REQ(t == es[i].t, "%s: stored bdd %zu has the wrong function", what, i);
        }
        REQ(c.stack.empty() && c.generated_nodes.empty() && c.reduction.empty() && c.node_ref_hash.empty(), "%s: temporary state is left behind", what);
        if(!es.empty()) { size_t i = r(es.size()); ev(i); }
    }
    void ev(size_t i) {
        size_t mx = 0; for(size_t v : es[i].vm) mx = std::max(mx, v); if(mx > 1000000) return; std::vector<char> as(mx + 1); for(auto& x : as) x = r(2);
        size_t a = r(size_t(1) << K); for(int q = 0; q < K; ++q) as[es[i].vm[q]] = (a >> q) & 1;
        REQ(c.evaluate(i, as.begin(), as.end()) == es[i].t[a], "evaluate of stored bdd %zu is wrong under assignment %zu", i, a);
    }
    size_t imp() { TT t = w.rnd(); node_ref x = w.build(t, 0, 0); if(r.flip(8)) x = r.flip() ? w.m->topsink() : w.m->botsink(); t = w.tt(x); size_t n = c.add_bdd(x); LOGF("add_bdd -> %zu", n);
        REQ(n == es.size(), "add_bdd returns %zu, should be %zu", n, es.size()); add(t, w.vm); TT g = check(n, w.vm); REQ(g == t, "add_bdd stored the wrong function"); REQ(c.nr_bdd_nodes(n) == x.nr_nodes() + 2, "add_bdd stored %zu instructions for %zu nodes", c.nr_bdd_nodes(n), x.nr_nodes());
        node_ref y = c.export_bdd(*w.m, n); REQ(y == x, "export_bdd does not give back the imported bdd"); node_ref z = w.m->add_bdd(c, n); REQ(z == x, "add_bdd of the manager does not give back the imported bdd");
        if(r.flip(4)) { bdd_mgr m2; for(size_t q = 0; q <= w.vm.back() + r(3); ++q) m2.add_variable(); { node_ref u = c.export_bdd(m2, n); node_ref v = m2.add_bdd(c, n); REQ(u == v, "export_bdd and add_bdd disagree in another manager");
            for(int q = 0; q < 8; ++q) { size_t a = r(size_t(1) << K); std::vector<char> as(m2.nr_variables()); for(auto& b : as) b = r(2); for(int k = 0; k < K; ++k) as[w.vm[k]] = (a >> k) & 1; REQ(u.evaluate(as.begin(), as.end()) == t[a], "bdd exported to another manager has the wrong function"); } } }
        return n; }
    size_t pick() { return r(es.size()); }
    void conj(bool lim) {
        std::vector<size_t> l; size_t n = r.flip() ? 2 : r.flip(6) ? 2 + r(48) : 2 + r(6);
        for(size_t i = 0; i < n; ++i) l.push_back(pick());
        for(size_t i = 0; i < n; ++i) if(es[l[i]].vm != w.vm) l[i] = base();
        if(n == 49 && r.flip()) n = 49;
        TT t = w.full; for(size_t i : l) t &= es[i].t;
        size_t mn = minimal(t), limit = std::numeric_limits<size_t>::max();
        if(lim) { limit = r.flip() ? std::max<size_t>(3, mn - 2 + r(5)) : 3 + r(2 * mn); }
        size_t before = c.bdd_instructions.size(); LOGF("bdd_and of %zu limit %zu minimal %zu", n, limit, mn);
        size_t res;
        if(n == 2 && r.flip()) res = lim ? c.bdd_and(l[0], l[1], limit) : (r.flip() ? c.bdd_and(l[0], l[1]) : c.bdd_and(int(l[0]), int(l[1])));
        else res = lim ? c.bdd_and(l.begin(), l.end(), limit) : c.bdd_and(l.begin(), l.end());
        if(mn > limit) { REQ(res == std::numeric_limits<size_t>::max(), "conjunction with %zu nodes is not refused with limit %zu", mn, limit); REQ(c.bdd_instructions.size() == before, "refused conjunction leaves instructions behind"); }
        else { REQ(res != std::numeric_limits<size_t>::max(), "conjunction with %zu nodes is refused with limit %zu", mn, limit); REQ(res == es.size(), "bdd_and returns %zu, should be %zu", res, es.size()); add(t, w.vm); TT g = check(res, w.vm); REQ(g == t, "conjunction of %zu stored bdds is wrong", n); REQ(c.nr_bdd_nodes(res) == mn, "conjunction has %zu nodes, minimal are %zu", c.nr_bdd_nodes(res), mn); }
    }
    size_t base() { for(int q = 0; q < 20; ++q) { size_t i = pick(); if(es[i].vm == w.vm) return i; } return imp(); }
    void entand() { size_t i = base(), j = base(); TT t = es[i].t & es[j].t; auto a = c[i]; auto b = c[j]; LOGF("entry and"); auto e = a & b; add(t, w.vm); REQ(e.nr_nodes() == minimal(t), "entry conjunction has the wrong size"); }
    void orvar() {
        size_t i = pick(); const auto& vm = es[i].vm; std::unordered_set<size_t> pos, neg; for(size_t v : vm) { if(r.flip(3)) pos.insert(v); if(r.flip(3)) neg.insert(v); } if(r.flip(4)) pos.insert(1000000);
        auto v = es[i].snap; TT t; for(size_t a = 0; a < (size_t(1) << K); ++a) { size_t q = 0; bool hit = false; while(!v[q].is_botsink() && !v[q].is_topsink()) { bool x = (a >> posof(vm, v[q].index)) & 1; if(x ? pos.count(v[q].index) : neg.count(v[q].index)) { hit = true; break; } q = x ? v[q].hi : v[q].lo; } t[a] = hit || v[q].is_topsink(); }
        LOGF("bdd_or_var %zu pos %zu neg %zu", i, pos.size(), neg.size()); size_t n = c.bdd_or_var(i, pos, neg); REQ(n == es.size(), "bdd_or_var returns %zu, should be %zu", n, es.size());
        auto vm2 = vm; add(t, vm2); TT g = check(n, vm2); REQ(g == t, "bdd_or_var computes the wrong function");
    }
    void remove() {
        std::vector<size_t> l; size_t k = 2 + r(4); bool lastsome = r.flip(3); for(size_t i = 0; i < es.size(); ++i) if(r.flip(k)) l.push_back(i); if(lastsome && !es.empty() && (l.empty() || l.back() + 1 != es.size())) l.push_back(es.size() - 1);
        LOGF("remove %zu of %zu", l.size(), es.size()); c.remove(l.begin(), l.end()); std::vector<E> n; size_t q = 0; for(size_t i = 0; i < es.size(); ++i) { if(q < l.size() && l[q] == i) { ++q; continue; } n.push_back(es[i]); } es = n;
    }
    void rebase() {
        if(es.empty()) return; size_t i = pick(); std::vector<size_t> nv; bool monot = !r.flip(3); size_t v = r(3), gap = r.flip(6) ? size_t(1) << r(36) : 3; for(int q = 0; q < K; ++q) { nv.push_back(v); v += 1 + r(gap); } (void)monot;
        auto old = es[i].vm; LOGF("rebase %zu", i);
        size_t ol = 0; for(size_t x : old) ol = std::max(ol, x);
        if(ol > 1000000 || r.flip()) { std::unordered_map<size_t, size_t> m; for(int q = 0; q < K; ++q) m[old[q]] = nv[q]; if(r.flip()) c.rebase(i, m); else c[i].rebase(m); }
        else { size_t mx = 0; for(size_t x : old) mx = std::max(mx, x); std::vector<size_t> m(mx + 1); for(size_t x = 0; x <= mx; ++x) m[x] = r(50); for(int q = 0; q < K; ++q) m[old[q]] = nv[q]; if(r.flip()) c.rebase(i, m.begin(), m.end()); else c[i].rebase(m.begin(), m.end()); }
        for(auto& x : es[i].snap) if(!x.is_botsink() && !x.is_topsink()) x.index = nv[posof(old, x.index)];
        es[i].vm = nv;
    }
    void graph() {
        if(es.empty()) return; size_t i = pick(); auto v = rel(i); size_t n = v.size(); LOGF("graph %zu", i); std::stringstream o; c.export_graphviz(i, o);
        std::map<size_t, std::string> node; std::map<size_t, size_t> clus; std::multiset<std::array<size_t, 3>> arcs; std::vector<std::array<size_t, 2>> inv; bool in = false; size_t cl = 0, lines = 0, a, b; std::set<size_t> seen; char lab[64];
        for(std::string l; std::getline(o, l); ++lines) {
            const char* s = l.c_str();
            if(lines == 0) { REQ(l == "digraph BDD", "graph does not begin as it should"); continue; }
            if(sscanf(s, "subgraph cluster_%zu", &cl) == 1) { REQ(!in, "nested clusters"); in = true; REQ(seen.insert(cl).second, "cluster %zu occurs twice", cl); continue; }
            if(l == "}") { in = false; continue; }
            if(sscanf(s, "%zu [label=\"%60[^\"]\"];", &a, lab) == 2) { REQ(in, "node outside the clusters"); REQ(node.insert({a, lab}).second, "node %zu is written twice", a); clus[a] = cl; continue; }
            if(sscanf(s, "%zu -> %zu", &a, &b) == 2) { REQ(!in, "arc inside a cluster"); if(strstr(s, "invis")) inv.push_back({a, b}); else arcs.insert({a, b, strstr(s, "dashed") ? size_t(0) : size_t(1)}); continue; }
        }
        REQ(node.size() == n, "graph has %zu nodes, should have %zu", node.size(), n); std::multiset<std::array<size_t, 3>> want; std::set<size_t> vs;
        for(size_t q = 0; q < n; ++q) {
            REQ(node.count(q), "node %zu is missing in the graph", q); std::string w = v[q].is_topsink() ? "top" : v[q].is_botsink() ? "bot" : std::to_string(v[q].index); REQ(node[q] == w, "node %zu has label %s, should have %s", q, node[q].c_str(), w.c_str());
            bool t = v[q].is_topsink() || v[q].is_botsink(); REQ(clus[q] == (t ? std::numeric_limits<size_t>::max() : v[q].index), "node %zu is in cluster %zu", q, clus[q]); if(t) continue;
            vs.insert(v[q].index); want.insert({q, v[q].hi, 1}); want.insert({q, v[q].lo, 0});
        }
        REQ(arcs == want, "the arcs of the graph are not those of the stored bdd"); REQ(inv.size() + 1 == vs.size() || vs.empty() && inv.empty(), "%zu layout arcs for %zu variables", inv.size(), vs.size());
        auto it = vs.begin(); for(auto& x : inv) { REQ(clus[x[0]] == *it, "layout arcs are not in the order of the variables"); ++it; REQ(clus[x[1]] == *it, "layout arcs are not in the order of the variables"); }
    }
    // rebuilds stored bdds node by node
    void manual() {
        if(es.empty()) return; size_t i = pick(); auto v = rel(i); size_t n = v.size(); if(n < 3) return; bool gap = r.flip(6); LOGF("construct %zu%s", i, gap ? " with a missing arc" : "");
        bdd_collection own; if(gap) for(size_t q = r(3); q-- > 0;) own.add_bdd(w.build(w.rnd(), 0, 0)); bdd_collection& k = gap ? own : c; auto before = k.bdd_instructions; auto delims = k.bdd_delimiters;
        size_t b = k.new_bdd(); REQ(b + 1 == delims.size(), "new_bdd returns %zu, should be %zu", b, delims.size() - 1); std::vector<bdd_collection_node> nd; std::vector<std::function<void()>> todo;
        auto arc = [&](size_t q, bool hi, size_t t) { auto& x = nd[q]; if(v[t].is_topsink()) { if(hi) x.set_hi_to_1_terminal(); else x.set_lo_to_1_terminal(); } else if(v[t].is_botsink()) { if(hi) x.set_hi_to_0_terminal(); else x.set_lo_to_0_terminal(); } else if(hi) x.set_hi_arc(nd[t]); else x.set_lo_arc(nd[t]); };
        for(size_t q = 0; q + 2 < n; ++q) { nd.push_back(k.add_bdd_node(v[q].index)); REQ(nd.back().variable() == v[q].index, "new node has another variable"); }
        size_t skip = gap ? r(2 * (n - 2)) : 2 * n;
        for(size_t q = 0; q + 2 < n; ++q) for(bool hi : {false, true}) if(2 * q + hi != skip) todo.push_back([&, q, hi] { if(r.flip(4)) arc(q, hi, r(n)); arc(q, hi, hi ? v[q].hi : v[q].lo); });
        std::shuffle(todo.begin(), todo.end(), r.g); for(auto& f : todo) f();
        bool thrown = false; try { k.close_bdd(); } catch(std::runtime_error&) { thrown = true; } REQ(thrown == gap, gap ? "close_bdd accepts a missing arc" : "close_bdd throws"); if(gap) return;
        for(size_t q = 0; q < before.size(); ++q) REQ(k.bdd_instructions[q] == before[q], "construction changes another bdd"); REQ(k.bdd_delimiters.size() == delims.size() + 1 && k.bdd_instructions.size() == before.size() + n && k.bdd_delimiters.back() == before.size() + n, "constructed bdd has the wrong size");
        auto g = rel(b); REQ(g[n - 2].is_topsink() && g[n - 1].is_botsink(), "constructed bdd does not end in both terminals"); auto to = [&](size_t t) { return v[t].is_topsink() ? n - 2 : v[t].is_botsink() ? n - 1 : t; };
        for(size_t q = 0; q + 2 < n; ++q) REQ(g[q].index == v[q].index && g[q].lo == to(v[q].lo) && g[q].hi == to(v[q].hi), "node %zu of the constructed bdd is wrong", q);
        add(es[i].t, es[i].vm); auto root = c[b].root_node(); auto last = c[b].first_node_postorder(); size_t steps = 0; while(last != root && steps < n) { last = last.next_postorder(); ++steps; } REQ(steps == n - 3, "walk over the constructed bdd is wrong");
    }
    void reroute() {
        if(es.empty()) return; size_t i = pick(); size_t n = rel(i).size(); if(n < 3) return; LOGF("reroute %zu", i); bdd_collection k = c; size_t d = D(i);
        for(int q = 0; q < 12; ++q) {
            size_t x = r(n - 2), y = x + 1 + r(n - 1 - x), o = r(6); auto want = k.bdd_instructions; size_t bot = want[d + n - 1].is_botsink() ? d + n - 1 : d + n - 2, top = 2 * d + 2 * n - 3 - bot; bool hi = o & 1; size_t to = o < 2 ? d + y : o < 4 ? bot : top; auto e = k[i]; auto a = e[x], t = e[y];
            if(o < 2) { if(hi) a.set_hi_arc(t); else a.set_lo_arc(t); } else if(o < 4) { if(hi) a.set_hi_to_0_terminal(); else a.set_lo_to_0_terminal(); } else { if(hi) a.set_hi_to_1_terminal(); else a.set_lo_to_1_terminal(); }
            if(hi) want[d + x].hi = to; else want[d + x].lo = to; for(size_t j = 0; j < want.size(); ++j) REQ(want[j] == k.bdd_instructions[j], "setting the %s arc of node %zu gives instruction %zu wrong arcs", hi ? "high" : "low", x, j - d);
        }
    }
    void queries() {
        if(es.empty()) return; size_t i = pick(); auto v = rel(i); size_t n = v.size(); LOGF("queries %zu", i); std::map<size_t, size_t> cnt; for(size_t q = 0; q + 2 < n; ++q) cnt[v[q].index]++;
        std::vector<size_t> vs; for(auto& kv : cnt) vs.push_back(kv.first);
        auto e = c[i]; REQ(c.variables(i) == vs && e.variables() == vs, "variables of stored bdd %zu are wrong", i); REQ(c.nr_bdd_nodes(i) == n && e.nr_nodes() == n, "node count of stored bdd %zu is wrong", i);
        { auto [b, z] = c.get_bdd_instructions(i); auto [rb, rz] = c.get_reverse_bdd_instructions(i); const size_t d = c.bdd_delimiters[i]; REQ(size_t(z - b) == n && size_t(rz - rb) == n, "instruction ranges of stored bdd %zu have %zu and %zu elements instead of %zu", i, size_t(z - b), size_t(rz - rb), n);
          for(size_t q = 0; q < n; ++q) REQ(&*(b + q) == &c.bdd_instructions[d + q] && &*(rb + q) == &c.bdd_instructions[d + n - 1 - q], "instruction %zu of the ranges of stored bdd %zu is wrong", q, i); }
        for(size_t x = 0; x < 40; ++x) { size_t k = cnt.count(x) ? cnt[x] : 0; REQ(c.nr_bdd_nodes(i, x) == k && e.nr_nodes(x) == k, "number of nodes with variable %zu in stored bdd %zu is wrong", x, i); }
        auto root = e.root_node(); REQ(root == e[0], "root node is not the first node"); REQ(e.botsink().is_botsink() && e.topsink().is_topsink() && e.botsink().is_terminal() && e.topsink().is_terminal(), "terminal nodes wrong"); REQ(e.botsink() != e.topsink(), "terminal nodes equal"); REQ(!e.botsink().is_topsink() && !e.topsink().is_botsink(), "terminal nodes wrong");
        for(size_t q = 0; q < n; ++q) { auto x = e[q]; REQ(x.variable() == v[q].index, "variable of node %zu wrong", q); bool t = q + 2 >= n; REQ(x.is_terminal() == t, "terminal flag of node %zu wrong", q); if(t) { REQ(x.is_botsink() == v[q].is_botsink() && x.is_topsink() == v[q].is_topsink(), "kind of terminal wrong"); continue; }
            REQ(x.lo() == e[v[q].lo] && x.low() == e[v[q].lo], "low child of node %zu wrong", q); REQ(x.hi() == e[v[q].hi] && x.high() == e[v[q].hi], "high child of node %zu wrong", q); if(q > 0) REQ(x.next_postorder() == e[q - 1], "next node in postorder wrong"); }
        if(n > 2) REQ(e.first_node_postorder() == e[n - 3], "first node in postorder wrong");
        REQ(c.offset(c.bdd_instructions[D(i)]) == D(i), "offset of an instruction is wrong"); auto pr = c.get_bdd_instructions(i); REQ(size_t(pr.second - pr.first) == n, "instruction range wrong");
    }
};
static void collection_history(uint64_t seed) {
    Rng r(seed); int K = 1 + r(7); CW cw(r, K); LOGF("collection K=%d", K); size_t steps = 4 + r(26);
    for(size_t s = 0; s < steps; ++s) {
        size_t o = r(12); if(cw.es.empty()) o = 0;
        if(is("C21") && r.flip()) o = 3; if(is("C22") && r.flip()) o = 5; if(is("C23") && r.flip()) o = 7; if(is("C24") && r.flip()) o = 8; if(is("C25") && r.flip()) o = 9; if((is("C26") || is("C29") || is("C30")) && r.flip()) o = 10; if(cw.es.empty()) o = 0;
        switch(o) { case 0: case 1: case 2: cw.imp(); break; case 3: case 4: cw.conj(false); break; case 5: cw.conj(true); break; case 6: cw.entand(); break; case 7: cw.orvar(); break; case 8: if(s > 4) cw.remove(); break; case 9: cw.rebase(); break; case 10: if(is("C29")) cw.graph(); else if(is("C30")) { if(r.flip()) cw.manual(); else cw.reroute(); } else cw.queries(); break; default: if(r.flip()) cw.w.gc(); else cw.imp(); }
        cw.verify("after step");
    }
    while(!cw.es.empty() && r.flip()) cw.remove(), cw.verify("after remove");
}
static void big_collection(uint64_t seed) { // offsets beyond small numbers, long lists
    Rng r(seed); int K = 7; CW cw(r, K); LOGF("big collection"); for(int q = 0; q < 25; ++q) cw.imp(); cw.verify("big"); cw.conj(false); cw.conj(true); cw.orvar(); cw.remove(); cw.verify("big"); if(!cw.es.empty()) { cw.rebase(); if(is("C29")) for(int q = 0; q < 4; ++q) cw.graph(); cw.queries(); cw.verify("big"); }
}
static void many(uint64_t seed) { // every operand of a long list excludes an assignment no other one excludes
    Rng r(seed); int K = 6 + r(2); CW cw(r, K); LOGF("many operands"); std::vector<size_t> as(size_t(1) << K); for(size_t i = 0; i < as.size(); ++i) as[i] = i; std::shuffle(as.begin(), as.end(), r.g);
    for(size_t i = 0; i < 49; ++i) { TT t = cw.w.full; t[as[i]] = false; node_ref x = cw.w.build(t, 0, 0); size_t n = cw.c.add_bdd(x); REQ(n == cw.es.size(), "add_bdd returns a wrong index"); cw.add(t, cw.w.vm); }
    size_t all = seed == 1 ? 48 : 4;
    for(size_t q = 0; q < all; ++q) {
        size_t n = seed == 1 ? 2 + q : 2 + r(48); std::vector<size_t> l(49); for(size_t i = 0; i < 49; ++i) l[i] = i; std::shuffle(l.begin(), l.end(), r.g); l.resize(n); TT t = cw.w.full; for(size_t i : l) t &= cw.es[i].t; size_t mn = cw.minimal(t); LOGF("bdd_and of %zu", n);
        if(is("C22")) { size_t b = cw.c.bdd_instructions.size(); size_t x = cw.c.bdd_and(l.begin(), l.end(), mn - 1); REQ(x == std::numeric_limits<size_t>::max() && cw.c.bdd_instructions.size() == b, "conjunction of %zu with %zu nodes is not refused with limit %zu", n, mn, mn - 1); }
        size_t x = is("C22") ? cw.c.bdd_and(l.begin(), l.end(), mn) : cw.c.bdd_and(l.begin(), l.end()); REQ(x == cw.es.size(), "bdd_and of %zu returns %zu, should be %zu", n, x, cw.es.size()); cw.add(t, cw.w.vm); TT g = cw.check(x, cw.w.vm); REQ(g == t, "conjunction of %zu stored bdds is wrong", n); REQ(cw.c.nr_bdd_nodes(x) == mn, "conjunction of %zu has %zu nodes, minimal are %zu", n, cw.c.nr_bdd_nodes(x), mn);
    }
    cw.verify("many");
}
static void add_collection_drivers(std::vector<std::function<void(uint64_t)>>& ds) {
    for(auto* p : {"C20", "C21", "C22", "C23", "C24", "C25", "C26", "C29", "C30"}) if(is(p)) { ds.push_back(collection_history); ds.push_back(collection_history); ds.push_back(big_collection); }
    if(is("C21") || is("C22")) ds.push_back(many);
}
