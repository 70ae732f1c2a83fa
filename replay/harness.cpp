// Searches for a concrete failing input of one property on the real code (all sources of /repo are included).
// usage: harness PROP SEED SECONDS LOGFILE ; exit 0: nothing found, 1: "FAIL PROP what", abort: an internal assertion failed
#include "lib.h"
#include <bitset>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <map>
#include <random>
#include <unistd.h>
#include <sys/resource.h>
using namespace BDD;
typedef std::bitset<256> TT;
static FILE* LOG; static std::string PROP; static uint64_t EP; static uint64_t SEED;
static void logf_(const char* f, ...) { va_list a; va_start(a, f); vfprintf(LOG, f, a); va_end(a); fputc('\n', LOG); }
#define LOGF(...) logf_(__VA_ARGS__)
[[noreturn]] static void FAILF(const char* f, ...) {
    va_list a; va_start(a, f); char b[2000]; vsnprintf(b, sizeof b, f, a); va_end(a);
    LOGF("FAIL %s", b); fflush(LOG);
    printf("FAIL %s episode seed=%llu: %s\n", PROP.c_str(), (unsigned long long)EP, b); fflush(stdout); _exit(1);
}
#define REQ(c, ...) do { if(!(c)) FAILF(__VA_ARGS__); } while(0)
static void onsig(int s) { LOGF("signal %d", s); fflush(LOG); const char m[] = "ABORT\n"; (void)!write(1, m, sizeof m - 1); signal(s, SIG_DFL); raise(s); }
struct Rng { std::mt19937_64 g; explicit Rng(uint64_t s) : g(s) {} size_t operator()(size_t n) { return n ? g() % n : 0; } bool flip(size_t n = 2) { return (*this)(n) == 0; } };
static bool is(const char* p) { return PROP == p; }

struct W {
    bdd_mgr* m; Rng& r; int K; std::vector<size_t> vm; std::vector<size_t> inv;
    struct H { node_ref r; TT t; };
    std::vector<H> pool; std::vector<node_ref> extra; TT full; std::vector<TT> vt;
    struct Rec { int op; TT a, b, c; }; 
    W(Rng& rng, int k, bool gaps) : r(rng), K(k) {
        m = new bdd_mgr(); size_t v = gaps ? r(3) : 0;
        for(int i = 0; i < K; ++i) { vm.push_back(v); v += 1 + (gaps ? r(3) : 0); }
        for(size_t i = 0; i < (1u << K); ++i) full[i] = 1;
        for(int i = 0; i < K; ++i) { TT t; for(size_t a = 0; a < (1u << K); ++a) t[a] = (a >> i) & 1; vt.push_back(t); }
        if(r.flip()) for(size_t i = 0; i <= vm.back(); ++i) m->add_variable(); else { for(int i : std::vector<int>{K - 1}) m->projection(vm[i]); }
        remap();
    }
    void remap() { inv.assign(m->nr_variables() + 1, size_t(-1)); for(int i = 0; i < K; ++i) if(vm[i] < inv.size()) inv[vm[i]] = i; }
    ~W() { pool.clear(); extra.clear(); delete m; }
    // truth table by walking the nodes
    std::unordered_map<node*, TT> memo;
    TT ttw(node* p, int depth, size_t above) {
        if(p == m->node_cache_.botsink() ) return TT();
        if(p == m->node_cache_.topsink() ) return full;
        REQ(depth < 5000, "a BDD does not end in terminals");
        auto it = memo.find(p); if(it != memo.end()) return it->second;
        size_t v = p->index;
        REQ(v < inv.size() && inv[v] != size_t(-1), "node with foreign variable %zu", v);
        if(is("C06")) { REQ(p->lo != p->hi, "node with equal children"); for(node* q : {p->lo, p->hi}) if(!q->is_terminal()) REQ(v < q->index, "variables %zu then %zu on a path", v, size_t(q->index)); }
        TT l = ttw(p->lo, depth + 1, v), h = ttw(p->hi, depth + 1, v);
        TT t = (vt[inv[v]] & h) | (~vt[inv[v]] & l & full);
        memo[p] = t; return t;
    }
    TT tt(node_ref x) { memo.clear(); REQ(x.address() != nullptr, "null handle"); return ttw(x.address(), 0, 0); }
    bool evalat(node_ref x, size_t a) { std::vector<char> as(m->nr_variables() + 1, 0); for(size_t i = 0; i < as.size(); ++i) as[i] = r(2); for(int i = 0; i < K; ++i) if(vm[i] < as.size()) as[vm[i]] = (a >> i) & 1; return x.evaluate(as.begin(), as.end()); }
    void expect(node_ref x, const TT& t, const char* what) {
        TT g = tt(x);
        if(g != t) { size_t a = 0; while(g[a] == t[a]) ++a; FAILF("%s: wrong value under assignment %zu (got %d)", what, a, int(g[a])); }
        size_t a = r(size_t(1) << K); REQ(evalat(x, a) == t[a], "%s: evaluate disagrees under assignment %zu", what, a);
    }
    TT rnd() { TT t; int k = r(5); for(size_t i = 0; i < (1u << K); ++i) t[i] = k == 0 ? r.flip(8) : k == 1 ? !r.flip(8) : r.flip(); return t & full; }
    node_ref build(const TT& t, int lev, size_t base) { // cofactors by variable lev.. ; base: assignment of earlier variables
        if(lev == K) return t[base] ? m->topsink() : m->botsink();
        node_ref l = build(t, lev + 1, base), h = build(t, lev + 1, base | (size_t(1) << lev));
        if(l == h) return l;
        return m->unique_find(vm[lev], l, h);
    }
    void put(node_ref x, const TT& t) { if(pool.size() >= 24) { size_t i = r(pool.size()); pool[i].r = x; pool[i].t = t; } else pool.push_back({x, t}); }
    H& pick() { return pool[r(pool.size())]; }
    // every node in the unique tables
    std::vector<node*> nodes() { std::vector<node*> n; for(auto& v : m->vars) for(size_t k = 0; k <= v.mask; ++k) if(v.base[k]) n.push_back(v.base[k]); return n; }
    size_t reach() { std::set<node*> s; std::vector<node*> st; for(auto& h : pool) st.push_back(h.r.address()); for(auto& e : extra) st.push_back(e.address());
        while(!st.empty()) { node* p = st.back(); st.pop_back(); if(p == m->node_cache_.botsink() || p == m->node_cache_.topsink() || s.count(p)) continue; s.insert(p); st.push_back(p->lo); st.push_back(p->hi); } return s.size(); }
    void check_all() {
        for(auto& h : pool) { TT g = tt(h.r); REQ(g == h.t, "a stored BDD changed its function"); }
        if(is("C05") || is("C07")) for(auto& a : pool) for(auto& b : pool) REQ((a.r == b.r) == (a.t == b.t), "handles %s although the functions %s", a.r == b.r ? "equal" : "differ", a.t == b.t ? "are equal" : "differ");
        for(auto& h : pool) { size_t a = r(size_t(1) << K); REQ(evalat(h.r, a) == h.t[a], "evaluate of a stored BDD is wrong"); }
        if(is("C06") || is("C07")) {
            std::set<std::array<size_t, 3>> seen; std::set<node*> done; std::vector<node*> st; for(auto& h : pool) st.push_back(h.r.address());
            while(!st.empty()) { node* p = st.back(); st.pop_back(); if(p->is_terminal() || !done.insert(p).second) continue; st.push_back(p->lo); st.push_back(p->hi);
                REQ(p->lo != p->hi, "node with equal children");
                REQ(seen.insert({size_t(p->index), size_t(p->lo), size_t(p->hi)}).second, "two nodes with the same variable and children");
                REQ(m->unique_find(p->index, node_ref(p->lo), node_ref(p->hi)).address() == p, "an existing node is not found again"); }
        }
#ifndef PUBLIC_ONLY
        if(is("C07") || is("C10") || is("C11") || is("C09") || is("C27")) {
            auto ns = nodes(); std::set<node*> s(ns.begin(), ns.end());
            REQ(s.size() == ns.size(), "a node is stored twice in the unique tables");
            REQ(m->nr_nodes() == 2 + ns.size(), "number of nodes is %zu, unique tables hold %zu", m->nr_nodes(), ns.size());
            std::map<node*, long> ref; for(auto* p : ns) { ref[p->lo]++; ref[p->hi]++; }
            for(auto& h : pool) ref[h.r.address()]++; for(auto& h : extra) ref[h.address()]++;
            if(is("C07")) { std::set<std::array<size_t, 3>> seen; for(auto* p : ns) REQ(seen.insert({size_t(p->index), size_t(p->lo), size_t(p->hi)}).second, "two stored nodes with the same variable and children");
                for(auto* p : ns) REQ(m->vars[p->index].unique_table_lookup(p->lo, p->hi) == p, "an existing node is not found");
                for(auto& v : m->vars) { size_t f = 0; for(size_t k = 0; k <= v.mask; ++k) f += v.base[k] == nullptr; REQ(f == v.free, "number of free slots is %zu, should be %zu", v.free, f); } }
            if(is("C10") || is("C09")) for(auto* p : ns) REQ(p->xref == ref[p], "reference count %d, but %ld references", p->xref, ref[p]);
        }
        if(is("C14")) for(auto* p : nodes()) REQ(p->marked_ == 0, "a mark is left behind");
#endif
    }
    void gc() { LOGF("collect_garbage"); m->collect_garbage(); if(is("C09")) REQ(m->nr_nodes() == 2 + reach(), "after garbage collection %zu nodes, reachable %zu", m->nr_nodes(), 2 + reach()); }
};

// ------------------------------------------------------------------------------------------------ structural queries
static void check_queries(W& w, node_ref x) {
    std::set<node*> s; std::set<size_t> vars; std::vector<node*> st{x.address()};
    while(!st.empty()) { node* p = st.back(); st.pop_back(); if(p->is_terminal() || !s.insert(p).second) continue; vars.insert(p->index); st.push_back(p->lo); st.push_back(p->hi); }
    REQ(x.nr_nodes() == s.size(), "nr_nodes %zu, should be %zu", x.nr_nodes(), s.size());
    REQ(x.variables() == std::vector<size_t>(vars.begin(), vars.end()), "variables wrong");
    {
        auto po = x.nodes_postorder(); REQ(po.size() == s.size(), "postorder has %zu nodes, should have %zu", po.size(), s.size());
        std::map<node*, size_t> pos; for(size_t i = 0; i < po.size(); ++i) { REQ(s.count(po[i].address()), "postorder lists a foreign node"); REQ(pos.insert({po[i].address(), i}).second, "postorder lists a node twice"); }
        for(auto& n : po) for(node* q : {n.address()->lo, n.address()->hi}) if(!q->is_terminal()) REQ(pos[q] < pos[n.address()], "postorder lists a parent before its child");
        auto bf = x.nodes_bfs(); REQ(bf.size() == s.size(), "bfs has %zu nodes, should have %zu", bf.size(), s.size());
        std::map<node*, size_t> lev; std::vector<node*> cur{x.address()}; size_t d = 0;
        if(!x.is_terminal()) { lev[x.address()] = 0; while(!cur.empty()) { std::vector<node*> nx; ++d; for(auto* p : cur) for(node* q : {p->lo, p->hi}) if(!q->is_terminal() && !lev.count(q)) { lev[q] = d; nx.push_back(q); } cur = nx; } }
        std::set<node*> sb; size_t last = 0; for(auto& n : bf) { REQ(s.count(n.address()) && sb.insert(n.address()).second, "bfs lists a foreign node or a node twice"); REQ(lev[n.address()] >= last, "bfs order is not breadth first"); last = lev[n.address()]; }
        if(!bf.empty()) REQ(bf[0] == x, "bfs does not start with the root");
        for(auto* p : s) REQ(p->marked_ == 0, "a mark is left behind");
        if(!po.empty()) { auto y = po[w.r(po.size())]; REQ(y.reference_count() >= 1, "a listed node has no reference"); }
    }
    if(is("C14") && !s.empty()) { // marks set and cleared by the user
        std::vector<node*> ns(s.begin(), s.end()); size_t k = w.r(4); std::map<node*, bool> m0;
        for(auto* p : ns) if(k == 0 || !w.r.flip(k + 1)) node_ref(p).mark();
        for(auto* p : ns) m0[p] = p->marked_;
        auto y = node_ref(ns[w.r(ns.size())]); std::set<node*> rs; std::vector<node*> q{y.address()}; while(!q.empty()) { node* p = q.back(); q.pop_back(); if(p->is_terminal() || !rs.insert(p).second) continue; q.push_back(p->lo); q.push_back(p->hi); }
        y.unmark_rec(); REQ(!y.marked(), "unmark_rec leaves the root marked");
        for(auto* p : ns) { if(k == 0 && rs.count(p)) REQ(!p->marked_, "unmark_rec leaves a mark behind"); if(!rs.count(p)) REQ(bool(p->marked_) == m0[p], "unmark_rec changes a mark elsewhere"); REQ(m0[p] || !p->marked_, "unmark_rec marks a node");
            if(m0[p] && !p->marked_) for(node* c : {p->lo, p->hi}) REQ(c->is_terminal() || !c->marked_, "unmark_rec clears a node but not its child"); }
        for(auto* p : ns) node_ref(p).unmark();
    }
    // exactly one solution over the variables that occur
    size_t cnt = 0; std::vector<size_t> vv(vars.begin(), vars.end());
    if(vv.size() <= 12) { for(size_t a = 0; a < (size_t(1) << vv.size()); ++a) { std::vector<char> as(w.m->nr_variables() + 1, 0); for(size_t i = 0; i < vv.size(); ++i) as[vv[i]] = (a >> i) & 1; cnt += x.evaluate(as.begin(), as.end()); }
        REQ(x.exactly_one_solution() == (cnt == 1), "exactly_one_solution is %d, number of solutions is %zu", int(x.exactly_one_solution()), cnt); }
    REQ(x.botsink() == w.m->botsink() && x.topsink() == w.m->topsink(), "terminals found from a node are wrong");
    REQ(x.find_bdd_mgr() == w.m, "find_bdd_mgr is wrong");
}
// the printed graph: two lines per reachable node, one per arc
static void check_print(W& w, node_ref x) {
    std::set<node*> s; std::vector<node*> st{x.address()}; while(!st.empty()) { node* p = st.back(); st.pop_back(); if(p->is_terminal() || !s.insert(p).second) continue; st.push_back(p->lo); st.push_back(p->hi); }
    auto id = [&](node* p) -> std::string { if(p == w.m->node_cache_.botsink()) return "bot"; if(p == w.m->node_cache_.topsink()) return "top"; return "\"" + std::to_string(size_t(p->index)) + "," + std::to_string(size_t(p)) + "\""; };
    std::map<std::string, size_t> want; for(node* p : s) { want[id(p) + " -> " + id(p->lo) + " [label=\"0\"]"]++; want[id(p) + " -> " + id(p->hi) + " [label=\"1\"]"]++; }
    std::stringstream o; x.print(o); std::vector<std::string> ls; for(std::string l; std::getline(o, l);) ls.push_back(l);
    REQ(ls.size() >= 2 && ls[0] == "digraph BDD {" && ls.back() == "}", "printed graph does not begin and end as it should");
    std::map<std::string, size_t> got; for(size_t i = 1; i + 1 < ls.size(); ++i) got[ls[i]]++;
    for(auto& g : got) { REQ(want.count(g.first), "printed line %s belongs to no arc", g.first.c_str()); REQ(g.second == 1, "line %s is printed %zu times", g.first.c_str(), g.second); }
    for(auto& g : want) REQ(got.count(g.first), "arc %s is not printed", g.first.c_str());
    for(node* p : s) REQ(p->marked_ == 0, "printing leaves a mark behind");
}
static size_t popc(size_t x) { return __builtin_popcountll(x); }

// ------------------------------------------------------------------------------------------------ operations of a manager
static void history(uint64_t seed) {
    Rng r(seed); int K = 1 + r(8); if(is("C05") || is("C07") || is("C09") || is("C08")) K = 3 + r(6);
    LOGF("history K=%d", K);
    W w(r, K, r.flip()); size_t ngc = 0; size_t gcrate = r.flip() ? 5 : r.flip() ? 12 : 60;
    w.put(w.m->botsink(), TT()); w.put(w.m->topsink(), w.full);
    for(int i = 0; i < 3; ++i) { TT t = w.rnd(); w.put(w.build(t, 0, 0), t); }
    std::map<std::string, int> focus; size_t steps = 40 + r(120);
    std::vector<W::Rec> done;
    int fo = is("C01") ? 0 : is("C02") ? 1 : is("C03") ? 2 : is("C04") ? 3 : is("C16") ? 6 : is("C17") ? 7 : is("C18") ? 8 : (is("C14") || is("C19")) ? 9 : is("C15") ? 10 : is("C10") ? 11 : is("C13") ? 12 : -1;
    for(size_t s = 0; s < steps; ++s) {
        int op = (fo >= 0 && r.flip()) ? fo : int(r(13));
        size_t i = r(w.pool.size()), j = r(w.pool.size()), k = r(w.pool.size());
        node_ref a = w.pool[i].r, b = w.pool[j].r, c = w.pool[k].r; TT ta = w.pool[i].t, tb = w.pool[j].t, tc = w.pool[k].t;
        if(op == 12 && !done.empty()) { // repeat an earlier operation on the same functions
            auto d = done[r(done.size())]; ta = d.a; tb = d.b; tc = d.c; a = w.build(ta, 0, 0); b = w.build(tb, 0, 0); c = w.build(tc, 0, 0); op = r(3);
        }
        size_t nv0 = w.m->nr_variables();
        if(op <= 2) done.push_back({op, ta, tb, tc});
        if(op == 0) {
            LOGF("and/or #%zu #%zu", i, j);
            for(int o : {int(r(2)), int(r(2))}) {
                if(o == 0) { node_ref x = r.flip() ? w.m->and_rec(a, b) : (a & b); w.expect(x, ta & tb, "conjunction"); w.put(x, ta & tb); }
                else { node_ref x = r.flip() ? w.m->or_rec(a, b) : (a || b); w.expect(x, ta | tb, "disjunction"); w.put(x, ta | tb); }
            }
        } else if(op == 1) {
            LOGF("xor/negate #%zu #%zu", i, j);
            node_ref x = r.flip() ? w.m->xor_rec(a, b) : (a ^ b); w.expect(x, ta ^ tb, "exclusive or"); w.put(x, ta ^ tb);
            node_ref y = r.flip() ? w.m->negate(a) : !a; w.expect(y, ~ta & w.full, "negation"); w.put(y, ~ta & w.full);
            if(r.flip()) { node_ref z = w.m->or_rec(a, b); w.expect(z, ta | tb, "disjunction"); z = w.m->and_rec(a, b); w.expect(z, ta & tb, "conjunction"); }
        } else if(op == 2) {
            LOGF("ite #%zu #%zu #%zu", i, j, k);
            if(r.flip(4)) { int q = r(6); if(q == 0) b = w.m->botsink(), tb = TT(); if(q == 1) b = w.m->topsink(), tb = w.full; if(q == 2) c = w.m->botsink(), tc = TT(); if(q == 3) c = w.m->topsink(), tc = w.full; if(q == 4) b = a, tb = ta; if(q == 5) c = a, tc = ta; }
            node_ref x = w.m->ite_rec(a, b, c); TT t = (ta & tb) | (~ta & tc & w.full); w.expect(x, t, "if-then-else"); w.put(x, t);
        } else if(op == 3) {
            size_t n = 2 + r(7); std::vector<node_ref> v; TT ca = w.full, co, cx; LOGF("n-ary n=%zu", n);
            for(size_t q = 0; q < n; ++q) { auto& h = w.pick(); v.push_back(h.r); ca &= h.t; co |= h.t; cx ^= h.t; }
            int z = r(3);
            if(n <= 5 && r.flip()) {
                auto f = [&](auto g) { return n == 2 ? g(v[0], v[1]) : n == 3 ? g(v[0], v[1], v[2]) : n == 4 ? g(v[0], v[1], v[2], v[3]) : g(v[0], v[1], v[2], v[3], v[4]); };
                if(z == 0) { node_ref x = f([&](auto... q) { return w.m->and_rec(q...); }); w.expect(x, ca, "conjunction of arguments"); w.put(x, ca); }
                if(z == 1) { node_ref x = f([&](auto... q) { return w.m->or_rec(q...); }); w.expect(x, co, "disjunction of arguments"); w.put(x, co); }
                if(z == 2) { node_ref x = f([&](auto... q) { return w.m->xor_rec(q...); }); w.expect(x, cx, "parity of arguments"); w.put(x, cx); }
            } else {
                if(z == 0) { node_ref x = w.m->and_rec(v.begin(), v.end()); w.expect(x, ca, "conjunction of a range"); w.put(x, ca); }
                if(z == 1) { node_ref x = w.m->or_rec(v.begin(), v.end()); w.expect(x, co, "disjunction of a range"); w.put(x, co); }
                if(z == 2) { node_ref x = w.m->xor_rec(v.begin(), v.end()); w.expect(x, cx, "parity of a range"); w.put(x, cx); }
            }
        } else if(op == 4) { if(r.flip(gcrate / 3 + 1)) { w.gc(); ++ngc; for(auto& h : w.pool) REQ(w.tt(h.r) == h.t, "a BDD changed by garbage collection"); }
        } else if(op == 5) { // drop and copy handles
            LOGF("handles"); size_t q = r(6);
            if(q == 0 && w.pool.size() > 3) { std::swap(w.pool[i], w.pool.back()); w.pool.pop_back(); }
            else if(q == 1) { node_ref cp(a); w.extra.push_back(cp); if(w.extra.size() > 5) w.extra.erase(w.extra.begin() + r(w.extra.size())); }
            else if(q == 2) { w.pool[i].r = w.pool[i].r; REQ(w.pool[i].r.reference_count() >= 1, "self assignment"); }
            else if(q == 3) { node_ref t2(std::move(w.pool[i].r)); w.pool[i].r = t2; }
            else if(q == 4) { node_ref t2; t2 = a; t2 = b; node_ref t3(t2); REQ(t3 == b, "copy of a handle differs"); t3 = node_ref(); REQ(t3.address() == nullptr, "assigned null handle"); }
            else { TT t = w.rnd(); LOGF("build"); w.put(w.build(t, 0, 0), t); }
        } else if(op == 6) {
            size_t n = 1 + r(6); std::vector<node_ref> v; std::vector<TT> ts; size_t B = r(n + 3); LOGF("cardinality n=%zu b=%zu", n, B);
            bool lits = r.flip(); for(size_t q = 0; q < n; ++q) { auto& h = w.pick(); if(lits) { int u = r(K); bool sg = r.flip(3); v.push_back(sg ? w.m->negate(w.m->projection(w.vm[u])) : w.m->projection(w.vm[u])); ts.push_back(sg ? ~w.vt[u] & w.full : w.vt[u]); } else { v.push_back(h.r); ts.push_back(h.t); } }
            std::vector<size_t> cnt(1u << K); for(size_t q = 0; q < (1u << K); ++q) for(auto& t : ts) cnt[q] += t[q];
            auto tab = [&](auto f) { TT t; for(size_t q = 0; q < (1u << K); ++q) t[q] = f(cnt[q]); return t; };
            int z = r(7); node_ref x; TT t; auto bg = v.begin(), en = v.end(); const char* nm = "";
            if(z == 0) { nm = "at_most"; x = w.m->at_most(bg, en, B); t = tab([&](size_t q) { return q <= B; }); }
            if(z == 1) { nm = "at_least"; x = w.m->at_least(bg, en, B); t = tab([&](size_t q) { return q >= B; }); }
            if(z == 2) { nm = "cardinality"; x = w.m->cardinality(bg, en, B); t = tab([&](size_t q) { return q == B; }); }
            if(z == 3) { nm = "at_most_one"; x = w.m->at_most_one(bg, en); t = tab([&](size_t q) { return q <= 1; }); }
            if(z == 4) { nm = "at_least_one"; x = w.m->at_least_one(bg, en); t = tab([&](size_t q) { return q >= 1; }); }
            if(z == 5) { nm = "simplex"; x = w.m->simplex(bg, en); t = tab([&](size_t q) { return q == 1; }); }
            if(z == 6) { nm = "all_false"; x = w.m->all_false(bg, en); t = tab([&](size_t q) { return q == 0; }); }
            w.expect(x, t, nm); w.put(x, t);
        } else if(op == 7) { // rebase: order preserving map into the variables of the world
            auto vs = a.variables(); std::vector<int> src; for(size_t v : vs) src.push_back(int(w.inv[v])); LOGF("rebase #%zu", i);
            std::vector<int> tgt; { std::vector<int> all(K); for(int q = 0; q < K; ++q) all[q] = q; std::shuffle(all.begin(), all.end(), r.g); all.resize(src.size()); std::sort(all.begin(), all.end()); tgt = all; }
            TT t; for(size_t as = 0; as < (1u << K); ++as) { size_t o = 0; for(size_t q = 0; q < src.size(); ++q) if((as >> tgt[q]) & 1) o |= size_t(1) << src[q]; t[as] = ta[o]; }
            node_ref x;
            if(r.flip()) { std::unordered_map<size_t, size_t> mp; for(size_t q = 0; q < src.size(); ++q) mp[w.vm[src[q]]] = w.vm[tgt[q]]; x = w.m->rebase(a, mp); }
            else { std::vector<size_t> mp(w.m->nr_variables(), 0); for(size_t q = 0; q < src.size(); ++q) mp[w.vm[src[q]]] = w.vm[tgt[q]]; x = w.m->rebase(a, mp.begin(), mp.end()); }
            w.expect(x, t, "rebase"); w.expect(a, ta, "operand of rebase"); w.put(x, t);
        } else if(op == 8) { // limited conjunction
            node_ref full = w.m->and_rec(a, b); size_t n = full.nr_nodes(); bool drop = r.flip(); if(drop) { full = node_ref(); if(r.flip()) w.gc(); }
            size_t lim = r.flip(3) ? std::numeric_limits<size_t>::max() : r.flip() ? r(2 * n + 3) : n + r(3); LOGF("and_rec_limited #%zu #%zu limit %zu", i, j, lim);
            auto [x, xn] = w.m->and_rec_limited(a, b, lim);
            if(n < lim) { REQ(x.address() != nullptr, "limited conjunction of %zu nodes fails for limit %zu", n, lim); REQ(xn == n, "limited conjunction reports %zu nodes, has %zu", xn, n); w.expect(x, ta & tb, "limited conjunction"); w.put(x, ta & tb); }
            else REQ(x.address() == nullptr && xn == std::numeric_limits<size_t>::max(), "limited conjunction of %zu nodes does not fail for limit %zu (reported %zu)", n, lim, xn);
            w.expect(a, ta, "operand"); w.expect(b, tb, "operand");
        } else if(op == 9) { LOGF("queries #%zu", i); if(is("C14") || is("C19") || is("C10")) { check_queries(w, a); } if(is("C29")) check_print(w, a);
            if(is("C19")) { TT t; size_t cub = r(size_t(1) << K); t = w.full; for(int q = 0; q < K; ++q) if(r.flip()) t &= ((cub >> q) & 1) ? w.vt[q] : ~w.vt[q]; if(r.flip(3)) t ^= w.vt[r(K)]; t &= w.full; check_queries(w, w.build(t, 0, 0)); }
        } else if(op == 10) {
            int u = r(K); LOGF("literal %zu", w.vm[u]); node_ref x = w.m->projection(w.vm[u]); w.expect(x, w.vt[u], "positive literal"); node_ref y = w.m->neg_projection(w.vm[u]); w.expect(y, ~w.vt[u] & w.full, "negative literal"); w.put(x, w.vt[u]); w.put(y, ~w.vt[u] & w.full);
            if(r.flip(4)) { size_t n = w.m->nr_variables(); REQ(w.m->add_variable() == n && w.m->nr_variables() == n + 1, "add_variable does not return the next index"); }
            if(r.flip(8)) { size_t n = w.m->nr_variables() + r(5); { node_ref z = w.m->projection(n); REQ(z.variable() == n && z.low() == w.m->botsink() && z.high() == w.m->topsink(), "literal of a new variable"); } REQ(w.m->nr_variables() == n + 1, "projection created %zu variables", w.m->nr_variables()); }
            w.remap();
        } else if(op == 11) {
            LOGF("unique_find"); TT t = w.rnd(); node_ref x = w.build(t, 0, 0); w.expect(x, t, "built BDD"); w.put(x, t);
        }
        (void)nv0;
        if(r.flip(gcrate)) { a = b = c = node_ref(); w.gc(); ++ngc; }
        a = node_ref(); b = node_ref(); c = node_ref();
        if(r.flip(8)) w.check_all();
    }
    w.check_all(); w.gc(); w.check_all();
    if(is("C09")) { w.pool.clear(); w.extra.clear(); w.gc(); REQ(w.m->nr_nodes() == 2, "nodes left although no handle exists: %zu", w.m->nr_nodes()); }
}

// ------------------------------------------------------------------------------------------------ many variables: cardinality on wide inputs
static void wide(uint64_t seed) {
    Rng r(seed); size_t n = 5 + r(26); bdd_mgr m; LOGF("wide n=%zu", n);
    std::vector<node_ref> v; for(size_t i = 0; i < n; ++i) v.push_back(m.projection(i * (1 + seed % 2)));
    size_t N = m.nr_variables(); size_t b = r(5) ; if(n <= 12) b = r(n + 2);
    struct T { const char* nm; node_ref x; std::function<bool(size_t)> f; };
    std::vector<T> ts; auto B = v.begin(), E = v.end();
    ts.push_back({"at_most", m.at_most(B, E, b), [=](size_t c) { return c <= b; }}); ts.push_back({"at_least", m.at_least(B, E, b), [=](size_t c) { return c >= b; }});
    ts.push_back({"cardinality", m.cardinality(B, E, b), [=](size_t c) { return c == b; }}); ts.push_back({"at_most_one", m.at_most_one(B, E), [](size_t c) { return c <= 1; }});
    ts.push_back({"simplex", m.simplex(B, E), [](size_t c) { return c == 1; }}); ts.push_back({"all_false", m.all_false(B, E), [](size_t c) { return c == 0; }}); ts.push_back({"at_least_one", m.at_least_one(B, E), [](size_t c) { return c >= 1; }});
    ts.push_back({"and_rec", m.and_rec(B, E), [=](size_t c) { return c == n; }}); ts.push_back({"or_rec", m.or_rec(B, E), [=](size_t c) { return c >= 1; }}); ts.push_back({"xor_rec", m.xor_rec(B, E), [=](size_t c) { return c % 2 == 1; }});
    for(int q = 0; q < 200; ++q) { std::vector<char> a(N, 0); size_t want = q < 100 ? r(n + 1) : (b + r(3) > 0 ? std::min(n, b + r(3) - (r.flip() && b ? 1 : 0)) : 0); size_t c = 0; std::vector<size_t> id(n); for(size_t i = 0; i < n; ++i) id[i] = i; std::shuffle(id.begin(), id.end(), r.g); for(size_t i = 0; i < want; ++i) { a[id[i] * (1 + seed % 2)] = 1; ++c; }
        if(q < 3) std::fill(a.begin(), a.end(), 0), c = 0;
        for(auto& t : ts) REQ(t.x.evaluate(a.begin(), a.end()) == t.f(c), "%s of %zu inputs (bound %zu) is wrong for %zu true inputs", t.nm, n, b, c); }
}

// ------------------------------------------------------------------------------------------------ growth of one unique table
static void growth(uint64_t seed, bool huge) {
    Rng r(seed); bdd_mgr m; size_t lv = huge ? 11 : 4 + r(6); LOGF("growth levels=%zu huge=%d", lv, huge);
    // children: a supply of distinct nodes of later variables
    std::vector<node_ref> ch{m.botsink(), m.topsink()}; for(size_t v = 40; ch.size() < (size_t(1) << lv) && v > 1; --v) { m.projection(v); size_t n = ch.size(); for(size_t q = 0; q < n && ch.size() < (size_t(1) << lv); ++q) { node_ref x = m.unique_find(v, ch[q], ch[(q + 1) % n]); bool dup = false; if(!dup && x != ch[q]) ch.push_back(x); } std::sort(ch.begin(), ch.end(), [](const node_ref& a, const node_ref& b) { return a.address() < b.address(); }); { std::vector<node_ref> u; for(auto& x : ch) if(u.empty() || u.back() != x) u.push_back(x); ch = u; } }
    m.projection(0); std::map<std::pair<node*, node*>, node*> have; std::vector<node_ref> keep; size_t lim = huge ? 300000 : 200 + r(4000); bool thrown = false;
    std::unordered_map<size_t, node*> tab; size_t n = ch.size();
    for(size_t s = 0; s < lim; ++s) {
        size_t i = huge ? (s / n) % n : r(n), j = huge ? s % n : r(n); if(i == j) continue;
        node* p;
        try { node_ref x = m.unique_find(0, ch[i], ch[j]); keep.push_back(x); p = x.address(); }
        catch(std::runtime_error&) { REQ(s > 200000, "table refuses to grow after %zu nodes", s); thrown = true; LOGF("thrown at %zu", s); break; }
        REQ(p->lo == ch[i].address() && p->hi == ch[j].address() && p->index == 0, "unique_find returns a node with other children");
        auto ins = tab.insert({i * n + j, p}); REQ(ins.first->second == p, "unique_find returns two different nodes for the same children");
        if(!huge && r.flip(400)) { // drop some, collect
            size_t d = r(keep.size()); for(size_t q = 0; q < d; ++q) { std::swap(keep[r(keep.size())], keep.back()); keep.pop_back(); }
            m.collect_garbage(); std::set<node*> alive; for(auto& x : keep) alive.insert(x.address()); for(auto it = tab.begin(); it != tab.end();) if(!alive.count(it->second)) it = tab.erase(it); else ++it;
        }
    }
    std::set<node*> u; size_t cnt = 0; for(auto& kv : tab) { REQ(u.insert(kv.second).second, "one node for two pairs of children"); size_t i = kv.first / n, j = kv.first % n; if(!huge || (cnt++ % 97) == 0) { node* p = nullptr; try { p = m.unique_find(0, ch[i], ch[j]).address(); } catch(std::runtime_error&) { FAILF("an existing node is not found"); } REQ(p == kv.second, "an existing node is not found again"); } }
    (void)thrown;
    if(huge) { for(int q = 0; q < 100; ++q) { size_t i = r(n), j = r(n); if(i == j) continue; bool ex = tab.count(i * n + j); try { node* p = m.unique_find(0, ch[i], ch[j]).address(); REQ(!ex || p == tab[i * n + j], "an existing node is not found again"); } catch(std::runtime_error&) { REQ(!ex, "existing node refused"); } }
        keep.clear(); keep.shrink_to_fit(); m.collect_garbage(); REQ(m.unique_find(0, ch[0], ch[1]).variable() == 0, "table unusable after collection"); }
}

// ------------------------------------------------------------------------------------------------ node pool, pages, memo, depth
static void pool_driver(uint64_t seed) {
    Rng r(seed); bdd_mgr m; auto& c = m.get_node_cache(); node* bot = c.botsink(); node* top = c.topsink(); LOGF("node pool");
    std::vector<node*> used; std::set<node*> us; size_t steps = r.flip(3) ? 14000 : 300; size_t bias = r(4);
    for(size_t s = 0; s < steps; ++s) {
        if(used.empty() || r(4) < 2 + (s % 2000 < 1000 ? bias % 2 : 0) + (steps > 1000 ? 1 : 0)) { node* p = c.reserve_node(); REQ(p && p != bot && p != top && us.insert(p).second, "reserve_node returns a node in use"); p->init_new_node(0, bot, top); used.push_back(p); }
        else { size_t i = r(used.size()); node* p = used[i]; c.free_node(p); us.erase(p); used[i] = used.back(); used.pop_back(); }
        REQ(c.nr_nodes() == 2 + used.size(), "nr_nodes is %zu with %zu nodes in use", c.nr_nodes(), used.size());
        if(s % 500 == 0) for(node* p : used) REQ(p->lo == bot && p->hi == top, "a node in use was overwritten");
    }
    REQ(bot->is_botsink() && top->is_topsink(), "terminals overwritten");
    for(node* p : used) REQ(p->lo == bot && p->hi == top, "a node in use was overwritten");
    while(!used.empty()) { c.free_node(used.back()); used.pop_back(); }
    REQ(bot->xref == 1 && top->xref == 1, "terminal reference counts %d %d", bot->xref, top->xref);
}
template<class C, size_t N> static void page_one(C& c, Rng& r, size_t steps) {
    typedef unique_table_page<N> P; std::vector<P*> used; std::set<P*> us;
    for(size_t s = 0; s < steps; ++s) {
        if(used.empty() || r(5) < 3) { P* p = c.reserve_page(); REQ(us.insert(p).second, "page of size %zu handed out twice", N); for(size_t i = 0; i < N; ++i) REQ(p->data[i] == nullptr, "page of size %zu is not empty when handed out", N); for(P* q : used) REQ(q + 1 <= p || p + 1 <= q, "pages overlap"); for(size_t i = 0; i < N; ++i) p->data[i] = reinterpret_cast<node*>(p); used.push_back(p); }
        else { size_t i = r(used.size()); P* p = used[i]; for(size_t k = 0; k < N; ++k) REQ(p->data[k] == reinterpret_cast<node*>(p), "page in use was overwritten"); c.free_page(p); us.erase(p); used[i] = used.back(); used.pop_back(); }
    }
    for(P* p : used) for(size_t k = 0; k < N; ++k) REQ(p->data[k] == reinterpret_cast<node*>(p), "page in use was overwritten");
    for(P* p : used) c.free_page(p);
}
static void pages(uint64_t seed) {
    Rng r(seed); LOGF("pages"); auto* pc = new unique_table_page_caches(); auto& c = *pc;
    switch(r(15)) {
        case 0: page_one<decltype(c.cache_64), 64>(c.cache_64, r, 400); break; case 1: page_one<decltype(c.cache_128), 128>(c.cache_128, r, 400); break;
        case 2: page_one<decltype(c.cache_256), 256>(c.cache_256, r, 300); break; case 3: page_one<decltype(c.cache_512), 512>(c.cache_512, r, 300); break;
        case 4: page_one<decltype(c.cache_1024), 1024>(c.cache_1024, r, 200); break; case 5: page_one<decltype(c.cache_2048), 2048>(c.cache_2048, r, 200); break;
        case 6: page_one<decltype(c.cache_4096), 4096>(c.cache_4096, r, 100); break; case 7: page_one<decltype(c.cache_8192), 8192>(c.cache_8192, r, 100); break;
        case 8: page_one<decltype(c.cache_16384), 16384>(c.cache_16384, r, 60); break; case 9: page_one<decltype(c.cache_32768), 32768>(c.cache_32768, r, 60); break;
        case 10: page_one<decltype(c.cache_65536), 65536>(c.cache_65536, r, 60); break; case 11: page_one<decltype(c.cache_131072), 131072>(c.cache_131072, r, 30); break;
        case 12: page_one<decltype(c.cache_262144), 262144>(c.cache_262144, r, 20); break; case 13: page_one<decltype(c.cache_524288), 524288>(c.cache_524288, r, 12); break;
        default: page_one<decltype(c.cache_1048576), 1048576>(c.cache_1048576, r, 8); break;
    }
    delete pc;
#ifndef PUBLIC_ONLY
    // pages through the tables of several variables: no two tables share slots, every slot writable
    bdd_mgr m; size_t V = 3 + r(4); for(size_t v = 0; v < V; ++v) m.add_variable(); std::vector<std::pair<node**, size_t>> cur(V);
    struct U { node** p; size_t mask; }; std::vector<U> us;
    for(size_t s = 0; s < 25; ++s) {
        size_t k = r.flip(5) ? 7 + r(13) : 7 + r(6); size_t mask = (size_t(1) << (k - 1)) - 1; if(k == 20) mask = 524287;
        if(us.size() < 6 && r(5) < 3) { node** p = m.vars[0].new_page(mask); for(size_t i = 0; i <= mask; ++i) REQ(p[i] == nullptr, "page for %zu slots is not empty when handed out", mask + 1); for(size_t i = 0; i <= mask; ++i) p[i] = reinterpret_cast<node*>(p); us.push_back({p, mask}); }
        else if(!us.empty()) { size_t i = r(us.size()); for(size_t q = 0; q <= us[i].mask; ++q) REQ(us[i].p[q] == reinterpret_cast<node*>(us[i].p), "page in use was overwritten"); m.vars[0].free_page(us[i].p, us[i].mask); us[i] = us.back(); us.pop_back(); }
        for(auto& u : us) for(size_t q = 0; q <= u.mask; q += 1 + q / 16) REQ(u.p[q] == reinterpret_cast<node*>(u.p), "page in use was overwritten");
    }
    for(auto& u : us) m.vars[0].free_page(u.p, u.mask);
#endif
}
// variable indices beyond small integer types
static void bigvars(uint64_t seed) {
    Rng r(seed); size_t N = r.flip() ? 66000 + r(70000) : 300 + r(40000); if(seed == 1) N = 70000; LOGF("bigvars %zu", N); bdd_mgr m; while(m.nr_variables() < N) { size_t n = m.nr_variables(); REQ(m.add_variable() == n, "add_variable does not return the next index"); }
    {
        std::set<size_t> vs; while(vs.size() < 6) vs.insert(r.flip(3) ? (size_t(1) << (1 + r(17))) % N : r.flip() ? N - 1 - r(std::min<size_t>(N, 1000)) : r(N)); std::vector<size_t> v(vs.begin(), vs.end());
        std::vector<char> as(N);
        for(int q = 0; q < 8; ++q) { for(auto& x : as) x = r(2); for(size_t x : v) { node_ref p = m.projection(x), n = m.neg_projection(x); REQ(p.variable() == x && n.variable() == x, "literal of variable %zu has another variable", x); REQ(p.evaluate(as.begin(), as.end()) == bool(as[x]), "positive literal of variable %zu is wrong", x); REQ(n.evaluate(as.begin(), as.end()) != bool(as[x]), "negative literal of variable %zu is wrong", x); } }
        node_ref f = m.or_rec(m.and_rec(m.projection(v[0]), m.projection(v[1])), m.and_rec(m.xor_rec(m.projection(v[2]), m.projection(v[3])), m.projection(v[4])));
        auto F = [&](auto g) { return (g(0) && g(1)) || ((g(2) != g(3)) && g(4)); };
        for(int q = 0; q < 40; ++q) { for(auto& x : as) x = r(2); REQ(f.evaluate(as.begin(), as.end()) == F([&](int i) { return bool(as[v[i]]); }), "evaluate is wrong with large variable indices"); }
        REQ(f.variables() == std::vector<size_t>(v.begin(), v.begin() + 5), "variables are wrong with large indices");
        std::set<size_t> ws; while(ws.size() < 5) ws.insert(r(N)); std::vector<size_t> u(ws.begin(), ws.end()); std::unordered_map<size_t, size_t> mp; for(int i = 0; i < 5; ++i) mp[v[i]] = u[i];
        node_ref g = m.rebase(f, mp); for(int q = 0; q < 40; ++q) { for(auto& x : as) x = r(2); REQ(g.evaluate(as.begin(), as.end()) == F([&](int i) { return bool(as[u[i]]); }), "rebase is wrong with large variable indices"); }
    }
}
static void memo_driver(uint64_t seed) {
    Rng r(seed); LOGF("memo cache"); bdd_mgr m; auto& c = m.get_node_cache(); std::vector<node_ref> ns; size_t V = 4 + r(20);
    for(size_t v = 0; v < V; ++v) ns.push_back(m.projection(v)); for(size_t v = 0; v + 1 < V; ++v) ns.push_back(m.unique_find(v, ns[v + 1], m.topsink()));
    memo_cache mc(c); std::map<std::array<node*, 3>, node*> last; node* syms[3] = {memo_struct::and_symb(), memo_struct::or_symb(), memo_struct::xor_symb()};
    std::set<node*> dead; size_t steps = 50 + r(3000); size_t hits = 0;
    auto key = [&]() { node* f = ns[r(ns.size())].address(); node* g = ns[r(ns.size())].address(); node* h = r.flip() ? syms[r(3)] : ns[r(ns.size())].address(); return std::array<node*, 3>{f, g, h}; };
    for(size_t s = 0; s < steps; ++s) {
        auto k = key();
        if(r.flip()) { node* x = ns[r(ns.size())].address(); mc.cache_insert(k[0], k[1], k[2], x); last[k] = x; node* y = mc.cache_lookup(k[0], k[1], k[2]); REQ(y == nullptr || y == x, "lookup returns another result than the one stored"); }
        else { node* y = mc.cache_lookup(k[0], k[1], k[2]); if(y) { ++hits; REQ(last.count(k) && last[k] == y, "lookup returns a result never stored for these operands"); } }
        if(r.flip(300)) { mc.purge(); }
        if(r.flip(200)) for(auto& kv : last) { node* y = mc.cache_lookup(kv.first[0], kv.first[1], kv.first[2]); REQ(!y || y == kv.second, "lookup returns an older result"); }
    }
    // purge drops everything that mentions a node without references
    node* d; { node_ref x = m.unique_find(0, ns[1], ns[2]); d = x.address(); mc.cache_insert(d, ns[0].address(), syms[r(3)], ns[1].address()); mc.cache_insert(ns[0].address(), d, syms[r(3)], ns[1].address()); mc.cache_insert(ns[0].address(), ns[1].address(), d, ns[2].address()); mc.cache_insert(ns[0].address(), ns[2].address(), syms[1], d); }
    mc.purge();
    for(int z = 0; z < 3; ++z) { REQ(!mc.cache_lookup(d, ns[0].address(), syms[z]) && !mc.cache_lookup(ns[0].address(), d, syms[z]), "an entry about a dead operand survives purging"); }
    REQ(!mc.cache_lookup(ns[0].address(), ns[1].address(), d), "an entry about a dead third operand survives purging"); REQ(!mc.cache_lookup(ns[0].address(), ns[2].address(), syms[1]), "an entry with a dead result survives purging");
}
// millions of results: sizes up to the largest; pass p stores the result number (7i+3j+5k+p) for the key (i,j,k)
static void memo_large(uint64_t seed) {
    Rng r(seed); bool huge = seed <= 2; LOGF("memo large %d", huge); bdd_mgr m; std::vector<node_ref> ns; size_t V = huge ? 40 : 12; for(size_t v = 0; v < V; ++v) ns.push_back(m.projection(v));
    size_t N = huge ? 1400 + r(200) : 20 + r(300); for(size_t v = V - 1; ns.size() < N && v-- > 0;) for(size_t q = ns.size(), e = q + 60; q < e && ns.size() < N; ++q) { std::vector<node_ref> c; for(auto& x : ns) if(x.variable() > v) c.push_back(x); c.push_back(m.topsink()); node_ref a = c[r(c.size())], b = c[r(c.size())]; if(a == b) continue; ns.push_back(m.unique_find(v, a, b)); }
    { std::sort(ns.begin(), ns.end(), [](const node_ref& a, const node_ref& b) { return a.address() < b.address(); }); std::vector<node_ref> u; for(auto& x : ns) if(u.empty() || u.back() != x) u.push_back(x); ns = u; N = ns.size(); std::shuffle(ns.begin(), ns.end(), r.g); }
    memo_cache mc(m.get_node_cache()); node* syms[3] = {memo_struct::and_symb(), memo_struct::or_symb(), memo_struct::xor_symb()}; std::vector<node*> a; for(auto& x : ns) a.push_back(x.address());
    auto res = [&](size_t i, size_t j, size_t k, size_t p) { return a[(7 * i + 3 * j + 5 * k + p) % N]; }; size_t step = 0, cap = huge ? 5000000 : 60000;
    for(size_t p = 0; p < 2; ++p) { size_t done = 0; for(size_t i = 0; i < N && done < cap; ++i) for(size_t j = 0; j < N; ++j) for(size_t k = 0; k < 3; ++k, ++done) {
        mc.cache_insert(a[i], a[j], syms[k], res(i, j, k, p));
        node* y = mc.cache_lookup(a[i], a[j], syms[k]); REQ(!y || y == res(i, j, k, p), "lookup returns another result than the one just stored");
        if(++step % 8 == 0) { size_t i2 = r(i + 3) % N, j2 = r(N), k2 = r(3); bool now = i2 * N * 3 + j2 * 3 + k2 <= i * N * 3 + j * 3 + k; node* z = mc.cache_lookup(a[i2], a[j2], syms[k2]); if(z) { if(now) REQ(z == res(i2, j2, k2, p), "lookup returns a result stored for other operands or an older one"); else REQ(p == 1 && z == res(i2, j2, k2, 0), "lookup returns a result never stored"); } }
    } if(p == 0 && r.flip()) { mc.purge(); } }
}
static void depth_driver(uint64_t seed) {
    Rng r(seed); LOGF("node depth"); W w(r, 2 + r(6), true); bdd_node_depth d; d.add_botsink(w.m->botsink().address()); d.add_topsink(w.m->topsink().address());
    std::map<node*, size_t> dep; dep[w.m->botsink().address()] = 0; dep[w.m->topsink().address()] = 0; std::vector<node_ref> keep;
    for(int q = 0; q < 6; ++q) { TT t = w.rnd(); node_ref x = w.build(t, 0, 0); keep.push_back(x); if(x.is_terminal()) continue; for(auto& n : x.nodes_postorder()) { node* p = n.address(); if(dep.count(p)) continue; size_t e = 1 + std::max(dep[p->lo], dep[p->hi]); size_t g = d.add_node(p); REQ(g == e, "depth %zu, should be %zu", g, e); dep[p] = e; } }
    for(auto& kv : dep) REQ(d.depth.at(kv.first) == kv.second, "recorded depth is wrong");
}
static void teardown(uint64_t seed) {
    Rng r(seed); int n = 1 + r(3); LOGF("teardown"); std::vector<std::unique_ptr<W>> ws;
    for(int q = 0; q < n; ++q) { ws.emplace_back(new W(r, 1 + r(8), r.flip())); W& w = *ws.back(); for(int z = 0; z < 8; ++z) { TT t = w.rnd(), u = w.rnd(); node_ref a = w.build(t, 0, 0), b = w.build(u, 0, 0); w.put(w.m->and_rec(a, b), t & u); w.put(w.m->xor_rec(a, b), t ^ u); if(r.flip(5)) w.gc(); } w.check_all(); }
    for(auto& w : ws) { // what is given back: count nodes freed
        w->pool.clear(); bdd_mgr* m = w->m; if(r.flip()) m->collect_garbage();
        for(size_t i = m->vars.size(); i-- > 0;) m->vars[i].nr_free_slots_debug();
    }
    if(r.flip()) { // the destructor's work, observed
        W& w = *ws[0]; auto& c = w.m->node_cache_; for(size_t i = 0; i < w.m->vars.size(); ++i) w.m->vars[i].release_nodes();
        REQ(c.nr_nodes() == 2, "after releasing all tables %zu nodes are left", c.nr_nodes()); std::set<node*> s; size_t k = 0; for(node* p = c.nodeavail; p; p = p->next_available) { REQ(s.insert(p).second, "a node was given back twice"); REQ(++k < 1000000, "free list does not end"); }
    }
    ws.clear();
}
#ifdef WITH_COLLECTION
#include "harness_col.h"
#endif

int main(int argc, char** argv) {
    PROP = argv[1]; SEED = strtoull(argv[2], 0, 10); double secs = atof(argv[3]); LOG = fopen(argv[4], "w");
    signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig); signal(SIGTERM, onsig);
    struct rlimit rl{size_t(6) << 30, size_t(6) << 30}; 
#ifndef __SANITIZE_ADDRESS__
    setrlimit(RLIMIT_AS, &rl);
#endif
    (void)rl;
    std::vector<std::function<void(uint64_t)>> ds; std::vector<std::pair<uint64_t, std::function<void(uint64_t)>>> once;
    auto P = [&](std::initializer_list<const char*> l) { for(auto* x : l) if(is(x)) return true; return false; };
    if(P({"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C29"})) ds.push_back(history);
    if(P({"C05", "C06", "C07", "C08", "C09", "C10", "C12"})) ds.push_back([](uint64_t s) { growth(s, false); });
    if(P({"C07"})) once.push_back({1, [](uint64_t s) { growth(s, true); }});
    if(P({"C04", "C16"})) ds.push_back(wide);
    if(P({"C15", "C17"})) { once.push_back({1, bigvars}); once.push_back({2, bigvars}); }
    if(P({"C11"})) ds.push_back(pool_driver);
    if(P({"C11"})) ds.push_back(history);
    if(P({"C12"})) ds.push_back(pages);
    if(P({"C13"})) { ds.push_back(memo_driver); ds.push_back(memo_large); once.push_back({1, memo_large}); }
    if(P({"C27"})) ds.push_back(teardown);
    if(P({"C28"})) ds.push_back(depth_driver);
#ifdef WITH_COLLECTION
    add_collection_drivers(ds);
    if(P({"C21", "C22"})) once.push_back({1, many});
#endif
    if(ds.empty()) { printf("no driver\n"); return 3; }
    auto t0 = std::chrono::steady_clock::now(); auto el = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    uint64_t only = argc > 5 ? strtoull(argv[5], 0, 10) : 0; uint64_t n = 0;
    auto run = [&](std::function<void(uint64_t)>& f, uint64_t s) { EP = s; rewind(LOG); (void)!ftruncate(fileno(LOG), 0); LOGF("property %s episode seed %llu", PROP.c_str(), (unsigned long long)s); f(s); };
    if(only) { for(auto& o : once) if(o.first == only) run(o.second, only); if(only > 100) run(ds[only % ds.size()], only); printf("OK 1 episode\n"); return 0; }
    for(auto& o : once) run(o.second, o.first), ++n;
    while(el() < secs) { run(ds[n % ds.size()], (SEED * 1000003 + 1000 + n) * ds.size() + n % ds.size()); ++n; }
    printf("OK %llu episodes\n", (unsigned long long)n); return 0;
}
