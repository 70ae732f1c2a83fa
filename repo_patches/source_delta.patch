From b512f3496e4130c87e00b9fd853f240fc686971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 01/20] fix: xor results are memoised under their own key, not
 under the one of or

---
 include/bdd_memo_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_memo_cache.h b/include/bdd_memo_cache.h
index cfa6b39..d5e7f4a 100644
--- a/include/bdd_memo_cache.h
+++ b/include/bdd_memo_cache.h
@@ -25,7 +25,7 @@ namespace BDD {
 
         template<typename T>
         constexpr static node* xor_symb_impl() { return static_cast<T*>(nullptr) + 3; }
-        constexpr static node* xor_symb() { return or_symb_impl<node>(); }
+        constexpr static node* xor_symb() { return xor_symb_impl<node>(); }
 
         bool operator==(const memo_struct& m) const;
         bool operator!=(const memo_struct& m) const;
-- 
2.43.0


From 669f8f572ca4a91e0a3134fd78dc226bfb156c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 02/20] fix: xor_rec branches on the smaller variable, keeping
 BDDs ordered

---
 src/bdd_mgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index af87c96..85c3d85 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -242,7 +242,7 @@ namespace BDD {
         var& vf = vars[f.variable()];
         assert(g.variable() < nr_variables());
         var& vg = vars[g.variable()];
-        var& v = *std::max(&vg,&vf);
+        var& v = *std::min(&vg,&vf);
 
         node_ref r0 = xor_rec(&v == &vf ? f.low() : f, &v == &vg ? g.low() : g);
         assert(r0.ref != nullptr);
-- 
2.43.0


From ea08edcc4f12ee7b89a7a1d6093f208a6a5f31d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 03/20] fix: ite_rec does not descend into terminals when the
 last variable is the branching one

---
 src/bdd_mgr.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 85c3d85..7290c83 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -279,23 +279,24 @@ namespace BDD {
             return node_ref(m);
 
         var& vf = vars[f.variable()];
-        var& vg = g.is_terminal() ? vars.back() : vars[g.variable()];
-        var& vh = h.is_terminal() ? vars.back() : vars[h.variable()];
+        // terminals have no variable and are never branched on
+        var& vg = g.is_terminal() ? vf : vars[g.variable()];
+        var& vh = h.is_terminal() ? vf : vars[h.variable()];
 
         //var& v = *std::min({&vf,&vg,&vh}); // compilation error on gcc-8.1?
         var& v = *std::min(std::min(&vf,&vg),&vh);
 
         node_ref r0 = ite_rec(
                 (&vf == &v ? f.low() : f),
-                (&vg == &v ? g.low() : g),
-                (&vh == &v ? h.low() : h)
+                (!g.is_terminal() && &vg == &v ? g.low() : g),
+                (!h.is_terminal() && &vh == &v ? h.low() : h)
                 );
         assert(r0.ref != nullptr);
 
         node_ref r1 = ite_rec(
                 (&vf == &v ? f.high() : f),
-                (&vg == &v ? g.high() : g),
-                (&vh == &v ? h.high() : h)
+                (!g.is_terminal() && &vg == &v ? g.high() : g),
+                (!h.is_terminal() && &vh == &v ? h.high() : h)
                 );
         assert(r1.ref != nullptr);
 
-- 
2.43.0


From 0161f16ad586a12f0f04dc0be2ea2cfc3bed9be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 04/20] fix: at_most is always true when the bound exceeds the
 number of inputs

---
 include/bdd_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index cbc72b6..689ef8d 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -346,7 +346,7 @@ namespace BDD {
             const size_t n = std::distance(begin, end);
 
             if(n < b)
-                return node_cache_.botsink();
+                return node_cache_.topsink();
 
             if(n == 1 && b == 1)
                 return node_cache_.topsink();
-- 
2.43.0


From 25889fba3de5f57039d8c39998586f20a0e3b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 05/20] fix: a unique table that cannot grow keeps its size
 when the allocation throws

---
 src/bdd_var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index d0d52f3..b06e93b 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -67,8 +67,8 @@ namespace BDD {
         node** old_page = base;
         const size_t old_mask = mask;
 
+        base = new_page(mask + mask + 1); // throws if the unique table cannot grow any more
         mask = mask + mask + 1;
-        base = new_page(mask); 
 
         for(size_t i=0; i<=mask; ++i)
             assert(base[i] == nullptr);
-- 
2.43.0


From a788833619cb0e1ef30dd356ab58fa5a3918234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 06/20] fix: memo entries that refer to garbage collected nodes
 are purged

---
 src/bdd_memo_cache.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bdd_memo_cache.cpp b/src/bdd_memo_cache.cpp
index ab090f6..22ed849 100644
--- a/src/bdd_memo_cache.cpp
+++ b/src/bdd_memo_cache.cpp
@@ -148,11 +148,14 @@ namespace BDD {
     {
         if(r == nullptr)
             return true; // TODO: or false?
-        if(r->xref < 0)
+        if(r->dead())
             return true;
-        if(f->xref < 0)
+        if(f->dead())
             return true;
-        if(h != nullptr && g->xref < 0)
+        if(g->dead())
+            return true;
+        // h is a node for if-then-else entries, otherwise it denotes the binary operation
+        if(h != and_symb() && h != or_symb() && h != xor_symb() && h->dead())
             return true;
         return false;
     }
-- 
2.43.0


From 72cc11bc2fb2eed3b582e41c8aef1ed7996fe35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 07/20] fix: nodes_bfs of a terminal is empty instead of
 following the manager pointer

---
 src/bdd_node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 7518bc8..562c68c 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -81,6 +81,8 @@ namespace BDD {
 
     std::vector<node*> node::nodes_bfs()
     {
+        if(is_terminal())
+            return {};
         assert(marked_ == 0);
         std::vector<node*> nodes;
         std::deque<node*> dq;
-- 
2.43.0


From 374eb923dc4ece04cec98043e782d8264e44bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 08/20] fix: initialise mark and hash key of the terminal nodes

---
 src/bdd_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 562c68c..84eaeb7 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -120,6 +120,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = botsink_index;
+        this->hash_key = 0;
+        this->marked_ = 0;
     }
 
     bool node::is_botsink() const
@@ -134,6 +136,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = topsink_index;
+        this->hash_key = 1;
+        this->marked_ = 0;
 
     }
 
-- 
2.43.0


From 34f8eb8528ca105155bf583d8112ab5d90fcf293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 09/20] fix: rebase by iterator accepts terminal nodes

---
 include/bdd_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index 689ef8d..e9b3964 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -129,7 +129,7 @@ namespace BDD {
     node_ref bdd_mgr::rebase(node_ref p, ITERATOR var_map_begin, ITERATOR var_map_end)
     {
         const size_t nr_vars = std::distance(var_map_begin, var_map_end);
-        assert(p.variables().back() <= nr_vars);
+        assert(p.is_terminal() || p.variables().back() < nr_vars);
         const size_t last_var = *std::max_element(var_map_begin, var_map_end);
         for(size_t i=nr_variables(); i<=last_var; ++i)
             add_variable();
-- 
2.43.0


From d1a09edb0a285eed85f041478358535f198d724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 10/20] fix: add_bdd imports collections with more than 1000
 instructions

---
 src/bdd_mgr.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 7290c83..4ca6180 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -413,7 +413,6 @@ namespace BDD {
             }
             else
             { 
-                assert(bdd_col.offset(bdd) < 1000); // TODO: remove
                 assert(bdd_map.count(bdd.lo) > 0);
                 node_ref lo = bdd_map.find(bdd.lo)->second;
 
-- 
2.43.0


From 0bac7756d78577a92f46d361672b740dd1e63104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 11/20] fix: bdd_collection::remove does not read past the list
 of removed bdds

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 7d6ff09..cfdaa9c 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -265,7 +265,7 @@ namespace BDD {
             auto bdd_it = bdd_it_begin;
             for(size_t bdd_nr=*bdd_it; bdd_nr<nr_bdds(); ++bdd_nr)
             {
-                if(bdd_nr == *bdd_it) // skip bdd
+                if(bdd_it != bdd_it_end && bdd_nr == *bdd_it) // skip bdd
                 {
                     ++bdd_it;
                 }
-- 
2.43.0


From 2f46b8fce00a8bdb57a7eace4b14d1cc0e915a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 12/20] fix: removing dead nodes keeps the unique table
 consistent

---
 src/bdd_var.cpp | 80 ++++++++++++++-----------------------------------
 1 file changed, 22 insertions(+), 58 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index b06e93b..2fd17e3 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -204,75 +204,39 @@ namespace BDD {
 
     void var_struct::remove_dead_nodes()
     {
-        for(std::size_t k = 0; k < hash_table_size(); ++k)
+        // empty the unique table: release dead nodes and remember the remaining ones
+        std::vector<node*> live_nodes;
+        for(std::size_t k = 0; k <= mask; ++k)
         {
             node* p = fetch_node(k);
-            if(p != nullptr && p->dead())
-            {
+            if(p == nullptr)
+                continue;
+            store_node(k, nullptr);
+            if(p->dead())
                 bdd_mgr_.get_node_cache().free_node(p);
-                store_node(k, nullptr);
-                free++;
-                // move nodes that follow this one back if hash value indicates so
-                size_t first_free_slot = k;
-                for(size_t j = k+1;; ++j)
-                {
-                    const size_t jj = j & mask;
-                    node* p = fetch_node(jj);
-                    if(p == nullptr)
-                    {
-                        k = j;
-                        break;
-                    }
-                    if(p->dead())
-                    {
-                        store_node(jj, nullptr);
-                        free++;
-                    }
-                    else
-                    {
-                        // shift one place up if hash code says so
-                        // TODO: can be made faster.
-                        store_node(next_free_slot(hash_code(p)), p);
-                    }
-                }
-            }
+            else
+                live_nodes.push_back(p);
         }
+        free = mask + 1;
 
         // reduce nr of pages if unique table too sparsely populated
-        if(mask > 63 && occupied_rate() <= min_unique_table_fill)
+        size_t new_mask = mask;
+        while(new_mask > 63 && double(live_nodes.size()) <= min_unique_table_fill * double(new_mask + 1))
+            new_mask = (new_mask - 1) / 2;
+        if(new_mask != mask)
         {
-            const size_t new_mask = [&]() {
-                size_t n = (mask+1)/2 - 1;
-                while(n >= 63 && occupied_rate(n) >= min_unique_table_fill)
-                    n /= (mask+1)/2 - 1;
-                return n;
-            }();
-
             node** new_base = new_page(new_mask);
-
-            for(std::size_t k = 0; k <= mask; ++k)
-            {
-                node* p = fetch_node(k);
-                if(p != nullptr)
-                {
-                    const size_t next_free_slot = [&]() {
-                        for(size_t l=k;; l++)
-                        {
-                            l = l & new_mask;
-                            if(new_base[k] == nullptr)
-                                return l;
-                        }
-                        assert(false);
-                        return size_t(0);
-                    }();
-
-                    new_base[next_free_slot] = p;
-                } 
-            }
-
             free_page(base, mask);
             base = new_base;
             mask = new_mask;
+            free = mask + 1;
+        }
+
+        // put remaining nodes back: probing starts at their hash value again, so they stay reachable
+        for(node* p : live_nodes)
+        {
+            store_node(next_free_slot(hash_code(p)), p);
+            --free;
         }
     }
 
-- 
2.43.0


From f48dbbac13437420a1373d56e42693ac7244ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 13/20] fix: reduce removes exactly redundant, duplicate and
 unreachable nodes

---
 src/bdd_collection.cpp | 107 ++++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 56 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index d9c08ec..ea9bca0 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -451,76 +451,71 @@ namespace BDD {
     {
         assert(nr_bdds() > 0);
         const size_t bdd_nr = nr_bdds() - 1;
-
-        std::vector<char> remove(nr_bdd_nodes(bdd_nr), false);
-        
-        // remove nodes with identical lo and hi arcs
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        const size_t first = bdd_delimiters[bdd_nr];
+        const size_t last = bdd_delimiters[bdd_nr+1];
+        assert(last >= first + 2);
+
+        // go through nodes bottom up and find for each one the node that represents its function:
+        // nodes with identical lo and hi arcs and duplicates are replaced
+        std::vector<size_t> representative(last - first);
+        representative[last-1 - first] = last-1;
+        representative[last-2 - first] = last-2;
+        std::unordered_map<bdd_instruction, size_t, bdd_instruction_hasher> bdd_map;
+        for(size_t idx=last-2; idx>first; --idx)
         {
-            bdd_instruction& instr = bdd_instructions[idx];
-            bdd_instruction& lo = bdd_instructions[instr.lo];
-            bdd_instruction& hi = bdd_instructions[instr.hi];
-            if(!lo.is_terminal() && lo.lo == lo.hi)
-                instr.lo = bdd_instructions[lo.lo].lo;
-            if(!hi.is_terminal() && hi.lo == hi.hi)
-                instr.hi = bdd_instructions[hi.hi].hi;
+            bdd_instruction& instr = bdd_instructions[idx-1];
+            instr.lo = representative[instr.lo - first];
+            instr.hi = representative[instr.hi - first];
             if(instr.lo == instr.hi)
+                representative[idx-1 - first] = instr.lo;
+            else
             {
-                std::cout << "remove instr due to same lo and hi\n";
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
+                bdd_map.insert({instr, idx-1});
+                representative[idx-1 - first] = bdd_map.find(instr)->second;
             }
         }
 
-        // remove isomorphic subgraphs
-        std::unordered_map<bdd_instruction, size_t, bdd_instruction_hasher> bdd_map;
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-1], bdd_delimiters[bdd_nr+1]-1});
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-2], bdd_delimiters[bdd_nr+1]-2});
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        // only nodes reachable from the root and the terminals are kept
+        const size_t root = representative[0];
+        std::vector<char> keep(last - first, false);
+        keep[root - first] = true;
+        for(size_t idx=first; idx<last-2; ++idx)
         {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
+            if(!keep[idx - first])
                 continue;
-            bdd_instruction& instr = bdd_instructions[idx];
-            auto it = bdd_map.find(instr);
-            if(it == bdd_map.end())
-                bdd_map.insert({instr, idx});
-            else
-            {
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-                std::cout << "remove due to isomorphic subgraphs\n";
-            }
-            assert(bdd_map.count(bdd_instructions[instr.lo]) > 0);
-            assert(bdd_map.count(bdd_instructions[instr.hi]) > 0);
-            instr.lo = bdd_map.find(bdd_instructions[instr.lo])->second;
-            instr.hi = bdd_map.find(bdd_instructions[instr.hi])->second;
+            keep[bdd_instructions[idx].lo - first] = true;
+            keep[bdd_instructions[idx].hi - first] = true;
         }
+        keep[last-2 - first] = true;
+        keep[last-1 - first] = true;
 
-        // compactify: remove unused instructions and move remaining ones to contiguous placement
-        const size_t nr_remaining_instructions = std::count(remove.begin(), remove.end(), false);
-        std::vector<bdd_instruction> new_bdd_instructions;
-        new_bdd_instructions.reserve(nr_remaining_instructions);
-        std::vector<size_t> address_delta;
-        // TODO: counted correctly?
-        address_delta.reserve(nr_bdd_nodes(bdd_nr));
-        address_delta.push_back(0);
-        std::partial_sum(remove.begin(), remove.end()-1, std::back_inserter(address_delta));
-            
-        for(size_t idx=bdd_delimiters[bdd_nr]; idx<bdd_delimiters[bdd_nr+1]-2; ++idx)
+        // compactify: move remaining instructions to contiguous placement
+        std::vector<size_t> new_index(last - first);
+        size_t nr_kept = 0;
+        for(size_t idx=first; idx<last; ++idx)
         {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
+            new_index[idx - first] = first + nr_kept;
+            if(keep[idx - first])
+                ++nr_kept;
+        }
+        for(size_t idx=first; idx<last; ++idx)
+        {
+            if(!keep[idx - first])
                 continue;
             bdd_instruction instr = bdd_instructions[idx];
-            instr.lo -= address_delta[instr.lo-bdd_delimiters[bdd_nr]];
-            instr.hi -= address_delta[instr.hi-bdd_delimiters[bdd_nr]]; 
-            new_bdd_instructions.push_back(instr);
+            if(idx < last-2)
+            {
+                instr.lo = new_index[instr.lo - first];
+                instr.hi = new_index[instr.hi - first];
+            }
+            bdd_instructions[new_index[idx - first]] = instr;
         }
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-2]);
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-1]);
-        std::cout << "new bdd has " << new_bdd_instructions.size() << " nodes\n";
-
-        bdd_instructions.resize(bdd_delimiters[bdd_nr]);
-        for(const auto instr : new_bdd_instructions)
-            bdd_instructions.push_back(instr);
-        bdd_delimiters.back() = bdd_instructions.size(); 
+        // the root comes first, also if it is a terminal
+        if(root == last-1)
+            std::swap(bdd_instructions[first], bdd_instructions[first+1]);
+
+        bdd_instructions.resize(first + nr_kept);
+        bdd_delimiters.back() = bdd_instructions.size();
         assert(is_bdd(bdd_nr));
     }
 
-- 
2.43.0


From 79c5b9172684ee547c49f7315b885e3ffdbb9855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 14/20] fix: collections can hold constant bdds

---
 include/bdd_collection.h |  2 +-
 src/bdd_collection.cpp   | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index cfdaa9c..8828bb6 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -286,7 +286,7 @@ namespace BDD {
                             new_bdd_instructions.push_back(bdd_instr);
                     }
                     new_bdd_delimiters.push_back(new_bdd_instructions.size());
-                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] > 2);
+                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] >= 2);
                 }
             }
             assert(bdd_it == bdd_it_end);
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index ea9bca0..c4f4261 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -29,7 +29,8 @@ namespace BDD {
 
         if(root_idx != std::numeric_limits<size_t>::max())
         {
-            assert(stack.size() > 2);
+            if(root_idx == 0) // constant: root comes first
+                std::swap(stack[0], stack[1]);
             const size_t offset = bdd_delimiters.back();
             for(ptrdiff_t s = stack.size()-1; s>=0; --s)
             {
@@ -131,7 +132,8 @@ namespace BDD {
 
             if(root_idx != std::numeric_limits<size_t>::max())
             {
-                assert(stack.size() > 2);
+                if(root_idx == 0) // constant: root comes first
+                    std::swap(stack[0], stack[1]);
                 const size_t offset = bdd_delimiters.back();
                 for(ptrdiff_t s = stack.size()-1; s>=0; --s)
                 {
@@ -283,6 +285,14 @@ namespace BDD {
     {
         assert(bdd_delimiters.back() == bdd_instructions.size());
 
+        if(root.is_terminal()) // constant: root comes first
+        {
+            bdd_instructions.push_back(root.is_botsink() ? bdd_instruction::botsink() : bdd_instruction::topsink());
+            bdd_instructions.push_back(root.is_botsink() ? bdd_instruction::topsink() : bdd_instruction::botsink());
+            bdd_delimiters.push_back(bdd_instructions.size());
+            return bdd_delimiters.size()-2;
+        }
+
         auto nodes = root.nodes_postorder();
         std::reverse(nodes.begin(), nodes.end());
         for(size_t i=0; i<nodes.size(); ++i)
@@ -324,7 +334,8 @@ namespace BDD {
     node_ref bdd_collection::export_bdd(bdd_mgr& mgr, const size_t bdd_nr) const
     {
         assert(bdd_nr < nr_bdds());
-        assert(nr_bdd_nodes(bdd_nr) > 2);
+        if(bdd_instructions[bdd_delimiters[bdd_nr]].is_terminal())
+            return bdd_instructions[bdd_delimiters[bdd_nr]].is_topsink() ? mgr.topsink() : mgr.botsink();
         // TODO: use vector and shift indices by offset
         std::unordered_map<size_t, node_ref> bdd_instr_hash;
         assert(bdd_instructions[bdd_delimiters[bdd_nr+1]-2].is_terminal());
@@ -530,7 +541,6 @@ namespace BDD {
             vars.push_back(bdd_instructions[i].index);
         }
 
-        assert(vars.size() > 0);
         std::sort(vars.begin(), vars.end());
         vars.erase( std::unique(vars.begin(), vars.end() ), vars.end());
         return vars;
-- 
2.43.0


From df260f43be8b44ea2854a88c332a42a9d5b616c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 15/20] fix: terminals of collection entries are found in
 either order

---
 src/bdd_collection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index c4f4261..8b94111 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -646,14 +646,16 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_entry::botsink() const
     {
-        bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
+        const size_t last = bdd_col.bdd_delimiters[bdd_nr+1]-1; // terminals may come in any order
+        bdd_collection_node node(bdd_col.bdd_instructions[last].is_botsink() ? last : last-1, *this);
         assert(node.is_botsink());
         return node;
     }
 
     bdd_collection_node bdd_collection_entry::topsink() const
     {
-        bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
+        const size_t last = bdd_col.bdd_delimiters[bdd_nr+1]-1; // terminals may come in any order
+        bdd_collection_node node(bdd_col.bdd_instructions[last].is_topsink() ? last : last-1, *this);
         assert(node.is_topsink());
         return node;
     }
-- 
2.43.0


From 6d10d8bfb704095f55364a20bf01758d6749df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 16/20] fix: and_rec_limited applies its node limit to the
 exact number of nodes

---
 src/bdd_mgr.cpp | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 4ca6180..d9b21c8 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -103,36 +103,32 @@ namespace BDD {
     // return
     std::tuple<node_ref,size_t> bdd_mgr::and_rec_limited(node_ref f, node_ref g, const size_t node_limit)
     {
+        // result together with its number of nodes, if it has fewer than node_limit nodes
+        auto limited = [node_limit](node_ref r) -> std::tuple<node_ref,size_t> {
+            const size_t nr_nodes = r.nr_nodes();
+            if(nr_nodes >= node_limit)
+                return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
+            return {r,nr_nodes};
+        };
+
         if(f == g)
-        {
-            const size_t nr_nodes = f.nr_nodes();
-            if(nr_nodes > node_limit)
-               return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-            return {f,nr_nodes};
-        }
+            return limited(f);
 
         if(f.ref > g.ref)
             return and_rec_limited(g,f,node_limit);
 
         if(f.ref == node_cache_.topsink())
-            return {g,g.nr_nodes()};
+            return limited(g);
         else if(f.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
+            return limited(node_ref(node_cache_.botsink()));
         else if(g.ref == node_cache_.topsink())
-            return {f,f.nr_nodes()};
+            return limited(f);
         else if(g.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
+            return limited(node_ref(node_cache_.botsink()));
 
         node* m = memo_.cache_lookup(f.ref, g.ref, memo_struct::and_symb());
         if(m != nullptr)
-        {
-            const size_t m_nr_nodes = m->nr_nodes();
-            if(m != nullptr)
-                if(m_nr_nodes <= node_limit)
-                    return {node_ref(m), m_nr_nodes};
-                else 
-                    return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-        }
+            return limited(node_ref(m));
 
         var& f_var = vars[f.variable()];
         var& g_var = vars[g.variable()];
@@ -146,19 +142,19 @@ namespace BDD {
         auto [r0, r0_nr_nodes] = and_rec_limited(&v == &f_var ? f.low() : f, &v == &g_var ? g.low() : g, node_limit);
         assert((r0 == nullptr) == (r0_nr_nodes == std::numeric_limits<size_t>::max()));
         assert(r0.ref != nullptr || r0_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes > node_limit)
+        if(r0.ref == nullptr)
             return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
         auto [r1, r1_nr_nodes] = and_rec_limited(&v == &f_var ? f.high() : f, &v == &g_var ? g.high() : g, node_limit);
         assert((r1 == nullptr) == (r1_nr_nodes == std::numeric_limits<size_t>::max()));
         assert(r1.ref != nullptr || r1_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes == std::numeric_limits<size_t>::max() || r1_nr_nodes == std::numeric_limits<size_t>::max() || r0_nr_nodes + r1_nr_nodes > node_limit)
+        if(r1.ref == nullptr)
             return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
         
         node* r = v.unique_find(r0.ref, r1.ref);
         assert(r != nullptr);
         //if(r != nullptr)
         memo_.cache_insert(f.ref, g.ref, memo_struct::and_symb(), r);
-        return {node_ref(r),r0_nr_nodes + r1_nr_nodes}; 
+        return limited(node_ref(r));
     }
 
     node_ref bdd_mgr::or_rec(node_ref f, node_ref g)
-- 
2.43.0


From 303bc820bc69a4db995ee0b1938e95d6b4c4b596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:04 +0000
Subject: [PATCH 17/20] fix: export_graphviz of a constant bdd does not read
 past the list of clusters

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 8828bb6..07920e0 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -482,7 +482,7 @@ namespace BDD {
             for(auto [x,y] : cluster_nodes)
                 cluster_nodes2.push_back({x,y});
             std::sort(cluster_nodes2.begin(), cluster_nodes2.end(), [](const auto a, const auto b) { return a[0] < b[0]; });
-            for(size_t c=0; c<cluster_nodes2.size()-1; ++c)
+            for(size_t c=0; c+1<cluster_nodes2.size(); ++c)
                 s << cluster_nodes2[c][1] << " -> " << cluster_nodes2[c+1][1] << " [style=invis];\n";
 
             for(size_t i=bdd_delimiters[bdd_nr]; i<bdd_delimiters[bdd_nr+1]; ++i)
-- 
2.43.0


From 7bc621cdaaecf2e82dc99408d0ea9c57b0f1bd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:19 +0000
Subject: [PATCH 18/20] fix: nodes of a collection hold their entry by value
 instead of referring to a temporary

---
 include/bdd_collection.h | 57 ++++++++++++++++++++--------------------
 src/bdd_collection.cpp   |  2 +-
 2 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 07920e0..b5d0807 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -54,7 +54,34 @@ namespace BDD {
         } 
     };
 
-    class bdd_collection_entry;
+    class bdd_collection;
+    class bdd_collection_node;
+
+    // convenience class to make bdd_collection bdds behave similary to node_ref
+    class bdd_collection_entry 
+    {
+        friend class bdd_collection_node;
+        public:
+            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
+            std::vector<size_t> variables();
+            bdd_collection_entry operator&(bdd_collection_entry& o);
+            bdd_collection_node operator[](const size_t i) const;
+            size_t nr_nodes() const;
+            size_t nr_nodes(const size_t variable) const;
+            template<typename ITERATOR>
+                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
+            template<typename VAR_MAP>
+                void rebase(const VAR_MAP& var_map);
+
+            bdd_collection_node root_node() const;
+            bdd_collection_node first_node_postorder() const;
+            bdd_collection_node botsink() const;
+            bdd_collection_node topsink() const;
+
+        private:
+            const size_t bdd_nr;
+            bdd_collection& bdd_col;
+    };
 
     // convenience class for wrapping bdd node
     class bdd_collection_node
@@ -85,33 +112,7 @@ namespace BDD {
 
         private:
             size_t i; 
-            const bdd_collection_entry& bce;
-    };
-
-    // convenience class to make bdd_collection bdds behave similary to node_ref
-    class bdd_collection_entry 
-    {
-        friend class bdd_collection_node;
-        public:
-            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
-            std::vector<size_t> variables();
-            bdd_collection_entry operator&(bdd_collection_entry& o);
-            bdd_collection_node operator[](const size_t i) const;
-            size_t nr_nodes() const;
-            size_t nr_nodes(const size_t variable) const;
-            template<typename ITERATOR>
-                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
-            template<typename VAR_MAP>
-                void rebase(const VAR_MAP& var_map);
-
-            bdd_collection_node root_node() const;
-            bdd_collection_node first_node_postorder() const;
-            bdd_collection_node botsink() const;
-            bdd_collection_node topsink() const;
-
-        private:
-            const size_t bdd_nr;
-            bdd_collection& bdd_col;
+            bdd_collection_entry bce;
     };
 
     class bdd_collection {
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 8b94111..66ba345 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -767,7 +767,7 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_node::operator=(const bdd_collection_node& o)
     {
-        assert(&bce == &o.bce);
+        assert(bce.bdd_nr == o.bce.bdd_nr && &bce.bdd_col == &o.bce.bdd_col);
         i = o.i;
         return *this;
     }
-- 
2.43.0


From 24e912a86cc802cfb017279ecb2b0f6ab2d21229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:18 +0000
Subject: [PATCH 19/20] fix: a bdd of a collection can be constructed node by
 node

---
 include/bdd_collection.h |  1 +
 src/bdd_collection.cpp   | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index b5d0807..93b2df3 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -79,6 +79,7 @@ namespace BDD {
             bdd_collection_node topsink() const;
 
         private:
+            bool is_open() const; // under construction: terminals are added by close_bdd
             const size_t bdd_nr;
             bdd_collection& bdd_col;
     };
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 66ba345..46a6b1e 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -564,6 +564,7 @@ namespace BDD {
         instr.lo = bdd_instruction::temp_undefined_index;
         instr.hi = bdd_instruction::temp_undefined_index;
         bdd_instructions.push_back(instr);
+        bdd_delimiters.back() = bdd_instructions.size();
         return bdd_collection_node(bdd_instructions.size()-1, bdd_collection_entry(bdd_delimiters.size()-2, *this));
     }
 
@@ -574,7 +575,7 @@ namespace BDD {
         bdd_instructions.push_back(bdd_instruction::botsink());
 
         // go over previous bdd instructions and reroute topsink and botsink entries to correct entries
-        for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx<bdd_delimiters[bdd_delimiters.size()-1]-2; ++idx)
+        for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx+2<bdd_instructions.size(); ++idx)
         {
             auto& instr = bdd_instructions[idx];
 
@@ -660,6 +661,12 @@ namespace BDD {
         return node;
     }
 
+    bool bdd_collection_entry::is_open() const
+    {
+        const auto& last = bdd_col.bdd_instructions[bdd_col.bdd_delimiters[bdd_nr+1]-1];
+        return !last.is_botsink() && !last.is_topsink();
+    }
+
     bdd_collection_node bdd_collection_entry::operator[](const size_t i) const
     {
         bdd_collection_node node( bdd_col.bdd_delimiters[bdd_nr] + i, *(this));
@@ -726,25 +733,25 @@ namespace BDD {
     void bdd_collection_node::set_lo_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.botsink().i;
+        instr.lo = bce.is_open() ? bdd_instruction::temp_botsink_index : bce.botsink().i;
     }
 
     void bdd_collection_node::set_lo_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.topsink().i;
+        instr.lo = bce.is_open() ? bdd_instruction::temp_topsink_index : bce.topsink().i;
     }
 
     void bdd_collection_node::set_hi_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.botsink().i;
+        instr.hi = bce.is_open() ? bdd_instruction::temp_botsink_index : bce.botsink().i;
     }
 
     void bdd_collection_node::set_hi_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.topsink().i;
+        instr.hi = bce.is_open() ? bdd_instruction::temp_topsink_index : bce.topsink().i;
     }
 
     bdd_collection_node bdd_collection_node::next_postorder() const
-- 
2.43.0


From 8f6b3d95683ac51698f90e63e54fb95b91a2a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:12 +0000
Subject: [PATCH 20/20] fix: get_reverse_bdd_instructions returns the
 instructions in reverse order

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 93b2df3..3322099 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -154,7 +154,7 @@ namespace BDD {
             template<typename STREAM>
                 void export_graphviz(const size_t bdd_nr, STREAM& s) const;
             auto get_bdd_instructions(const size_t bdd_nr) const { return std::make_pair(bdd_instructions.begin() + bdd_delimiters[bdd_nr], bdd_instructions.begin() + bdd_delimiters[bdd_nr+1]); }
-            auto get_reverse_bdd_instructions(const size_t bdd_nr) const { return std::make_pair(bdd_instructions.begin() + bdd_delimiters[bdd_nr], bdd_instructions.begin() + bdd_delimiters[bdd_nr+1]); }
+            auto get_reverse_bdd_instructions(const size_t bdd_nr) const { return std::make_pair(bdd_instructions.rend() - bdd_delimiters[bdd_nr+1], bdd_instructions.rend() - bdd_delimiters[bdd_nr]); }
 
             // for constructing a new bdd
             size_t new_bdd();
-- 
2.43.0

