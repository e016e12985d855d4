From d7f46a3351a959659695c727563a5b32dc42ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 01/31] fix: write_aiger stops when no AIG is stored

---
 cli/command/io/write_aiger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/command/io/write_aiger.hpp b/cli/command/io/write_aiger.hpp
index 574a20f..cf6d183 100644
--- a/cli/command/io/write_aiger.hpp
+++ b/cli/command/io/write_aiger.hpp
@@ -18,6 +18,7 @@ protected:
     void execute() {
         if( store<iFPGA::aig_network>().empty() ) {    // clear the previous store
             printf("WARN: there is no any stored AIG file, please refer to the command \"read_aiger\"\n");
+            return;
         }
         iFPGA::write_aiger( store<iFPGA::aig_network>().current(), filename);
     }
-- 
2.43.0


From 454b4f1a84963f4e5aa37f6e769fad70d043420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 02/31] fix: cut sets hold the documented number of priority
 cuts (up to 20)

---
 include/database/cut/cut_enumeration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/database/cut/cut_enumeration.hpp b/include/database/cut/cut_enumeration.hpp
index b6e11c9..29399bd 100755
--- a/include/database/cut/cut_enumeration.hpp
+++ b/include/database/cut/cut_enumeration.hpp
@@ -155,7 +155,7 @@ template<typename Ntk, bool ComputeTruth, typename CutData>
 struct network_cuts
 {
 public:
-  static constexpr uint32_t max_cut_num = 12;
+  static constexpr uint32_t max_cut_num = 21;
   using cut_t     = cut_type<ComputeTruth, CutData>;
   using cut_set_t = cut_set<cut_t, max_cut_num>;
 
-- 
2.43.0


From 2d620e6a9e34723616f91a0ab07e1f8cec070ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 03/31] fix: refactor skips gates that are not reachable from
 an output

---
 include/operations/optimization/refactor.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index 2a45a3f..a31c0ed 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -86,6 +86,12 @@ namespace detail
           return;
         }
 
+        // skip the nodes which are not reachable from any output, they have no depth information
+        if (_depth_map.find(n) == _depth_map.end())
+        {
+          return;
+        }
+
         // 1、compute a reconvergence-driven cut
         compute_reconvergence_driven_cut(n);
 
-- 
2.43.0


From 06e9510522e918d23b4c7f45293120f594206d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 04/31] fix: refactor rejects cone input sizes below the two
 fan-ins of a gate

---
 cli/command/refactor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cli/command/refactor.hpp b/cli/command/refactor.hpp
index a24fee5..cb04e64 100644
--- a/cli/command/refactor.hpp
+++ b/cli/command/refactor.hpp
@@ -10,7 +10,7 @@ class refactor_command : public command
 public:
     explicit refactor_command(const environment::ptr& env) : command(env, "performs technology-independent refactoring of AIG") 
     {
-        add_option("--max_input_size, -I", input_size, "set the max input size of the cone, <= 12 [default=10]");
+        add_option("--max_input_size, -I", input_size, "set the max input size of the cone, [2, 12] [default=10]");
         add_option("--max_cone_size, -C", cone_size, "set the max node size in the cone, <=20 [default=16]");
         add_flag("--level_preserve, -l", preserve_level, "toggles of preserving the leves [default=yes]");
         add_flag("--zero_gain, -z", zero_gain, "toggles of using zero-cost local replacement [default=no]");
@@ -26,8 +26,8 @@ protected:
             return;
         }
 
-        if( input_size > 12u ) {
-            printf("WARN: the max input size of the cone should be <= 12, please refer to the command \"refactor -h\"\n");
+        if( input_size < 2u || input_size > 12u ) {
+            printf("WARN: the max input size of the cone should be in the range [2, 12], please refer to the command \"refactor -h\"\n");
             return;
         }
 
-- 
2.43.0


From 79c8464c976968c639747aa7a8db2745ff4c27ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 05/31] fix: klut_mapping keeps the caller's iteration counts
 and verbosity

---
 include/operations/algorithms/klut_mapping.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index ee87933..e4603fa 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -168,7 +168,7 @@ class klut_mapping_impl
 
   private:
     /**
-     * @brief initialize the parameters to default value
+     * @brief initialize the internal parameters, the user's settings (iterations, verbose) are kept
      */
     void init_parameters()
     {
@@ -180,11 +180,8 @@ class klut_mapping_impl
       _ps->eSortMode     = ETC_DELAY;
       _ps->eCutMode      = ETM_DELAY;
       _ps->bUseLutLib    = false;
-      _ps->uFlowIters    = 1;
-      _ps->uAreaIters    = 2;
       _ps->iDelayTraget  = -1;
       _ps->fEpsilon      = 0.005f;
-      _ps->verbose       = false;
     }
 
     /**
-- 
2.43.0


From e39a118385d55d36099d48d39b4298e4785175a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 06/31] fix: a full history rejects further additions and stays
 usable

---
 cli/command/history.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index 2fde652..d0a7227 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -24,14 +24,11 @@ protected:
             return;
         }
 
-        if (cadd && history_index + 1 <= max_size) {
+        if (cadd && history_index + 1 < max_size) {
             iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
             store<iFPGA::aig_network>()[++history_index] = aig;
-        }
-
-        if (history_index + 1 > max_size) {
+        } else if (cadd) {
             printf("WARN: the max history size is %d, please refer to the command \"history -h\"\n", max_size);
-            return;
         }
 
         // using current AIG to replace the indexed history AIG
-- 
2.43.0


From 7952a060b758a6a753588deae57e37edc145d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 07/31] fix: history snapshots own their storage

---
 cli/command/history.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index d0a7227..8e7d179 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -25,7 +25,7 @@ protected:
         }
 
         if (cadd && history_index + 1 < max_size) {
-            iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
+            iFPGA::aig_network aig( std::make_shared<iFPGA::aig_storage>( *store<iFPGA::aig_network>().current()._storage ) ); // a snapshot owns its storage
             store<iFPGA::aig_network>()[++history_index] = aig;
         } else if (cadd) {
             printf("WARN: the max history size is %d, please refer to the command \"history -h\"\n", max_size);
@@ -37,7 +37,7 @@ protected:
         } else if (index_replace > history_index || index_replace < -1) {
             printf("WARN: the replace index is out of range, please refer to the command \"history -h\"\n");
         } else {
-            iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
+            iFPGA::aig_network aig( std::make_shared<iFPGA::aig_storage>( *store<iFPGA::aig_network>().current()._storage ) ); // a snapshot owns its storage
             store<iFPGA::aig_network>()[index_replace] = aig; // replace the AIG file
         }
 
-- 
2.43.0


From 783c549bc76fab5b173892a1bd6c696c47fd98e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 08/31] fix: choice mapping without any history AIG falls back
 to plain mapping

---
 cli/command/map_fpga.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/command/map_fpga.hpp b/cli/command/map_fpga.hpp
index 6e9b3a2..964e2bc 100644
--- a/cli/command/map_fpga.hpp
+++ b/cli/command/map_fpga.hpp
@@ -74,7 +74,11 @@ protected:
         param_mapping.uAreaIters = iAreaIter;
         param_mapping.verbose = verbose;
         
-        if(type == 1 && store<iFPGA::aig_network>().size() < 2) {
+        bool has_history = false;
+        for(int h = static_cast<int>(store<iFPGA::aig_network>().size()) - 2; h >= 0; h--) {
+            has_history = has_history || store<iFPGA::aig_network>()[h].num_gates() > 0;
+        }
+        if(type == 1 && !has_history) {
             printf("WARN: there is no another history AIG files, please refer to the command \"history\"\n");
             type = 0;
         }
-- 
2.43.0


From 75bfdf84248edddc9d96acc9c56d039a1122112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 09/31] fix: a k-LUT network on an existing storage adds no
 constant node

---
 include/database/network/klut_network.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index 01071d6..c54c379 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -78,7 +78,11 @@ public:
       : _storage( storage ),
         _events( std::make_shared<decltype( _events )::element_type>() )
   {
-    _init();
+    /* a storage that is already in use keeps its constant nodes */
+    if ( _storage->nodes.size() < 2u )
+    {
+      _init();
+    }
   }
 
 private:
-- 
2.43.0


From 9ec375008b7b15c9f0773013f579707c4f8fa97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 10/31] fix: clearing the history empties its slots

---
 cli/command/history.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index 8e7d179..f587bbc 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -42,7 +42,9 @@ protected:
         }
 
         if (cclear) {
-            history_index = -1;
+            for (; history_index >= 0; --history_index) {
+                store<iFPGA::aig_network>()[history_index] = iFPGA::aig_network(); // a cleared slot takes no part in choice mapping
+            }
         }
 
         if (csize) {
-- 
2.43.0


From e29abc2b6c4ddf750bfaae833e8448ee401d347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 11/31] fix: the history size does not outlive the design it
 was taken from

---
 cli/command/history.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index f587bbc..1eb6ba1 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -24,6 +24,11 @@ protected:
             return;
         }
 
+        // the slots of a previously read design are gone
+        while (history_index >= 0 && store<iFPGA::aig_network>()[history_index].size() <= 1 && store<iFPGA::aig_network>()[history_index].num_pos() == 0) {
+            --history_index;
+        }
+
         if (cadd && history_index + 1 < max_size) {
             iFPGA::aig_network aig( std::make_shared<iFPGA::aig_storage>( *store<iFPGA::aig_network>().current()._storage ) ); // a snapshot owns its storage
             store<iFPGA::aig_network>()[++history_index] = aig;
-- 
2.43.0


From 2a34b5fcf0b05cc7a0b9c2486e25ebc50bfb91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 12/31] fix: structural hash removes the entry of the node
 itself, not of a structural twin

When substitute_node makes a fanout structurally equal to the node being
replaced, both were hashed under one key and hash_erase removed the first
match: the live node left the table and the dead one stayed in it, so the
next create_and of the same pair returned (or asserted on) a dead node.
---
 include/database/network/aig_network.hpp     | 4 ++--
 include/database/network/details/storage.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index dd47e56..b9fd6fd 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -517,7 +517,7 @@ public:
     const auto old_child1 = signal{node.children[1]};
 
     // erase old node in hash table
-    _storage->hash_erase(node);
+    _storage->hash_erase(node, n);
 
     // insert updated node into hash table
     node.children[0] = child0;
@@ -565,7 +565,7 @@ public:
     /* delete the node (ignoring it's current fanout_size) */
     auto& nobj = _storage->nodes[n];
     nobj.data[0].h1 = UINT32_C( 0x80000000 ); /* fanout size 0, but dead */
-    _storage->hash_erase(nobj);
+    _storage->hash_erase(nobj, n);
 
     for ( auto const& fn : _events->on_delete )
     {
diff --git a/include/database/network/details/storage.hpp b/include/database/network/details/storage.hpp
index 06a1f14..555dfce 100755
--- a/include/database/network/details/storage.hpp
+++ b/include/database/network/details/storage.hpp
@@ -104,16 +104,16 @@ struct storage
     ++num_entries;
   }
 
-  void hash_erase(node_type n)
+  void hash_erase(node_type n, uint64_t index)
   {
     uint64_t key = abc_hash(n, hash.size());
     uint64_t cur = hash[key], pre = hash[key];
-    while(!(n == nodes[cur]) && nodes[cur].next != 0)
+    while(cur != index && nodes[cur].next != 0)
     {
       pre = cur;
       cur = nodes[cur].next;
     }
-    assert(n == nodes[cur]);
+    assert(cur == index);
     if(cur == hash[key])
     {
       hash[key] = nodes[cur].next;
-- 
2.43.0


From 2da9bbf4f61c0cab3be50a607a79f1b9316ee5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 13/31] fix: substitutions keep the replacements they still
 need alive and count fan-outs exactly

---
 include/database/network/aig_network.hpp | 39 +++++++++++++++++++-----
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index b9fd6fd..4c82608 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -524,8 +524,11 @@ public:
     node.children[1] = child1;
     _storage->hash_insert(node, n);
 
-    // update the reference counter of the new signal
-    _storage->nodes[new_signal.index].data[0].h1++;
+    // update the reference counter of the new signal (a fan-in that only changes its polarity is counted already)
+    if ( new_signal.index != old_node )
+    {
+      _storage->nodes[new_signal.index].data[0].h1++;
+    }
 
     for ( auto const& fn : _events->on_modified )
     {
@@ -594,13 +597,16 @@ public:
 
   void substitute_node( node const& old_node, signal const& new_signal )
   {
-    std::stack<std::pair<node, signal>> to_substitute;
-    to_substitute.push( {old_node, new_signal} );
+    std::vector<std::pair<node, signal>> to_substitute;
+    to_substitute.emplace_back( old_node, new_signal );
+
+    /* the signals of pending substitutions are referenced, such that they are not taken out before they are used */
+    incr_fanout_size( new_signal.index );
 
     while ( !to_substitute.empty() )
     {
-      const auto [_old, _new] = to_substitute.top();
-      to_substitute.pop();
+      const auto [_old, _new] = to_substitute.back();
+      to_substitute.pop_back();
 
       for ( auto idx = 1u; idx < _storage->nodes.size(); ++idx )
       {
@@ -609,18 +615,35 @@ public:
 
         if ( const auto repl = replace_in_node( idx, _old, _new ); repl )
         {
-          to_substitute.push( *repl );
+          incr_fanout_size( repl->second.index );
+          to_substitute.push_back( *repl );
         }
       }
 
       /* check outputs */
       replace_in_outputs( _old, _new );
 
-      /* recursively reset old node */
       if ( _old != _new.index )
       {
+        /* replace in pending substitutions */
+        for ( auto& s : to_substitute )
+        {
+          if ( s.second.index == _old )
+          {
+            s.second = s.second.complement ? !_new : _new;
+            incr_fanout_size( _new.index );
+          }
+        }
+
+        /* recursively reset old node */
         take_out_node( _old );
       }
+
+      /* release the reference of this substitution */
+      if ( decr_fanout_size( _new.index ) == 0 && _new.index != new_signal.index )
+      {
+        take_out_node( _new.index );
+      }
     }
   }
 
-- 
2.43.0


From fb44c77b6f67303292d57d5595bd038a42af0524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 14/31] fix: refactor ignores the depth of fan-outs that are
 not reachable from an output

---
 include/operations/optimization/refactor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index a31c0ed..d11149b 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -570,7 +570,8 @@ namespace detail
       for (auto fanout : fanouts_set)
       {
         auto depth_iter = _depth_map.find(fanout);
-        if (depth_iter->second < root_dp + 1)
+        // fanouts which are not reachable from any output have no depth information
+        if (depth_iter != _depth_map.end() && depth_iter->second < root_dp + 1)
         {
           depth_iter->second = root_dp + 1;
           recursive_update_fanouts_depth(fanout);
-- 
2.43.0


From a8409e2894ed26292f25ff3d9925daecf41b1b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:21 +0000
Subject: [PATCH 15/31] fix: choice mapping no longer selects the trivial cut
 of a node as its best cut

---
 include/operations/algorithms/klut_mapping.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index e4603fa..79f792b 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -382,6 +382,12 @@ class klut_mapping_impl
       auto& cuts_repr = _cut_network.cuts(n);
       auto next_choice_node = _ntk.get_equiv_node(n);
 
+      // the trival cut must not compete with the choice cuts, it would become the best cut; it is added again at the end
+      if( cuts_repr.size() > 1 && cuts_repr[cuts_repr.size() - 1].size() == 1u )
+      {
+        cuts_repr.resize( cuts_repr.size() - 1 );
+      }
+
       while(next_choice_node != AIG_NULL)
       {
         if( _cut_network.cuts(next_choice_node).size() ==0 )
-- 
2.43.0


From dbb4684aaa70bd25125002cb3e467adb465bc227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 16/31] fix: event handlers of a depth view do nothing once the
 view is gone, outputs may be driven by inputs

---
 include/database/views/depth_view.hpp | 40 ++++++++++++++++++++++-----
 include/utils/node_map.hpp            |  6 ++++
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index be6400d..2f0d046 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -18,6 +18,7 @@
 #pragma once
 
 #include <cstdint>
+#include <memory>
 #include <vector>
 
 #include "utils/traits.hpp"
@@ -109,7 +110,7 @@ public:
     static_assert( has_foreach_po_v<Ntk>, "Ntk does not implement the foreach_po method" );
     static_assert( has_foreach_fanin_v<Ntk>, "Ntk does not implement the foreach_fanin method" );
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    register_events();
   }
 
   /*! \brief Standard constructor.
@@ -120,8 +121,8 @@ public:
   explicit depth_view( Ntk const& ntk, NodeCostFn const& cost_fn = {}, depth_view_params const& ps = {} )
       : Ntk( ntk ),
         _ps( ps ),
-        _levels( ntk ),
-        _crit_path( ntk ),
+        _levels( *this ),
+        _crit_path( *this ),
         _cost_fn( cost_fn )
   {
     static_assert( is_network_type_v<Ntk>, "Ntk is not a network type" );
@@ -135,12 +136,24 @@ public:
 
     update_levels();
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    register_events();
+  }
+
+  /*! \brief Copies have levels and an event handler of their own. */
+  depth_view( depth_view const& other )
+      : Ntk( other ),
+        _ps( other._ps ),
+        _levels( *this ),
+        _crit_path( *this ),
+        _depth( other._depth ),
+        _cost_fn( other._cost_fn )
+  {
+    _levels.assign( other._levels );
+    _crit_path.assign( other._crit_path );
+    register_events();
   }
 
-  // We should add these or make sure that members are properly copied
-  //depth_view( depth_view<Ntk> const& ) = delete;
-  //depth_view<Ntk> operator=( depth_view<Ntk> const& ) = delete;
+  depth_view& operator=( depth_view const& ) = delete;
 
   uint32_t depth() const
   {
@@ -184,6 +197,7 @@ public:
   uint32_t create_po( signal const& f, std::string const& name = std::string() )
   {
     auto po = Ntk::create_po( f, name );
+    _levels.resize();
     _depth = std::max( _depth, _levels[f] );
     return po;
   }
@@ -257,6 +271,17 @@ private:
     }
   }
 
+  /* the network keeps its event handlers longer than a view lives: the handler does nothing once the view is gone */
+  void register_events()
+  {
+    Ntk::events().on_add.push_back( [view = std::weak_ptr<depth_view*>( _handle )]( auto const& n ) {
+      if ( auto const v = view.lock() )
+      {
+        ( *v )->on_add( n );
+      }
+    } );
+  }
+
   void on_add( node const& n )
   {
     _levels.resize();
@@ -279,6 +304,7 @@ private:
   node_map<uint32_t, Ntk> _crit_path;
   uint32_t _depth{};
   NodeCostFn _cost_fn;
+  std::shared_ptr<depth_view*> _handle{std::make_shared<depth_view*>( this )};
 };
 
 template<class T>
diff --git a/include/utils/node_map.hpp b/include/utils/node_map.hpp
index 48ba113..3732c13 100644
--- a/include/utils/node_map.hpp
+++ b/include/utils/node_map.hpp
@@ -173,6 +173,12 @@ public:
     }
   }
 
+  /*! \brief Copies the values of another map. */
+  void assign( node_map const& other )
+  {
+    *data = *other.data;
+  }
+
 private:
   Ntk const& ntk;
   std::shared_ptr<std::vector<T>> data;
-- 
2.43.0


From 6b4c5dd655fdcc38aeb7c19dc81817ded504e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 17/31] fix: substitute_node follows substitutions already made
 in networks that are not in topological index order

---
 include/database/network/aig_network.hpp | 35 ++++++++++++++++++------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index 4c82608..03fdbc1 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -598,10 +598,24 @@ public:
   void substitute_node( node const& old_node, signal const& new_signal )
   {
     std::vector<std::pair<node, signal>> to_substitute;
-    to_substitute.emplace_back( old_node, new_signal );
+    std::vector<std::pair<node, signal>> substituted;
+    std::vector<node> referenced;
 
-    /* the signals of pending substitutions are referenced, such that they are not taken out before they are used */
-    incr_fanout_size( new_signal.index );
+    /* the signals of substitutions are referenced, such that they are not taken out before they are used */
+    const auto add_substitution = [&]( node const& n, signal s ) {
+      for ( auto const& [from, to] : substituted )
+      {
+        if ( s.index == from )
+        {
+          s = s.complement ? !to : to;
+        }
+      }
+      incr_fanout_size( s.index );
+      referenced.push_back( s.index );
+      to_substitute.emplace_back( n, s );
+    };
+
+    add_substitution( old_node, new_signal );
 
     while ( !to_substitute.empty() )
     {
@@ -615,8 +629,8 @@ public:
 
         if ( const auto repl = replace_in_node( idx, _old, _new ); repl )
         {
-          incr_fanout_size( repl->second.index );
-          to_substitute.push_back( *repl );
+          /* a fan-in of idx may be substituted already */
+          add_substitution( repl->first, repl->second );
         }
       }
 
@@ -632,17 +646,22 @@ public:
           {
             s.second = s.second.complement ? !_new : _new;
             incr_fanout_size( _new.index );
+            referenced.push_back( _new.index );
           }
         }
+        substituted.emplace_back( _old, _new );
 
         /* recursively reset old node */
         take_out_node( _old );
       }
+    }
 
-      /* release the reference of this substitution */
-      if ( decr_fanout_size( _new.index ) == 0 && _new.index != new_signal.index )
+    /* release the references */
+    for ( auto const& n : referenced )
+    {
+      if ( !is_dead( n ) && decr_fanout_size( n ) == 0 && n != new_signal.index )
       {
-        take_out_node( _new.index );
+        take_out_node( n );
       }
     }
   }
-- 
2.43.0


From d080c2757c350b42eea633a8bd9ea31245af011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 18/31] fix: refactor computes the depth of nodes that become
 reachable while it runs

---
 include/operations/optimization/refactor.hpp | 22 +++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index d11149b..c54645d 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -87,7 +87,7 @@ namespace detail
         }
 
         // skip the nodes which are not reachable from any output, they have no depth information
-        if (_depth_map.find(n) == _depth_map.end())
+        if (_r_depth_map.find(n) == _r_depth_map.end())
         {
           return;
         }
@@ -156,6 +156,22 @@ namespace detail
       } });
     }
 
+    /**
+     * @brief depth of a node, nodes which have become reachable meanwhile get theirs from their fanins
+     */
+    uint32_t get_depth(node<Ntk> n)
+    {
+      if (auto iter = _depth_map.find(n); iter != _depth_map.end())
+      {
+        return iter->second;
+      }
+      uint32_t depth = 0;
+      _ntk.foreach_fanin(n, [&](auto const &f)
+                         { depth = std::max(depth, 1 + get_depth(_ntk.get_node(f))); });
+      _depth_map.insert(std::make_pair(n, depth));
+      return depth;
+    }
+
     /**
      * @brief Computes reverse levels for each node(length of the farthest path from n to POs)
      */
@@ -242,7 +258,7 @@ namespace detail
       for (auto leaf : _leaves_nodes)
       {
         cur_cost = compute_leaf_cost(leaf);
-        int cur_level = _depth_map.find(leaf)->second;
+        int cur_level = get_depth(leaf);
 
         if (cur_cost < best_cost || (cur_cost == best_cost && cur_level > best_fanin_level))
         {
@@ -506,7 +522,7 @@ namespace detail
                          {
       auto child = _ntk.get_node( s );
       if ( leaves_set.find( child ) != leaves_set.end() ) {  // leaves node
-        cur_depth = std::max( cur_depth, 1 + _depth_map.find( child )->second );
+        cur_depth = std::max( cur_depth, 1 + get_depth( child ) );
       } else {  // internal node
         cur_depth = std::max( cur_depth, 1 + recursive_update_depth( child, leaves_set ) );
       } });
-- 
2.43.0


From 7fcddfc0056a847063780baf6501d5d69edfae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 19/31] fix: rewrite computes the depth of a replacement in
 time linear in its cone

---
 include/operations/optimization/rewrite.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/operations/optimization/rewrite.hpp b/include/operations/optimization/rewrite.hpp
index db6f73b..91c1691 100644
--- a/include/operations/optimization/rewrite.hpp
+++ b/include/operations/optimization/rewrite.hpp
@@ -234,18 +234,29 @@ class rewrite_impl
    * @return depth for n
   */
   int update_arrive_depth(node_t const& n, std::vector<node_t> const& leaves) {
+    std::unordered_map<node_t, int> depths;
+    return update_arrive_depth_rec(n, leaves, depths);
+  }
+
+  /**
+   * @brief update the arrive for the padding subgraph, each node of the subgraph is computed once
+  */
+  int update_arrive_depth_rec(node_t const& n, std::vector<node_t> const& leaves, std::unordered_map<node_t, int>& depths) {
+    if(auto it = depths.find(n); it != depths.end())
+      return it->second;
+
     int res = 0;
     _ntk.foreach_fanin(n, [&](auto const& sc){
       auto nc = _ntk.get_node(sc);
       if(std::find(leaves.begin(), leaves.end(), nc) != leaves.end()) {
         res = std::max(res, _depth_arrive[nc] + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], _depth_arrive[nc] + 1);
       }
       else {
-        res = std::max(res, update_arrive_depth(nc, leaves) + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], update_arrive_depth(nc, leaves) + 1);
+        res = std::max(res, update_arrive_depth_rec(nc, leaves, depths) + 1);
       }
     });
+    _depth_arrive[n] = std::max(_depth_arrive[n], res);
+    depths[n] = res;
     return res;
   }
 
-- 
2.43.0


From b7f3acb089c3da8b59bd45e20b4e1111c9457671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 20/31] fix: refactor computes the depth of a replacement in
 time linear in its cone

---
 include/operations/optimization/refactor.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index c54645d..383d47d 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -507,14 +507,21 @@ namespace detail
     uint32_t update_depth(node<Ntk> root)
     {
       std::unordered_set<node<Ntk>> leaves_set(_leaves_nodes.begin(), _leaves_nodes.end());
-      return recursive_update_depth(root, leaves_set);
+      std::unordered_set<node<Ntk>> updated;
+      return recursive_update_depth(root, leaves_set, updated);
     }
 
     /**
      * @brief recursive compute depth for nodes in new cone
      */
-    uint32_t recursive_update_depth(node<Ntk> root, std::unordered_set<node<Ntk>> &leaves_set)
+    uint32_t recursive_update_depth(node<Ntk> root, std::unordered_set<node<Ntk>> &leaves_set, std::unordered_set<node<Ntk>> &updated)
     {
+      // each node is computed once
+      if (!updated.insert(root).second)
+      {
+        return _depth_map.find(root)->second;
+      }
+
       uint32_t cur_depth = 0;
 
       // compute current max depth
@@ -524,7 +531,7 @@ namespace detail
       if ( leaves_set.find( child ) != leaves_set.end() ) {  // leaves node
         cur_depth = std::max( cur_depth, 1 + get_depth( child ) );
       } else {  // internal node
-        cur_depth = std::max( cur_depth, 1 + recursive_update_depth( child, leaves_set ) );
+        cur_depth = std::max( cur_depth, 1 + recursive_update_depth( child, leaves_set, updated ) );
       } });
 
       // update depth info
-- 
2.43.0


From 4a13fc4992a269bd9daeb779df923ee3f80ec26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 21/31] fix: rewrite never gives a gate the same signal as both
 fan-ins

---
 include/operations/optimization/rewrite.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/operations/optimization/rewrite.hpp b/include/operations/optimization/rewrite.hpp
index 91c1691..f0e1e5c 100644
--- a/include/operations/optimization/rewrite.hpp
+++ b/include/operations/optimization/rewrite.hpp
@@ -333,11 +333,16 @@ class rewrite_impl
         auto nfo = _ntk.get_node(sfo);
         auto sc0 = _ntk.get_child0(nfo);
         auto sc1 = _ntk.get_child1(nfo);
+        // a gate never gets the same signal twice (it would be taken for a combinational input), it keeps the old fanin then
         if(_ntk.get_node(sc0) == old_n) {
-          _ntk.set_child0(nfo, signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc0)));
+          auto new_sc0 = signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc0));
+          if(!(new_sc0 == sc1))
+            _ntk.set_child0(nfo, new_sc0);
         }
         if(_ntk.get_node(sc1) == old_n) {
-          _ntk.set_child1(nfo, signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc1)));
+          auto new_sc1 = signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc1));
+          if(!(new_sc1 == _ntk.get_child0(nfo)))
+            _ntk.set_child1(nfo, new_sc1);
         }
       }
     }
-- 
2.43.0


From ed43dcfa1f966379a11d334795374d98d30e5822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 22/31] fix: keep port names of AIGER symbol tables with
 unnamed ports or shared outputs

Names were looked up by signal, so a port without a name took the name of
another port on the same signal or read past the end of the name list.
---
 include/operations/io/reader.hpp | 87 +++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 35 deletions(-)

diff --git a/include/operations/io/reader.hpp b/include/operations/io/reader.hpp
index 61a2d2d..2d877c7 100755
--- a/include/operations/io/reader.hpp
+++ b/include/operations/io/reader.hpp
@@ -22,6 +22,9 @@
 #include <sstream>
 #include <cctype>
 #include <algorithm>
+#include <set>
+#include <string>
+#include <vector>
 
 #include "utils/ifpga_namespaces.hpp"
 #include "network/aig_network.hpp"
@@ -79,7 +82,7 @@ public:
     // keep base class manipulation
     this->aiger_reader<Ntk>::on_input_name(index, name);
     // store port name
-    _port_infos.input_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
+    set_name(_port_infos.input_names, index, name);
   }
   
   void on_output_name(unsigned index, const std::string& name) const override
@@ -87,7 +90,7 @@ public:
     // keep base class manipulation
     this->aiger_reader<Ntk>::on_output_name(index, name);
     // store port name
-    _port_infos.output_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
+    set_name(_port_infos.output_names, index, name);
   }
   
   /**
@@ -97,8 +100,45 @@ public:
   { 
     return _port_infos;
   }
+
+private:
+  /// names are kept by position: a port may have no name, and several outputs may share one signal
+  static void set_name(std::vector<std::pair<std::string, uint32_t>>& names, unsigned index, const std::string& name)
+  {
+    if(names.size() <= index)
+      names.resize(index + 1u);
+    names[index].first = name.empty() ? name : to_escaped_identifier(name);
+  }
 }; 
 
+/**
+ * @brief give every port a name when some ports are named
+ */
+inline void complete_port_names(write_verilog_params& ports, uint32_t num_inputs, uint32_t num_outputs)
+{
+  if(ports.input_names.empty() && ports.output_names.empty())
+    return;
+  std::set<std::string> used;
+  for(auto const& port : ports.input_names)
+    used.insert(port.first);
+  for(auto const& port : ports.output_names)
+    used.insert(port.first);
+  auto const complete = [&](std::vector<std::pair<std::string, uint32_t>>& names, uint32_t num, const std::string& prefix) {
+    names.resize(num);
+    for(uint32_t i = 0u; i < num; ++i)
+    {
+      if(!names[i].first.empty())
+        continue;
+      std::string name = prefix + std::to_string(i);
+      while(!used.insert(to_escaped_identifier(name)).second)
+        name = "_" + name;
+      names[i].first = to_escaped_identifier(name);
+    }
+  };
+  complete(ports.input_names, num_inputs, "i");
+  complete(ports.output_names, num_outputs, "o");
+}
+
 
 enum FileType{
   aag = 0,
@@ -119,46 +159,23 @@ public:
   {
     assert( isFileExist(path_in) );
 
-    /// way1: use NameMap
     NameMap<Ntk> nameMap;
-    auto const result = lorina::read_aiger( path_in , aiger_reader<Ntk>{_aig, &nameMap});
-
-    /// way2: use inherited class 
-    //aig_reader<iFPGA_NAMESPACE::aig_network> reader(_aig);
-    //auto const result = lorina::read_aiger( path_in , reader );
+    write_verilog_params names;
+    lorina::return_code result;
+    {
+      aig_reader<Ntk> reader(_aig, &nameMap);
+      result = lorina::read_aiger( path_in , reader );
+      names = reader.get_params();
+    } // the outputs are created when the reader goes out of scope
 
     if( result == lorina::return_code::success )
     {
       // std::cout<< "\tINFO: read the aig file SUCCESS, path from: "<< path_in << std::endl;
       _state = true;
       aig = _aig;
-      /// Network + NameMap -> write_verilog_params
-      {
-        using signal = typename Ntk::signal;
-        std::map<uint64_t, uint32_t> signalCount; // for one signal has multiple names
-        for(auto input: aig._storage->inputs)
-        {
-          signal s = signal{input, 0};
-          auto names = nameMap[s];
-          if(!names.empty())
-          {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.input_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
-          }
-        }
-        for(auto output : aig._storage->outputs)
-        {
-          signal s = signal{output.index, output.weight};
-          auto names = nameMap[s];
-          if(!names.empty())
-          {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.output_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
-          }
-        }
-      }
+      complete_port_names(names, aig.num_pis(), aig.num_pos());
+      portnames.input_names.insert(portnames.input_names.end(), names.input_names.begin(), names.input_names.end());
+      portnames.output_names.insert(portnames.output_names.end(), names.output_names.begin(), names.output_names.end());
     }
     else
     {
-- 
2.43.0


From 7466aa8bc33484b4a293a28315012fa64eceb4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 23/31] fix: internal names of written netlists do not clash
 with port names

A design with a port named like an internal net (n4, _w5_, name0) was
written as a netlist in which that net had two drivers.
---
 .../operations/io/detail/write_verilog.hpp    | 27 +++++++++++++++++--
 include/operations/io/detail/writer_lut.hpp   | 13 +++++----
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/include/operations/io/detail/write_verilog.hpp b/include/operations/io/detail/write_verilog.hpp
index 231bb62..05d9c77 100644
--- a/include/operations/io/detail/write_verilog.hpp
+++ b/include/operations/io/detail/write_verilog.hpp
@@ -58,6 +58,28 @@ struct write_verilog_params
   std::vector<std::pair<std::string, uint32_t>> output_names;
 };
 
+namespace detail
+{
+
+/*! \brief Prefix for internal names that does not start any port name */
+inline std::string internal_prefix( std::string prefix, write_verilog_params const& ps )
+{
+  auto const clashes = [&]( auto const& ports ) {
+    for ( auto const& port : ports )
+    {
+      auto const& name = port.first;
+      if ( name.compare( !name.empty() && name[0] == '\\' ? 1u : 0u, prefix.size(), prefix ) == 0 )
+        return true;
+    }
+    return false;
+  };
+  while ( clashes( ps.input_names ) || clashes( ps.output_names ) )
+    prefix = "_" + prefix;
+  return prefix;
+}
+
+} // namespace detail
+
 /*! \brief Writes network in structural Verilog format into output stream
  *
  *  reference: mockturtle/include/io/write_verilog.hpp
@@ -171,9 +193,10 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
     }
   }
 
+  std::string const prefix = detail::internal_prefix( "n", ps );
   std::vector<std::string> ws;
   ntk.foreach_gate( [&]( auto const& n ) {
-    ws.emplace_back( fmt::format( "n{}", ntk.node_to_index( n ) ) );
+    ws.emplace_back( fmt::format( "{}{}", prefix, ntk.node_to_index( n ) ) );
   } );
 
   lorina::verilog_writer writer( os );
@@ -235,7 +258,7 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
       return true;
 
     /* assign a name */
-    node_names[n] = fmt::format( "n{}", ntk.node_to_index( n ) );
+    node_names[n] = fmt::format( "{}{}", prefix, ntk.node_to_index( n ) );
 
     if ( ntk.is_and( n ) )
     {
diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index 9cb953a..5ade7c6 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -114,6 +114,8 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
     }
   }
 
+  std::string const wire_prefix = detail::internal_prefix( "_w", ps );
+  std::string const name_prefix = detail::internal_prefix( "name", ps );
   std::vector< LUT > vec_LUTs;
   std::unordered_set<uint32_t> uset_wires;    // using the set to flag the already exsit node.
   ntk.foreach_node( [&]( auto const& n ) {
@@ -129,15 +131,15 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
       }
       std::string tmp_fanin;
       if( uset_wires.count(  ntk.node_to_index( ntk.get_node( c ) )  ) )
-        tmp_fanin =  fmt::format( "_w{}_", ntk.node_to_index( ntk.get_node( c ) ) );
+        tmp_fanin =  fmt::format( "{}{}_", wire_prefix, ntk.node_to_index( ntk.get_node( c ) ) );
       else if (pi_map.count(ntk.node_to_index(ntk.get_node(c))))
         tmp_fanin =  fmt::format( "{}", pi_map[ntk.node_to_index( ntk.get_node( c ) )] );
       else
         assert(0);
       tmp_lut.fanins.emplace_back( tmp_fanin );
     } );
-    tmp_lut.name = fmt::format( "name{}", vec_LUTs.size() );
-    tmp_lut.fanout = fmt::format( "_w{}_", ntk.node_to_index( n ) );  // should be node , not output
+    tmp_lut.name = fmt::format( "{}{}", name_prefix, vec_LUTs.size() );
+    tmp_lut.fanout = fmt::format( "{}{}_", wire_prefix, ntk.node_to_index( n ) );  // should be node , not output
     vec_LUTs.emplace_back( tmp_lut );
   } );
 
@@ -168,7 +170,7 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   }
   for(auto wire : uset_wires)
   {
-    os << fmt::format( "\twire _w{}_ ;\n", wire );
+    os << fmt::format( "\twire {}{}_ ;\n", wire_prefix, wire );
   }
   
   for(auto lut : vec_LUTs)
@@ -205,8 +207,9 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
     }
     else
     {
-      os << fmt::format( "\tassign {} = _w{}_ ;\n",
+      os << fmt::format( "\tassign {} = {}{}_ ;\n",
                          vec_pos[i],
+                         wire_prefix,
                          ntk.node_to_index( ntk.get_node( s ) ) );
     }
   } );
-- 
2.43.0


From 053586768865901429fc4f4d10e1f675fce039e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 24/31] fix: no leading comma in the port list of LUT netlists
 without inputs

---
 include/operations/io/detail/writer_lut.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index 5ade7c6..248de57 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -157,7 +157,8 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   }
   for (auto po : vec_pos)
   {
-    os << fmt::format( ", {}", po );
+    os << fmt::format( "{}{}", first ? "" : ", ", po );
+    first = false;
   }
   os << ");\n";
   for(auto pi : vec_pis)
-- 
2.43.0


From 721834f5c7b0aef03256eb5ef0b614947d6c55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 25/31] fix: topo_view counts the register outputs as inputs
 when it separates gates

---
 include/database/views/topo_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/database/views/topo_view.hpp b/include/database/views/topo_view.hpp
index 38378d0..4d50c97 100644
--- a/include/database/views/topo_view.hpp
+++ b/include/database/views/topo_view.hpp
@@ -135,7 +135,7 @@ public:
   /*! \brief Reimplementation of `num_gates`. */
   auto num_gates() const
   {
-    uint32_t const offset = 1u + this->num_pis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
+    uint32_t const offset = 1u + this->num_cis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
     return static_cast<uint32_t>( topo_order.size() - offset );
   }
 
@@ -164,7 +164,7 @@ public:
   template<typename Fn>
   void foreach_gate( Fn&& fn ) const
   {
-    uint32_t const offset = 1u + this->num_pis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
+    uint32_t const offset = 1u + this->num_cis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
     detail::foreach_element( topo_order.begin() + offset,
                              topo_order.end(),
                              fn );
-- 
2.43.0


From e7c94de1a105ed925cbcf0e134c413d8fc7d0850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 26/31] fix: topo_view::update_topo starts from an empty order

---
 include/database/views/topo_view.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/database/views/topo_view.hpp b/include/database/views/topo_view.hpp
index 4d50c97..e381a01 100644
--- a/include/database/views/topo_view.hpp
+++ b/include/database/views/topo_view.hpp
@@ -198,6 +198,7 @@ public:
   {
     this->incr_trav_id();
     this->incr_trav_id();
+    topo_order.clear();
     topo_order.reserve( this->size() );
 
     /* constants and PIs */
-- 
2.43.0


From b07c4615153f4f93c8d47f85f488866c93a209bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 27/31] fix: cut::merge wrote past the leaves of the result
 when the union does not fit

---
 include/database/cut/cut.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/database/cut/cut.hpp b/include/database/cut/cut.hpp
index 4ab822e..a82f4ed 100644
--- a/include/database/cut/cut.hpp
+++ b/include/database/cut/cut.hpp
@@ -293,10 +293,12 @@ bool cut<MaxLeaves, T>::merge( cut const& that, cut& res, uint32_t cut_size ) co
     }
   }
 
-  auto it = std::set_union( begin(), end(), that.begin(), that.end(), res.begin() );
-  if ( auto length = std::distance( res.begin(), it ); length <= cut_size )
+  /* the union may have more leaves than a cut can hold */
+  std::array<uint32_t, 2 * MaxLeaves> leaves;
+  auto it = std::set_union( begin(), end(), that.begin(), that.end(), leaves.begin() );
+  if ( auto length = std::distance( leaves.begin(), it ); length <= cut_size )
   {
-    res._cend = res._end = it;
+    res._cend = res._end = std::copy( leaves.begin(), it, res._leaves.begin() );
     res._length = static_cast<uint32_t>( length );
     res._signature = _signature | that._signature;
     return true;
-- 
2.43.0


From 3b5dcb0114f15f2cbb261043b105fd23d02c0367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 28/31] fix: minimising the table of a constant cut left a cut
 without leaves, which the cut sets reject

---
 include/database/cut/cut_enumeration.hpp       | 2 +-
 include/operations/algorithms/klut_mapping.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/database/cut/cut_enumeration.hpp b/include/database/cut/cut_enumeration.hpp
index 29399bd..7408a0a 100755
--- a/include/database/cut/cut_enumeration.hpp
+++ b/include/database/cut/cut_enumeration.hpp
@@ -470,7 +470,7 @@ public:
     if ( ps.minimize_truth_table )
     {
       const auto support = kitty::min_base_inplace( tt_res );
-      if ( support.size() != res.size() )
+      if ( !support.empty() && support.size() != res.size() )
       {
         auto tt_res_shrink = shrink_to( tt_res, static_cast<unsigned>( support.size() ) );
         std::vector<uint32_t> leaves_before( res.begin(), res.end() );
diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index 79f792b..f95189c 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -905,7 +905,7 @@ class klut_mapping_impl
       if ( _ps->cut_enumeration_ps.minimize_truth_table )
       {
         const auto support = kitty::min_base_inplace( tt_res );
-        if ( support.size() != res.size() )
+        if ( !support.empty() && support.size() != res.size() )
         {
           auto tt_res_shrink = shrink_to( tt_res, static_cast<unsigned>( support.size() ) );
           std::vector<uint32_t> leaves_before( res.begin(), res.end() );
-- 
2.43.0


From 432bc23302551b77f4c158cef68f1890b72fc6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 29/31] fix: k-LUT networks recognise their inputs by
 structure, not by the application value

---
 include/database/network/klut_network.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index c54c379..294fba6 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -162,8 +162,6 @@ public:
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
     ++_storage->data.num_pis;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 1;
     return index;
   }
 
@@ -188,8 +186,6 @@ public:
     _storage->nodes.emplace_back();
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 3;
     return index;
   }
 
@@ -224,13 +220,13 @@ public:
 
   bool is_ci( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1 ||
-           _storage->nodes[n].data[0].h2 == 3;
+    /* only inputs have no fan-ins; the application-specific value belongs to the user */
+    return n > 1 && _storage->nodes[n].children.empty();
   }
 
   bool is_pi( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1;
+    return is_ci( n ) && !is_ro( n );
   }
 
   bool is_ro( node const& n ) const
-- 
2.43.0


From f6d0222df1914f4635be54d48539a987ebd73a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 30/31] fix: input positions of k-LUT networks read fan-ins
 that inputs do not have

---
 include/database/network/klut_network.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index 294fba6..c2e4227 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -547,8 +547,16 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t ci_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data );
+    uint32_t i = -1;
+    foreach_ci( [&]( const auto& x, auto index ){
+        if ( x == n )
+        {
+          i = index;
+          return false;
+        }
+        return true;
+      });
+    return i;
   }
 
   uint32_t co_index( signal const& s ) const
@@ -567,8 +575,7 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t pi_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data );
+    return ci_index( n );
   }
 
   uint32_t po_index( signal const& s ) const
@@ -587,8 +594,7 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t ro_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data - _storage->data.num_pis );
+    return ci_index( n ) - _storage->data.num_pis;
   }
 
   uint32_t ri_index( signal const& s ) const
@@ -607,7 +613,7 @@ signal create_maj( signal a, signal b, signal c )
 
   signal ro_to_ri( signal const& s ) const
   {
-    return ( _storage->outputs.begin() + _storage->data.num_pos + _storage->nodes[s].children[0].data - _storage->data.num_pis )->index;
+    return ( _storage->outputs.begin() + _storage->data.num_pos + ro_index( s ) )->index;
   }
 
   node ri_to_ro( signal const& s ) const
-- 
2.43.0


From a825a608db34bf8824f6ed72cbd7c4cd3378f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:39 +0000
Subject: [PATCH 31/31] fix: klut_network::compute on Boolean values used the
 reverse variable order

---
 include/database/network/klut_network.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index c2e4227..7d0f354 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -739,11 +739,11 @@ signal create_maj( signal a, signal b, signal c )
   iterates_over_t<Iterator, bool>
   compute( node const& n, Iterator begin, Iterator end ) const
   {
+    /* the first fan-in is the least significant variable of the stored function */
     uint32_t index{0};
-    while ( begin != end )
+    for ( uint32_t var = 0u; begin != end; ++var )
     {
-      index <<= 1;
-      index ^= *begin++ ? 1 : 0;
+      index |= ( *begin++ ? 1u : 0u ) << var;
     }
     return kitty::get_bit( _storage->data.cache[_storage->nodes[n].data[1].h1], index );
   }
-- 
2.43.0

