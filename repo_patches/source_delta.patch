From 1a00174038d377bb602e5951a890d7dfa8bddc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 01/33] fix: RIDHolder::from_vec hands out the ID of its last
 item again (and panics on an empty list)

---
 node_tree_core/src/structs/rid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/rid.rs b/node_tree_core/src/structs/rid.rs
index 476b1d5..20e588e 100644
--- a/node_tree_core/src/structs/rid.rs
+++ b/node_tree_core/src/structs/rid.rs
@@ -50,7 +50,7 @@ impl <T> RIDHolder<T> {
 
     /// Creates a new RID holder from a vector, where each index of each item is its RID.
     pub fn from_vec(slice: Vec<T>) -> Self {
-        let highest: RID = (slice.len() - 1) as RID;
+        let highest: RID = slice.len() as RID;
         RIDHolder {
             data:    slice.into_iter().enumerate().map(|(rid, item)| (rid as RID, item)).collect(),
             highest,
-- 
2.43.0


From c4d55583a1d7e36cf55577f0415693a55b0a97c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 02/33] fix: reused IDs let stale tree pointers and signal
 connections refer to newer items

---
 node_tree_core/src/structs/rid.rs | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/node_tree_core/src/structs/rid.rs b/node_tree_core/src/structs/rid.rs
index 20e588e..43b9573 100644
--- a/node_tree_core/src/structs/rid.rs
+++ b/node_tree_core/src/structs/rid.rs
@@ -33,8 +33,7 @@ pub type RID = u64;
 #[derive(Debug, Clone, Default)]
 pub struct RIDHolder<T> {
     data:    HashMap<RID, T>,
-    highest: RID,
-    vacant:  Vec<RID>
+    highest: RID   // IDs are never reused, so that a stale ID can never refer to a newer item.
 }
 
 impl <T> RIDHolder<T> {
@@ -43,8 +42,7 @@ impl <T> RIDHolder<T> {
     pub fn new() -> Self {
         RIDHolder {
             data:    HashMap::new(),
-            highest: 0,
-            vacant:  Vec::new()
+            highest: 0
         }
     }
 
@@ -53,21 +51,14 @@ impl <T> RIDHolder<T> {
         let highest: RID = slice.len() as RID;
         RIDHolder {
             data:    slice.into_iter().enumerate().map(|(rid, item)| (rid as RID, item)).collect(),
-            highest,
-            vacant:  Vec::new()
+            highest
         }
     }
 
     /// Adds a new item to the holder, registering it under the returned ID.
     pub fn push(&mut self, item: T) -> RID {
-        let rid: RID = match self.vacant.pop() {
-            Some(id) => id,
-            None     => {
-                let id: RID = self.highest;
-                self.highest += 1;
-                id
-            }
-        };
+        let rid: RID = self.highest;
+        self.highest += 1;
 
         self.data.insert(rid, item);
         rid
@@ -88,13 +79,7 @@ impl <T> RIDHolder<T> {
     /// Removes an item from the collection by the passed RID.
     /// Returns the item.
     pub fn take(&mut self, rid: RID) -> Option<T> {
-        match self.data.remove(&rid) {
-            None       => None,
-            Some(item) => {
-                self.vacant.push(rid);
-                Some(item)
-            }
-        }
+        self.data.remove(&rid)
     }
 
     /// Returns an iter for each of the items.
-- 
2.43.0


From 28e6007083a620bb450a89d5adbec540986212ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:54 +0000
Subject: [PATCH 03/33] fix: removing nodes from a process function crashed the
 remainder of the frame

---
 node_tree_core/src/structs/node_tree_base.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 8ee4017..2aa6642 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -414,7 +414,17 @@ impl NodeTreeBase {
         }
 
         // Go through each of the children and process them, perpetuating the recursive cycle.
-        for child_node in node.children().into_iter().map(|c| c.rid()).collect::<Vec<_>>() {
+        // This node or any of the captured children may have been removed by the node functions
+        // which were called in the meantime.
+        let children: Vec<RID> = match self.get_node(node_rid) {
+            Some(node) => node.children().into_iter().map(|c| c.rid()).collect(),
+            None       => return
+        };
+        for child_node in children {
+            if self.get_node(child_node).is_none() {
+                continue;
+            }
+
             self.process_tail(child_node, delta, process_mode);
             if self.status == TreeStatus::Terminated {
                 break;
-- 
2.43.0


From 712692bc85df08c6988405606155fab17e305c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 04/33] fix: freeing a node with children or a running node,
 and removing a child whose descendants use the tree, was undefined behaviour

---
 node_tree_core/src/structs/node_base.rs      | 89 +++++++++-----------
 node_tree_core/src/structs/node_tree_base.rs | 11 +++
 2 files changed, 52 insertions(+), 48 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 9e09045..074e8ae 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -315,30 +315,12 @@ impl NodeBase {
             return false;
         }
 
-        let (
-            child_idx,
-            child_name,
-            connected
-        ): (usize, String, Vec<RID>) = unsafe {
-            child.map(|(idx, child)| (
-                    idx,
-                    child.name().to_string(),
-                    child.top_down(true)
-            )).unwrap_unchecked()
+        let (child_rid, child_name): (RID, String) = unsafe {
+            child.map(|(_, child)| (child.rid(), child.name().to_string())).unwrap_unchecked()
         };
-
-        self.children.remove(child_idx);
-        for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
-            let _is_root_child: bool          = idx == 0; // TODO: Use this to save children nodes!
-            let queued_node:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid).unwrap_unchecked();
-            
-            queued_node.terminal(TerminationReason::RemovedAsChild);
-            queued_node.disconnnect_parent();
-            queued_node.disconnnect_owner();
-            queued_node.disconnnect_tree();
-
-            self.tree_mut().unwrap_unchecked().unregister_node(queued_rid);
-        }}
+        if let Some(child) = self.tree_mut().and_then(|tree| tree.get_node_mut(child_rid)) {
+            child.remove_branch(TerminationReason::RemovedAsChild);
+        }
 
         self.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, self.name())));
         true 
@@ -596,38 +578,49 @@ impl NodeBase {
             panic!("Cannot free a node that is not a part of a NodeTree! Instead, simply let the unbound Node drop out of scope or use drop()!");
         }
         
-        // Call the terminal function on this node,
-        // before removing it and all it's children nodes from the NodeTree.
-        for node in self.top_down(true) {
-            let is_self: bool              = node == self.rid;
-            let tree:    &mut NodeTreeBase = unsafe { self.tree_mut().unwrap_unchecked() };
+        // Remove this node along with all of its children nodes from the NodeTree.
+        // If this is the root node, terminate the NodeTree.
+        let is_root: bool              = self.is_root();
+        let tree:    *mut dyn NodeTree = unsafe { self.tree.unwrap_unchecked() };
 
-            unsafe {
-                tree.get_node_mut(self.rid).unwrap_unchecked().terminal(TerminationReason::Freed); // Has to be called externally!
-            }
+        self.remove_branch(TerminationReason::Freed);
+        if is_root {
+            unsafe { &mut *tree }.terminate();
+        }
+    }
 
-            // Remove the reference of this node from its parent if it has a parent.
-            if is_self {
-                if let Some(parent) = self.parent {
-                    unsafe {
-                        let rid:       RID           = self.rid;
-                        let parent:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(parent).unwrap_unchecked();
-                        let child_idx: usize         = parent.children.iter().position(|&c_rid| c_rid == rid).unwrap_unchecked();
+    /// Terminates this node and all of the nodes below it, and removes them from the tree.
+    /// The removed nodes are kept allocated by the tree for as long as the current frame lasts, as
+    /// they may be in the middle of running one of their own functions.
+    fn remove_branch(&mut self, reason: TerminationReason) {
+        let rid:  RID               = self.rid;
+        let tree: &mut dyn NodeTree = unsafe { &mut *self.tree.unwrap_unchecked() };
 
-                        parent.children.remove(child_idx);
-                    }
-                }
-            }
-
-            unsafe {
-                tree.unregister_node(node);
+        // Every node is terminated while the whole branch is still a part of the tree.
+        for node_rid in self.top_down(true) {
+            if let Some(node) = tree.get_node_mut(node_rid) {
+                node.terminal(reason); // Has to be called externally!
             }
         }
+        if tree.get_node(rid).is_none() {
+            return;
+        }
 
-        // If this is the root node, terminate the NodeTree.
-        if self.is_root() {
-            self.tree_mut().unwrap().terminate();
+        // Remove the reference of this node from its parent if it has a parent.
+        let branch: Vec<RID> = self.top_down(true); // The terminal functions may have changed the branch.
+        if let Some(parent) = self.parent.and_then(|parent| tree.get_node_mut(parent)) {
+            parent.children.retain(|&c_rid| c_rid != rid);
         }
+
+        for node_rid in branch { unsafe {
+            if let Some(mut node) = tree.unregister_node(node_rid) {
+                node.disconnnect_parent();
+                node.disconnnect_owner();
+                node.disconnnect_tree();
+                node.children.clear();
+                tree.keep_removed(node);
+            }
+        }}
     }
 
     /// Saves this node and all of the nodes below it as a `NodeScene`, which can then be
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 2aa6642..6015179 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -155,6 +155,7 @@ pub struct NodeTreeBase {
     nodes:      RIDHolder<*mut dyn Node>,
     identity:   HashMap<RID, NodeIdentity>,
     singletons: HashMap<String, RID>,
+    removed:    Vec<Box<dyn Node>>,   // Nodes which were removed since the start of the last frame.
     status:     TreeStatus,
     last_frame: Instant
 }
@@ -176,6 +177,7 @@ impl NodeTreeBase {
             nodes,
             identity:   HashMap::new(),
             singletons: HashMap::new(),
+            removed:    Vec::new(),
             status:     TreeStatus::Process(TreeProcess::Running),
             last_frame: Instant::now()
         };
@@ -253,6 +255,9 @@ impl NodeTreeBase {
             return self.status;
         }
 
+        // None of the nodes removed before this frame can be in use anymore.
+        self.removed.clear();
+
         // Calculate the delta time in between frames.
         let now:     Instant  = Instant::now();
         let elapsed: Duration = now.duration_since(self.last_frame);
@@ -475,6 +480,12 @@ impl NodeTreeBase {
         })
     }
     
+    /// Keeps a node that was just unregistered allocated until the next frame starts, since a node
+    /// can be removed while one of its own functions is running.
+    pub(crate) fn keep_removed(&mut self, node: Box<dyn Node>) {
+        self.removed.push(node);
+    }
+    
     /// Converts a Node into a singleton which means that a node is allowed access by name.
     ///
     /// # Note:
-- 
2.43.0


From 7ff86720caf1689159aa98ebe9b3fd60d43ff294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 05/33] fix: ready ran on added scenes before they were
 complete, and on nodes freed by another ready function

---
 node_tree_core/src/structs/node_base.rs      | 31 ++++++++++----------
 node_tree_core/src/structs/node_tree_base.rs | 24 ++++++++++-----
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 074e8ae..47d168b 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -201,18 +201,25 @@ impl NodeBase {
     /// # Panics
     /// Panics if this Node is not connected to a `NodeTree`.
     pub fn add_child<I: Instanceable>(&mut self, child: I) {
+        let mut addition_history: Vec<RID> = Vec::new();
         child.iterate(|parent, node, is_owner| {
-            if let Some(parent) = parent {
+            let rid: RID = if let Some(parent) = parent {
                 unsafe {
                     let parent: &mut dyn Node = &mut *parent;
-                    parent.add_child_from_ptr(node, is_owner, false);
+                    parent.add_child_from_ptr(node, is_owner, true)
                 }
             } else {
                 unsafe {
-                    self.add_child_from_ptr(node, is_owner, false);
+                    self.add_child_from_ptr(node, is_owner, true)
                 }
-            }
+            };
+            addition_history.push(rid);
         });
+
+        // Only once the whole scene has been added are the nodes ready.
+        if let Some(tree) = self.tree_mut() {
+            tree.ready_nodes(addition_history);
+        }
     }
 
     /// Adds a child to the node via a passed in pointer, automatically renaming it if its
@@ -266,23 +273,17 @@ impl NodeBase {
         };
         self.children.push(child_rid);
         
+        // Print the debug information on the child to the console.
+        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
+        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
+        
         // Call the `ready()` function for the child as long as the call to ready() is not ignored
         // or circumvented..
         if !ignore_ready {
             unsafe {
-                let child: &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(child_rid).unwrap_unchecked();
-                if child.has_just_loaded() {
-                    child.loaded();
-                    child.mark_as_final();
-                }
-                child.ready();
-
+                self.tree_mut().unwrap_unchecked().ready_nodes(vec![child_rid]);
             }
         }
-        
-        // Print the debug information on the child to the console.
-        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
-        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
         child_rid
     }
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 6015179..1b18d69 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -233,15 +233,25 @@ impl NodeTreeBase {
         });
 
         // Go through the initialization history backwards and run each node's `ready()` function.
-        for rid in initialization_history.into_iter().rev() {
-            let node: &mut dyn Node = unsafe { self.get_node_mut(rid).unwrap_unchecked() };
-            if node.has_just_loaded() {
-                node.loaded();
-                unsafe {
-                    node.mark_as_final();
+        self.ready_nodes(initialization_history);
+    }
+
+    /// Goes backwards through the given nodes, which were just added to the tree, and runs each
+    /// node's `loaded()` function if it was loaded from the disk, followed by its `ready()` function.
+    /// Nodes that have been removed by one of these functions are skipped.
+    pub(crate) fn ready_nodes(&mut self, history: Vec<RID>) {
+        for rid in history.into_iter().rev() {
+            if let Some(node) = self.get_node_mut(rid) {
+                if node.has_just_loaded() {
+                    node.loaded();
+                    unsafe {
+                        node.mark_as_final();
+                    }
                 }
             }
-            node.ready();
+            if let Some(node) = self.get_node_mut(rid) {
+                node.ready();
+            }
         }
     }
 
-- 
2.43.0


From d7b972099255c9fc44b1732c97c3825f5ba48c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 06/33] fix: the root of a loaded scene lost its owner mark and
 never ran its loaded function

---
 node_tree_core/src/structs/node_scene.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 869a6db..e23bfc5 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -171,7 +171,13 @@ impl NodeScene {
                         None => return Err("Child was declared ahead of parent in the .scn file".to_string())
                     }
                 },
-                None => node_scene = Some(NodeScene::new_dyn(node))
+                None => {
+                    let mut new_scene: NodeScene = NodeScene::new_dyn(node);
+                            new_scene.from_disk  = true;
+                            new_scene.is_owner   = is_owner;
+
+                    node_scene = Some(new_scene);
+                }
             }
         }
 
@@ -359,6 +365,11 @@ impl hash::Hash for NodeScene {
 
 impl Instanceable for NodeScene {
     fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) {
+        if self.from_disk {
+            unsafe {
+                (&mut *self.this).mark_as_loaded();
+            }
+        }
         iterator(None, self.this, self.is_owner);
 
         // Recursive function to traverse the tree
@@ -386,12 +397,6 @@ impl Instanceable for NodeScene {
 
         // Start the traversal from the root.
         let self_this: *mut dyn Node = self.this;
-        if self.from_disk {
-            let self_mut:  &mut dyn Node = unsafe { &mut *self_this };
-            unsafe {
-                self_mut.mark_as_loaded();
-            }
-        }
         traverse(self, self_this, &mut iterator);
     }
 }
-- 
2.43.0


From 33e05c0ee505c2a65bc5ac16fd0e0d4fc5331524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 07/33] fix: unique names could collide, replaced names that
 were free, and crashed on empty, non-ASCII or large-numbered names

---
 node_tree_core/src/utils/functions.rs | 78 +++++++--------------------
 1 file changed, 18 insertions(+), 60 deletions(-)

diff --git a/node_tree_core/src/utils/functions.rs b/node_tree_core/src/utils/functions.rs
index bd4f4be..0872239 100644
--- a/node_tree_core/src/utils/functions.rs
+++ b/node_tree_core/src/utils/functions.rs
@@ -31,78 +31,36 @@ use crate::{ prelude::{ RID, NodeTreeBase, Node }, structs::node_base::NodeStatu
 /// Ensures that the name provided is unique relative to the list of other names.
 /// If it is not, then it will create a new unique name.
 pub fn ensure_unique_name(name: &str, relative_to: &[String]) -> String {
-    fn extract_numerical_suffix(s: &str) -> Option<usize> {
-        let mut numerics: String = String::new();
-        let mut ptr:      usize  = s.len() - 1;
-        
-        loop {
-            let char: char = s.get(ptr..(ptr + 1)).unwrap().chars().collect::<Vec<_>>()[0];
-            if !char.is_numeric() {
-                break;
-            }
-            numerics = char.to_string() + &numerics;
-            
-            if ptr == 0 {
-                break;
-            }
-            ptr -= 1;
-        }
-
-        if numerics.is_empty() {
-            return None;
-        }
-        Some(numerics.parse::<usize>().unwrap())
-    }
 
     // Special Case:
-    // If the 'relative_to' array is empty, then return the name.
-    if relative_to.is_empty() {
+    // If the name is not taken, then return the name.
+    if !relative_to.iter().any(|taken| taken == name) {
         return name.to_string();
     }
 
     // Strip the name bare of any numerical suffix.
-    let given_value:         Option<usize> = extract_numerical_suffix(name);
-    let name_without_suffix: String        = match given_value {
-        Some(number) => name.split_at(name.find(&format!("{}", number)).unwrap()).0.to_string(),
-        None         => name.to_string()
-    };
-    
-    // Search for any similar names that have the same beginning but different suffixes.
-    let mut similar_names: Vec<String> = Vec::new();
-    for set_name in relative_to {
-        let idx_found: Option<usize> = set_name.find(&name_without_suffix);
-        
-        if let Some(idx) = idx_found {
-            if idx != 0 {   // We do not include similar names when the pattern does not start at the beginning of the string.
-                continue;
-            }
-            similar_names.push(set_name.to_string());
-        }
-    }
+    // A suffix which is too large to be counted upwards from is regarded as a part of the name.
+    let digits_at:   usize         = name.trim_end_matches(|c: char| c.is_ascii_digit()).len();
+    let given_value: Option<usize> = name[digits_at..].parse::<usize>().ok()
+        .filter(|value| value.checked_add(relative_to.len() + 1).is_some());
+    let name_without_suffix: &str  = if given_value.is_some() { &name[..digits_at] } else { name };
 
-    if similar_names.is_empty() {
-        return name.to_string();
-    }
-
-    // Order all of the names with a numerical suffix.
     // If this name does not have a numerical suffix, then give it the lowest possible numerical
-    // suffix.
+    // suffix, where a sibling's name without any suffix counts as having the suffix of zero.
     // Otherwise, give it the closest numerical suffix to the one it currently has (counting
     // upwards).
-    let mut new_value: usize      = given_value.unwrap_or(0);
-    let     values:    Vec<usize> = similar_names.iter().map(|n| extract_numerical_suffix(n).unwrap_or(0)).collect(); // If there are no numerical suffixes on similar names,
-    loop { // I dunno why I programmed this as a loop but I'll keep it this way until I figure out why I did so.
-        for value in values {
-            if new_value == value {
-                new_value += 1;
-                continue;
-            }
+    let mut new_value: usize = given_value.unwrap_or(0);
+    loop {
+        let new_name: String = format!("{name_without_suffix}{new_value}");
+        let is_taken: bool   = relative_to.iter().any(|taken| {
+            *taken == new_name || (new_value == 0 && taken == name_without_suffix)
+        });
+        
+        if !is_taken {
+            return new_name;
         }
-        break;
+        new_value += 1;
     }
-    
-    let new_suffix: String = format!("{}", new_value);
-    name_without_suffix.to_string() + &new_suffix
 }
 
 /// Takes in a NodeTree and prints out a graphical representation with a node as the origin.
-- 
2.43.0


From e9cf44eb93e69e146b8710e3b0db950fdd1ce278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 08/33] fix: set_name regarded the node itself as a sibling
 holding its name

---
 node_tree_core/src/structs/node_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 47d168b..e5f58ba 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -167,7 +167,7 @@ impl NodeBase {
     pub fn set_name(&mut self, name: &str) {
         if let (Some(parent), Some(tree)) = (self.parent, self.tree()) {
             let     parent:    &dyn Node    = unsafe { tree.get_node(parent).unwrap_unchecked() };
-            let     siblings:  &[String]    = &parent.children().iter().map(|a| a.name().to_string()).collect::<Vec<_>>();
+            let     siblings:  &[String]    = &parent.children().iter().filter(|a| a.rid() != self.rid).map(|a| a.name().to_string()).collect::<Vec<_>>();
 
             unsafe {
                 self.set_name_unchecked(&ensure_unique_name(name, siblings));
-- 
2.43.0


From da8b2defea7becbe951b31e9ded5e6efdb392376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:55 +0000
Subject: [PATCH 09/33] fix: the former singleton name of a node kept referring
 to it after it took another name

---
 node_tree_core/src/structs/node_tree_base.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 1b18d69..244b529 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -508,6 +508,8 @@ impl NodeTreeBase {
             return Some(false);
         }
 
+        // A node may only hold a single name, so its former name is freed.
+        self.singletons.retain(|_, &mut singleton_rid| singleton_rid != rid);
         self.identity.insert(rid, NodeIdentity::UniqueName(name.clone()));
         self.singletons.insert(name, rid);
         Some(true)
-- 
2.43.0


From a42e0c629e6176c4a8a808f1fc7a1d70c9583602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 10/33] fix: printing a node path lost the leading slash and
 crashed on empty paths; an empty string parsed as absolute

---
 node_tree_core/src/structs/node_path.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index 62607c1..1a44687 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -147,12 +147,8 @@ impl NodePath {
     /// "node_a/node_b/node_c/target_node"
     /// ```
     pub fn from_str(str: &str) -> NodePath {
-        let mut path: VecDeque<PathSeg> = str.split('/').map(PathSeg::parse).collect();
-        let     abs:  bool              = path.front().map(|f| f.is_empty_identifier()).unwrap_or(false);
-        
-        if abs {
-            path.pop_front();
-        }
+        let path: VecDeque<PathSeg> = str.split('/').map(PathSeg::parse).collect();
+        let abs:  bool              = str.starts_with('/');
 
         let mut np: NodePath = NodePath {
             path,
@@ -163,12 +159,11 @@ impl NodePath {
     }
 
     /// Converts the path to a string, consuming it.
-    pub fn to_string(mut self) -> String {
-        let mut out: String = String::new();
-        while let Some(segment) = self.pop_front() {
-            out += &(segment.to_string() + "/");
-        }
-        out.get(0..(out.len() - 1)).unwrap().to_string()
+    pub fn to_string(self) -> String {
+        let segments: Vec<String> = self.path.iter().map(|segment| segment.to_string()).collect();
+        let prefix:   &str        = if self.abs { "/" } else { "" };
+        
+        prefix.to_string() + &segments.join("/")
     }
 
     /// Adds a node to the back of the path.
-- 
2.43.0


From e8b1d3b2e7d571e3c4e086d34fdd30312b4d6a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 11/33] fix: the absolute path of a node was relative and did
 not resolve to it

---
 node_tree_core/src/structs/logger.rs    | 2 +-
 node_tree_core/src/structs/node_base.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/logger.rs b/node_tree_core/src/structs/logger.rs
index e4db6c3..cea7e0e 100644
--- a/node_tree_core/src/structs/logger.rs
+++ b/node_tree_core/src/structs/logger.rs
@@ -201,7 +201,7 @@ impl Logger {
         let node_tree: &NodeTreeBase = unsafe { &*node_tree };
         let system:    SystemCall    = {
             match node_tree.get_node_identity(calling) {
-                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string()),
+                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string().trim_start_matches('/').to_string()),
                 Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),
                 None                                 => unimplemented!()
             }
diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index e5f58ba..cd63bfa 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -520,7 +520,7 @@ impl NodeBase {
     pub fn get_absolute_path(&self) -> NodePath {
         let mut path: String = String::new();
         self.get_absolute_path_tail(&mut path);
-        NodePath::from_str(&path)
+        NodePath::from_str(&("/".to_string() + &path))
     }
 
     /// The recursive tail for the `get_absolute_path` function.
-- 
2.43.0


From 30048e0c0027ad6f8497ab50fc606a979af7dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 12/33] fix: saved scenes gave several nodes the same ID, so
 that nodes were lost or misplaced on load

---
 node_tree_core/src/structs/node_scene.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index e23bfc5..e587caa 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -317,17 +317,21 @@ impl NodeScene {
         &self.children
     }
 
-    /// Updates the internal RIDs.
+    /// Updates the internal RIDs, giving this scene's root the RID of the counter and every node
+    /// below it a RID of its own.
     #[inline]
     pub fn update_internal(&self, mut counter: u64) {
-        for child in &self.children {
+        self.update_internal_tail(&mut counter);
+    }
 
-            // Update the counter and set it as this child's rid
-            counter += 1;
-            unsafe { (&mut *child.this).set_rid(counter) };
+    /// The recursive tail function for `update_internal`.
+    fn update_internal_tail(&self, counter: &mut u64) {
+        unsafe { (&mut *self.this).set_rid(*counter) };
+        for child in &self.children {
 
-            // Recursively traverse the child's children
-            child.update_internal(counter);
+            // Update the counter and recursively traverse the child
+            *counter += 1;
+            child.update_internal_tail(counter);
         }
     }
 }
-- 
2.43.0


From c9551ad68e5d35e4b09959783d8c2c4875969fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 13/33] fix: scenes holding a node name with an underscore
 could not be loaded

---
 node_tree_core/src/structs/node_scene.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index e587caa..646fe97 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -105,7 +105,7 @@ impl NodeScene {
                 }).collect();
 
             let mut node: Box<dyn Node> = node_registry::deserialize(&type_name, node_fields.ok_or("Could not parse node fields".to_string())?)?;
-            let (name, local_rid): (&str, RID) = key.split_once('_')
+            let (name, local_rid): (&str, RID) = key.rsplit_once('_')
                 .map(|(name, local_rid)| local_rid.parse().map(|local_rid| (name, local_rid)).map_err(|err| format!("{err}")))
                 .ok_or("Failed to parse Node key".to_string())??;
             
-- 
2.43.0


From d08eafd350f8dae059452ca333d3ee22e0b35b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 14/33] fix: scene documents with duplicate or misplaced node
 IDs were loaded with nodes under the wrong parent

---
 node_tree_core/src/structs/node_scene.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 646fe97..6d1e2e8 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -114,6 +114,14 @@ impl NodeScene {
                 node.set_rid(local_rid);
             }
 
+            // Each RID must be unique, with the root being the only node with an RID of zero and
+            // without a parent.
+            if node_scene.is_none() != (local_rid == 0) || traversal.contains_key(&local_rid) {
+                return Err(format!("Invalid or duplicate RID in the key of {}", key));
+            }
+            if node_scene.is_none() && metadata.contains_key("parent") {
+                return Err("The first node in the .scn file has a parent".to_string());
+            }
             
             // Append the node to the scene.
             match node_scene.as_mut() {
-- 
2.43.0


From db2d284bd0e69ebefb4b7902b0bf9005df3c8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 15/33] fix: saved characters outside ASCII could not be loaded

---
 node_tree_core/src/traits/exportable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 3349f65..65ac4d7 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -243,7 +243,7 @@ impl Exportable for char {
         match value {
             toml::Value::String(c) => {
                 let c: String = c.into_value();
-                if c.len() != 1 {
+                if c.chars().count() != 1 {
                     None
                 } else {
                     Some(c.chars().collect::<Vec<_>>()[0])
@@ -392,7 +392,7 @@ impl <V: Exportable> Exportable for HashMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
@@ -445,7 +445,7 @@ impl <V: Exportable> Exportable for BTreeMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
-- 
2.43.0


From b6b8f7e8dadcd28ac5f83d3971c31e76973b447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 16/33] fix: loading an array dropped zeroed elements, which is
 undefined behaviour

---
 node_tree_core/src/traits/exportable.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 65ac4d7..fbe09bc 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -528,11 +528,8 @@ impl <const N: usize, T: Exportable> Exportable for [T; N] {
                     return None;
                 }
 
-                let mut rtr_arr: [T; N] = unsafe { mem::zeroed() };
-                for (i, element) in arr.into_iter().enumerate() {
-                    rtr_arr[i] = T::from_value(element)?;
-                }
-                Some(rtr_arr)
+                let elements: Vec<T> = arr.into_iter().map(|x| T::from_value(x)).collect::<Option<Vec<T>>>()?;
+                elements.try_into().ok()
             },
             _ => None
         }
-- 
2.43.0


From cd956a4624c07abe96eea93469b1b08f824023de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 17/33] fix: loading a negative or overlarge duration crashed

---
 node_tree_core/src/traits/exportable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index fbe09bc..1b23635 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -318,7 +318,7 @@ impl Exportable for time::Duration {
     }
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
-        Some(time::Duration::from_secs_f64(value.as_float()?))
+        time::Duration::try_from_secs_f64(value.as_float()?).ok()
     }
 }
 impl Exportable for toml::Datetime {
-- 
2.43.0


From b8709f7d2afb6e1afe7e0511edcd8a80eb0d71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:01 +0000
Subject: [PATCH 18/33] fix: integers out of the range of their type were
 loaded as other numbers

---
 node_tree_core/src/traits/exportable.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 1b23635..8348587 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -120,7 +120,7 @@ impl Exportable for u8 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u8),
+            toml::Value::Integer(i) => u8::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -132,7 +132,7 @@ impl Exportable for u16 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u16),
+            toml::Value::Integer(i) => u16::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -144,7 +144,7 @@ impl Exportable for u32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u32),
+            toml::Value::Integer(i) => u32::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -168,7 +168,7 @@ impl Exportable for i8 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i8),
+            toml::Value::Integer(i) => i8::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -180,7 +180,7 @@ impl Exportable for i16 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i16),
+            toml::Value::Integer(i) => i16::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -192,7 +192,7 @@ impl Exportable for i32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i32),
+            toml::Value::Integer(i) => i32::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
-- 
2.43.0


From 65049130d6b5d9da970d785f5cf9225782feac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:15 +0000
Subject: [PATCH 19/33] fix: glam vector components out of the range of their
 type were loaded as other numbers

---
 node_tree_core/src/traits/glam_exportables.rs | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/node_tree_core/src/traits/glam_exportables.rs b/node_tree_core/src/traits/glam_exportables.rs
index 639f68f..50e8a33 100644
--- a/node_tree_core/src/traits/glam_exportables.rs
+++ b/node_tree_core/src/traits/glam_exportables.rs
@@ -70,7 +70,7 @@ impl Exportable for g_u8::U8Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec2(x.as_integer()? as u8, y.as_integer()? as u8));
+                        return Some(g_u8::u8vec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -87,7 +87,7 @@ impl Exportable for g_u8::U8Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec3(x.as_integer()? as u8, y.as_integer()? as u8, z.as_integer()? as u8));
+                        return Some(g_u8::u8vec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -104,7 +104,7 @@ impl Exportable for g_u8::U8Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec4(x.as_integer()? as u8, y.as_integer()? as u8, z.as_integer()? as u8, w.as_integer()? as u8));
+                        return Some(g_u8::u8vec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -122,7 +122,7 @@ impl Exportable for g_u16::U16Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec2(x.as_integer()? as u16, y.as_integer()? as u16));
+                        return Some(g_u16::u16vec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -139,7 +139,7 @@ impl Exportable for g_u16::U16Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec3(x.as_integer()? as u16, y.as_integer()? as u16, z.as_integer()? as u16));
+                        return Some(g_u16::u16vec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -156,7 +156,7 @@ impl Exportable for g_u16::U16Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec4(x.as_integer()? as u16, y.as_integer()? as u16, z.as_integer()? as u16, w.as_integer()? as u16));
+                        return Some(g_u16::u16vec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -174,7 +174,7 @@ impl Exportable for g_u32::UVec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec2(x.as_integer()? as u32, y.as_integer()? as u32));
+                        return Some(g_u32::uvec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -191,7 +191,7 @@ impl Exportable for g_u32::UVec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec3(x.as_integer()? as u32, y.as_integer()? as u32, z.as_integer()? as u32));
+                        return Some(g_u32::uvec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -208,7 +208,7 @@ impl Exportable for g_u32::UVec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec4(x.as_integer()? as u32, y.as_integer()? as u32, z.as_integer()? as u32, w.as_integer()? as u32));
+                        return Some(g_u32::uvec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -278,7 +278,7 @@ impl Exportable for g_i8::I8Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec2(x.as_integer()? as i8, y.as_integer()? as i8));
+                        return Some(g_i8::i8vec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -295,7 +295,7 @@ impl Exportable for g_i8::I8Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec3(x.as_integer()? as i8, y.as_integer()? as i8, z.as_integer()? as i8));
+                        return Some(g_i8::i8vec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -312,7 +312,7 @@ impl Exportable for g_i8::I8Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec4(x.as_integer()? as i8, y.as_integer()? as i8, z.as_integer()? as i8, w.as_integer()? as i8));
+                        return Some(g_i8::i8vec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -330,7 +330,7 @@ impl Exportable for g_i16::I16Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec2(x.as_integer()? as i16, y.as_integer()? as i16));
+                        return Some(g_i16::i16vec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -347,7 +347,7 @@ impl Exportable for g_i16::I16Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec3(x.as_integer()? as i16, y.as_integer()? as i16, z.as_integer()? as i16));
+                        return Some(g_i16::i16vec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -364,7 +364,7 @@ impl Exportable for g_i16::I16Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec4(x.as_integer()? as i16, y.as_integer()? as i16, z.as_integer()? as i16, w.as_integer()? as i16));
+                        return Some(g_i16::i16vec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -382,7 +382,7 @@ impl Exportable for g_i32::IVec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec2(x.as_integer()? as i32, y.as_integer()? as i32));
+                        return Some(g_i32::ivec2(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -399,7 +399,7 @@ impl Exportable for g_i32::IVec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec3(x.as_integer()? as i32, y.as_integer()? as i32, z.as_integer()? as i32));
+                        return Some(g_i32::ivec3(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?));
                     }
                     None
             },
@@ -416,7 +416,7 @@ impl Exportable for g_i32::IVec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec4(x.as_integer()? as i32, y.as_integer()? as i32, z.as_integer()? as i32, w.as_integer()? as i32));
+                        return Some(g_i32::ivec4(x.as_integer()?.try_into().ok()?, y.as_integer()?.try_into().ok()?, z.as_integer()?.try_into().ok()?, w.as_integer()?.try_into().ok()?));
                     }
                     None
             },
-- 
2.43.0


From 911669b5945b7b044b92b4b54f883639d2602599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 20/33] fix: signals deadlocked when a listener used the signal
 that called it

---
 node_tree_core/src/structs/signals.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/node_tree_core/src/structs/signals.rs b/node_tree_core/src/structs/signals.rs
index 17e5f42..5ff6fb4 100644
--- a/node_tree_core/src/structs/signals.rs
+++ b/node_tree_core/src/structs/signals.rs
@@ -128,23 +128,27 @@ impl <T> Signal<T> {
     
     /// Emits the signal, calling all connected hooks.
     pub fn emit<E: Element<T>>(&self, parameters: E) {
-        let mut hooks:           MutexGuard<EventHandler<T>> = self.hooks.lock().unwrap();
-        let mut removed_signals: Vec<RID>                    = Vec::with_capacity(hooks.len());
-        let     parameters:      &T                          = parameters.as_inner();
+        let parameters: &T       = parameters.as_inner();
+        let connected:  Vec<RID> = self.hooks.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).collect();
 
-        for (&rid, &(hook, mode)) in hooks.iter_enumerated() {
-            unsafe {
-                (*hook)(parameters);
-            }
+        for rid in connected {
+
+            // The lock cannot be held while calling a hook, as a hook may use this very signal.
+            let mut hooks: MutexGuard<EventHandler<T>> = self.hooks.lock().unwrap();
+            let (hook, mode): (*mut dyn FnMut(&T), ConnectionType) = match hooks.retrieve(rid) {
+                Some(&connection) => connection,
+                None              => continue   // Disconnected by another hook.
+            };
 
             match mode {
                 ConnectionType::UntilDisconnected => (),
-                ConnectionType::Once              => removed_signals.push(rid)
+                ConnectionType::Once              => { hooks.take(rid); }
             }
-        }
+            drop(hooks);
 
-        for idx in removed_signals.into_iter().rev() {
-            hooks.take(idx);
+            unsafe {
+                (*hook)(parameters);
+            }
         }
     }
 
-- 
2.43.0


From 9020f7ee2c5f627e9f2284b8e2dca595e1130698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 21/33] fix: failing tree pointers, options and results whose
 owning node was freed were undefined behaviour

---
 node_tree_core/src/structs/tree_option.rs  | 4 +++-
 node_tree_core/src/structs/tree_pointer.rs | 8 ++++++--
 node_tree_core/src/structs/tree_result.rs  | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/tree_option.rs b/node_tree_core/src/structs/tree_option.rs
index c2123dd..5203a8b 100644
--- a/node_tree_core/src/structs/tree_option.rs
+++ b/node_tree_core/src/structs/tree_option.rs
@@ -484,7 +484,9 @@ impl <'a, T> TreeOption<'a, T> {
 
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(msg));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(msg));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 22cff30..08b858a 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -248,7 +248,9 @@ impl <'a, T: Node> Tp<'a, T> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err:?}")));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{err:?}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
@@ -462,7 +464,9 @@ impl <'a> TpDyn<'a> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err}")));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{err}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_result.rs b/node_tree_core/src/structs/tree_result.rs
index cad7c69..72e5f3e 100644
--- a/node_tree_core/src/structs/tree_result.rs
+++ b/node_tree_core/src/structs/tree_result.rs
@@ -435,7 +435,9 @@ impl <'a, T, E> TreeResult<'a, T, E> {
     
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str, error: &dyn fmt::Debug) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{msg}: {error:?}")));
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{msg}: {error:?}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
-- 
2.43.0


From b8d30f28a2037b8d97abf89abeba20fc8c017e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:37 +0000
Subject: [PATCH 22/33] fix: the documented pause() and unpause() functions of
 the tree were missing

---
 node_tree_core/src/structs/node_tree_base.rs | 25 ++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 244b529..ab94964 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -383,6 +383,31 @@ impl NodeTreeBase {
         }
     }
 
+    /// Pauses the tree, which determines how each node's `process()` function behaves via its
+    /// `ProcessMode`.
+    ///
+    /// # Note
+    /// This does nothing if the tree is terminating or has terminated.
+    pub fn pause(&mut self) {
+        self.set_process(TreeProcess::Paused);
+    }
+
+    /// Unpauses the tree.
+    ///
+    /// # Note
+    /// This does nothing if the tree is terminating or has terminated.
+    pub fn unpause(&mut self) {
+        self.set_process(TreeProcess::Running);
+    }
+
+    /// Sets whether the tree is running or paused without otherwise changing its status.
+    fn set_process(&mut self, new_process: TreeProcess) {
+        match &mut self.status {
+            TreeStatus::Process(process) | TreeStatus::QueuedTermination(process) => *process = new_process,
+            _                                                                     => ()
+        }
+    }
+
     /// Immediately terminates the program without running any termination behaviours.
     pub fn terminate(&mut self) {
         self.status = TreeStatus::Terminated;
-- 
2.43.0


From 658fabd9b135b23f15f8d6cd0a92b3e810aedef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 23/33] fix: TpDyn::is_of was false for every trait

---
 node_tree_core/src/structs/tree_pointer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 08b858a..3a35a7e 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -387,10 +387,7 @@ impl <'a> TpDyn<'a> {
     /// Checks if the node this points to can be cast to a specific trait.
     #[inline]
     pub fn is_of<T: ?Sized + 'static>(&self) -> bool {
-        use std::mem;
-
-        let node: TpDyn = unsafe { mem::transmute(*self) };
-        <TpDyn as CastRef>::impls::<T>(&node)
+        self.cast::<T>().is_ok()
     }
 
     /// Determines if this pointer references a specific type.
-- 
2.43.0


From 4f56bce55316f5ca8865fc753b545fcf75a3618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 24/33] fix: the initial value given to an export default field
 was silently ignored

---
 node_tree_derive/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/parser.rs b/node_tree_derive/src/parser.rs
index 8cdaa5d..5cc392f 100644
--- a/node_tree_derive/src/parser.rs
+++ b/node_tree_derive/src/parser.rs
@@ -369,7 +369,7 @@ impl Parse for Class {
                 };
 
                 if let Some(ref default_value) = default_value {
-                    if item_kind == FieldKind::Default {
+                    if item_kind == FieldKind::Default || item_kind == FieldKind::ExportDefault {
                         return Err(syn::Error::new_spanned(default_value, "A field with the attribute `default` cannot have an initialized value"));
                     }
                 }
-- 
2.43.0


From 79bda28cdc9f07f064ddc70b566d516a69eead8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 25/33] fix: default fields could not have generic types

---
 node_tree_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index ae9a03f..eadd89c 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -539,7 +539,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::ExportDefault => quote! {
-                #name: node_tree::structs::node_field::ExportableField::new(#ty::default())
+                #name: node_tree::structs::node_field::ExportableField::new(<#ty>::default())
             }, 
             FieldKind::Unique => if let Some(default_value) = &field.init {
                 quote! {
@@ -551,7 +551,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::Default => quote! {
-                #name: node_tree::structs::node_field::DefaultField::new(#ty::default())
+                #name: node_tree::structs::node_field::DefaultField::new(<#ty>::default())
             }
         }
     });
-- 
2.43.0


From ea3a29c073bbe290eac5c80580b2b3e84beb2838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:51 +0000
Subject: [PATCH 26/33] fix: connect! did not return the documented ID of the
 connection

---
 node_tree_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index eadd89c..30ae211 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -689,7 +689,7 @@ pub fn connect(input: TokenStream) -> TokenStream {
             let tp_: node_tree::prelude::Tp<_> = #tree_pointer;
             self.#signal_name.#connect_type(move |args| {
                 tp_.#callback(&args)
-            });
+            })
         }
     })
 }
-- 
2.43.0


From 41a175d43b109e872373f4c3e625829fd7ce58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 27/33] fix: connect! refused listeners which take their node
 as mutable

---
 node_tree_derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 30ae211..0f828f7 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -686,7 +686,8 @@ pub fn connect(input: TokenStream) -> TokenStream {
     let connect_type: TokenStream2 = if one_shot { quote! { connect_once } } else { quote! { connect } };
     TokenStream::from(quote! {
         unsafe { // Enforce `move,` as without it a segfault occurs!
-            let tp_: node_tree::prelude::Tp<_> = #tree_pointer;
+            #[allow(unused_mut)]
+            let mut tp_: node_tree::prelude::Tp<_> = #tree_pointer;
             self.#signal_name.#connect_type(move |args| {
                 tp_.#callback(&args)
             })
-- 
2.43.0


From 9c4fce94b1565f2ac15c3f0436031f0e7fcb87ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 28/33] fix: scene! settings only accepted values of a single
 token

---
 node_tree_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 9db5477..b08c8fd 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -34,7 +34,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    node.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
+                    node.#key = AsElement::wrap(#expr); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
-- 
2.43.0


From 53dedb7fa4d2f9baf2be87f3b89c29a693f0b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 29/33] fix: the first message after a crash report was logged
 on the last line of the report

---
 node_tree_core/src/structs/logger.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/logger.rs b/node_tree_core/src/structs/logger.rs
index cea7e0e..5777ceb 100644
--- a/node_tree_core/src/structs/logger.rs
+++ b/node_tree_core/src/structs/logger.rs
@@ -229,7 +229,8 @@ Exit Code: {}
 Time of Crash: {}
 Exit Code: {}
 
-{}", self.crash_header, node_tree_visual, time, 1, self.crash_footer);
+{}
+", self.crash_header, node_tree_visual, time, 1, self.crash_footer);
         }
         
         panic
-- 
2.43.0


From 2f06254a308ff01977d6acc5b3721acf78982fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:31 +0000
Subject: [PATCH 30/33] fix: refuse finite document numbers beyond the range of
 f32 rather than loading infinity

---
 node_tree_core/src/traits/exportable.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 8348587..d3d0c0e 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -216,8 +216,14 @@ impl Exportable for f32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Float(i) => Some(i.into_value() as f32),
-            _                     => None
+            toml::Value::Float(i) => {
+                let wide:   f64 = i.into_value();
+                let narrow: f32 = wide as f32;
+
+                // A finite number beyond the range of f32 has no counterpart.
+                (wide.is_infinite() || !narrow.is_infinite()).then_some(narrow)
+            },
+            _ => None
         }
     }
 }
-- 
2.43.0


From 1dfe34aba37f139a692cc839992d1beb297521a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:40 +0000
Subject: [PATCH 31/33] fix: refuse a table which is no Option rather than
 loading it as None

---
 node_tree_core/src/traits/exportable.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index d3d0c0e..6e6551c 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -353,8 +353,9 @@ impl <T: Exportable> Exportable for Option<T> {
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
             toml::Value::InlineTable(mut table) => match table.remove("value") {
-                Some(value) => Some(Some(T::from_value(value)?)),
-                None        => Some(None)
+                Some(value)              => Some(Some(T::from_value(value)?)),
+                None if table.is_empty() => Some(None),
+                None                     => None
             },
             _ => None
         }
-- 
2.43.0


From 79f173a06afa9548a2226510bc9e96bd6b232b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 32/33] fix: the scene! macro captured the user's variables
 named node and scene

---
 node_tree_derive/src/generator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index b08c8fd..ed75de1 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -1,5 +1,5 @@
 use quote::quote;
-use proc_macro2::TokenStream as TokenStream2;
+use proc_macro2::{ Ident, Span, TokenStream as TokenStream2 };
 
 use crate::parser::*;
 
@@ -18,6 +18,11 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
             }
         },
         SceneNode::Node { node_type, params, settings, name, children } => {
+            // The locals must not be visible to the expressions given by the user, which may refer to
+            // variables of the same names.
+            let scene: Ident = Ident::new("scene", Span::mixed_site());
+            let node:  Ident = Ident::new("node",  Span::mixed_site());
+
             let params: TokenStream2 = match params {
                 Some(p) => quote! { (#p) },
                 None    => quote! { () },
@@ -26,7 +31,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
                 None       => quote! {},
                 Some(name) => quote! {
                     unsafe {
-                        node.set_name_unchecked(#name);
+                        #node.set_name_unchecked(#name);
                     }
                 }
             };
@@ -34,22 +39,22 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    node.#key = AsElement::wrap(#expr); // All field types support wrap() via the `AsElement` trait.
+                    #node.#key = AsElement::wrap(#expr); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
             quote! {
                 {
-                    let mut node: #node_type = #node_type::new #params;
+                    let mut #node: #node_type = #node_type::new #params;
                     #name_set
 
                     #(#settings)*
                                         
-                    let mut scene: NodeScene = NodeScene::new(node);
+                    let mut #scene: NodeScene = NodeScene::new(#node);
                     #(
-                        scene.append(#children);
+                        #scene.append(#children);
                     )*
-                    scene
+                    #scene
                 }
             }
         }
-- 
2.43.0


From 3940579ea5da9ceadf5bfdbf98977805d69d6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 33/33] fix: nodes were terminated again when a terminal
 function removed a node around them

A terminal function which freed its own node recursed endlessly, nodes added by terminal
functions to the branch being removed left the tree untold, and remove_child panicked once
a terminal function had removed the parent.
---
 node_tree_core/src/structs/node_base.rs | 33 +++++++++++++++++++------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index cd63bfa..881b007 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -105,6 +105,7 @@ pub struct NodeBase {
     children: Vec<RID>,
     status:   Rc<Mutex<NodeStatus>>,
     loaded:   bool,
+    removing: bool,   // Whether the Node has been told that it is about to leave the tree.
     depth:    usize   // How far the Node is within the tree.
 }
 
@@ -121,6 +122,7 @@ impl NodeBase {
             children: Vec::new(),
             status:   Rc::new(Mutex::new(NodeStatus::Normal)),
             loaded:   false,
+            removing: false,
             depth:    0
         }
     }
@@ -323,7 +325,10 @@ impl NodeBase {
             child.remove_branch(TerminationReason::RemovedAsChild);
         }
 
-        self.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, self.name())));
+        // The terminal functions may have removed this node as well.
+        if self.tree.is_some() {
+            self.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, self.name())));
+        }
         true 
     }
 
@@ -597,14 +602,26 @@ impl NodeBase {
         let rid:  RID               = self.rid;
         let tree: &mut dyn NodeTree = unsafe { &mut *self.tree.unwrap_unchecked() };
 
-        // Every node is terminated while the whole branch is still a part of the tree.
-        for node_rid in self.top_down(true) {
-            if let Some(node) = tree.get_node_mut(node_rid) {
-                node.terminal(reason); // Has to be called externally!
+        // Every node is terminated once, while the whole branch is still a part of the tree. The
+        // terminal functions may add to the branch, or remove parts of it or what it is a part of.
+        loop {
+            let mut complete: bool = true;
+            for node_rid in self.top_down(true) {
+                match tree.get_node_mut(node_rid) {
+                    Some(node) if !node.removing => {
+                        complete      = false;
+                        node.removing = true;
+                        node.terminal(reason); // Has to be called externally!
+                    },
+                    _ => {}
+                }
+            }
+            if tree.get_node(rid).is_none() {
+                return;
+            }
+            if complete {
+                break;
             }
-        }
-        if tree.get_node(rid).is_none() {
-            return;
         }
 
         // Remove the reference of this node from its parent if it has a parent.
-- 
2.43.0

