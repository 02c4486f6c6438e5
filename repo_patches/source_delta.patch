From 10c7b06d1bfc355cf702c15656e0af9922009b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 01/54] Add scheduling points for deterministic simulation
 (only with --cfg knaster_sim)

---
 knaster_graph/src/graph.rs     |  8 ++++++++
 knaster_graph/src/graph_gen.rs |  6 ++++++
 knaster_graph/src/lib.rs       | 34 ++++++++++++++++++++++++++++++++++
 knaster_graph/src/processor.rs |  2 ++
 knaster_graph/src/task.rs      |  1 +
 5 files changed, 51 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 57ae3e8..6af4d20 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1705,12 +1705,16 @@ impl<F: Float> Graph<F> {
 
     /// Applies the latest changes to connections and added nodes in the graph on the audio thread and updates the scheduler.
     pub(crate) fn commit_changes(&mut self) -> Result<(), GraphError> {
+        sim_point!("commit:start");
         // We need to run free_old to know if there are nodes to free and hence a recalculation required.
         self.free_old();
+        sim_point!("commit:free_old");
         self.graph_gen_communicator.free_old_task_data();
+        sim_point!("commit:free_old_task_data");
         if self.recalculation_required {
             self.calculate_node_order();
             let graph_input_pointers_to_nodes = self.allocate_node_buffers();
+            sim_point!("commit:allocated");
 
             let ggc = &mut self.graph_gen_communicator;
             let current_change_flag = crate::core::mem::replace(
@@ -1719,7 +1723,9 @@ impl<F: Float> Graph<F> {
             );
             let task_data =
                 self.generate_task_data(current_change_flag, graph_input_pointers_to_nodes);
+            sim_point!("commit:send");
             self.graph_gen_communicator.send_updated_tasks(task_data)?;
+            sim_point!("commit:sent");
             self.recalculation_required = false;
         }
         Ok(())
@@ -1905,6 +1911,7 @@ impl<F: Float> Graph<F> {
             self.evaluate_if_node_should_be_removed(key);
         }
 
+        sim_point!("free_old:nodes");
         // Remove old nodes
         let mut i = 0;
         while i < self.node_keys_to_free_when_safe.len() {
@@ -1918,6 +1925,7 @@ impl<F: Float> Graph<F> {
                 i += 1;
             }
         }
+        sim_point!("free_old:buffers");
         // Remove old buffers
         if !self.buffers_to_free_when_safe.is_empty() {
             let mut i = self.buffers_to_free_when_safe.len() - 1;
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index cd1b8ba..21c6d83 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -90,11 +90,13 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
             }
             return;
         }
+        sim_point!("gen:start");
         let num_new_task_data = self.new_task_data_consumer.slots();
         if num_new_task_data > 0 {
             if let Ok(td_chunk) = self.new_task_data_consumer.read_chunk(num_new_task_data) {
                 for mut td in td_chunk {
                     td.apply_self_on_audio_thread(ctx, &mut self.current_task_data);
+                    sim_point!("gen:applied");
                     let old_td = crate::core::mem::replace(&mut self.current_task_data, td);
                     match self.task_data_to_be_dropped_producer.push(old_td) {
                         Ok(_) => (),
@@ -107,6 +109,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                 }
             }
         }
+        sim_point!("gen:waiting_changes");
         // Apply parameter changes
         if !self.waiting_parameter_changes.is_empty() {
             let num_waiting_parameter_changes = self.waiting_parameter_changes.len();
@@ -139,6 +142,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
             }
         }
 
+        sim_point!("gen:new_changes");
         // Get new parameter changes
         let parameter_changes_waiting = self.scheduling_event_receiver.slots();
         if let Ok(pm_chunk) = self
@@ -193,12 +197,14 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
             }
         }
 
+        sim_point!("gen:tasks");
         let mut new_flags = UGenFlags::default();
         // Run the tasks
         for task in tasks.iter_mut() {
             task.run(ctx, &mut new_flags);
         }
 
+        sim_point!("gen:output");
         // Set the output of the graph
         // Zero the output buffer.
         debug_assert_eq!(output_task.channels.len(), Outputs::USIZE);
diff --git a/knaster_graph/src/lib.rs b/knaster_graph/src/lib.rs
index b899d93..8b08f74 100644
--- a/knaster_graph/src/lib.rs
+++ b/knaster_graph/src/lib.rs
@@ -1,6 +1,7 @@
 #![no_std]
 #![allow(clippy::single_match)]
 #![allow(clippy::new_without_default)]
+#![allow(unexpected_cfgs)]
 
 //! # Knaster Graph
 //!
@@ -41,6 +42,39 @@ mod core {
 pub use knaster_core::*;
 pub use knaster_core_dsp::*;
 
+/// Scheduling points for deterministic simulation. Compiled only with `--cfg knaster_sim`; expands
+/// to nothing otherwise.
+#[allow(unused_macros, unexpected_cfgs)]
+macro_rules! sim_point {
+    ($name:literal) => {
+        #[cfg(knaster_sim)]
+        {
+            $crate::sim::point($name);
+        }
+    };
+}
+/// Seam for deterministic simulation: a process wide callback which is called at points where the
+/// audio thread and other threads may interleave. Only exists with `--cfg knaster_sim`.
+#[allow(unexpected_cfgs)]
+#[cfg(knaster_sim)]
+pub mod sim {
+    use core::sync::atomic::{AtomicPtr, Ordering};
+    static HOOK: AtomicPtr<()> = AtomicPtr::new(core::ptr::null_mut());
+    /// Set the function called at every scheduling point.
+    pub fn set_hook(hook: fn(&'static str)) {
+        HOOK.store(hook as *mut (), Ordering::SeqCst);
+    }
+    /// Call the hook, if there is one.
+    pub fn point(name: &'static str) {
+        let ptr = HOOK.load(Ordering::SeqCst);
+        if !ptr.is_null() {
+            // Safety: Only ever set from a function pointer of this type
+            let hook = unsafe { core::mem::transmute::<*mut (), fn(&'static str)>(ptr) };
+            hook(name);
+        }
+    }
+}
+
 // All these cfg are to make sure the error message for neither std nor alloc is shown. Without
 // them, too many other errors are shown which is confusing.
 
diff --git a/knaster_graph/src/processor.rs b/knaster_graph/src/processor.rs
index 89f0634..05afd61 100644
--- a/knaster_graph/src/processor.rs
+++ b/knaster_graph/src/processor.rs
@@ -130,6 +130,7 @@ impl<F: Float> AudioProcessor<F> {
         // SAFETY: The input pointers were just created from shared references
         let input = unsafe { RawAggregateBlockRead::new(&self.input_pointers, self.block_size) };
         ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
+        sim_point!("processor:block");
         self.frame_clock += self.block_size as u64;
         self.shared_frame_clock
             .store_new_time(Seconds::from_samples(
@@ -170,6 +171,7 @@ impl<F: Float> AudioProcessor<F> {
             .expect("The top level graph should be guaranteed to be local to its node");
         let input = unsafe { RawAggregateBlockRead::new(input_pointers, self.block_size) };
         ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
+        sim_point!("processor:block");
         self.frame_clock += self.block_size as u64;
         self.shared_frame_clock
             .store_new_time(Seconds::from_samples(
diff --git a/knaster_graph/src/task.rs b/knaster_graph/src/task.rs
index e4644a4..cf648ca 100644
--- a/knaster_graph/src/task.rs
+++ b/knaster_graph/src/task.rs
@@ -122,6 +122,7 @@ impl<F: Float> TaskData<F> {
             //     (*self.gens[apc.node].1).set_ar_param_buffer(ctx, apc.parameter_index, apc.buffer)
             // };
         }
+        sim_point!("task:apply");
         // Setting `applied` to true signals that the new
         // TaskData have been received and old data can be
         // dropped. It is necessary to set it for each
-- 
2.43.0


From f5a5273a749ca5e22e38113bcc849c6763c5786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 02/54] Let simulations start at any frame clock (only with
 --cfg knaster_sim)

---
 knaster_graph/src/processor.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/knaster_graph/src/processor.rs b/knaster_graph/src/processor.rs
index 05afd61..433d207 100644
--- a/knaster_graph/src/processor.rs
+++ b/knaster_graph/src/processor.rs
@@ -115,6 +115,15 @@ impl<F: Float> AudioProcessor<F> {
         (graph, audio_processor, log_receiver)
     }
 
+    /// Continue as if `frame_clock` frames had been produced already. Only for simulations.
+    #[cfg(knaster_sim)]
+    #[doc(hidden)]
+    pub fn sim_set_frame_clock(&mut self, frame_clock: u64) {
+        self.frame_clock = frame_clock;
+        self.shared_frame_clock
+            .store_new_time(Seconds::from_samples(frame_clock, self.sample_rate as u64));
+    }
+
     /// Produce one block of audio with the given inputs
     pub fn run(&mut self, inputs: &[&[F]]) {
         assert_eq!(inputs.len(), self.input_pointers.len());
-- 
2.43.0


From 6f8a994937a18c14c6299d9c5be8b4bb90f6a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 03/54] fix: refuse nodes from other graphs

`!a == b` negates the integer, so the check never fired. set_mortality and
set_name did not check at all (set_name panicked on a missing node).
---
 knaster_graph/src/graph.rs      | 31 +++++++++++++++++++++++--------
 knaster_graph/src/graph_edit.rs |  2 +-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 6af4d20..31f47cf 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -432,8 +432,17 @@ impl<F: Float> Graph<F> {
     /// Set the stored name for the given node.
     ///
     /// The name can be used to recover a handle to the node and will be displayed in any [`GraphInspection`]
+    ///
+    /// Does nothing but log an error if the node is not in this graph.
     pub fn set_name(&mut self, node_id: NodeId, name: EcoString) {
-        self.get_nodes_mut()[node_id.key()].name = name;
+        if node_id.graph != self.graph_id {
+            log::error!("Tried to set the name of a node from a different graph: {node_id:?}");
+            return;
+        }
+        match self.get_nodes_mut().get_mut(node_id.key()) {
+            Some(node) => node.name = name,
+            None => log::error!("Tried to set the name of a node which doesn't exist: {node_id:?}"),
+        }
     }
 
     /// If any node matches `name`, return its [`NodeId`]
@@ -504,13 +513,13 @@ impl<F: Float> Graph<F> {
     ) -> Result<(), GraphError> {
         let source = source.into();
         let sink = sink.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -572,7 +581,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
@@ -635,14 +644,14 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -732,7 +741,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -1353,7 +1362,7 @@ impl<F: Float> Graph<F> {
         t: impl Into<Time>,
     ) -> Result<(), GraphError> {
         let node_id = node.into();
-        if !node_id.graph == self.graph_id {
+        if node_id.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: node_id.graph,
@@ -2093,6 +2102,12 @@ impl<F: Float> Graph<F> {
         mortality: bool,
     ) -> Result<(), GraphError> {
         let node = node.into();
+        if node.graph != self.graph_id {
+            return Err(GraphError::WrongSinkNodeGraph {
+                expected_graph: self.graph_id,
+                found_graph: node.graph,
+            });
+        }
         if let Some(m) = self.node_mortality.get_mut(node.key()) {
             *m = mortality;
             Ok(())
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index f3e1202..8caabf8 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -160,7 +160,7 @@ impl<'b, F: Float> GraphEdit<'b, F> {
     pub fn free_node(&self, node: impl Into<NodeId>) -> Result<(), GraphError> {
         let node = node.into();
         let graph_id = self.graph.read().graph_id();
-        if !node.graph == graph_id {
+        if node.graph != graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: graph_id,
                 found_graph: node.graph,
-- 
2.43.0


From d7e0ac41598068a1739e27227ec874ff3fb1784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 04/54] fix: treat nodes pending removal as removed

A freed node stays in the slotmap until the audio thread lets go of it. Until
then it was still found by lookups, and connecting to it, freeing it or sending
to it succeeded or panicked.
---
 knaster_graph/src/graph.rs | 60 ++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 31f47cf..251ea66 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -346,6 +346,9 @@ impl<F: Float> Graph<F> {
         if node_id.graph != self.graph_id {
             return None;
         }
+        if !self.is_live(node_id.key()) {
+            return None;
+        }
         self.get_nodes().get(node_id.key()).map(|node| node.data)
     }
     /// Get a metadata for a node with the given [`NodeId`] if it exists.
@@ -353,7 +356,7 @@ impl<F: Float> Graph<F> {
         let name = name.into();
         self.get_nodes()
             .iter()
-            .find(|node| node.1.name == name)
+            .find(|node| node.1.name == name && self.is_live(node.0))
             .map(|node| {
                 (
                     NodeId {
@@ -439,17 +442,18 @@ impl<F: Float> Graph<F> {
             log::error!("Tried to set the name of a node from a different graph: {node_id:?}");
             return;
         }
-        match self.get_nodes_mut().get_mut(node_id.key()) {
-            Some(node) => node.name = name,
-            None => log::error!("Tried to set the name of a node which doesn't exist: {node_id:?}"),
+        if !self.is_live(node_id.key()) {
+            log::error!("Tried to set the name of a node which doesn't exist: {node_id:?}");
+            return;
         }
+        self.get_nodes_mut()[node_id.key()].name = name;
     }
 
     /// If any node matches `name`, return its [`NodeId`]
     pub fn node_id_with_name(&self, name: impl AsRef<str>) -> Option<NodeId> {
         let name = name.as_ref();
         for (id, node) in self.get_nodes() {
-            if node.name == name {
+            if node.name == name && self.is_live(id) {
                 return Some(NodeId {
                     key: id,
                     graph: self.graph_id,
@@ -527,13 +531,13 @@ impl<F: Float> Graph<F> {
         }
 
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.is_live(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
-        if !nodes.contains_key(sink.key()) {
+        if !self.is_live(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -591,7 +595,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphOutputOutOfBounds(sink_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.is_live(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -657,6 +661,9 @@ impl<F: Float> Graph<F> {
                 found_graph: sink.graph,
             });
         }
+        if !self.is_live(sink.key()) {
+            return Err(GraphError::NodeNotFound);
+        }
         let nodes = self.get_nodes();
         let sink_node = &nodes[sink.key()];
         let param = parameter.into();
@@ -678,7 +685,7 @@ impl<F: Float> Graph<F> {
             }
         };
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.is_live(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -751,7 +758,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphInputOutOfBounds(source_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(sink.key()) {
+        if !self.is_live(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -1018,7 +1025,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(source_node.key()) {
+                if !self.is_live(source_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let key = source_node.key();
@@ -1074,8 +1081,7 @@ impl<F: Float> Graph<F> {
                         found_graph: self.graph_id,
                     });
                 }
-                let nodes = self.get_nodes();
-                if !nodes.contains_key(sink_node.key()) {
+                if !self.is_live(sink_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let edges = &mut self.node_input_edges[sink_node.key()];
@@ -1368,10 +1374,10 @@ impl<F: Float> Graph<F> {
                 found_graph: node_id.graph,
             });
         }
-        let nodes = self.get_nodes();
-        let Some(node) = nodes.get(node_id.key()) else {
+        if !self.is_live(node_id.key()) {
             return Err(GraphError::NodeNotFound);
-        };
+        }
+        let node = &self.get_nodes()[node_id.key()];
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
                 if param_i as u16 >= node.data.parameters {
@@ -1745,20 +1751,13 @@ impl<F: Float> Graph<F> {
     }
 
     pub(crate) fn free_node_from_key(&mut self, node_key: NodeKey) -> Result<(), FreeError> {
-        // Does the Node exist?
-        if !self.get_nodes_mut().contains_key(node_key) {
+        // Does the Node exist, and isn't it pending removal already?
+        if !self.is_live(node_key) {
             return Err(FreeError::NodeNotFound);
         }
         if !self.node_mortality[node_key] {
             return Err(FreeError::ImmortalNode);
         }
-        if self
-            .node_keys_to_free_when_safe
-            .iter()
-            .any(|(key, _)| *key == node_key)
-        {
-            return Ok(());
-        }
         //
         self.recalculation_required = true;
 
@@ -1916,6 +1915,9 @@ impl<F: Float> Graph<F> {
                 .collect()
         };
         for key in node_keys {
+            if !self.is_live(key) {
+                continue;
+            }
             // TODO: Evaluate for affected nodes when changes occur instead of on all nodes.
             self.evaluate_if_node_should_be_removed(key);
         }
@@ -2082,6 +2084,11 @@ impl<F: Float> Graph<F> {
         // dbg!(&self.node_order);
         // dbg!(&self.disconnected_nodes);
     }
+    /// True if the node is part of the graph, i.e. it exists and isn't waiting to be removed as
+    /// soon as the audio thread has stopped using it.
+    fn is_live(&self, key: NodeKey) -> bool {
+        self.node_input_edges.contains_key(key)
+    }
     fn get_nodes(&self) -> &SlotMap<NodeKey, Node<F>> {
         unsafe { &*self.nodes.get() }
     }
@@ -2108,6 +2115,9 @@ impl<F: Float> Graph<F> {
                 found_graph: node.graph,
             });
         }
+        if !self.is_live(node.key()) {
+            return Err(GraphError::NodeNotFound);
+        }
         if let Some(m) = self.node_mortality.get_mut(node.key()) {
             *m = mortality;
             Ok(())
-- 
2.43.0


From 68b5f261016862ed42f713ca1915ed54b2d48a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 05/54] fix: disconnecting and removing around automatically
 added nodes

- collapsing an add node panicked when a graph output was unconnected and
  ignored parameter connections
- feedback nodes reading from or writing to nothing were kept
- replaced connections left orphaned add and feedback nodes running
- disconnecting a graph input also disconnected an unrelated graph output, or
  panicked
- disconnecting a graph output did not become audible
---
 knaster_graph/src/graph.rs | 122 ++++++++++++++++++++-----------------
 1 file changed, 66 insertions(+), 56 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 251ea66..0848ef5 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1038,11 +1038,6 @@ impl<F: Float> Graph<F> {
                 if source_channel >= self.num_inputs {
                     return Err(GraphError::GraphInputOutOfBounds(source_channel));
                 }
-                if let Some(edge) = self.output_edges[source_channel as usize].take() {
-                    if let NodeKeyOrGraph::Node(source_node) = edge.source {
-                        self.evaluate_if_node_should_be_removed(source_node);
-                    }
-                }
             }
         }
         let source: NodeKeyOrGraph = source.into();
@@ -1105,72 +1100,87 @@ impl<F: Float> Graph<F> {
                         self.evaluate_if_node_should_be_removed(source_node);
                     }
                 }
+                self.recalculation_required = true;
             }
         }
         Ok(())
     }
+    /// Returns true if anything in the graph reads from an output of the node
+    fn has_dependents(&self, key: NodeKey) -> bool {
+        let source = NodeKeyOrGraph::Node(key);
+        self.node_input_edges
+            .values()
+            .flat_map(|edges| edges.iter())
+            .chain(self.output_edges.iter())
+            .flatten()
+            .any(|edge| edge.source == source)
+            || self
+                .node_parameter_edges
+                .values()
+                .flatten()
+                .any(|edge| edge.source == key)
+    }
     /// If the node should be automatically removed, this removes it.
     fn evaluate_if_node_should_be_removed(&mut self, key: NodeKey) {
-        let node = &mut self.get_nodes_mut()[key];
-        if node.auto_math_node {
+        if !self.is_live(key) {
+            return;
+        }
+        let node = &self.get_nodes()[key];
+        let data = node.data;
+        let remove = if node.auto_math_node {
             // We assume math nodes have two inputs and one output
-            assert_eq!(node.data.inputs, 2);
-            assert_eq!(node.data.outputs, 1);
-            if let Some(edges) = self.node_input_edges.get(key) {
-                match (edges[0], edges[1]) {
-                    (Some(_), Some(_)) => (),
-                    (None, Some(input_edge)) | (Some(input_edge), None) => {
-                        // Find out where this math node is pointing and replace the node
-                        for (_k, input_edges) in &mut self.node_input_edges {
-                            for edge in input_edges.iter_mut().filter(|e| e.is_some()) {
-                                let edge = edge.as_mut().unwrap();
-                                if let NodeKeyOrGraph::Node(source) = &edge.source {
-                                    if *source == key {
-                                        *edge = input_edge;
-                                    }
-                                }
-                            }
+            assert_eq!(data.inputs, 2);
+            assert_eq!(data.outputs, 1);
+            let edges = &self.node_input_edges[key];
+            match (edges[0], edges[1]) {
+                (Some(_), Some(_)) => !self.has_dependents(key),
+                (None, Some(input_edge)) | (Some(input_edge), None) => {
+                    // Find out where this math node is pointing and replace the node
+                    let this = NodeKeyOrGraph::Node(key);
+                    for edge in self
+                        .node_input_edges
+                        .values_mut()
+                        .flat_map(|edges| edges.iter_mut())
+                        .chain(self.output_edges.iter_mut())
+                        .flatten()
+                    {
+                        if edge.source == this {
+                            *edge = input_edge;
                         }
-                        for edge in &mut self.output_edges {
-                            let edge = edge.as_mut().unwrap();
-                            if let NodeKeyOrGraph::Node(source) = &edge.source {
-                                if *source == key {
-                                    *edge = input_edge;
-                                }
+                    }
+                    if let NodeKeyOrGraph::Node(source) = input_edge.source {
+                        for edge in self.node_parameter_edges.values_mut().flatten() {
+                            if edge.source == key {
+                                edge.source = source;
+                                edge.channel_in_source = input_edge.channel_in_source;
                             }
                         }
-                        self.free_node_from_key(key).ok();
-                    }
-                    (None, None) => {
-                        // No inputs, simply remove
-                        self.free_node_from_key(key).ok();
                     }
+                    true
                 }
+                // No inputs, simply remove
+                (None, None) => true,
             }
-        }
-        let node = &mut self.get_nodes_mut()[key];
-        if node.auto_free_when_unconnected {
-            let mut unconnected = true;
-            'unconnected_block: {
-                if let Some(edges) = self.node_input_edges.get(key) {
-                    if edges.iter().flatten().peekable().peek().is_some() {
-                        unconnected = false;
-                        break 'unconnected_block;
-                    }
-                }
-                for (_k, input_edges) in &mut self.node_input_edges {
-                    for edge in input_edges.iter().flatten() {
-                        if let NodeKeyOrGraph::Node(source) = &edge.source {
-                            if *source == key {
-                                unconnected = false;
-                                break 'unconnected_block;
-                            }
-                        }
-                    }
+        } else if node.auto_free_when_unconnected {
+            let no_inputs = self.node_input_edges[key].iter().all(|e| e.is_none());
+            (data.inputs > 0 && no_inputs) || (data.outputs > 0 && !self.has_dependents(key))
+        } else {
+            false
+        };
+        if remove {
+            let strong_dependent = self.get_nodes()[key].strong_dependent;
+            let mut sources = Vec::new();
+            for k in [Some(key), strong_dependent].into_iter().flatten() {
+                if let Some(edges) = self.node_input_edges.get(k) {
+                    sources.extend(edges.iter().flatten().map(|edge| edge.source));
                 }
             }
-            if unconnected {
-                self.free_node_from_key(key).ok();
+            self.free_node_from_key(key).ok();
+            // What fed this node may have been there only for this node
+            for source in sources {
+                if let NodeKeyOrGraph::Node(source) = source {
+                    self.evaluate_if_node_should_be_removed(source);
+                }
             }
         }
     }
-- 
2.43.0


From 109d1997cc02b0c4aa3fcd8a45b35040b90e77c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 06/54] fix: run every node after everything it depends on

Nodes feeding a graph output and another output's node, and nodes which reach no
graph output at all, could run before their sources.
---
 knaster_graph/src/graph.rs | 72 ++++++++------------------------------
 1 file changed, 14 insertions(+), 58 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 0848ef5..06378ad 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -2007,44 +2007,6 @@ impl<F: Float> Graph<F> {
         }
         node_order
     }
-    /// Looks for the deepest (furthest away from the graph output) node that is also an output node, i.e.
-    /// a node that is both an output node and an input to another node which is eventually connected to
-    /// an output is deeper than a node which is only connected to an output.
-    fn get_deepest_output_node(&self, start_node: NodeKey, visited: &HashSet<NodeKey>) -> NodeKey {
-        let mut last_connected_node_index = start_node;
-        let mut last_connected_output_node_index = start_node;
-        loop {
-            let mut found_later_node = false;
-            for (key, input_edges) in &self.node_input_edges {
-                for input_edge in input_edges.iter().filter_map(|e| *e) {
-                    if let NodeKeyOrGraph::Node(source) = input_edge.source {
-                        if source == last_connected_node_index && !visited.contains(&source) {
-                            last_connected_node_index = key;
-                            found_later_node = true;
-
-                            // check if it's an output node
-                            for edge in self.output_edges.iter().filter_map(|e| *e) {
-                                if let NodeKeyOrGraph::Node(source) = edge.source {
-                                    if last_connected_node_index == source {
-                                        last_connected_output_node_index =
-                                            last_connected_node_index;
-                                    }
-                                }
-                            }
-                            break;
-                        }
-                    }
-                }
-                if found_later_node {
-                    break;
-                }
-            }
-            if !found_later_node {
-                break;
-            }
-        }
-        last_connected_output_node_index
-    }
     /// Calculate the node order of the graph based on the outputs
     /// Post-ordered depth first search
     /// NB: Not real-time safe
@@ -2056,31 +2018,25 @@ impl<F: Float> Graph<F> {
         for edge in self.output_edges.iter().filter_map(|e| *e) {
             if let NodeKeyOrGraph::Node(source) = edge.source {
                 // The same source node may be present in multiple output edges
-                // e.g. for stereo so we need to check if visited. The input to
-                // one graph output may also depend on the input to another
-                // graph output. Therefore we need to make sure to start with
-                // the deepest output nodes only.
-                let deepest_node = self.get_deepest_output_node(source, &visited);
-                if !visited.contains(&deepest_node) {
-                    nodes_to_process.push(deepest_node);
-                    visited.insert(deepest_node);
+                // e.g. for stereo so we need to check if visited. Everything
+                // a node depends on is added before the node itself, so the
+                // order between the outputs doesn't matter.
+                if visited.insert(source) {
+                    nodes_to_process.push(source);
+                    let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
+                    self.node_order.extend(stack);
                 }
             }
         }
 
-        let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
-        self.node_order.extend(stack);
-
-        // Add all remaining nodes. These are not currently connected to anything.
+        // Add all remaining nodes. These are not connected to any graph output, but may be
+        // connected to each other.
         let mut remaining_nodes = vec![];
-        for (node_key, _node) in self.get_nodes() {
-            if !visited.contains(&node_key)
-                && !self
-                    .node_keys_to_free_when_safe
-                    .iter()
-                    .any(|(key, _)| key == &node_key)
-            {
-                remaining_nodes.push(node_key);
+        for (node_key, _edges) in &self.node_input_edges {
+            if visited.insert(node_key) {
+                nodes_to_process.push(node_key);
+                remaining_nodes
+                    .extend(self.depth_first_search(&mut visited, &mut nodes_to_process));
             }
         }
         self.node_order.extend(remaining_nodes.iter());
-- 
2.43.0


From dcb2973838386f816ba4a85af02c98eef08068e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 07/54] fix: buffers of graph outputs and of nodes without
 outputs

The buffer of a node connected to a graph output could be given to another node
before the graph output was read. Nodes without outputs shared their offset with
another node, or had one past the end.
---
 knaster_graph/src/graph.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 06378ad..ccd1bc1 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1631,6 +1631,12 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        // The graph outputs are read after all nodes have run, so those buffers are never returned
+        for edge in self.output_edges.iter().filter_map(|e| *e) {
+            if let NodeKeyOrGraph::Node(source_key) = edge.source {
+                (unsafe { &mut *self.nodes.get() })[source_key].num_output_dependents += 1;
+            }
+        }
         // Add parameter edges as dependents
         for (_key, edges) in &self.node_parameter_edges {
             for edge in edges {
@@ -1646,9 +1652,13 @@ impl<F: Float> Graph<F> {
         for (node_order_index, &key) in node_order.iter().enumerate() {
             let outputs = self.get_nodes()[key].data.outputs as usize;
             let num_borrows = self.get_nodes()[key].num_output_dependents;
-            let offset = self
-                .buffer_allocator
-                .get_block(outputs, self.block_size, num_borrows);
+            let offset = if outputs == 0 {
+                // Nothing is written, any valid offset will do
+                0
+            } else {
+                self.buffer_allocator
+                    .get_block(outputs, self.block_size, num_borrows)
+            };
             self.get_nodes_mut()[key].assign_output_offset(offset);
             let mut input_pointers_to_node = None;
             // Return every block that is used as an input
-- 
2.43.0


From 2b55415361fd32b176090bb3af86cfed2edfac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 08/54] fix: check connections to parameters

A parameter connection closing a cycle and one to a parameter index which doesn't
exist were accepted and panicked later, and a new parameter connection was only
sent to the audio thread with the next other change.
---
 knaster_graph/src/graph.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index ccd1bc1..5ec3898 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -668,7 +668,12 @@ impl<F: Float> Graph<F> {
         let sink_node = &nodes[sink.key()];
         let param = parameter.into();
         let param_index = match param {
-            Param::Index(param_index) => param_index as u16,
+            Param::Index(param_index) => {
+                if param_index >= sink_node.data.parameters as usize {
+                    return Err(GraphError::ParameterIndexOutOfBounds(param_index));
+                }
+                param_index as u16
+            }
             Param::Desc(desc) => {
                 if let Some(index) = sink_node.parameter_descriptions().position(|s| s == desc) {
                     index as u16
@@ -691,7 +696,11 @@ impl<F: Float> Graph<F> {
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
+        if self.has_path(sink, source) {
+            return Err(GraphError::CircularConnection);
+        }
 
+        self.recalculation_required = true;
         let edges = self
             .node_parameter_edges
             .get_mut(sink.key())
@@ -1501,6 +1510,9 @@ impl<F: Float> Graph<F> {
                         }
                     }
                 }
+                if let Some(edges) = self.node_parameter_edges.get(node) {
+                    stack.extend(edges.iter().map(|edge| edge.source));
+                }
             }
         }
 
-- 
2.43.0


From 29be9f78a5b4b399ce9d8eb187d81d45cf1f3440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 09/54] fix: disconnect parameters from removed sources

Freeing or disconnecting the source of a parameter connection left the edge in
place (and a panic at the next commit), and nothing ever told the audio side to
stop reading from the old buffer.
---
 knaster_core/src/ugen.rs                      |  3 +-
 .../src/wrappers_core/audio_rate.rs           |  2 +-
 knaster_graph/src/graph.rs                    | 33 +++++++++++++++++++
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 6d0d186..bef91cf 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -317,7 +317,8 @@ pub trait UGen {
     /// # Safety
     /// The caller guarantees that the pointer will point to a
     /// contiguous allocation of at least block size until it is replaced,
-    /// disabled, or the inner struct is dropped.
+    /// disabled, or the inner struct is dropped. A null pointer disables the audio rate
+    /// buffer of the parameter.
     #[allow(unused)]
     unsafe fn set_ar_param_buffer(
         &mut self,
diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 603b225..9096bac 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -80,7 +80,7 @@ impl<T: UGen> UGen for WrArParams<T> {
         buffer: *const T::Sample,
     ) {
         debug_assert!(index < T::Parameters::USIZE);
-        self.buffers[index] = Some(buffer);
+        self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
 }
 
diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 5ec3898..71c38fd 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -175,6 +175,9 @@ pub struct Graph<F: Float> {
     /// Edges which control a parameter of a node through the output of another
     /// node. These can be in addition to audio input edges.
     node_parameter_edges: SecondaryMap<NodeKey, Vec<ParameterEdge>>,
+    /// Parameters whose parameter edge has been removed since the last commit. Unless they are
+    /// connected again the audio rate buffer has to be unset.
+    disconnected_parameters: Vec<(NodeKey, u16)>,
     /// If a node can be freed or not. A node can be made immortal to avoid accidentally removing it.
     node_mortality: SecondaryMap<NodeKey, bool>,
     node_order: Vec<NodeKey>,
@@ -245,6 +248,7 @@ impl<F: Float> Graph<F> {
             nodes,
             node_input_edges,
             node_parameter_edges,
+            disconnected_parameters: Vec::new(),
             node_mortality: SecondaryMap::with_capacity(DEFAULT_NUM_NODES),
             node_order: Vec::with_capacity(DEFAULT_NUM_NODES),
             disconnected_nodes: vec![],
@@ -1067,10 +1071,27 @@ impl<F: Float> Graph<F> {
                 *edge = None;
             }
         }
+        if let NodeKeyOrGraph::Node(source) = source {
+            self.remove_parameter_edges_from(source, Some(source_channel));
+        }
 
         self.recalculation_required = true;
         Ok(())
     }
+    /// Remove all parameter edges from a node, or from one of its channels
+    fn remove_parameter_edges_from(&mut self, source: NodeKey, channel: Option<u16>) {
+        let disconnected_parameters = &mut self.disconnected_parameters;
+        for (sink, edges) in &mut self.node_parameter_edges {
+            edges.retain(|edge| {
+                let remove =
+                    edge.source == source && channel.is_none_or(|c| c == edge.channel_in_source);
+                if remove {
+                    disconnected_parameters.push((sink, edge.parameter_index));
+                }
+                !remove
+            });
+        }
+    }
     /// Disconnect any input from a specific channel on a node or an internal graph output.
     pub fn disconnect_input_to_sink(
         &mut self,
@@ -1568,6 +1589,17 @@ impl<F: Float> Graph<F> {
     /// time the schedule is updated.
     fn generate_ar_parameter_changes(&mut self) -> Vec<ArParameterChange<F>> {
         let mut apc = Vec::new();
+        // Stop nodes from reading buffers of parameters which are no longer connected. If the
+        // parameter was connected again, its new buffer is set below.
+        for (node_key, parameter_index) in self.disconnected_parameters.drain(..) {
+            if let Some(node_index) = self.node_order.iter().position(|k| *k == node_key) {
+                apc.push(ArParameterChange {
+                    node: node_index,
+                    parameter_index: parameter_index as usize,
+                    buffer: crate::core::ptr::null(),
+                })
+            }
+        }
         for (node_key, edges) in &self.node_parameter_edges {
             for edge in edges {
                 let ParameterEdge {
@@ -1815,6 +1847,7 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        self.remove_parameter_edges_from(node_key, None);
         // Remove all edges leading from the node to the Graph output
         {
             let mut i = 0;
-- 
2.43.0


From 1867397780a8d2e019ee56dde63f3a1db4c4ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 10/54] fix: feedback connections

The source of a feedback connection was another sink and never produced anything,
for channels other than the first it read beyond its output, and nothing made the
sink run after the node it reads from. The delay now comes from the clock instead
of from the order the two nodes run in.
---
 knaster_graph/src/graph.rs | 64 ++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 37 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 71c38fd..f96da3e 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -23,7 +23,6 @@ use crate::{
     node::{Node, NodeData},
     task::{ArParameterChange, BlockOrGraphInput, OutputTask, Task, TaskData},
 };
-use core::cell::Cell;
 use ecow::EcoString;
 use knaster_core::numeric_array::NumericArray;
 /// no_std_compat prelude import, supporting both std and no_std
@@ -798,7 +797,7 @@ impl<F: Float> Graph<F> {
         &mut self,
         mut source: NodeKeyOrGraph,
         sink: NodeKey,
-        so_channel: u16,
+        mut so_channel: u16,
         si_channel: u16,
         additive: bool,
         feedback: bool,
@@ -806,19 +805,22 @@ impl<F: Float> Graph<F> {
         self.recalculation_required = true;
         if feedback {
             let (fb_source, fb_sink) = self.new_feedback_nodes();
+            // The sink runs after its source like any other node, only what leaves the feedback
+            // source node is delayed.
             self.node_input_edges[fb_sink][0] = Some(Edge {
                 source,
                 channel_in_source: so_channel,
-                is_feedback: true,
+                is_feedback: false,
             });
             source = NodeKeyOrGraph::Node(fb_source);
+            so_channel = 0;
         }
         // Fast and common path
         if !additive {
             self.node_input_edges[sink][si_channel as usize] = Some(Edge {
                 source,
                 channel_in_source: so_channel,
-                is_feedback: false,
+                is_feedback: feedback,
             });
             return;
         }
@@ -834,7 +836,7 @@ impl<F: Float> Graph<F> {
             self.node_input_edges[add_node][1] = Some(Edge {
                 source,
                 channel_in_source: so_channel,
-                is_feedback: false,
+                is_feedback: feedback,
             });
             self.node_input_edges[sink][si_channel as usize] = Some(Edge {
                 source: NodeKeyOrGraph::Node(add_node),
@@ -913,18 +915,10 @@ impl<F: Float> Graph<F> {
             OwnedRawBuffer::new(self.block_size),
             OwnedRawBuffer::new(self.block_size),
         ]);
-        // We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-        // we can get away with using a `Cell` which is !Sync.
-        #[allow(clippy::arc_with_non_send_sync)]
-        let bufnum = Arc::new(Cell::new(0));
         let sink = FeedbackSink {
             buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
-        };
-        let source = FeedbackSink {
-            buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
         };
+        let source = FeedbackSource { buffers };
         // TODO: We don't need a full handle here
         let sink_handle = self.push_internal(sink);
         let sink_node = sink_handle.raw_handle.node.key;
@@ -2033,14 +2027,12 @@ impl<F: Float> Graph<F> {
             // There is probably room for optimisation here by managing to
             // not iterate the edges multiple times.
             for edge in input_edges.iter().filter_map(|e| *e) {
-                if !edge.is_feedback {
-                    if let NodeKeyOrGraph::Node(source) = edge.source {
-                        if !visited.contains(&source) {
-                            nodes_to_process.push(source);
-                            visited.insert(source);
-                            found_unvisited = true;
-                            break;
-                        }
+                if let NodeKeyOrGraph::Node(source) = edge.source {
+                    if !visited.contains(&source) {
+                        nodes_to_process.push(source);
+                        visited.insert(source);
+                        found_unvisited = true;
+                        break;
                     }
                 }
             }
@@ -2408,18 +2400,19 @@ impl From<u16> for Channels<U1> {
     }
 }
 
+/// The index of the feedback buffer written in the current block, the other one was written in the
+/// block before. Derived from the clock so that it doesn't matter in what order the nodes are run.
+fn feedback_buffer(ctx: &AudioCtx) -> usize {
+    ((ctx.frame_clock() / ctx.block_size() as u64) & 1) as usize
+}
 /// The sink for a feedback connection, i.e. the UGen that stores data to be read by the other node
 ///
 /// Highly unsafe. The allocation of buffers is done separately instead of using the init function.
 /// Should only be used from inside the Graph. Assumes that a single Graph is always run
 pub(crate) struct FeedbackSink<F: Float> {
-    buffers: Arc<[OwnedRawBuffer<F>; 2]>,
     /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    ///
-    /// We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-    /// we can get away with using a `Cell` which is !Sync.
-    bufnum: Arc<Cell<usize>>,
+    /// concurrently.
+    buffers: Arc<[OwnedRawBuffer<F>; 2]>,
 }
 impl<F: Float> UGen for FeedbackSink<F> {
     type Sample = F;
@@ -2438,7 +2431,7 @@ impl<F: Float> UGen for FeedbackSink<F> {
     }
     fn process_block<InBlock, OutBlock>(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         _flags: &mut knaster_core::UGenFlags,
         input: &InBlock,
         _output: &mut OutBlock,
@@ -2446,7 +2439,7 @@ impl<F: Float> UGen for FeedbackSink<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
+        let bufnum = feedback_buffer(ctx);
         let input = input.channel_as_slice(0);
         unsafe { self.buffers[bufnum].as_slice_mut().copy_from_slice(input) }
     }
@@ -2470,10 +2463,9 @@ impl<F: Float> UGen for FeedbackSink<F> {
 /// Highly unsafe. The allocation of buffers is done separately instead of using the init function.
 /// Should only be used from inside the Graph.
 pub(crate) struct FeedbackSource<F: Float> {
-    buffers: Arc<[OwnedRawBuffer<F>; 2]>,
     /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    bufnum: Arc<Cell<usize>>,
+    /// concurrently.
+    buffers: Arc<[OwnedRawBuffer<F>; 2]>,
 }
 impl<F: Float> UGen for FeedbackSource<F> {
     type Sample = F;
@@ -2492,7 +2484,7 @@ impl<F: Float> UGen for FeedbackSource<F> {
     }
     fn process_block<InBlock, OutBlock>(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         _flags: &mut knaster_core::UGenFlags,
         _input: &InBlock,
         output: &mut OutBlock,
@@ -2500,9 +2492,7 @@ impl<F: Float> UGen for FeedbackSource<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
-        let prev_buffer = 1 - bufnum;
-        self.bufnum.set(prev_buffer);
+        let prev_buffer = 1 - feedback_buffer(ctx);
         let output = output.channel_as_slice_mut(0);
         unsafe { output.copy_from_slice(self.buffers[prev_buffer].as_slice_mut()) }
     }
-- 
2.43.0


From 138e27bef6a6b4fcfeb99a7ccb4fddf623d167b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 11/54] fix: keep unsent changes when the channel to the audio
 thread is full

A commit moved the unit generators into task data which was then lost, and the
failure panicked in the drop of the GraphEdit.
---
 knaster_graph/src/graph.rs      | 9 +++++++++
 knaster_graph/src/graph_edit.rs | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index f96da3e..58c20e1 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1785,6 +1785,15 @@ impl<F: Float> Graph<F> {
         self.graph_gen_communicator.free_old_task_data();
         sim_point!("commit:free_old_task_data");
         if self.recalculation_required {
+            // The unit generators move into the new task data, so it mustn't be made unless it
+            // can be sent. The changes will be sent with the next commit instead.
+            if self
+                .graph_gen_communicator
+                .new_task_data_producer
+                .is_full()
+            {
+                return Err(GraphError::SendToGraphGen("full ring buffer".into()));
+            }
             self.calculate_node_order();
             let graph_input_pointers_to_nodes = self.allocate_node_buffers();
             sim_point!("commit:allocated");
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 8caabf8..5d48868 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -257,7 +257,10 @@ impl<'b, F: Float> GraphEdit<'b, F> {
 }
 impl<F: Float> Drop for GraphEdit<'_, F> {
     fn drop(&mut self) {
-        self.graph.write().commit_changes().unwrap();
+        if let Err(e) = self.graph.write().commit_changes() {
+            // The changes are kept and committed together with the next edit.
+            log::error!("Failed to commit changes to the graph: {e}");
+        }
     }
 }
 
-- 
2.43.0


From ee88924a5dd4b1223c54058ff3943e0e8d2420e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 12/54] fix: report failing connections of static handles
 instead of panicking

Connecting to a channel which does not exist panicked while the graph was
locked, and the poisoned lock then aborted the process.
---
 knaster_graph/src/graph_edit.rs | 90 ++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 40 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 5d48868..efd7d0b 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -340,8 +340,11 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
         for ((source, source_channel), (sink, sink_channel)) in
             Static::iter_outputs(&self.nodes).zip(Static::iter_inputs(&n.nodes))
         {
-            g.connect2_replace(source, source_channel, sink_channel, sink)
-                .expect("type safe interface should eliminate graph connection errors");
+            if let Err(e) = g.connect2_replace(source, source_channel, sink_channel, sink) {
+                log::error!(
+                    "Failed to connect {source:?}:{source_channel} to {sink:?}:{sink_channel}: {e}"
+                );
+            }
         }
         n
     }
@@ -356,8 +359,11 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
         for ((source, source_channel), (sink, sink_channel)) in
             Static::iter_outputs(&self.nodes).zip(Static::iter_inputs(&n.nodes))
         {
-            g.connect2_feedback_replace(source, source_channel, sink_channel, sink)
-                .expect("type safe interface should eliminate graph connection errors");
+            if let Err(e) = g.connect2_feedback_replace(source, source_channel, sink_channel, sink) {
+                log::error!(
+                    "Failed to connect {source:?}:{source_channel} to {sink:?}:{sink_channel}: {e}"
+                );
+            }
         }
         n
     }
@@ -366,8 +372,9 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
     pub fn to_graph_out(self) {
         let mut g = self.graph.write();
         for (i, (source, source_channel)) in Static::iter_outputs(&self.nodes).enumerate() {
-            g.connect2(source, source_channel, i as u16, NodeOrGraph::Graph)
-                .expect("Error connecting to graph output channel");
+            if let Err(e) = g.connect2(source, source_channel, i as u16, NodeOrGraph::Graph) {
+                log::error!("Failed to connect node to graph output: {e}");
+            }
         }
     }
     /// Connect the output(s) of self to the graph output(s), replacing any existing connections at
@@ -375,8 +382,9 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
     pub fn to_graph_out_replace(self) {
         let mut g = self.graph.write();
         for (i, (source, source_channel)) in Static::iter_outputs(&self.nodes).enumerate() {
-            g.connect2_replace(source, source_channel, i as u16, NodeOrGraph::Graph)
-                .expect("Error connecting to graph output channel");
+            if let Err(e) = g.connect2_replace(source, source_channel, i as u16, NodeOrGraph::Graph) {
+                log::error!("Failed to connect node to graph output: {e}");
+            }
         }
     }
 
@@ -389,8 +397,9 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
         for ((source, source_channel), sink_channel) in
             Static::iter_outputs(&self.nodes).zip(sink_channels.into())
         {
-            g.connect2(source, source_channel, sink_channel, NodeOrGraph::Graph)
-                .expect("Error connecting to graph output channel.");
+            if let Err(e) = g.connect2(source, source_channel, sink_channel, NodeOrGraph::Graph) {
+                log::error!("Failed to connect node to graph output: {e}");
+            }
         }
     }
     /// Connect the output(s) of self to the graph output(s), selecting graph output channels from the channels provided, and replacing any existing connections at those graph output channels.
@@ -402,31 +411,32 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
         for ((source, source_channel), sink_channel) in
             Static::iter_outputs(&self.nodes).zip(sink_channels.into())
         {
-            g.connect2_replace(source, source_channel, sink_channel, NodeOrGraph::Graph)
-                .expect("Error connecting to graph output channel.");
+            if let Err(e) = g.connect2_replace(source, source_channel, sink_channel, NodeOrGraph::Graph) {
+                log::error!("Failed to connect node to graph output: {e}");
+            }
         }
     }
     /// Disconnect all outputs from the specified channel.
     pub fn disconnect_output(&self, source_channel: u16) {
         let mut g = self.graph.write();
-        let source = self
-            .nodes
-            .iter_outputs()
-            .nth(source_channel as usize)
-            .expect("Output channel to disconnect from does not exist.");
-        g.disconnect_output_from_source(source.0, source.1)
-            .expect("Error disconnecting from output channel.");
+        let Some(source) = self.nodes.iter_outputs().nth(source_channel as usize) else {
+            log::error!("Failed to disconnect output: no output channel {source_channel}");
+            return;
+        };
+        if let Err(e) = g.disconnect_output_from_source(source.0, source.1) {
+            log::error!("Failed to disconnect output channel: {e}");
+        }
     }
     /// Disconnect any input from the specified channel.
     pub fn disconnect_input(&self, sink_channel: u16) {
         let mut g = self.graph.write();
-        let sink = self
-            .nodes
-            .iter_inputs()
-            .nth(sink_channel as usize)
-            .expect("Input channel to disconnect does not exist.");
-        g.disconnect_input_to_sink(sink.1, sink.0)
-            .expect("Error disconnecting input channel.");
+        let Some(sink) = self.nodes.iter_inputs().nth(sink_channel as usize) else {
+            log::error!("Failed to disconnect input: no input channel {sink_channel}");
+            return;
+        };
+        if let Err(e) = g.disconnect_input_to_sink(sink.1, sink.0) {
+            log::error!("Failed to disconnect input channel: {e}");
+        }
     }
     /// Connect this handle to another handle, returning a [`Stack`] which can be used to connect
     /// to other handles.
@@ -617,24 +627,24 @@ impl<'a, 'b, F: Float, D: Dynamic> DH<'a, 'b, F, D> {
     /// Disconnect all outputs from the specified channel.
     pub fn disconnect_output(&self, source_channel: u16) {
         let mut g = self.graph.write();
-        let source = self
-            .nodes
-            .iter_outputs()
-            .nth(source_channel as usize)
-            .expect("Output channel to disconnect from does not exist.");
-        g.disconnect_output_from_source(source.0, source.1)
-            .expect("Error disconnecting from output channel.");
+        let Some(source) = self.nodes.iter_outputs().nth(source_channel as usize) else {
+            log::error!("Failed to disconnect output: no output channel {source_channel}");
+            return;
+        };
+        if let Err(e) = g.disconnect_output_from_source(source.0, source.1) {
+            log::error!("Failed to disconnect output channel: {e}");
+        }
     }
     /// Disconnect any input from the specified channel.
     pub fn disconnect_input(&self, sink_channel: u16) {
         let mut g = self.graph.write();
-        let sink = self
-            .nodes
-            .iter_inputs()
-            .nth(sink_channel as usize)
-            .expect("Input channel to disconnect does not exist.");
-        g.disconnect_input_to_sink(sink.1, sink.0)
-            .expect("Error disconnecting input channel.");
+        let Some(sink) = self.nodes.iter_inputs().nth(sink_channel as usize) else {
+            log::error!("Failed to disconnect input: no input channel {sink_channel}");
+            return;
+        };
+        if let Err(e) = g.disconnect_input_to_sink(sink.1, sink.0) {
+            log::error!("Failed to disconnect input channel: {e}");
+        }
     }
     /// Connect this handle to another handle, returning a [`Stack`] which can be used to connect
     /// to other handles.
-- 
2.43.0


From 2e90c485d120998590950c9e5938d9ce4161cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 13/54] fix: sample accurate timing of unsorted and repeated
 changes

The delay of a change stayed in effect for later changes to the same
parameter, and changes not sent in time order were applied late.
---
 .../src/wrappers_core/precise_timing.rs          | 16 +++++++++++++---
 knaster_graph/src/graph_gen.rs                   |  5 ++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 8388b7a..fc8e8d8 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -4,8 +4,8 @@ use knaster_core::{
     AudioCtx, ParameterHint, ParameterValue, PartialBlock, UGen, UGenFlags, rt_log,
 };
 
-/// Enables sample accurate parameter changes within a block. Changes must be
-/// scheduled in the order they are to be applied.
+/// Enables sample accurate parameter changes within a block. Changes are applied
+/// in time order, and changes to the same frame in the order they were scheduled.
 ///
 /// `DelayedChangesPerBlock` determines the maximum number of changes that can
 /// be scheduled per block.
@@ -60,6 +60,7 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
                 self.ugen.param_apply(ctx, index, value);
             }
         }
+        self.next_delay_i = 0;
         self.ugen.process(ctx, flags, input)
     }
     fn process_block<InBlock, OutBlock>(
@@ -127,7 +128,16 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
         if self.next_delay[index] == 0 {
             self.ugen.param_apply(ctx, index, value);
         } else if self.next_delay_i < DELAYED_CHANGES_PER_BLOCK {
-            self.waiting_changes[self.next_delay_i] = Some((self.next_delay[index], index, value));
+            let delay = self.next_delay[index];
+            // Keep the changes sorted in time. Changes to the same frame stay in the order they were made.
+            let mut i = self.next_delay_i;
+            while i > 0
+                && self.waiting_changes[i - 1].is_some_and(|(earlier, ..)| earlier > delay)
+            {
+                self.waiting_changes[i] = self.waiting_changes[i - 1];
+                i -= 1;
+            }
+            self.waiting_changes[i] = Some((delay, index, value));
             self.next_delay_i += 1;
         } else {
             rt_log!(ctx.logger(); "Warning: Not enough space for echeduled changes in WrHiResParams, change ignored. Allocate more space for saving scheduled changes by setting the generic DelayedChangesPerBlock to a higher number than the current", DELAYED_CHANGES_PER_BLOCK);
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 21c6d83..c085852 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -294,9 +294,8 @@ fn apply_parameter_change<'a, F: Float>(
         for (key, task) in keys.iter().zip(tasks.iter_mut()) {
             if *key == node_key {
                 let g = &mut task.ugen;
-                if delay_in_block > 0 {
-                    g.set_delay_within_block_for_param(ctx, event.parameter, delay_in_block as u16);
-                }
+                // Set even when there is no delay, otherwise the delay of an earlier change would be used
+                g.set_delay_within_block_for_param(ctx, event.parameter, delay_in_block as u16);
                 if let Some(smoothing) = event.smoothing {
                     g.param_apply(ctx, event.parameter, smoothing.into());
                 }
-- 
2.43.0


From d135da63e90f11b744f7dacd510ac5155ae92457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 14/54] fix: wrappers pass on delays and audio rate buffers of
 parameters

WrDone, WrArParams, WrArParamToInput and WrSmoothParams stopped them, so
that timing and audio rate parameters depended on the wrappers in between.
A done action which is not an integer no longer panics on the audio thread.
---
 .../src/wrappers_core/audio_rate.rs           | 17 +++++++++++++
 .../src/wrappers_core/smooth_params.rs        | 13 ++++++++++
 knaster_graph/src/wrappers_graph/done.rs      | 24 ++++++++++++++++++-
 3 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 9096bac..19294df 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -82,6 +82,10 @@ impl<T: UGen> UGen for WrArParams<T> {
         debug_assert!(index < T::Parameters::USIZE);
         self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen.set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 /// Adds an audio input channel and uses that channel to set a parameter every
@@ -168,4 +172,17 @@ where
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         self.ugen.param_apply(ctx, index, value);
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const Self::Sample,
+    ) {
+        unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen.set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 5d9e4d3..ebf6d19 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -242,6 +242,19 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
             }
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const Self::Sample,
+    ) {
+        unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen.set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 #[derive(Copy, Clone, Debug)]
diff --git a/knaster_graph/src/wrappers_graph/done.rs b/knaster_graph/src/wrappers_graph/done.rs
index e0160b8..b44e057 100644
--- a/knaster_graph/src/wrappers_graph/done.rs
+++ b/knaster_graph/src/wrappers_graph/done.rs
@@ -14,6 +14,7 @@ use knaster_core::numeric_array::NumericArray;
 use knaster_core::typenum::{Add1, B1, Unsigned};
 use knaster_core::{
     AudioCtx, Block, BlockRead, Done, Frame, ParameterHint, ParameterValue, Size, UGen, UGenFlags,
+    rt_log,
 };
 
 /// Wrapper that can free a node once it has been marked as done.
@@ -113,9 +114,30 @@ where
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         if index == T::Parameters::USIZE {
-            self.done_action = value.integer().unwrap().into();
+            if let Some(action) = value.integer() {
+                self.done_action = action.into();
+            } else {
+                rt_log!(ctx.logger(); "Warning: done_action set to a value which is not an integer, change ignored.");
+            }
         } else {
             self.ugen.param_apply(ctx, index, value);
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const Self::Sample,
+    ) {
+        if index < T::Parameters::USIZE {
+            unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+        }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        if index < T::Parameters::USIZE {
+            self.ugen.set_delay_within_block_for_param(ctx, index, delay);
+        }
+    }
 }
-- 
2.43.0


From 5272365d0bded7812369f89a695a1a85fc939b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 15/54] fix: free the graph from the earliest frame a node asks
 for

---
 knaster_core/src/ugen.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index bef91cf..1adfed3 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -190,7 +190,9 @@ impl UGenFlags {
     /// `from_frame_in_block` to the current block size.
     pub fn mark_remove_parent(&mut self, from_frame: u32) {
         self.remove_parent = true;
-        self.remove_parent_from_frame_in_block = from_frame;
+        // If several nodes want the parent removed, the earliest frame counts
+        self.remove_parent_from_frame_in_block =
+            self.remove_parent_from_frame_in_block.min(from_frame);
     }
     /// Mark this node as done.
     ///
@@ -198,7 +200,8 @@ impl UGenFlags {
     /// response.
     pub fn mark_done(&mut self, from_frame: u32) {
         self.done = true;
-        self.done_frame_in_block = from_frame;
+        // If the node is marked several times in a block, it was done the first time
+        self.done_frame_in_block = self.done_frame_in_block.min(from_frame);
     }
     /// Mark that the `remove_self` flag is supported.
     pub fn mark_remove_self_supported(&mut self) {
-- 
2.43.0


From 1677dfa47de40e59b1c8ce35842930ff3ad6b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 16/54] fix: refuse parameter indices and input channels which
 do not exist

---
 knaster_graph/src/graph.rs      |  4 ++--
 knaster_graph/src/graph_edit.rs |  2 +-
 knaster_graph/src/handle.rs     | 14 ++++++++++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 58c20e1..9a13098 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -774,7 +774,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
-            return Err(GraphError::OutputOutOfBounds(sink_channel));
+            return Err(GraphError::InputOutOfBounds(sink_channel));
         }
 
         self.connect_to_node_internal(
@@ -1414,7 +1414,7 @@ impl<F: Float> Graph<F> {
         let node = &self.get_nodes()[node_id.key()];
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
-                if param_i as u16 >= node.data.parameters {
+                if param_i >= node.data.parameters as usize {
                     return Err(ParameterError::ParameterIndexOutOfBounds.into());
                 } else {
                     param_i
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index efd7d0b..dc6bf5c 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -873,7 +873,7 @@ impl<'a, 'b, F: Float> DH<'a, 'b, F, DynamicHandle3> {
         let p = p.into();
         match p {
             Param::Index(i) => {
-                if (i as u16) < self.nodes.data.parameters {
+                if i < self.nodes.data.parameters as usize {
                     Some(Parameter {
                         node: self.nodes.node_id,
                         param_index: i as u16,
diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index bb68179..a72f1e1 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -221,7 +221,12 @@ impl<T: UGen> HandleTrait for Handle<T> {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= T::Parameters::USIZE {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 match T::param_descriptions().iter().position(|d| *d == desc) {
                     Some(param_i) => param_i,
@@ -279,7 +284,12 @@ impl HandleTrait for AnyHandle {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= self.parameters.len() {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 if let Some(param_i) = self.parameters.iter().position(|d| *d == desc) {
                     param_i
-- 
2.43.0


From 68610a63936b320b31b2206b6f37ac6de8a8a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 17/54] fix: inspection shows subgraphs and feedback

---
 knaster_graph/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 9a13098..a230a2a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1903,7 +1903,7 @@ impl<F: Float> Graph<F> {
                         },
                         from_index: edge.channel_in_source,
                         to_index: input_channel_index as u16,
-                        is_feedback: false,
+                        is_feedback: edge.is_feedback,
                     });
                 }
             }
@@ -1917,7 +1917,7 @@ impl<F: Float> Graph<F> {
                 parameter_descriptions: node.parameter_descriptions().collect(),
                 parameter_hints: node.parameter_hints().collect(),
                 unconnected: self.disconnected_nodes.contains(&node_key),
-                is_graph: None,
+                is_graph: node.is_graph,
             });
             node_key_processed.push(node_key);
         }
-- 
2.43.0


From b01545d054972d84db79edafbecc11c83f5ad9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 18/54] fix: keep accepted parameter changes when many are
 waiting

A change that arrived when the queue of waiting changes was full was
dropped without a word. It now stays in the channel until there is room.
---
 knaster_graph/src/graph_gen.rs | 50 ++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index c085852..c482a73 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -144,28 +144,36 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
 
         sim_point!("gen:new_changes");
         // Get new parameter changes
-        let parameter_changes_waiting = self.scheduling_event_receiver.slots();
-        if let Ok(pm_chunk) = self
-            .scheduling_event_receiver
-            .read_chunk(parameter_changes_waiting)
-        {
-            let keys = &self.current_task_data.node_task_order;
-            let tasks = &mut self.current_task_data.tasks;
-            for event in pm_chunk {
-                if let Some(event) = apply_parameter_change(
-                    event,
-                    ctx.block_size() as u64,
-                    ctx.sample_rate() as u64,
-                    ctx,
-                    keys,
-                    tasks,
-                ) {
-                    if self.waiting_parameter_changes.len()
-                        < self.waiting_parameter_changes.capacity()
-                    {
-                        self.waiting_parameter_changes.push_back((event, 0));
-                    }
+        let keys = &self.current_task_data.node_task_order;
+        let tasks = &mut self.current_task_data.tasks;
+        for _ in 0..self.scheduling_event_receiver.slots() {
+            let waiting_is_full =
+                self.waiting_parameter_changes.len() >= self.waiting_parameter_changes.capacity();
+            let event = if waiting_is_full {
+                // A change that isn't due has to stay in the channel until there is room for it. If
+                // that channel is filled up, the sender will know.
+                self.scheduling_event_receiver.peek().ok().cloned()
+            } else {
+                self.scheduling_event_receiver.pop().ok()
+            };
+            let Some(event) = event else {
+                break;
+            };
+            let unapplied = apply_parameter_change(
+                event,
+                ctx.block_size() as u64,
+                ctx.sample_rate() as u64,
+                ctx,
+                keys,
+                tasks,
+            );
+            match (unapplied, waiting_is_full) {
+                (Some(_), true) => break,
+                (Some(event), false) => self.waiting_parameter_changes.push_back((event, 0)),
+                (None, true) => {
+                    self.scheduling_event_receiver.pop().ok();
                 }
+                (None, false) => (),
             }
         }
         // TODO: Remove parameter changes that have expired for tasks
-- 
2.43.0


From 1b593f0814f02641990b20e527c3cc00e2924d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 19/54] fix: delays of sample accurate changes are in effect
 once

Without this, nodes without WrPreciseTiming would log a warning for every
change, even those without a delay.
---
 .../src/wrappers_core/precise_timing.rs         |  5 +++--
 knaster_graph/src/graph_gen.rs                  | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index fc8e8d8..9e72f01 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -125,10 +125,11 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
     }
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
-        if self.next_delay[index] == 0 {
+        // The delay is only in effect for this change
+        let delay = core::mem::take(&mut self.next_delay[index]);
+        if delay == 0 {
             self.ugen.param_apply(ctx, index, value);
         } else if self.next_delay_i < DELAYED_CHANGES_PER_BLOCK {
-            let delay = self.next_delay[index];
             // Keep the changes sorted in time. Changes to the same frame stay in the order they were made.
             let mut i = self.next_delay_i;
             while i > 0
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index c482a73..257c63f 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -302,12 +302,25 @@ fn apply_parameter_change<'a, F: Float>(
         for (key, task) in keys.iter().zip(tasks.iter_mut()) {
             if *key == node_key {
                 let g = &mut task.ugen;
-                // Set even when there is no delay, otherwise the delay of an earlier change would be used
-                g.set_delay_within_block_for_param(ctx, event.parameter, delay_in_block as u16);
                 if let Some(smoothing) = event.smoothing {
+                    if delay_in_block > 0 {
+                        g.set_delay_within_block_for_param(
+                            ctx,
+                            event.parameter,
+                            delay_in_block as u16,
+                        );
+                    }
                     g.param_apply(ctx, event.parameter, smoothing.into());
                 }
                 if let Some(value) = event.value {
+                    // A delay is only in effect for a single change
+                    if delay_in_block > 0 {
+                        g.set_delay_within_block_for_param(
+                            ctx,
+                            event.parameter,
+                            delay_in_block as u16,
+                        );
+                    }
                     g.param_apply(ctx, event.parameter, value);
                 }
                 return None;
-- 
2.43.0


From f72b1931bf926736a542df27f0b670f1ee094818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 20/54] fix: never free scheduling tokens on the audio thread

If the user dropped a token before the change it belonged to was applied,
the audio thread held the last reference to it and deallocated it.
---
 knaster_graph/src/graph.rs      |  8 +++++--
 knaster_graph/src/graph_gen.rs  |  3 +++
 knaster_graph/src/scheduling.rs | 41 ++++++++++++++++++++++++++++++++-
 3 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index a230a2a..7c356a2 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -13,7 +13,7 @@ use crate::core::{
 };
 
 use crate::{
-    SharedFrameClock, Time,
+    SchedulingChannelProducer, SharedFrameClock, Time,
     buffer_allocator::BufferAllocator,
     core::sync::atomic::AtomicU64,
     edge::{Edge, NodeKeyOrGraph, ParameterEdge},
@@ -233,7 +233,7 @@ impl<F: Float> Graph<F> {
 
         let graph_gen_communicator = GraphGenCommunicator {
             scheduling_event_producer: SchedulingChannelSender(Arc::new(Mutex::new(
-                scheduling_event_producer,
+                SchedulingChannelProducer::new(scheduling_event_producer),
             ))),
             task_data_to_be_dropped_consumer,
             new_task_data_producer,
@@ -318,6 +318,10 @@ impl<F: Float> Graph<F> {
                 current_task_data: task_data,
                 block_size: graph.block_size,
                 scheduling_event_receiver,
+                _scheduling_event_sender: graph
+                    .graph_gen_communicator
+                    .scheduling_event_producer
+                    .clone(),
                 task_data_to_be_dropped_producer,
                 new_task_data_consumer,
                 freed: false,
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 257c63f..c81ea20 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -20,6 +20,7 @@ use slotmap::SlotMap;
 use crate::{
     SchedulingChannelConsumer,
     graph::{NodeKey, OwnedRawBuffer},
+    handle::SchedulingChannelSender,
     node::Node,
     task::TaskData,
 };
@@ -58,6 +59,8 @@ pub struct GraphGen<F: Float, Inputs: Size, Outputs: Size> {
     pub(super) _arc_buffer_allocation_ptr: Arc<OwnedRawBuffer<F>>,
     /// Stores the number of completed samples, updated at the end of a block
     pub(super) scheduling_event_receiver: SchedulingChannelConsumer,
+    // Keeps the tokens of changes in the channel alive when all other senders are dropped
+    pub(super) _scheduling_event_sender: SchedulingChannelSender,
     pub(super) task_data_to_be_dropped_producer: rtrb::Producer<TaskData<F>>,
     pub(super) new_task_data_consumer: rtrb::Consumer<TaskData<F>>,
     pub(super) remove_me_flag: Arc<AtomicBool>,
diff --git a/knaster_graph/src/scheduling.rs b/knaster_graph/src/scheduling.rs
index f2c25cb..d1c6936 100644
--- a/knaster_graph/src/scheduling.rs
+++ b/knaster_graph/src/scheduling.rs
@@ -21,6 +21,9 @@ use crate::{
 };
 
 use knaster_core::log::ArLogSender;
+/// no_std_compat prelude import, supporting both std and no_std
+#[allow(unused)]
+use std::prelude::v1::*;
 #[allow(unused)]
 use knaster_core::{ParameterError, ParameterSmoothing, ParameterValue, Seconds, rt_log};
 
@@ -34,7 +37,43 @@ pub struct SchedulingEvent {
     pub(crate) token: Option<SchedulingToken>,
     pub(crate) time: Option<Time>,
 }
-pub(crate) type SchedulingChannelProducer = rtrb::Producer<SchedulingEvent>;
+/// The sending end of the channel for parameter changes to a GraphGen.
+#[derive(Debug)]
+pub(crate) struct SchedulingChannelProducer {
+    producer: rtrb::Producer<SchedulingEvent>,
+    // Tokens of the changes that were sent. They are kept until nobody else holds on to them, so that
+    // the audio thread never has to free them.
+    tokens: Vec<SchedulingToken>,
+}
+impl SchedulingChannelProducer {
+    pub fn new(producer: rtrb::Producer<SchedulingEvent>) -> Self {
+        Self {
+            producer,
+            tokens: Vec::new(),
+        }
+    }
+    #[allow(clippy::result_large_err)]
+    pub fn push(
+        &mut self,
+        event: SchedulingEvent,
+    ) -> Result<(), rtrb::PushError<SchedulingEvent>> {
+        if let Some(token) = &event.token {
+            self.tokens.retain(|t| Arc::strong_count(&t.token) > 1);
+            if !self
+                .tokens
+                .iter()
+                .any(|t| Arc::ptr_eq(&t.token, &token.token))
+            {
+                self.tokens.push(token.clone());
+            }
+        }
+        self.producer.push(event)
+    }
+    #[cfg_attr(not(feature = "std"), allow(unused))]
+    pub fn is_abandoned(&self) -> bool {
+        self.producer.is_abandoned()
+    }
+}
 // Every GraphGen has one of these for receiving parameter changes.
 pub(crate) type SchedulingChannelConsumer = rtrb::Consumer<SchedulingEvent>;
 
-- 
2.43.0


From 724681eadc314c371c63c30c38c5828cbe29adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 21/54] fix: parameter smoothing at audio rate and interrupted
 ramps

Audio rate smoothing never happened, a duration of zero gave NaN, ramps
changed their value or lost their target when they were interrupted.
---
 .../src/wrappers_core/smooth_params.rs        | 200 ++++++++----------
 1 file changed, 87 insertions(+), 113 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index ebf6d19..a90caf8 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -11,7 +11,6 @@ use knaster_core::{
 /// The value will be interpolated from the old to the new value.
 pub struct WrSmoothParams<T: UGen> {
     ugen: T,
-    parameters: NumericArray<Rate, T::Parameters>,
     smoothing: NumericArray<ParameterSmoothing, T::Parameters>,
     smoothing_state: NumericArray<ParameterSmoothingState, T::Parameters>,
 }
@@ -21,7 +20,6 @@ impl<T: UGen> WrSmoothParams<T> {
     pub fn new(ugen: T) -> Self {
         Self {
             ugen,
-            parameters: NumericArray::default(),
             smoothing: NumericArray::default(),
             // TODO: Initialise state to default parameter values
             smoothing_state: NumericArray::default(),
@@ -40,15 +38,23 @@ impl<T: UGen> WrSmoothParams<T> {
             ParameterSmoothing::None => match self.smoothing_state[index] {
                 ParameterSmoothingState::None { .. } => (),
                 ParameterSmoothingState::Linear {
-                    start_value,
-                    end_value,
-                    duration_frames,
-                    frames_elapsed,
-                    ..
+                    end_value, done, ..
                 } => {
-                    let current_mix = (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                    let current_value = (end_value - start_value) * current_mix + start_value;
-                    self.smoothing_state[index] = ParameterSmoothingState::None { current_value };
+                    self.smoothing_state[index] = if done {
+                        ParameterSmoothingState::None {
+                            current_value: end_value,
+                        }
+                    } else {
+                        // Go straight to the end of the interrupted ramp
+                        ParameterSmoothingState::Linear {
+                            start_value: end_value,
+                            end_value,
+                            duration_frames: 0,
+                            frames_elapsed: 0,
+                            rate: new_rate,
+                            done: false,
+                        }
+                    };
                 }
             },
             ParameterSmoothing::Linear(new_duration) => {
@@ -64,36 +70,17 @@ impl<T: UGen> WrSmoothParams<T> {
                             done: true,
                         }
                     }
-                    ParameterSmoothingState::Linear {
-                        start_value,
-                        end_value,
-                        duration_frames,
-                        frames_elapsed,
-                        done,
-                        rate: _,
+                    // If it is in the middle of a ramp, what remains of it takes the new duration
+                    state @ ParameterSmoothingState::Linear {
+                        end_value, done, ..
                     } => {
-                        if done {
-                            self.smoothing_state[index] = ParameterSmoothingState::Linear {
-                                start_value: end_value,
-                                end_value,
-                                duration_frames: new_duration_in_frames,
-                                frames_elapsed: 0,
-                                rate: new_rate,
-                                done: true,
-                            }
-                        } else {
-                            let current_mix =
-                                (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                            let current_value =
-                                (end_value - start_value) * current_mix + start_value;
-                            self.smoothing_state[index] = ParameterSmoothingState::Linear {
-                                start_value: current_value,
-                                end_value,
-                                duration_frames: new_duration_in_frames,
-                                frames_elapsed,
-                                rate: new_rate,
-                                done: true,
-                            }
+                        self.smoothing_state[index] = ParameterSmoothingState::Linear {
+                            start_value: state.current_value(),
+                            end_value,
+                            duration_frames: new_duration_in_frames,
+                            frames_elapsed: 0,
+                            rate: new_rate,
+                            done,
                         }
                     }
                 }
@@ -137,54 +124,32 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        let mut there_is_an_ar_parameter = false;
         let org_block = ctx.block;
-        // TODO: set the Rate  of a parameter
-        for p in &self.parameters {
-            there_is_an_ar_parameter = there_is_an_ar_parameter || matches!(*p, Rate::AudioRate);
-        }
-        if there_is_an_ar_parameter {
-            //  run sample by sample for as long as needed
-            let mut i = 0;
-            while i < ctx.frames_to_process() {
-                let mut there_is_a_new_smoothing_value = false;
-
-                for p in &self.smoothing_state {
-                    there_is_a_new_smoothing_value =
-                        there_is_a_new_smoothing_value || p.has_new_ar_value();
-                }
-                if there_is_a_new_smoothing_value {
-                    for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                        if let Some(new_value) = state.next_value(ctx.block_size(), i) {
-                            self.ugen
-                                .param_apply(ctx, j, ParameterValue::Float(new_value))
-                        }
-                    }
-                    let input = PartialBlock::from_block(input, i, 1);
-                    let mut output = output.partial_mut(i, 1);
-                    let partial_ctx = org_block.make_partial(i, 1);
-                    ctx.block = partial_ctx;
-                    self.ugen.process_block(ctx, flags, &input, &mut output);
-                    i += 1;
-                } else {
-                    // Process the full block
-                    let input = PartialBlock::from_block(input, i, input.block_size() - i);
-                    let mut output = output.partial_mut(i, output.block_size() - i);
-                    let partial_ctx = org_block.make_partial(i, ctx.block_size() - i);
-                    ctx.block = partial_ctx;
-                    self.ugen.process_block(ctx, flags, &input, &mut output);
-                    break;
-                }
-            }
-        } else {
-            // We only have potentially block rate parameters, run the whole block
+        let frames = ctx.frames_to_process();
+        let mut i = 0;
+        while i < frames {
+            // Run sample by sample for as long as there are new values every sample
+            let length = if self.smoothing_state.iter().any(|s| s.has_new_ar_value()) {
+                1
+            } else {
+                frames - i
+            };
             for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                if let Some(new_value) = state.next_value(ctx.block_size(), 0) {
+                if let Some(new_value) = state.next_value(frames, i) {
                     self.ugen
                         .param_apply(ctx, j, ParameterValue::Float(new_value))
                 }
             }
-            self.ugen.process_block(ctx, flags, input, output);
+            if length == frames {
+                self.ugen.process_block(ctx, flags, input, output);
+            } else {
+                let input = PartialBlock::from_block(input, i, length);
+                let mut output = output.partial_mut(i, length);
+                ctx.block = org_block.make_partial(i, length);
+                self.ugen.process_block(ctx, flags, &input, &mut output);
+                ctx.block = org_block;
+            }
+            i += length;
         }
     }
     type Parameters = T::Parameters;
@@ -207,33 +172,23 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 self.ugen.param_apply(ctx, index, value)
             }
             ParameterValue::Float(float_value) => {
-                // With an audio rate parameter, ignore other incoming parameter changes
-                if !matches!(self.parameters[index], Rate::AudioRate) {
-                    match &mut self.smoothing_state[index] {
-                        ParameterSmoothingState::None { .. } => {
-                            self.ugen.param_apply(ctx, index, value)
-                        }
-                        ParameterSmoothingState::Linear {
-                            start_value,
-                            end_value,
-                            duration_frames,
-                            frames_elapsed,
-                            done,
-                            ..
-                        } => {
-                            if *done {
-                                *start_value = *end_value;
-                            } else {
-                                let current_mix =
-                                    (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                                let current_value =
-                                    (*end_value - *start_value) * current_mix + *start_value;
-                                *start_value = current_value;
-                            }
-                            *end_value = float_value;
-                            *done = false;
-                            *frames_elapsed = 0;
-                        }
+                let current_value = self.smoothing_state[index].current_value();
+                match &mut self.smoothing_state[index] {
+                    ParameterSmoothingState::None { current_value } => {
+                        *current_value = float_value;
+                        self.ugen.param_apply(ctx, index, value)
+                    }
+                    ParameterSmoothingState::Linear {
+                        start_value,
+                        end_value,
+                        frames_elapsed,
+                        done,
+                        ..
+                    } => {
+                        *start_value = current_value;
+                        *end_value = float_value;
+                        *done = false;
+                        *frames_elapsed = 0;
                     }
                 }
             }
@@ -273,16 +228,37 @@ enum ParameterSmoothingState {
     },
 }
 impl ParameterSmoothingState {
+    /// The value that was reached
+    fn current_value(&self) -> PFloat {
+        match *self {
+            ParameterSmoothingState::None { current_value } => current_value,
+            ParameterSmoothingState::Linear {
+                start_value,
+                end_value,
+                duration_frames,
+                frames_elapsed,
+                done,
+                ..
+            } => {
+                if done || frames_elapsed >= duration_frames {
+                    end_value
+                } else {
+                    let current_mix = frames_elapsed as PFloat / duration_frames as PFloat;
+                    (end_value - start_value) * current_mix + start_value
+                }
+            }
+        }
+    }
     pub fn next_value(&mut self, block_size: usize, frame_in_block: usize) -> Option<PFloat> {
+        let current_value = self.current_value();
         match self {
             ParameterSmoothingState::None { .. } => None,
             ParameterSmoothingState::Linear {
-                start_value,
-                end_value,
                 duration_frames,
                 frames_elapsed,
                 rate,
                 done,
+                ..
             } => {
                 if matches!(rate, Rate::BlockRate) && frame_in_block != 0 {
                     // Only provide a new value at the start of a block in BlockRate
@@ -291,9 +267,7 @@ impl ParameterSmoothingState {
                 if *done {
                     None
                 } else {
-                    let current_mix = (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                    let current_value = (*end_value - *start_value) * current_mix + *start_value;
-                    if *frames_elapsed == *duration_frames {
+                    if *frames_elapsed >= *duration_frames {
                         *done = true;
                     } else {
                         match rate {
-- 
2.43.0


From 6529f819bfa3ef545a98a4f79dd067380c49a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 22/54] fix: frame in which unit generators are done

In partial blocks and when processing frame by frame, the frame was counted
from the start of the partial block or always 0.
---
 knaster_core/src/ugen.rs                      |  5 ++++-
 knaster_core_dsp/src/ugens/buffer.rs          |  6 +++---
 knaster_core_dsp/src/ugens/envelopes.rs       | 20 +++++++++----------
 knaster_core_dsp/src/ugens/util.rs            |  9 +++++++--
 .../src/wrappers_core/audio_rate.rs           |  5 ++++-
 5 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 1adfed3..06319ec 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -273,17 +273,20 @@ pub trait UGen {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        for frame in 0..ctx.block.frames_to_process {
+        let org_block = ctx.block;
+        for frame in 0..org_block.frames_to_process {
             // This is potentially a tiny bit inefficient because it initialises the memory before overwriting it.
             let mut in_frame = Frame::default();
             for i in 0..Self::Inputs::USIZE {
                 in_frame[i] = input.read(i, frame);
             }
+            ctx.block = org_block.make_partial(frame, 1);
             let out_frame = self.process(ctx, flags, in_frame);
             for i in 0..Self::Outputs::USIZE {
                 output.write(out_frame[i], i, frame);
             }
         }
+        ctx.block = org_block;
     }
 
     /// Specifies which [`ParameterType`] each parameter is. If the types given to [`Gen::param_apply`] match
diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 8210ade..6cf34d3 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -121,7 +121,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
 
     fn process(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         flags: &mut UGenFlags,
         _input: knaster_core::Frame<Self::Sample, Self::Inputs>,
     ) -> knaster_core::Frame<Self::Sample, Self::Outputs> {
@@ -140,7 +140,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             if self.looping {
                 self.reset();
             } else {
-                flags.mark_done(0);
+                flags.mark_done((ctx.block_start_offset() + 1) as u32);
             }
         }
         output
@@ -169,7 +169,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
                     if self.looping {
                         self.reset();
                     } else {
-                        flags.mark_done((i + 1) as u32);
+                        flags.mark_done((ctx.block_start_offset() + i + 1) as u32);
                     }
                 }
                 if self.finished {
diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 170501e..2ddd182 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -150,14 +150,14 @@ impl<F: Float> EnvAsr<F> {
         }
     }
 
-    fn process(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
-        let out = self.next_sample(flags, 0);
+    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
+        let out = self.next_sample(flags, ctx.block_start_offset() as u32);
         [out]
     }
 
-    fn process_block(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags, output: [&mut [F]; 1]) {
+    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, output: [&mut [F]; 1]) {
         for (i, out) in output[0].iter_mut().enumerate() {
-            *out = self.next_sample(flags, i as u32);
+            *out = self.next_sample(flags, (ctx.block_start_offset() + i) as u32);
         }
     }
 }
@@ -282,13 +282,13 @@ impl<F: Float> EnvAr<F> {
             }
         }
     }
-    fn process(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
-        let out = self.next_sample(flags, 0);
+    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 1] {
+        let out = self.next_sample(flags, ctx.block_start_offset() as u32);
         [out]
     }
     fn process_block<InBlock, OutBlock>(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         flags: &mut UGenFlags,
         _input: &InBlock,
         output: &mut OutBlock,
@@ -297,7 +297,7 @@ impl<F: Float> EnvAr<F> {
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
         for (i, out) in output.channel_as_slice_mut(0).iter_mut().enumerate() {
-            *out = self.next_sample(flags, i as u32);
+            *out = self.next_sample(flags, (ctx.block_start_offset() + i) as u32);
         }
     }
 }
@@ -406,7 +406,7 @@ mod alloc_envelopes {
 
         fn process(
             &mut self,
-            _ctx: &mut AudioCtx,
+            ctx: &mut AudioCtx,
             flags: &mut UGenFlags,
             _input: Frame<Self::Sample, Self::Inputs>,
         ) -> Frame<Self::Sample, Self::Outputs> {
@@ -454,7 +454,7 @@ mod alloc_envelopes {
                             };
                         } else {
                             self.state = EnvelopeState::Stopped;
-                            flags.mark_done(0);
+                            flags.mark_done(ctx.block_start_offset() as u32);
                         }
                     }
                 }
diff --git a/knaster_core_dsp/src/ugens/util.rs b/knaster_core_dsp/src/ugens/util.rs
index 8b08cec..01c39af 100644
--- a/knaster_core_dsp/src/ugens/util.rs
+++ b/knaster_core_dsp/src/ugens/util.rs
@@ -25,9 +25,14 @@ impl<F: Float> DoneOnTrig<F> {
         self.triggered = true;
     }
     #[allow(missing_docs)]
-    pub fn process(&mut self, flags: &mut UGenFlags, _input: [F; 0]) -> [F; 0] {
+    pub fn process(
+        &mut self,
+        ctx: &mut AudioCtx,
+        flags: &mut UGenFlags,
+        _input: [F; 0],
+    ) -> [F; 0] {
         if self.triggered {
-            flags.mark_done(0);
+            flags.mark_done(ctx.block_start_offset() as u32);
         }
         []
     }
diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 19294df..e3fd580 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -147,17 +147,20 @@ where
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        for frame in 0..ctx.frames_to_process() {
+        let org_block = ctx.block;
+        for frame in 0..org_block.frames_to_process() {
             // This is potentially a tiny bit inefficient because it initialises the memory before overwriting it.
             let mut in_frame = Frame::default();
             for i in 0..Self::Inputs::USIZE {
                 in_frame[i] = input.read(i, frame);
             }
+            ctx.block = org_block.make_partial(frame, 1);
             let out_frame = self.process(ctx, flags, in_frame);
             for i in 0..Self::Outputs::USIZE {
                 output.write(out_frame[i], i, frame);
             }
         }
+        ctx.block = org_block;
     }
     type Parameters = T::Parameters;
 
-- 
2.43.0


From 6de3f32edf89909c1975fe11a0df15455d4f51a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 23/54] fix: buffer playback in partial blocks

Partial blocks were written as if they were full blocks.
---
 knaster_core_dsp/src/ugens/buffer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 6cf34d3..e852628 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -6,7 +6,7 @@ use crate::core::{marker::PhantomData, sync::Arc};
 
 use knaster_core::{
     AudioCtx, Float, PFloat, Seconds, Size, UGenFlags, impl_ugen, numeric_array::NumericArray,
-    rt_log, typenum::U0,
+    typenum::U0,
 };
 
 use crate::dsp::buffer::Buffer;
@@ -158,7 +158,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     {
         let mut stop_sample = None;
         if !self.finished {
-            for i in 0..ctx.block_size() {
+            for i in 0..ctx.frames_to_process() {
                 for chan in 0..Channels::USIZE {
                     let sample = self.buffer.get_linear_interp_f64(self.read_pointer, chan);
                     output.write(sample, chan, i);
@@ -179,7 +179,6 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             }
         } else {
             // Output zeroes if we're finished
-            rt_log!(ctx.logger(); "Error: BufferReader: buffer doesn't exist in Resources");
             stop_sample = Some(0);
         }
         if let Some(stop_sample) = stop_sample {
-- 
2.43.0


From 0297e7813862f9788ed15180c0a308e6a435f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 24/54] fix: errors instead of panics when loading sound files,
 bounds of buffers

Missing, damaged and unsupported files panicked, and reading beyond the end
of a buffer was undefined behaviour.
---
 knaster_core_dsp/src/dsp/buffer.rs | 119 ++++++++++++++---------------
 1 file changed, 57 insertions(+), 62 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index a62615e..c4cd019 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -45,10 +45,10 @@ pub struct Buffer<F: Copy> {
 }
 
 impl<F: Float> Buffer<F> {
-    /// Create an empty buffer with the specified options
+    /// Create an empty buffer with the specified options. `size` is the number of frames.
     pub fn new(size: usize, num_channels: usize, sample_rate: f64) -> Self {
         Buffer {
-            buffer: vec![F::ZERO; size],
+            buffer: vec![F::ZERO; size * num_channels],
             num_channels,
             num_frames: size as f64,
             sample_rate,
@@ -81,32 +81,29 @@ impl<F: Float> Buffer<F> {
     pub fn buf_rate_scale(&self, server_sample_rate: u32) -> f64 {
         self.sample_rate / f64::from(server_sample_rate)
     }
-    /// Linearly interpolate between the value in between to samples
+    /// Linearly interpolate between the value in between to samples. The value is 0 outside of the
+    /// buffer.
     #[inline]
     pub fn get_linear_interp(&self, index: F, channel: usize) -> F {
         let mix = index.fract();
-        let index_u = index.to_usize().unwrap() * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
-        }
+        self.interpolate(index.to_usize().unwrap_or(usize::MAX), mix, channel)
     }
     /// Linearly interpolate between the value in between to samples using an f64 as an index. f64
-    /// indexing is necessary for long buffers.
+    /// indexing is necessary for long buffers. The value is 0 outside of the buffer.
     #[inline]
     pub fn get_linear_interp_f64(&self, index: f64, channel: usize) -> F {
-        let mix = F::new(index.fract());
-        let index_u = index as usize * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
+        self.interpolate(index as usize, F::new(index.fract()), channel)
+    }
+    #[inline]
+    fn interpolate(&self, frame: usize, mix: F, channel: usize) -> F {
+        // There may be samples of an incomplete frame at the end
+        let num_samples = self.buffer.len() / self.num_channels.max(1) * self.num_channels;
+        if channel >= self.num_channels || frame >= num_samples / self.num_channels {
+            return F::ZERO;
         }
+        let index = frame * self.num_channels + channel;
+        let next_index = (index + self.num_channels) % num_samples;
+        self.buffer[index] * (F::ONE - mix) + self.buffer[next_index] * mix
     }
     /// Get the samples for all channels at the index.
     #[inline]
@@ -154,7 +151,7 @@ impl<F: Float> Buffer<F> {
     pub fn from_sound_file(path: impl Into<PathBuf>) -> Result<Self, BufferError> {
         let path = path.into();
         let mut buffer = Vec::new();
-        let inp_file = std::fs::File::open(&path).expect("Buffer: failed to open file!");
+        let inp_file = std::fs::File::open(&path).map_err(SymphoniaError::IoError)?;
         // hint to the format registry of the decoder what file format it might be
         let mut hint = Hint::new();
         // Provide the file extension as a hint.
@@ -167,7 +164,10 @@ impl<F: Float> Buffer<F> {
         // Use the default options for metadata and format readers.
         let format_opts: FormatOptions = Default::default();
         let metadata_opts: MetadataOptions = Default::default();
+        let not_supported =
+            || BufferError::FileFormatNotSupported(path.to_string_lossy().to_string());
         let mut sample_buf = None;
+        let mut sample_rate_and_channels = None;
 
         // Probe the media source stream for metadata and get the format reader.
         let codec_params = match symphonia::default::get_probe().format(
@@ -183,7 +183,7 @@ impl<F: Float> Buffer<F> {
                     .tracks()
                     .iter()
                     .find(|t| t.codec_params.codec != CODEC_TYPE_NULL)
-                    .expect("no supported audio tracks");
+                    .ok_or_else(not_supported)?;
                 // Set the decoder options.
                 let decode_options = DecoderOptions {
                     ..Default::default()
@@ -191,8 +191,7 @@ impl<F: Float> Buffer<F> {
 
                 // Create a decoder for the stream.
                 let mut decoder = symphonia::default::get_codecs()
-                    .make(&track.codec_params, &decode_options)
-                    .expect("unsupported codec");
+                    .make(&track.codec_params, &decode_options)?;
                 let codec_params = track.codec_params.clone();
                 // Store the track identifier, it will be used to filter packets.
                 let track_id = track.id;
@@ -202,24 +201,15 @@ impl<F: Float> Buffer<F> {
                     // Get the next packet from the media format.
                     let packet = match reader.next_packet() {
                         Ok(packet) => packet,
-                        Err(SymphoniaError::ResetRequired) => {
-                            // The track list has been changed. Re-examine it and create a new set of decoders,
-                            // then restart the decode loop. This is an advanced feature and it is not
-                            // unreasonable to consider this "the end." As of v0.5.0, the only usage of this is
-                            // for chained OGG physical streams.
-                            unimplemented!();
+                        // The end of the file
+                        Err(SymphoniaError::IoError(e))
+                            if e.kind() == std::io::ErrorKind::UnexpectedEof =>
+                        {
+                            break;
                         }
-                        Err(err) => match err {
-                            SymphoniaError::IoError(_e) => {
-                                // println!("{e}");
-                                break;
-                            }
-                            SymphoniaError::DecodeError(_) => todo!(),
-                            SymphoniaError::SeekError(_) => todo!(),
-                            SymphoniaError::Unsupported(_) => todo!(),
-                            SymphoniaError::LimitError(_) => todo!(),
-                            SymphoniaError::ResetRequired => todo!(),
-                        },
+                        // In the case of `ResetRequired` the track list has been changed. As of v0.5.0, the
+                        // only usage of this is for chained OGG physical streams, which are not supported.
+                        Err(err) => return Err(err.into()),
                     };
 
                     // Consume any new metadata that has been read since the last packet.
@@ -241,9 +231,21 @@ impl<F: Float> Buffer<F> {
                             // Consume the decoded audio samples
                             // If this is the *first* decoded packet, create a sample buffer matching the
                             // decoded audio buffer format.
-                            if sample_buf.is_none() {
-                                // Get the audio buffer specification.
-                                let spec = *audio_buf.spec();
+                            // Get the audio buffer specification.
+                            let spec = *audio_buf.spec();
+                            let new_rate_and_channels = (spec.rate, spec.channels.count());
+                            if *sample_rate_and_channels.get_or_insert(new_rate_and_channels)
+                                != new_rate_and_channels
+                            {
+                                // All samples in a buffer have the same format
+                                return Err(not_supported());
+                            }
+                            if sample_buf
+                                .as_ref()
+                                .is_none_or(|b: &SampleBuffer<f32>| {
+                                    b.capacity() < audio_buf.frames() * spec.channels.count()
+                                })
+                            {
 
                                 // Get the capacity of the decoded buffer. Note: This is capacity, not length!
                                 let duration = audio_buf.capacity() as u64;
@@ -280,28 +282,21 @@ impl<F: Float> Buffer<F> {
             }
             Err(_err) => {
                 // The input was not supported by any format reader.
-                return Err(BufferError::FileFormatNotSupported(
-                    path.to_str().unwrap().to_string(),
-                ));
+                return Err(not_supported());
             }
         };
 
-        let (sampling_rate, num_channels) = {
-            let cp = codec_params;
-            // println!(
-            //     "channels: {}, rate: {}, num samples: {}",
-            //     cp.channels.unwrap(),
-            //     cp.sample_rate.unwrap(),
-            //     buffer.len()
-            // );
-            // The channels are stored as a bit field
-            // https://docs.rs/symphonia-core/0.5.1/src/symphonia_core/audio.rs.html#29-90
-            // The number of bits set to 1 is the number of channels in the buffer.
-            (
-                cp.sample_rate.unwrap() as f64,
-                cp.channels.unwrap().bits().count_ones() as usize,
-            )
+        let (sampling_rate, num_channels) = match sample_rate_and_channels {
+            Some((rate, channels)) => (rate as f64, channels),
+            // There is no audio in the file
+            None => (
+                codec_params.sample_rate.ok_or_else(not_supported)? as f64,
+                codec_params.channels.ok_or_else(not_supported)?.count(),
+            ),
         };
+        if num_channels == 0 {
+            return Err(not_supported());
+        }
         let buffer = buffer.into_iter().map(|v| F::from(v).unwrap()).collect();
         // TODO: Return Err if there's no audio data
         Ok(Self::from_vec_interleaved(
-- 
2.43.0


From 8a282c6b63dc99eed50a711a31eaf002fd06b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 25/54] fix: delay times beyond the bounds of delays

---
 knaster_core_dsp/src/ugens/delay.rs | 45 +++++++++++++++++------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index f6a4c7a..c0d0589 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -29,21 +29,23 @@ impl<F: Float> SampleDelay<F> {
             delay_samples: 0,
         }
     }
-    /// Set delay time in seconds
+    /// Set delay time in seconds. Delay times above the maximum are set to the maximum.
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
         self.delay_samples = (seconds * ctx.sample_rate() as PFloat) as usize;
     }
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 1] {
         self.buffer[self.write_position] = input[0];
+        let delay_samples = self.delay_samples.min(self.buffer.len() - 1);
         let out = self.buffer
-            [(self.write_position + self.buffer.len() - self.delay_samples) % self.buffer.len()];
+            [(self.write_position + self.buffer.len() - delay_samples) % self.buffer.len()];
         self.write_position = (self.write_position + 1) % self.buffer.len();
         [out]
     }
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
+        // The current sample is in the buffer as well
         self.buffer =
-            vec![F::ZERO; (self.max_delay_length.to_secs_f64() * sample_rate as f64) as usize];
+            vec![F::ZERO; (self.max_delay_length.to_secs_f64() * sample_rate as f64) as usize + 1];
         self.write_position = 0;
     }
 }
@@ -155,9 +157,12 @@ impl<F: Float> AllpassDelay<F> {
             v
         }
     }
-    /// Set delay time in frames (f32 or f64)
+    /// Set delay time in frames (f32 or f64). Does nothing if the delay doesn't fit in the buffer.
     #[inline]
     pub fn set_delay_in_frames(&mut self, num_frames: F) {
+        if num_frames.to_usize().is_none_or(|n| n >= self.buffer.len()) || num_frames < F::ZERO {
+            return;
+        }
         let num_frames_float = num_frames.floor();
         self.num_frames = num_frames_float.to_usize().unwrap();
         let mut delta = num_frames - num_frames_float;
@@ -329,28 +334,29 @@ impl<F: Float> StaticSampleDelay<F> {
     /// Set a new delay length for the delay. Real time safe. If the given length is longer than the max delay length it will be set to the max delay length.
     #[inline]
     pub fn set_delay_length(&mut self, delay_length_in_samples: usize) {
-        self.delay_length = delay_length_in_samples.min(self.buffer.len());
+        self.delay_length = delay_length_in_samples.clamp(1, self.buffer.len());
+        self.position %= self.delay_length;
     }
     /// Set a new delay length for the delay as a fraction of the entire delay length. Real time safe.
     pub fn set_delay_length_fraction(&mut self, fraction: F) {
-        self.delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
-            * fraction)
-            .to_usize()
-            .unwrap();
+        let delay_length = F::from(self.buffer.len()).expect("delay length should fit in Float")
+            * fraction;
+        self.set_delay_length(delay_length.to_usize().unwrap_or(0));
     }
 
     /// Read a whole block at a time. Only use this if the delay time is longer than 1 block.
     #[inline]
     pub fn read_block(&mut self, output: &mut [F]) {
         let block_size = output.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let read_end = self.position + block_size;
-        if read_end <= self.buffer.len() {
+        if read_end <= self.delay_length {
             output.copy_from_slice(&self.buffer[self.position..read_end]);
         } else {
             // block wraps around
-            let read_end = read_end % self.delay_length;
-            output[0..(block_size - read_end)].copy_from_slice(&self.buffer[self.position..]);
+            let read_end = read_end - self.delay_length;
+            output[0..(block_size - read_end)]
+                .copy_from_slice(&self.buffer[self.position..self.delay_length]);
             output[(block_size - read_end)..].copy_from_slice(&self.buffer[0..read_end]);
         }
     }
@@ -358,17 +364,18 @@ impl<F: Float> StaticSampleDelay<F> {
     #[inline]
     pub fn write_block_and_advance(&mut self, input: &[F]) {
         let block_size = input.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let write_end = self.position + block_size;
-        if write_end <= self.buffer.len() {
+        if write_end <= self.delay_length {
             self.buffer[self.position..write_end].copy_from_slice(input);
         } else {
             // block wraps around
-            let write_end = write_end % self.delay_length;
-            self.buffer[self.position..].copy_from_slice(&input[0..block_size - write_end]);
+            let write_end = write_end - self.delay_length;
+            self.buffer[self.position..self.delay_length]
+                .copy_from_slice(&input[0..block_size - write_end]);
             self.buffer[0..write_end].copy_from_slice(&input[block_size - write_end..]);
         }
-        self.position = (self.position + block_size) % self.buffer.len();
+        self.position = (self.position + block_size) % self.delay_length;
     }
     /// Read a sample from the buffer. Does not advance the frame pointer. Read first, then write.
     #[inline]
@@ -403,7 +410,7 @@ impl<F: Float> StaticSampleDelay<F> {
     /// Process one block of the delay. Will choose block based processing at runtime if the delay time is larger than the block size.
     #[inline]
     pub fn process(&mut self, input: &[F], output: &mut [F], block_size: usize) {
-        if self.buffer.len() > block_size {
+        if self.delay_length >= block_size {
             self.read_block(output);
             self.write_block_and_advance(input);
         } else {
-- 
2.43.0


From f6be327e971148fface4f9753c6c6cc7200163ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 26/54] fix: log message chains cut off by a full channel are
 not joined

---
 knaster_core/src/log.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/knaster_core/src/log.rs b/knaster_core/src/log.rs
index 0de445c..4609565 100644
--- a/knaster_core/src/log.rs
+++ b/knaster_core/src/log.rs
@@ -256,10 +256,15 @@ impl ArLogSender {
     }
     /// Send a single log message. It is recommended to use the `rt_log` macro instead, since it
     /// is more convenient and automatically adds the `End` message to the end of a chain.
+    ///
+    /// Messages which don't fit in the channel are dropped. The last free slot is kept for the
+    /// `End` message so that a chain which was cut off is never joined with the next one.
     pub fn send(&mut self, message: ArLogMessage) {
         match self {
             ArLogSender::RingBuffer(sender) => {
-                sender.push(message).ok();
+                if message.is_end() || sender.slots() > 1 {
+                    sender.push(message).ok();
+                }
             }
             ArLogSender::Log => log::warn!("{}", message),
         }
-- 
2.43.0


From abe2f101131e87ada843332b855fa8b716f47a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 27/54] fix: operand order of constants on the left side of
 arithmetics

---
 knaster_graph/src/graph_edit.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index dc6bf5c..20d5182 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -1051,6 +1051,7 @@ macro_rules! math_gen_fn_static_constant {
         fn $fn_name<F: Float, S0: Static, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
+            constant_first: bool,
             graph: &GraphRef<F>,
         ) -> ChannelsHandle<S0::Outputs> {
             let mut out_channels = ChannelIterBuilder::new();
@@ -1058,12 +1059,13 @@ macro_rules! math_gen_fn_static_constant {
             // TODO: Make a separate UGen for constant number maths to avoid this extra node
             let c: F = s1.into().into_f();
             let c = g.push_internal(Constant::new(c));
+            let (s0_input, c_input) = if constant_first { (1, 0) } else { (0, 1) };
             for s0 in Static::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(s0.0, s0.1, s0_input, NodeOrGraph::Node(mul.node_id())) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(c.node_id(), 0, c_input, NodeOrGraph::Node(mul.node_id())) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push(NodeOrGraph::Node(mul.node_id()), 0);
@@ -1125,18 +1127,20 @@ macro_rules! math_gen_fn_dynamic_constant {
         fn $fn_name<F: Float, S0: Dynamic, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
+            constant_first: bool,
             graph: &GraphRef<F>,
         ) -> DynamicChannelsHandle {
             let mut out_channels = SmallVec::with_capacity(s0.outputs() as usize);
             let mut g = graph.write();
             let c: F = s1.into().into_f();
             let c = g.push_internal(Constant::new(c));
+            let (s0_input, c_input) = if constant_first { (1, 0) } else { (0, 1) };
             for s0 in Dynamic::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(s0.0, s0.1, s0_input, NodeOrGraph::Node(mul.node_id())) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(c.node_id(), 0, c_input, NodeOrGraph::Node(mul.node_id())) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push((NodeOrGraph::Node(mul.node_id()), 0));
@@ -1188,7 +1192,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: $ty) -> Self::Output {
                 let graph = self.graph;
                 SH {
-                    nodes: $fn_name(self.nodes, rhs, graph),
+                    nodes: $fn_name(self.nodes, rhs, false, graph),
                     graph: &self.graph,
                 }
             }
@@ -1199,7 +1203,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: SH<'a, 'b, F, S0>) -> Self::Output {
                 let graph = rhs.graph;
                 SH {
-                    nodes: $fn_name(rhs.nodes, self, graph),
+                    nodes: $fn_name(rhs.nodes, self, true, graph),
                     graph: &rhs.graph,
                 }
             }
@@ -1395,7 +1399,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: $ty) -> Self::Output {
                 let graph = self.graph;
-                let handle = $fn_name(self.nodes, rhs, graph);
+                let handle = $fn_name(self.nodes, rhs, false, graph);
                 DH {
                     nodes: handle,
                     graph,
@@ -1407,7 +1411,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: DH<'a, 'b, F, S>) -> Self::Output {
                 let graph = rhs.graph;
-                let handle = $fn_name(rhs.nodes, self, graph);
+                let handle = $fn_name(rhs.nodes, self, true, graph);
                 DH {
                     nodes: handle,
                     graph,
-- 
2.43.0


From 42af00b5144e0cc48f57ad643b7ab51a47c6e80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 28/54] Let simulations choose randomness seeds (only with
 --cfg knaster_sim)

---
 knaster_core_dsp/src/ugens/noise.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knaster_core_dsp/src/ugens/noise.rs b/knaster_core_dsp/src/ugens/noise.rs
index 0cf852d..888aa06 100644
--- a/knaster_core_dsp/src/ugens/noise.rs
+++ b/knaster_core_dsp/src/ugens/noise.rs
@@ -21,6 +21,13 @@ pub fn next_randomness_seed() -> u64 {
     NEXT_SEED.fetch_add(1, crate::core::sync::atomic::Ordering::SeqCst)
 }
 
+/// Choose the next seed, so that simulations can be repeated. Only exists with `--cfg knaster_sim`.
+#[allow(unexpected_cfgs)]
+#[cfg(knaster_sim)]
+pub fn set_next_randomness_seed(seed: u64) {
+    NEXT_SEED.store(seed, crate::core::sync::atomic::Ordering::SeqCst)
+}
+
 /// White noise (fastrand RNG, based on wyrand)
 #[derive(Clone, Debug)]
 pub struct WhiteNoise<F: Copy = f32> {
-- 
2.43.0


From a8c21bcd38b00c823648dabc2f011af8fac3e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 29/54] fix: dither of loud signals in Galactic overflows

---
 knaster_airwindows/src/galactic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_airwindows/src/galactic.rs b/knaster_airwindows/src/galactic.rs
index fba545c..dc44287 100644
--- a/knaster_airwindows/src/galactic.rs
+++ b/knaster_airwindows/src/galactic.rs
@@ -366,7 +366,7 @@ impl<F: Float> Galactic<F> {
             input_sample_l += F::new(
                 ((fpd_l as f64) - (0x7fffffff_u32) as f64)
                     * 5.5e-36
-                    * (2_u64.pow(exp_l + 62) as f64),
+                    * 2f64.powi(exp_l as i32 + 62),
             );
             self.fpd_l = fpd_l;
 
@@ -378,7 +378,7 @@ impl<F: Float> Galactic<F> {
             input_sample_r += F::new(
                 ((fpd_r as f64) - (0x7fffffff_u32) as f64)
                     * 5.5e-36
-                    * (2_u64.pow(exp_r + 62) as f64),
+                    * 2f64.powi(exp_r as i32 + 62),
             );
             self.fpd_r = fpd_r;
 
-- 
2.43.0


From a81715b1f24e13ba26d8245e903bd6c80957de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 30/54] Let simulations make reading sound files fail (only
 with --cfg knaster_sim)

---
 knaster_core_dsp/src/dsp/buffer.rs | 45 ++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index c4cd019..50401fe 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -33,6 +33,49 @@ pub enum BufferError {
     SymphoniaError(#[from] SymphoniaError),
 }
 
+/// What sound files are read through in a simulation. Only exists with `--cfg knaster_sim`.
+#[doc(hidden)]
+#[cfg(all(knaster_sim, feature = "symphonia", feature = "std"))]
+pub struct SimSource(pub std::boxed::Box<dyn symphonia::core::io::MediaSource>);
+#[cfg(all(knaster_sim, feature = "symphonia", feature = "std"))]
+mod sim_source {
+    use super::SimSource;
+    use std::io::{Read, Result, Seek, SeekFrom};
+    pub(super) static OPEN: std::sync::OnceLock<fn(std::fs::File) -> SimSource> =
+        std::sync::OnceLock::new();
+    pub(super) fn open(file: std::fs::File) -> SimSource {
+        match OPEN.get() {
+            Some(open) => open(file),
+            None => SimSource(std::boxed::Box::new(file)),
+        }
+    }
+    impl Read for SimSource {
+        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
+            self.0.read(buf)
+        }
+    }
+    impl Seek for SimSource {
+        fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
+            self.0.seek(pos)
+        }
+    }
+    impl symphonia::core::io::MediaSource for SimSource {
+        fn is_seekable(&self) -> bool {
+            self.0.is_seekable()
+        }
+        fn byte_len(&self) -> Option<u64> {
+            self.0.byte_len()
+        }
+    }
+}
+/// Choose what sound files are read through, so that simulations can make reading fail. Only exists
+/// with `--cfg knaster_sim`.
+#[doc(hidden)]
+#[cfg(all(knaster_sim, feature = "symphonia", feature = "std"))]
+pub fn sim_set_sound_file_source(open: fn(std::fs::File) -> SimSource) {
+    let _ = sim_source::OPEN.set(open);
+}
+
 /// A buffer containing sound or data. Channels are stored interleaved in a 1-dimensional list.
 #[derive(Clone, Debug)]
 pub struct Buffer<F: Copy> {
@@ -152,6 +195,8 @@ impl<F: Float> Buffer<F> {
         let path = path.into();
         let mut buffer = Vec::new();
         let inp_file = std::fs::File::open(&path).map_err(SymphoniaError::IoError)?;
+        #[cfg(knaster_sim)]
+        let inp_file = sim_source::open(inp_file);
         // hint to the format registry of the decoder what file format it might be
         let mut hint = Hint::new();
         // Provide the file extension as a hint.
-- 
2.43.0


From d644ae1f0ffc1e5cc580ffe109159e3578f03a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 31/54] fix: errors at the end of saving a buffer are ignored

---
 knaster_core_dsp/src/dsp/buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index 50401fe..430e4c4 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -367,6 +367,7 @@ impl<F: Float> Buffer<F> {
             let amplitude = F::from(i16::MAX).unwrap();
             writer.write_sample((*sample * amplitude).to_f32() as i16)?;
         }
-        Ok(())
+        // Dropping the writer would ignore errors
+        writer.finalize()
     }
 }
-- 
2.43.0


From d92a14e5b78bcff5b949fa98edc074d9cf6a0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 32/54] fix: decoders panic on damaged sound files

---
 knaster_core_dsp/src/dsp/buffer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index 430e4c4..0b396e0 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -193,8 +193,16 @@ impl<F: Float> Buffer<F> {
     /// supported file formats: Wave, Ogg Vorbis, FLAC, MP3
     pub fn from_sound_file(path: impl Into<PathBuf>) -> Result<Self, BufferError> {
         let path = path.into();
+        // Some decoders panic on damaged files
+        std::panic::catch_unwind(|| Self::decode_sound_file(&path)).unwrap_or_else(|_| {
+            Err(BufferError::FileFormatNotSupported(
+                path.to_string_lossy().to_string(),
+            ))
+        })
+    }
+    fn decode_sound_file(path: &std::path::Path) -> Result<Self, BufferError> {
         let mut buffer = Vec::new();
-        let inp_file = std::fs::File::open(&path).map_err(SymphoniaError::IoError)?;
+        let inp_file = std::fs::File::open(path).map_err(SymphoniaError::IoError)?;
         #[cfg(knaster_sim)]
         let inp_file = sim_source::open(inp_file);
         // hint to the format registry of the decoder what file format it might be
-- 
2.43.0


From f14fbab827319f112406e1ec62433758d8f70606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 33/54] fix: read errors in the middle of a sound file are
 ignored

---
 knaster_core_dsp/src/dsp/buffer.rs | 48 ++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index 0b396e0..29eeece 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -18,7 +18,7 @@ use symphonia::core::{
     audio::SampleBuffer,
     codecs::{CODEC_TYPE_NULL, DecoderOptions},
     formats::FormatOptions,
-    io::MediaSourceStream,
+    io::{MediaSource, MediaSourceStream},
     meta::MetadataOptions,
     probe::Hint,
 };
@@ -76,6 +76,46 @@ pub fn sim_set_sound_file_source(open: fn(std::fs::File) -> SimSource) {
     let _ = sim_source::OPEN.set(open);
 }
 
+/// A source which keeps failing after a read error, because decoders may go on after errors and
+/// leave out what couldn't be read.
+#[cfg(all(feature = "symphonia", feature = "std"))]
+struct FailingSource<S> {
+    source: S,
+    failed: bool,
+}
+#[cfg(all(feature = "symphonia", feature = "std"))]
+impl<S: std::io::Read> std::io::Read for FailingSource<S> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        if self.failed {
+            return Err(std::io::Error::other("an earlier read failed"));
+        }
+        loop {
+            match self.source.read(buf) {
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                result => {
+                    self.failed = result.is_err();
+                    return result;
+                }
+            }
+        }
+    }
+}
+#[cfg(all(feature = "symphonia", feature = "std"))]
+impl<S: std::io::Seek> std::io::Seek for FailingSource<S> {
+    fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
+        self.source.seek(pos)
+    }
+}
+#[cfg(all(feature = "symphonia", feature = "std"))]
+impl<S: MediaSource> MediaSource for FailingSource<S> {
+    fn is_seekable(&self) -> bool {
+        self.source.is_seekable()
+    }
+    fn byte_len(&self) -> Option<u64> {
+        self.source.byte_len()
+    }
+}
+
 /// A buffer containing sound or data. Channels are stored interleaved in a 1-dimensional list.
 #[derive(Clone, Debug)]
 pub struct Buffer<F: Copy> {
@@ -213,7 +253,11 @@ impl<F: Float> Buffer<F> {
                 hint.with_extension(extension_str);
             }
         }
-        let mss = MediaSourceStream::new(Box::new(inp_file), Default::default());
+        let source = FailingSource {
+            source: inp_file,
+            failed: false,
+        };
+        let mss = MediaSourceStream::new(Box::new(source), Default::default());
         // Use the default options for metadata and format readers.
         let format_opts: FormatOptions = Default::default();
         let metadata_opts: MetadataOptions = Default::default();
-- 
2.43.0


From 23d0be88b14679393ce10a5f63b1fef412339078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 34/54] fix: large integer constants in graphs of f64

---
 knaster_graph/src/graph_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 20d5182..0abc8a6 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -1001,7 +1001,7 @@ impl ConstantNumber {
             ConstantNumber::F32(f) => F::new(f),
             ConstantNumber::F64(f) => F::new(f),
             ConstantNumber::Usize(u) => F::from_usize(u),
-            ConstantNumber::I32(i) => F::new(i as f32),
+            ConstantNumber::I32(i) => F::new(i as f64),
         }
     }
 }
-- 
2.43.0


From a5abc6cca6ff8005bb42274ea328ec05a8165b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 35/54] fix: CpalBackend panics without a device and on graphs
 with other numbers of outputs

---
 knaster_graph/src/audio_backend.rs      | 10 ++++++++++
 knaster_graph/src/audio_backend/cpal.rs | 11 ++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/knaster_graph/src/audio_backend.rs b/knaster_graph/src/audio_backend.rs
index dd048be..8463a44 100644
--- a/knaster_graph/src/audio_backend.rs
+++ b/knaster_graph/src/audio_backend.rs
@@ -52,10 +52,20 @@ pub enum AudioBackendError {
     BackendNotRunning,
     #[error("Unable to create a node from the Graph: {0}")]
     CouldNotCreateNode(String),
+    #[error(
+        "The graph must have the same number of outputs as the device, but it has {graph} and the device has {device}."
+    )]
+    WrongNumberOfOutputs { graph: usize, device: usize },
     #[cfg(feature = "jack")]
     #[error(transparent)]
     JackError(#[from] ::jack::Error),
     #[cfg(feature = "cpal")]
+    #[error("Failed to find the output device \"{0}\".")]
+    CpalOutputDeviceNotFound(String),
+    #[cfg(feature = "cpal")]
+    #[error(transparent)]
+    CpalDefaultStreamConfigError(#[from] ::cpal::DefaultStreamConfigError),
+    #[cfg(feature = "cpal")]
     #[error(transparent)]
     CpalDevicesError(#[from] ::cpal::DevicesError),
     #[cfg(feature = "cpal")]
diff --git a/knaster_graph/src/audio_backend/cpal.rs b/knaster_graph/src/audio_backend/cpal.rs
index e0bb204..0d9b02f 100644
--- a/knaster_graph/src/audio_backend/cpal.rs
+++ b/knaster_graph/src/audio_backend/cpal.rs
@@ -56,12 +56,12 @@ impl<F> CpalBackend<F> {
             host.output_devices()?
                 .find(|x| x.name().map(|y| y == options.device).unwrap_or(false))
         }
-        .expect("failed to find output device");
+        .ok_or(AudioBackendError::CpalOutputDeviceNotFound(options.device))?;
         if options.verbose {
             log::info!("Output device: {}", device.name()?);
         }
 
-        let config = device.default_output_config().unwrap();
+        let config = device.default_output_config()?;
         if options.verbose {
             log::info!("Default output config: {config:?}");
         }
@@ -93,9 +93,10 @@ impl<F: Float> AudioBackend for CpalBackend<F> {
             return Err(AudioBackendError::BackendAlreadyRunning);
         }
         if runner.outputs() != self.config.channels() {
-            panic!(
-                "CpalBackend expects a graph with the same number of outputs as the device. Check CpalBackend::channels()."
-            )
+            return Err(AudioBackendError::WrongNumberOfOutputs {
+                graph: runner.outputs() as usize,
+                device: self.config.channels() as usize,
+            });
         }
         if runner.inputs() > 0 {
             log::error!(
-- 
2.43.0


From dbd9a1f4101d82c62c36e00099088cbca69f4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 36/54] fix: CpalBackend panics in the audio callback on graphs
 with inputs

---
 knaster_graph/src/audio_backend/cpal.rs | 32 ++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/audio_backend/cpal.rs b/knaster_graph/src/audio_backend/cpal.rs
index 0d9b02f..ed35f2f 100644
--- a/knaster_graph/src/audio_backend/cpal.rs
+++ b/knaster_graph/src/audio_backend/cpal.rs
@@ -100,7 +100,7 @@ impl<F: Float> AudioBackend for CpalBackend<F> {
         }
         if runner.inputs() > 0 {
             log::error!(
-                "Warning: CpalBackend currently does not support inputs into the top level Graph. Top level graph inputs will have no data."
+                "Warning: CpalBackend currently does not support inputs into the top level Graph. Top level graph inputs will be silent."
             );
         }
         let config = self.config.clone();
@@ -146,6 +146,29 @@ impl<F: Float> AudioBackend for CpalBackend<F> {
     }
 }
 
+/// Silence for the inputs of the top level graph
+struct SilentInputs<F> {
+    // What all of the pointers point to
+    _silence: Vec<F>,
+    pointers: Vec<*const F>,
+}
+/// # Safety
+/// The pointers only point to the heap allocation owned by the same struct, which is never written.
+unsafe impl<F: Float> Send for SilentInputs<F> {}
+impl<F: Float> SilentInputs<F> {
+    fn new(inputs: u16, block_size: usize) -> Self {
+        let silence = vec![F::ZERO; block_size];
+        let pointers = vec![silence.as_ptr(); inputs as usize];
+        Self {
+            _silence: silence,
+            pointers,
+        }
+    }
+    fn pointers(&self) -> &[*const F] {
+        &self.pointers
+    }
+}
+
 fn run<T, F: Float>(
     device: &cpal::Device,
     config: &cpal::StreamConfig,
@@ -161,6 +184,7 @@ where
 
     let graph_block_size = audio_processor.block_size();
     let mut sample_counter = graph_block_size; // Immediately process a block
+    let inputs = SilentInputs::new(audio_processor.inputs(), graph_block_size);
     let stream = device.build_output_stream(
         config,
         move |output: &mut [T], _: &cpal::OutputCallbackInfo| {
@@ -171,7 +195,8 @@ where
                     for frame in output.chunks_mut(channels) {
                         if sample_counter >= graph_block_size {
                             // CPAL currently does not support duplex streams
-                            audio_processor.run_without_inputs();
+                            // SAFETY: Every pointer points to a block of silence owned by `inputs`
+                            unsafe { audio_processor.run_raw_ptr_inputs(inputs.pointers()) };
                             sample_counter = 0;
                         }
                         let out_block = audio_processor.output_block();
@@ -189,7 +214,8 @@ where
                 for frame in output.chunks_mut(channels) {
                     if sample_counter >= graph_block_size {
                         // CPAL currently does not support duplex streams
-                        audio_processor.run_without_inputs();
+                        // SAFETY: Every pointer points to a block of silence owned by `inputs`
+                        unsafe { audio_processor.run_raw_ptr_inputs(inputs.pointers()) };
                         sample_counter = 0;
                     }
                     let out_block = audio_processor.output_block();
-- 
2.43.0


From c27741e63213d671a923a4935f4eca9d37e0178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 37/54] fix: JackBackend panics on errors and stops streaming
 when started twice

---
 knaster_graph/src/audio_backend/jack.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/knaster_graph/src/audio_backend/jack.rs b/knaster_graph/src/audio_backend/jack.rs
index e2f0f93..d496d1e 100644
--- a/knaster_graph/src/audio_backend/jack.rs
+++ b/knaster_graph/src/audio_backend/jack.rs
@@ -33,7 +33,7 @@ impl<F: Float> JackBackend<F> {
     pub fn new<S: AsRef<str>>(name: S) -> Result<Self, jack::Error> {
         // Create client
         let (client, _status) =
-            jack::Client::new(name.as_ref(), jack::ClientOptions::NO_START_SERVER).unwrap();
+            jack::Client::new(name.as_ref(), jack::ClientOptions::NO_START_SERVER)?;
         let sample_rate = client.sample_rate() as u32;
         let block_size = client.buffer_size() as usize;
         Ok(Self {
@@ -49,10 +49,13 @@ impl<F: Float> AudioBackend for JackBackend<F> {
     fn stop(&mut self) -> Result<(), AudioBackendError> {
         match self.client.take() {
             Some(JackClient::Active(active_client)) => {
-                active_client.deactivate().unwrap();
+                active_client.deactivate()?;
                 Ok(())
             }
-            _ => Err(AudioBackendError::BackendNotRunning),
+            client => {
+                self.client = client;
+                Err(AudioBackendError::BackendNotRunning)
+            }
         }
     }
 
@@ -104,13 +107,15 @@ impl<F: Float> AudioBackend for JackBackend<F> {
                     input_block_pointers,
                 };
                 // Activate the client, which starts the processing.
-                let active_client = client
-                    .activate_async(JackNotifications, jack_process)
-                    .unwrap();
+                let active_client = client.activate_async(JackNotifications, jack_process)?;
                 self.client = Some(JackClient::Active(active_client));
                 Ok(())
             }
-            _ => Err(AudioBackendError::BackendAlreadyRunning),
+            client => {
+                // Keep a running client running
+                self.client = client;
+                Err(AudioBackendError::BackendAlreadyRunning)
+            }
         }
     }
 }
-- 
2.43.0


From 76a0d54e73245e7e04e196aae9a6b8b86aada77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 38/54] fix: JackBackend loses frames when the period is not
 the block size of the graph

---
 knaster_graph/src/audio_backend/jack.rs | 97 ++++++++++++++++++-------
 1 file changed, 70 insertions(+), 27 deletions(-)

diff --git a/knaster_graph/src/audio_backend/jack.rs b/knaster_graph/src/audio_backend/jack.rs
index d496d1e..0b153bc 100644
--- a/knaster_graph/src/audio_backend/jack.rs
+++ b/knaster_graph/src/audio_backend/jack.rs
@@ -94,7 +94,10 @@ impl<F: Float> AudioBackend for JackBackend<F> {
                         client.register_port(&format!("out_{i}"), jack::AudioOut::default())?,
                     );
                 }
-                let input_block = VecBlock::new(num_inputs as usize, self.block_size);
+                // JACK decides how many frames are processed at a time, and may change its mind, so
+                // the block size of the graph can be a different one.
+                let graph_block_size = audio_processor.block_size();
+                let input_block = VecBlock::new(num_inputs as usize, graph_block_size);
                 let mut input_block_pointers = Vec::with_capacity(num_inputs as usize);
                 for i in 0..num_inputs {
                     input_block_pointers.push(input_block.channel_as_slice(i as usize).as_ptr());
@@ -105,6 +108,8 @@ impl<F: Float> AudioBackend for JackBackend<F> {
                     out_ports,
                     input_block,
                     input_block_pointers,
+                    input_frames: 0,
+                    output_position: graph_block_size, // Immediately process a block
                 };
                 // Activate the client, which starts the processing.
                 let active_client = client.activate_async(JackNotifications, jack_process)?;
@@ -126,44 +131,82 @@ struct JackProcess<F: Float> {
     out_ports: Vec<jack::Port<jack::AudioOut>>,
     input_block: VecBlock<F>,
     input_block_pointers: Vec<*const F>,
+    // Frames at the start of `input_block` that are waiting for the rest of the block
+    input_frames: usize,
+    // The next frame of the output block to send to JACK
+    output_position: usize,
 }
 unsafe impl<F: Float> Send for JackProcess<F> {}
 unsafe impl<F: Float> Sync for JackProcess<F> {}
 
+impl<F: Float> JackProcess<F> {
+    /// Move frames from the input ports, starting at frame `start`, to the free part of the input
+    /// block. Returns the number of frames moved.
+    fn read_inputs(&mut self, ps: &jack::ProcessScope, start: usize) -> usize {
+        let frames =
+            (self.input_block.block_size() - self.input_frames).min(ps.n_frames() as usize - start);
+        for (i, in_port) in self.in_ports.iter().enumerate() {
+            let in_port_slice = &in_port.as_slice(ps)[start..start + frames];
+            let in_buffer = &mut self.input_block.channel_as_slice_mut(i)
+                [self.input_frames..self.input_frames + frames];
+            for (from_jack, graph_in) in in_port_slice.iter().zip(in_buffer.iter_mut()) {
+                *graph_in = F::new(*from_jack);
+            }
+        }
+        self.input_frames += frames;
+        frames
+    }
+}
+
 impl<F: Float> jack::ProcessHandler for JackProcess<F> {
     fn process(&mut self, _: &jack::Client, ps: &jack::ProcessScope) -> jack::Control {
         #[allow(unused_mut)]
         let mut do_the_thing = || {
-            // TODO: For an f32 JackProcess, we should be able to use the buffers as is without
-            // copying the data, but setting the input pointers instead.
-            for (i, in_port) in self.in_ports.iter().enumerate() {
-                let in_port_slice = in_port.as_slice(ps);
-                let in_buffer = self.input_block.channel_as_slice_mut(i);
-                // in_buffer.clone_from_slice(in_port_slice);
-                for (from_jack, graph_in) in in_port_slice.iter().zip(in_buffer.iter_mut()) {
-                    *graph_in = F::new(*from_jack);
-                }
-            }
-            unsafe {
-                self.audio_processor
-                    .run_raw_ptr_inputs(&self.input_block_pointers)
-            }
-
-            let graph_output_buffers = self.audio_processor.output_block();
-            for (i, out_port) in self.out_ports.iter_mut().enumerate() {
-                let out_buffer = graph_output_buffers.channel_as_slice_mut(i);
-                for sample in out_buffer.iter_mut() {
-                    *sample = sample.clamp(-F::ONE, F::ONE);
-                    if sample.is_nan() {
-                        *sample = F::ZERO;
+            // TODO: For an f32 JackProcess and a matching block size, we should be able to use the
+            // buffers as is without copying the data, but setting the input pointers instead.
+            let graph_block_size = self.audio_processor.block_size();
+            let num_frames = ps.n_frames() as usize;
+            let mut frames_read = 0;
+            let mut frames_written = 0;
+            while frames_written < num_frames {
+                if self.output_position >= graph_block_size {
+                    frames_read += self.read_inputs(ps, frames_read);
+                    // Less than a block of input so far: delay the input with silence
+                    let missing = graph_block_size - self.input_frames;
+                    if missing > 0 {
+                        for i in 0..self.in_ports.len() {
+                            let in_buffer = self.input_block.channel_as_slice_mut(i);
+                            in_buffer.rotate_right(missing);
+                            in_buffer[..missing].fill(F::ZERO);
+                        }
                     }
+                    self.input_frames = 0;
+                    unsafe {
+                        self.audio_processor
+                            .run_raw_ptr_inputs(&self.input_block_pointers)
+                    }
+                    self.output_position = 0;
                 }
-                let out_port_slice = out_port.as_mut_slice(ps);
-                // out_port_slice.clone_from_slice(out_buffer);
-                for (to_jack, graph_out) in out_port_slice.iter_mut().zip(out_buffer.iter()) {
-                    *to_jack = graph_out.to_f32().unwrap();
+                let frames =
+                    (graph_block_size - self.output_position).min(num_frames - frames_written);
+                let graph_output_buffers = self.audio_processor.output_block();
+                for (i, out_port) in self.out_ports.iter_mut().enumerate() {
+                    let out_buffer = &graph_output_buffers.channel_as_slice(i)
+                        [self.output_position..self.output_position + frames];
+                    let out_port_slice =
+                        &mut out_port.as_mut_slice(ps)[frames_written..frames_written + frames];
+                    for (to_jack, graph_out) in out_port_slice.iter_mut().zip(out_buffer.iter()) {
+                        let mut sample = graph_out.clamp(-F::ONE, F::ONE);
+                        if sample.is_nan() {
+                            sample = F::ZERO;
+                        }
+                        *to_jack = sample.to_f32();
+                    }
                 }
+                self.output_position += frames;
+                frames_written += frames;
             }
+            self.read_inputs(ps, frames_read);
             jack::Control::Continue
         };
         #[cfg(all(debug_assertions, feature = "assert_no_alloc"))]
-- 
2.43.0


From 365d5c875855013a6998aec3e52228d98711dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 39/54] fix: graphs on the default backend ignore the sample
 rate of the device

---
 knaster/src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/knaster/src/lib.rs b/knaster/src/lib.rs
index 58999da..7079600 100644
--- a/knaster/src/lib.rs
+++ b/knaster/src/lib.rs
@@ -35,14 +35,13 @@ pub struct KnasterBuilder<F: Float> {
 }
 #[cfg(feature = "cpal")]
 impl<F: Float> KnasterBuilder<F> {
-    pub fn start(self) -> Result<Graph<F>, AudioBackendError> {
-        let mut backend = if let Some(backend) = self.backend {
-            backend
-        } else {
-            Box::new(knaster_graph::audio_backend::cpal::CpalBackend::new(
+    pub fn start(mut self) -> Result<Graph<F>, AudioBackendError> {
+        if self.backend.is_none() {
+            self = self.backend(knaster_graph::audio_backend::cpal::CpalBackend::new(
                 CpalBackendOptions::default(),
-            )?)
-        };
+            )?);
+        }
+        let mut backend = self.backend.expect("a backend was just set");
         let mut log_handler = self.log_handler.unwrap_or_else(|| {
             Box::new(|m| {
                 ::log::info!("{:?}", m);
-- 
2.43.0


From f1ae0ff0b1a376440754eb5ab66cc846d38a82f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 40/54] fix: clicks and delays shorter than 1.5 frames in
 allpass delays

The interpolator started from ones instead of zeros, and delays without whole
frames read the oldest sample in the buffer.
---
 knaster_core_dsp/src/ugens/delay.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index c0d0589..6c20bef 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -63,14 +63,14 @@ impl<F: Float> AllpassInterpolator<F> {
     pub fn new() -> Self {
         Self {
             coeff: F::ONE,
-            prev_input: F::ONE,
-            prev_output: F::ONE,
+            prev_input: F::ZERO,
+            prev_output: F::ZERO,
         }
     }
     /// Reset any state to 0
     pub fn clear(&mut self) {
-        self.prev_input = F::ONE;
-        self.prev_output = F::ONE;
+        self.prev_input = F::ZERO;
+        self.prev_output = F::ZERO;
     }
     /// Set the fractional number of frames in the delay time that we want to interpolate over
     pub fn set_delta(&mut self, delta: F) {
@@ -130,6 +130,10 @@ impl<F: Float> AllpassDelay<F> {
         _flags: &mut UGenFlags,
         input: [F; 1],
     ) -> [F; 1] {
+        if self.num_frames == 0 {
+            // The delay is so short that the current frame is part of the output
+            self.buffer[self.write_frame] = input[0];
+        }
         let out = self.read();
         self.write_and_advance(input[0]);
         [out]
@@ -250,9 +254,11 @@ impl<F: Float> AllpassFeedbackDelay<F> {
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 1] {
         [self.process_sample(input[0])]
     }
-    /// Set the delay length counted in frames/samples
+    /// Set the delay length counted in frames/samples. Because of the feedback, it can't be shorter
+    /// than 1.5 frames. Shorter delays are set to the minimum.
     pub fn set_delay_in_frames(&mut self, delay_length: F) {
-        self.allpass_delay.set_delay_in_frames(delay_length);
+        self.allpass_delay
+            .set_delay_in_frames(delay_length.max(F::new(1.5)));
     }
     /// Clear any values in the delay
     pub fn clear(&mut self) {
-- 
2.43.0


From c0d36c5ce918d01f65c4c222c3d4dd83380f2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 41/54] fix: restarting EnvAsr and EnvAr from the current value

Restarts during the release jumped, restarts while sustaining exceeded 1.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 2ddd182..95f7198 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -42,9 +42,11 @@ impl<F: Float> EnvAsr<F> {
         }
     }
     /// Start the envelope from the current value
-    // TODO: Take the current value of self.t from Self::next_sample because the release value is
-    // not linear.
     fn trig_start(&mut self) {
+        if let AsrState::Releasing = self.state {
+            // The release is not linear
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = AsrState::Attacking;
     }
     /// Progress the envelope and return the next sample value
@@ -62,6 +64,7 @@ impl<F: Float> EnvAsr<F> {
 
                 if self.t >= F::ONE {
                     self.state = AsrState::Sustaining;
+                    self.t = F::ONE;
                 }
             }
             AsrState::Sustaining => {
@@ -196,8 +199,11 @@ impl<F: Float> EnvAr<F> {
         }
     }
     /// (Re)start the envelope from the current value
-    // TODO: Take the relase curve into account, e.g. by taking the current value of `next_sample`
     fn trig_start(&mut self) {
+        if let ArState::Releasing = self.state {
+            // The release is not linear
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = ArState::Attacking;
     }
     /// Progress the envelope one frame and return the value
-- 
2.43.0


From 1d79c08f1fd349547b8d2f88e2d0d1c6c8c1e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 42/54] fix: Envelope segments without duration and envelopes
 without segments

Segments without duration produced NaN, triggering an envelope without segments
panicked, and stopping at the end of a segment overshot it.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 30 +++++++++++++++----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 95f7198..7b0fc55 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -438,13 +438,9 @@ mod alloc_envelopes {
                             current_time: t + (self.time_scale * self.base_scale),
                         };
                     } else if current_segment + 1 < self.segments.len() {
-                        self.from_value = self.segments[current_segment].value;
                         let segment = &self.segments[current_segment];
-                        out = F::new(
-                            self.from_value
-                                + (t * segment.reciprocal_duration)
-                                    * (segment.value - self.from_value),
-                        );
+                        self.from_value = segment.value;
+                        out = F::new(self.from_value);
                         self.state = EnvelopeState::Running {
                             current_segment: current_segment + 1,
                             current_time: current_time - segment.duration
@@ -486,6 +482,9 @@ mod alloc_envelopes {
                 }
                 1 => {
                     let mut jump_to_segment = value.integer().unwrap().0;
+                    if self.segments.is_empty() {
+                        return;
+                    }
                     if jump_to_segment >= self.segments.len() {
                         jump_to_segment = self.segments.len() - 1;
                     }
@@ -508,10 +507,12 @@ mod alloc_envelopes {
                     self.current_segment = jump_to_segment;
                 }
                 2 => {
-                    self.state = EnvelopeState::Running {
-                        current_segment: 0,
-                        current_time: 0.0,
-                    };
+                    if !self.segments.is_empty() {
+                        self.state = EnvelopeState::Running {
+                            current_segment: 0,
+                            current_time: 0.0,
+                        };
+                    }
                     self.from_value = self.start_value;
                 }
                 3 => {
@@ -522,8 +523,13 @@ mod alloc_envelopes {
                     {
                         let t = current_time;
                         let segment = &self.segments[current_segment];
-                        self.from_value = self.from_value
-                            + (t * segment.reciprocal_duration) * (segment.value - self.from_value);
+                        self.from_value = if t < segment.duration {
+                            self.from_value
+                                + (t * segment.reciprocal_duration)
+                                    * (segment.value - self.from_value)
+                        } else {
+                            segment.value
+                        };
                     }
                     self.state = EnvelopeState::Stopped;
                 }
-- 
2.43.0


From 2aeda8501515863217342b1315269cb0d88d84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 43/54] fix: phase offset of wavetable oscillators

The range 0-1 covered one sample of the table instead of all of it.
---
 knaster_core_dsp/src/ugens/osc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/osc.rs b/knaster_core_dsp/src/ugens/osc.rs
index 9a376d6..204af9e 100644
--- a/knaster_core_dsp/src/ugens/osc.rs
+++ b/knaster_core_dsp/src/ugens/osc.rs
@@ -48,7 +48,9 @@ mod wavetable_vec {
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase(
+                (offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64) as u32,
+            );
         }
         /// Reset the phase of the oscillator.
         #[param]
@@ -131,7 +133,9 @@ mod wavetable_vec {
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase(
+                (offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64) as u32,
+            );
         }
         /// Reset the phase of the oscillator.
         #[param]
-- 
2.43.0


From 1ddd4a5c494d0d97237bd3cc652f5d8ce7a4709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 44/54] fix: centre frequency of bell filters

It depended on the gain.
---
 knaster_core_dsp/src/ugens/svf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/svf.rs b/knaster_core_dsp/src/ugens/svf.rs
index e39b7b1..35407c5 100644
--- a/knaster_core_dsp/src/ugens/svf.rs
+++ b/knaster_core_dsp/src/ugens/svf.rs
@@ -207,7 +207,7 @@ impl<F: Float> SvfFilter<F> {
             }
             SvfFilterType::Bell => {
                 let amp = F::new(10.0).powf(gain_db / F::new(40.));
-                let g = ((F::PI * cutoff) / sample_rate).tan() / amp.sqrt();
+                let g = ((F::PI * cutoff) / sample_rate).tan();
                 let k = F::ONE / (q * amp);
                 self.a1 = F::ONE / (F::ONE + g * (g + k));
                 self.a2 = g * self.a1;
-- 
2.43.0


From a5fc009dad78b78c643c1102c0a7c1c247bff3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 45/54] fix: Galactic is unstable at low sample rates

The coefficient of its lowpass filters exceeded 2 below 44100 Hz.
---
 knaster_airwindows/src/galactic.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knaster_airwindows/src/galactic.rs b/knaster_airwindows/src/galactic.rs
index dc44287..7f4f288 100644
--- a/knaster_airwindows/src/galactic.rs
+++ b/knaster_airwindows/src/galactic.rs
@@ -175,8 +175,10 @@ impl<F: Float> Galactic<F> {
 
         let regen = F::new(0.0625) + ((F::ONE - self.replace) * F::new(0.0625));
         let attenuate = (F::ONE - (regen / F::new(0.125))) * F::new(1.333); // 1.33 if regen is high / replace is low
-        let lowpass =
-            (F::new(1.00001) - (F::ONE - self.brightness)).powi(2) / (self.overallscale).sqrt(); // (0.00001 + Brightness).powi(2)/overallscale.sqrt()
+        // A coefficient above 1 (at low sample rates) would make the filters unstable
+        let lowpass = ((F::new(1.00001) - (F::ONE - self.brightness)).powi(2)
+            / (self.overallscale).sqrt())
+        .min(F::ONE); // (0.00001 + Brightness).powi(2)/overallscale.sqrt()
         let drift = self.detune.powi(3) * F::new(0.001); // Detune.powi(3) * 0.001
         let size = (self.bigness * F::new(0.9)) + F::new(0.1);
         let wet = F::ONE - (F::ONE - self.wet).powi(3);
-- 
2.43.0


From 4b58f99310551e173fe12ac91d728837df562426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 46/54] fix: times and beats converted from floats are cut off
 instead of rounded

A float is rarely exactly the time it stands for. As the conversion cut off the
rest, Seconds::from_secs_f64(frame / sample_rate) often was one frame early (e.g.
2.3 s at 48 kHz) and Beats times an integer could be just short of a beat.
---
 knaster_primitives/src/time.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 3e91921..3181fc4 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -55,12 +55,20 @@ impl Seconds {
     pub fn to_subsample_tesimals_u64(&self) -> u64 {
         self.seconds as u64 * SUBSECOND_TESIMALS_PER_SECOND as u64 + self.subsecond_tesimals as u64
     }
-    #[allow(missing_docs)]
+    /// Convert from seconds in f64 to the nearest `Seconds`
     pub fn from_secs_f64(seconds_f64: f64) -> Self {
         let seconds = seconds_f64.floor() as u32;
         let subsample_tesimals =
-            (seconds_f64.fract() * SUBSECOND_TESIMALS_PER_SECOND as f64) as u32;
-        Self::new(seconds, subsample_tesimals)
+            (seconds_f64.fract() * SUBSECOND_TESIMALS_PER_SECOND as f64).round() as u32;
+        Self::from_rounded(seconds, subsample_tesimals)
+    }
+    /// Rounding may have made the tesimals a whole second
+    fn from_rounded(seconds: u32, subsecond_tesimals: u32) -> Self {
+        if subsecond_tesimals >= SUBSECOND_TESIMALS_PER_SECOND {
+            Self::new(seconds.saturating_add(1), 0)
+        } else {
+            Self::new(seconds, subsecond_tesimals)
+        }
     }
     /// Convert from seconds in f64 and return any precision loss incurred in the conversion
     pub fn from_secs_f64_return_precision_loss(seconds_f64: f64) -> (Self, f64) {
@@ -137,8 +145,8 @@ impl From<Duration> for Seconds {
         let seconds = value.as_secs();
         let nanos = value.subsec_nanos();
         let conversion_factor = SUBSECOND_TESIMALS_PER_SECOND as f64 / 1_000_000_000_f64;
-        let subsample_tesimals = nanos as f64 * conversion_factor;
-        Self::new(seconds as u32, subsample_tesimals as u32)
+        let subsample_tesimals = (nanos as f64 * conversion_factor).round();
+        Self::from_rounded(seconds as u32, subsample_tesimals as u32)
     }
 }
 impl PartialOrd for Seconds {
@@ -276,18 +284,16 @@ impl Beats {
     }
     /// Convert from number of beats in an f32. May be lossy depending on the value
     pub fn from_beats_f32(beats: f32) -> Self {
-        let fract = beats.fract();
-        Self {
-            beats: beats as u32,
-            beat_tesimals: (fract * SUBBEAT_TESIMALS_PER_BEAT as f32) as u32,
-        }
+        Self::from_beats_f64(beats as f64)
     }
     /// Convert from number of beats in an f64. May be lossy depending on the value
     pub fn from_beats_f64(beats: f64) -> Self {
-        let fract = beats.fract();
-        Self {
-            beats: beats as u32,
-            beat_tesimals: (fract * SUBBEAT_TESIMALS_PER_BEAT as f64) as u32,
+        let beat_tesimals = (beats.fract() * SUBBEAT_TESIMALS_PER_BEAT as f64).round() as u32;
+        if beat_tesimals >= SUBBEAT_TESIMALS_PER_BEAT {
+            // Rounded to a whole beat
+            Self::new((beats as u32).saturating_add(1), 0)
+        } else {
+            Self::new(beats as u32, beat_tesimals)
         }
     }
     /// Convert to number of beats in an f32. May be lossy depending on the value
-- 
2.43.0


From 007860433a007b8ded755584537cbfa23c185ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 47/54] fix: Seconds times Seconds ignores most of the product

0.5 s * 0.5 s was 70 million seconds and 2.5 s * 2 s was 4 s.
---
 knaster_primitives/src/time.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 3181fc4..700cf92 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -187,13 +187,11 @@ impl ops::Mul<Seconds> for Seconds {
     type Output = Self;
 
     fn mul(self, rhs: Seconds) -> Self::Output {
-        let mut seconds = self.seconds * rhs.seconds;
-        let mut subsample_tesimals = self.subsecond_tesimals as u64 * rhs.subsecond_tesimals as u64;
-        if subsample_tesimals > SUBSECOND_TESIMALS_PER_SECOND as u64 {
-            seconds += (subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND as u64) as u32;
-            subsample_tesimals %= SUBSECOND_TESIMALS_PER_SECOND as u64;
-        }
-        Seconds::new(seconds, subsample_tesimals as u32)
+        let product =
+            self.to_subsample_tesimals_u64() as u128 * rhs.to_subsample_tesimals_u64() as u128;
+        Seconds::from_subsample_tesimals_u64(
+            (product / SUBSECOND_TESIMALS_PER_SECOND as u128) as u64,
+        )
     }
 }
 impl ops::Mul<f64> for Seconds {
-- 
2.43.0


From 82a5166b4d0905ca401d12c7eae434dbe00681e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 48/54] fix: Beats times f32 loses the position within the beat

The beats were converted to f32, which after a few thousand beats is off by
thousands of a beat. Seconds times f32 is computed in double precision as well.
---
 knaster_primitives/src/time.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 700cf92..11c2c02 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -397,8 +397,7 @@ impl ops::Mul<f32> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: f32) -> Self::Output {
-        let b0 = self.as_beats_f32();
-        Self::from_beats_f32(b0 * rhs)
+        self * rhs as f64
     }
 }
 impl ops::Mul<f64> for Beats {
-- 
2.43.0


From f5cad7a848b8fffbfc0947ac27da48eb8aa33fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 49/54] fix: BufferReader positions when times can't represent
 frames exactly

At sample rates for which Seconds can't represent every frame, the end of the buffer could become
a fraction of a frame later than its last frame, so that a loop had an additional frame of silence.
---
 knaster_core_dsp/src/ugens/buffer.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index e852628..50c5035 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -65,6 +65,18 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
         self.read_pointer = new_pointer_pos;
         self.finished = false;
     }
+    /// Convert a time to a position in the buffer. [`Seconds`] can't represent the time of every frame
+    /// at every sample rate, so the nearest time to a frame means that frame.
+    fn to_frames(&self, time: Seconds) -> f64 {
+        let sample_rate = self.buffer.sample_rate();
+        let frames = time.to_samples_f64(sample_rate);
+        let nearest = frames.round();
+        if Seconds::from_secs_f64(nearest / sample_rate) == time {
+            nearest
+        } else {
+            frames
+        }
+    }
     /// Jump to a specific point in the buffer in samples. Has to be called before processing starts.
     pub fn start_at(mut self, start_time: Seconds) -> Self {
         self.start_frame = start_time.to_secs_f64();
@@ -84,22 +96,19 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     #[param]
     #[allow(missing_docs)]
     pub fn start_s(&mut self, start_s: PFloat) {
-        let start_time = Seconds::from_secs_f64(start_s);
-        self.start_frame = start_time.to_samples_f64(self.buffer.sample_rate());
+        self.start_frame = self.to_frames(Seconds::from_secs_f64(start_s));
         self.end_frame = self.start_frame + self.dur_frame;
     }
     #[param]
     #[allow(missing_docs)]
     pub fn duration_s(&mut self, duration_s: PFloat) {
-        let dur_time = Seconds::from_secs_f64(duration_s);
-        self.dur_frame = dur_time.to_samples_f64(self.buffer.sample_rate());
+        self.dur_frame = self.to_frames(Seconds::from_secs_f64(duration_s));
         self.end_frame = self.start_frame + self.dur_frame;
     }
     #[param]
     #[allow(missing_docs)]
     pub fn end_s(&mut self, end_s: PFloat) {
-        let end_time = Seconds::from_secs_f64(end_s);
-        self.end_frame = end_time.to_samples_f64(self.buffer.sample_rate());
+        self.end_frame = self.to_frames(Seconds::from_secs_f64(end_s));
     }
     #[param]
     #[allow(missing_docs)]
@@ -109,10 +118,8 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
 
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         self.base_rate = self.buffer.buf_rate_scale(sample_rate);
-        self.start_frame =
-            Seconds::from_secs_f64(self.start_frame).to_samples_f64(self.buffer.sample_rate());
-        self.dur_frame =
-            Seconds::from_secs_f64(self.dur_frame).to_samples_f64(self.buffer.sample_rate());
+        self.start_frame = self.to_frames(Seconds::from_secs_f64(self.start_frame));
+        self.dur_frame = self.to_frames(Seconds::from_secs_f64(self.dur_frame));
         self.end_frame = self.start_frame + self.dur_frame;
         self.jump_to(self.start_frame);
     }
-- 
2.43.0


From 571bd6f79ee80ba0db89835a480d87b62d95f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 50/54] fix: impl_ugen parameters panic on values of the wrong
 kind and smoothing

---
 knaster_macros/src/lib.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index 6656861..704bca0 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -598,17 +598,35 @@ fn parse_ugen_impl(mut input: ItemImpl) -> syn::Result<proc_macro2::TokenStream>
             let fn_name = &p.fn_name;
             let arguments = p.arguments.iter().map(|a| match a {
                 ParameterArgumentTypes::Parameter(ty) => match ty {
-                    ParameterType::PFloat => quote! { _value.float().expect("parameter value is expected to be a float") },
-                    ParameterType::Float64 => quote! { _value.float().expect("parameter value is expected to be a float") as f64 },
-                    ParameterType::Float32 => quote! { _value.float().expect("parameter value is expected to be a float") as f32 },
-                    ParameterType::Integer => quote! { _value.integer().expect("parameter value is expected to be an integer") },
-                    ParameterType::Bool => quote! { _value.bool().expect("parameter value is expected to be a boolean") },
+                    ParameterType::Float64 => quote! { value as f64 },
+                    ParameterType::Float32 => quote! { value as f32 },
+                    ParameterType::PFloat | ParameterType::Integer | ParameterType::Bool => {
+                        quote! { value }
+                    }
                     ParameterType::Trigger => quote! {},
                 },
                 ParameterArgumentTypes::Ctx => quote! { ctx },
                 ParameterArgumentTypes::Flags => quote! { _flags },
             });
-            quote! { #index => { Self::#fn_name (self, #(#arguments),*); } }
+            let call = quote! { Self::#fn_name (self, #(#arguments),*); };
+            // Values of another kind must not stop the audio thread
+            let (value, kind) = match &p.ty {
+                ParameterType::PFloat | ParameterType::Float64 | ParameterType::Float32 => {
+                    (quote! { _value.float() }, "a float")
+                }
+                ParameterType::Integer => (quote! { _value.integer() }, "an integer"),
+                ParameterType::Bool => (quote! { _value.bool() }, "a boolean"),
+                ParameterType::Trigger => return quote! { #index => { #call } },
+            };
+            let message = format!("Error setting parameter, value is expected to be {kind}. Index: ");
+            quote! {
+                #index => match #value {
+                    Some(value) => { #call }
+                    None => {
+                        #crate_ident::rt_log!(ctx.logger(); #message, _index);
+                    }
+                }
+            }
         })
         .collect::<Vec<_>>();
     let parameter_hints = params
@@ -757,6 +775,7 @@ fn parse_ugen_impl(mut input: ItemImpl) -> syn::Result<proc_macro2::TokenStream>
             ) {
                 if let #crate_ident::ParameterValue::Smoothing(_, _) =_value  {
                     #crate_ident::rt_log!(ctx.logger(); "Error setting parameter smoothing for #struct_name, wrapper does not exist. Index: ", _index);
+                    return;
                 }
                 match _index {
                     #(#parameter_calls),*
-- 
2.43.0


From d49fedfa3f722f78ee661e4d3f7578f76b0cd687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 51/54] fix: UGen::param passes on values of the wrong type

---
 knaster_core/src/parameters/types.rs |  2 +-
 knaster_core/src/ugen.rs             | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/knaster_core/src/parameters/types.rs b/knaster_core/src/parameters/types.rs
index 0dd1c70..cf02898 100644
--- a/knaster_core/src/parameters/types.rs
+++ b/knaster_core/src/parameters/types.rs
@@ -6,7 +6,7 @@ use crate::{PInteger, PIntegerConvertible, Rate, UGen};
 use super::{PFloat, PTrigger};
 
 /// The type of a [`UGen`] parameter
-#[derive(Copy, Clone)]
+#[derive(Copy, Clone, PartialEq, Eq)]
 pub enum ParameterType {
     #[allow(missing_docs)]
     Float,
diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 06319ec..dc1009e 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -359,13 +359,21 @@ pub trait UGen {
                 if i >= Self::Parameters::USIZE {
                     return Err(ParameterError::ParameterIndexOutOfBounds);
                 }
-                self.param_apply(ctx, i, value.into());
+                let value = value.into();
+                if Self::param_types()[i] != value.ty() {
+                    return Err(ParameterError::WrongParameterType);
+                }
+                self.param_apply(ctx, i, value);
                 Ok(())
             }
             Param::Desc(desc) => {
                 for (i, d) in Self::param_descriptions().into_iter().enumerate() {
                     if d == desc {
-                        self.param_apply(ctx, i, value.into());
+                        let value = value.into();
+                        if Self::param_types()[i] != value.ty() {
+                            return Err(ParameterError::WrongParameterType);
+                        }
+                        self.param_apply(ctx, i, value);
                         return Ok(());
                     }
                 }
-- 
2.43.0


From dceb98d7031a6cf7365f14b9d0c72249872d07e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 52/54] fix: handwritten parameters panic on values of the
 wrong kind

---
 knaster_airwindows/src/galactic.rs         | 16 ++++++++++------
 knaster_core_dsp/src/ugens/envelopes.rs    | 13 ++++++++++---
 knaster_core_dsp/src/wrappers_core/math.rs |  6 +++++-
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/knaster_airwindows/src/galactic.rs b/knaster_airwindows/src/galactic.rs
index 7f4f288..4a4d1eb 100644
--- a/knaster_airwindows/src/galactic.rs
+++ b/knaster_airwindows/src/galactic.rs
@@ -121,16 +121,20 @@ impl<F: Float> UGen for Galactic<F> {
 
     fn param_apply(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         index: usize,
         value: knaster_core::ParameterValue,
     ) {
+        let Some(value) = value.f() else {
+            knaster_core::rt_log!(ctx.logger(); "Warning: Galactic parameter set to a value which is not a float, change ignored.");
+            return;
+        };
         match index {
-            Self::REPLACE => self.replace = value.f().unwrap(),
-            Self::DETUNE => self.detune = value.f().unwrap(),
-            Self::BRIGHTNESS => self.brightness = value.f().unwrap(),
-            Self::BIGNESS => self.bigness = value.f().unwrap(),
-            Self::WET => self.wet = value.f().unwrap(),
+            Self::REPLACE => self.replace = value,
+            Self::DETUNE => self.detune = value,
+            Self::BRIGHTNESS => self.brightness = value,
+            Self::BIGNESS => self.bigness = value,
+            Self::WET => self.wet = value,
             _ => (),
         }
     }
diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 7b0fc55..42a2e4c 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -475,13 +475,20 @@ mod alloc_envelopes {
             ]
             .into()
         }
-        fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
+        fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
             match index {
                 0 => {
-                    self.time_scale = F::new(value.float().unwrap()).to_f64();
+                    let Some(time_scale) = value.float() else {
+                        knaster_core::rt_log!(ctx.logger(); "Warning: Envelope time_scale set to a value which is not a float, change ignored.");
+                        return;
+                    };
+                    self.time_scale = F::new(time_scale).to_f64();
                 }
                 1 => {
-                    let mut jump_to_segment = value.integer().unwrap().0;
+                    let Some(PInteger(mut jump_to_segment)) = value.integer() else {
+                        knaster_core::rt_log!(ctx.logger(); "Warning: Envelope jump_to_segment set to a value which is not an integer, change ignored.");
+                        return;
+                    };
                     if self.segments.is_empty() {
                         return;
                     }
diff --git a/knaster_core_dsp/src/wrappers_core/math.rs b/knaster_core_dsp/src/wrappers_core/math.rs
index d9f5c17..7f67c3b 100644
--- a/knaster_core_dsp/src/wrappers_core/math.rs
+++ b/knaster_core_dsp/src/wrappers_core/math.rs
@@ -91,7 +91,11 @@ where
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         if index == T::Parameters::USIZE {
-            self.value = T::Sample::new(value.float().unwrap());
+            if let Some(value) = value.float() {
+                self.value = T::Sample::new(value);
+            } else {
+                knaster_core::rt_log!(ctx.logger(); "Warning: math wrapper set to a value which is not a float, change ignored.");
+            }
         } else {
             T::param_apply(&mut self.ugen, ctx, index, value)
         }
-- 
2.43.0


From a5522fed0f18896a11fc9c4e814e06c677403b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:52 +0000
Subject: [PATCH 53/54] fix: dot output of inspections is invalid for names
 with quotes or ampersands

---
 knaster_graph/src/inspection.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/inspection.rs b/knaster_graph/src/inspection.rs
index c00abda..0c6a886 100644
--- a/knaster_graph/src/inspection.rs
+++ b/knaster_graph/src/inspection.rs
@@ -34,6 +34,12 @@ pub struct GraphInspection {
     pub shared_frame_clock: SharedFrameClock,
 }
 
+/// The quoted name of a node in the dot language
+fn dot_id(index: usize, name: &str) -> String {
+    let name = name.replace('\\', "\\\\").replace('"', "\\\"");
+    format!("\"{index}_{name}\"")
+}
+
 impl GraphInspection {
     /// Create an empty GraphInspection
     // pub fn empty() -> Self {
@@ -107,10 +113,10 @@ impl GraphInspection {
         for (i, node) in self.nodes.iter().enumerate() {
             let color = "black";
             s.push_str(&format!(
-                "\"{i}_{}\" [
+                "{} [
                 style = \"filled\" penwidth = 5 fillcolor = \"white\" shape = \"plain\"
             label=<\n<table border='0' cellborder='1' cellpadding='3'>\n",
-                node.name
+                dot_id(i, &node.name)
             ));
             if node.inputs > 0 {
                 s.push_str("<tr>\n");
@@ -123,8 +129,9 @@ impl GraphInspection {
                 "<tr><td bgcolor='{color}' colspan='{}'><font color='white'>\n",
                 node.inputs.max(node.outputs)
             ));
-            // Can't use < or > inside label names so we replace them with their HTML codes
+            // Can't use &, < or > inside label names so we replace them with their HTML codes
             let name = node.name.clone();
+            let name = name.replace("&", "&#38;");
             let name = name.replace("<", "&#60;");
             let name = name.replace(">", "&#62;");
             s.push_str(&format!("{i}: {name}\n"));
@@ -156,7 +163,7 @@ impl GraphInspection {
                 let source_name = match source {
                     EdgeSource::Node(node_key) => {
                         if let Some(i) = self.nodes.iter().position(|n| n.key == *node_key) {
-                            format!("\"{i}_{}\"", self.nodes[i].name)
+                            dot_id(i, &self.nodes[i].name)
                         } else {
                             log::error!("Node in edge not found: {node_key:?}");
                             continue;
@@ -164,10 +171,10 @@ impl GraphInspection {
                     }
                     EdgeSource::Graph => "graph_in".to_string(),
                 };
-                let node_name = &node.name;
+                let node_name = dot_id(j, &node.name);
 
                 s.push_str(&format!(
-                    "{source_name}:o{from_index} -> \"{j}_{node_name}\":i{to_index}\n"
+                    "{source_name}:o{from_index} -> {node_name}:i{to_index}\n"
                 ));
             }
         }
@@ -181,7 +188,7 @@ impl GraphInspection {
             let source_name = match source {
                 EdgeSource::Node(node_key) => {
                     if let Some(j) = self.nodes.iter().position(|n| n.key == *node_key) {
-                        format!("{j}_{}", self.nodes[j].name)
+                        dot_id(j, &self.nodes[j].name)
                     } else {
                         log::error!("Node in edge not found: {node_key:?}");
                         continue;
@@ -191,7 +198,7 @@ impl GraphInspection {
             };
             let node_name = "graph_out";
             s.push_str(&format!(
-                "\"{source_name}\":o{from_index} -> {node_name}:i{to_index} [penwidth=3] \n"
+                "{source_name}:o{from_index} -> {node_name}:i{to_index} [penwidth=3] \n"
             ));
         }
 
-- 
2.43.0


From 1ee1523228bbbd8d6244d1ea85960e14a1f1b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:59 +0000
Subject: [PATCH 54/54] fix: WrMul passes delays and signals for its own
 parameter on to a unit generator without it

---
 knaster_core_dsp/src/wrappers_core/math.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/math.rs b/knaster_core_dsp/src/wrappers_core/math.rs
index 7f67c3b..52e20e1 100644
--- a/knaster_core_dsp/src/wrappers_core/math.rs
+++ b/knaster_core_dsp/src/wrappers_core/math.rs
@@ -106,13 +106,17 @@ where
         index: usize,
         buffer: *const T::Sample,
     ) {
-        unsafe {
-            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        if index < T::Parameters::USIZE {
+            unsafe {
+                self.ugen.set_ar_param_buffer(ctx, index, buffer);
+            }
         }
     }
     fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
-        self.ugen
-            .set_delay_within_block_for_param(ctx, index, delay);
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
     }
 }
 
-- 
2.43.0

