From 53500b525537381afbad20942826906149b95a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:06 +0000
Subject: [PATCH 01/21] fix: playouts look for the winner in the played-out
 state, not in the starting one

---
 src/mcts/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcts/node.rs b/src/mcts/node.rs
index e3d91a7..598cfed 100644
--- a/src/mcts/node.rs
+++ b/src/mcts/node.rs
@@ -178,7 +178,7 @@ impl <T: LearnableGame> Node<T>{
         let mut curr_state = self.state;
 
         for _ in 0..sim_limit {
-            if let Some(winner) = self.state.check_winner() {
+            if let Some(winner) = curr_state.check_winner() {
                 return if winner == player {1.}
                 else if winner == -player {-1.}
                 else {0.};
-- 
2.43.0


From 35f442e0b1cf68999229759e1aa4ad13804cfd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 02/21] fix: rollout search no longer panics on positions
 without legal moves

---
 src/mcts/simple_mcts.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index d8c2210..42bddc6 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -27,6 +27,10 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             else if winner == -player {-1.}
             else {0.};
             
+            backpropagate(selected_node_idx, value, &mut store)
+        } else if selected_node.is_fully_expanded() {
+            // The player to move has no moves here, the playout goes on by skipping the turn
+            let value = selected_node.simulate(player, mcts_config.simulate_round_limit);
             backpropagate(selected_node_idx, value, &mut store)
         } else {
             let new_node_idx = selected_node.expand(&mut store);
-- 
2.43.0


From cbb6009cb11feef225027e69feeff67a3ff0f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 03/21] fix: batched search only evaluates nodes selected in
 the current iteration

---
 src/mcts/alpha_mcts.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 981da3c..5034ad5 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -138,9 +138,6 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
     */
     let games: HashSet<usize> = HashSet::from_iter(0..states.len());
 
-    // Game id to node idx mapping
-    let mut selected_nodes_idxs = vec![0; states.len()];
-
     let pb = match pb {
         Some(p) => p,
         None => ProgressBar::new(mcts_config.iterations as u64)
@@ -148,7 +145,7 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
 
     for _ in 0..mcts_config.iterations {
         // Clear selected node indices
-        let mut node_selected = false;
+        let mut selected_nodes_idxs = vec![];
         pb.inc(1);
         for &game_idx in games.iter() {
             let idx = alpha_select_leaf_node(game_idx, store, mcts_config.c);
@@ -162,12 +159,11 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                     else {0.};
                 backpropagate(idx, value as f32, store);
             } else {
-                node_selected = true;
-                selected_nodes_idxs[game_idx] = selected_node.idx;
+                selected_nodes_idxs.push(selected_node.idx);
             }
         }
 
-        if !node_selected {
+        if selected_nodes_idxs.is_empty() {
             continue;
         }
             
-- 
2.43.0


From 9234214a433778750ebe16a1be53982235d219ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:24 +0000
Subject: [PATCH 04/21] fix: single-position network search no longer panics on
 its policy shape or at finished leaves

---
 src/mcts/alpha_mcts.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 5034ad5..ae9fe2c 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -37,7 +37,7 @@ pub fn apply_dirichlet_to_root<T: LearnableGame>(root_idx: usize, store: &mut No
     
     let policy = net.forward_policy(&state.as_tensor().to_device(*DEVICE), false);
 
-    let policy_vec = turn_policy_to_probs(&policy, &root_node);
+    let policy_vec = turn_policy_to_probs(&policy.squeeze_dim(0), &root_node);
     root_node.alpha_expand(store, policy_vec);
     if root_node.children.len() < 2 {
         // Don't apply dirichlet on a node with a single child
@@ -69,14 +69,16 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
         let idx = alpha_select_leaf_node(root_node_idx, &store, mcts_config.c);
         let mut selected_node = store.get_node(idx);
 
-        let value = if !selected_node.is_terminal() {
+        let value = if let Some(winner) = selected_node.state.check_winner() {
+            if winner == state.get_player() {1.}
+            else if winner == -state.get_player() {-1.}
+            else {0.}
+        } else {
             let (policy, eval) = net.forward_t(&selected_node.state.as_tensor().to_device(*DEVICE), false);
 
-            let policy_vec = turn_policy_to_probs(&policy, &selected_node);
+            let policy_vec = turn_policy_to_probs(&policy.squeeze_dim(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
             eval.double_value(&[0]) as f32
-        } else {
-            ((state.check_winner().unwrap() + 1) / 2) as f32
         };
 
         backpropagate(idx, value, &mut store);
-- 
2.43.0


From 8db2b92558adae157c0dba3fd5368f1c33d603fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 05/21] fix: self-play stops a game at the round limit instead
 of playing on and recording it again

---
 src/alphazero/alpha_parallel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index b47783e..64e246c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -177,6 +177,7 @@ impl AlphaZero {
                     });
                     all_memories.extend(curr_memory);
                     states_to_remove.push(*init_idx);
+                    continue;
                 }
 
                 // If prob tensor of the current state is all zeros then skip turn, has_children check just in case
-- 
2.43.0


From 17c9ddec08277eab86ddf07bd46a591fabde9024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 06/21] fix: drawn self-play games are labelled as draws, not
 as losses

---
 src/alphazero/alpha_no_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 5478b59..f22d2c7 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -73,7 +73,7 @@ impl AlphaZero {
                 return memory
                     .iter()
                     .map(|mem| MemoryFragment {
-                        outcome: if mem.outcome == winner { 1 } else { -1 },
+                        outcome: if winner == mem.outcome { 1 } else if winner == -mem.outcome { -1 } else { 0 },
                         ps: mem.ps.shallow_clone(),
                         state: mem.state.shallow_clone(),
                     })
-- 
2.43.0


From 7549451e1e4e38b0e3f2ade3f029d16392e579ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 07/21] fix: opposing checkers no longer hide own checkers that
 stand farther when bearing off with a larger die

---
 src/backgammon/backgammon_logic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 51227fd..5a8fe62 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -571,8 +571,8 @@ impl Backgammon {
                 for m_idx in (0..point).rev() {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[m_idx_usize + 1..6].iter().sum();
-                    if n_pieces_on_point < 0 && left_sum >= 0 {
+                    let none_farther = board[m_idx_usize + 1..6].iter().all(|&n| n >= 0);
+                    if n_pieces_on_point < 0 && none_farther {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
@@ -588,8 +588,8 @@ impl Backgammon {
                 for m_idx in point..=23 {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[18..m_idx_usize].iter().sum();
-                    if n_pieces_on_point > 0 && left_sum <= 0 {
+                    let none_farther = board[18..m_idx_usize].iter().all(|&n| n <= 0);
+                    if n_pieces_on_point > 0 && none_farther {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
-- 
2.43.0


From dd45deb754913b997651e0e16472f1810b070296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 08/21] fix: only plays that use as many dice as possible are
 valid

---
 src/backgammon/backgammon_logic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 5a8fe62..ab2c068 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -409,7 +409,10 @@ impl LearnableGame for Backgammon {
         };
         let action_trees = Self::_get_action_trees(&all_moves, self.board, self.player);
         // parse trees into actions here
-        let actions = Self::extract_sequences_list(action_trees);
+        let mut actions = Self::extract_sequences_list(action_trees);
+        // As many dice as possible have to be played
+        let max_len = actions.iter().map(|sequence| sequence.len()).max().unwrap_or(0);
+        actions.retain(|sequence| sequence.len() == max_len);
         Self::remove_duplicate_states(self.board, actions, self.player)
     }
 }
-- 
2.43.0


From f316913883000fbbd9a9e43e16f07b28071d6146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 09/21] fix: given and best models are really loaded, into the
 network's variables

---
 src/alphazero/alphazero.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index a49edcc..2465142 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -79,19 +79,20 @@ torch.optim.Adam(params, lr=0.001, betas=(0.9, 0.999), eps=1e-08, weight_decay=0
 
 impl AlphaZero {
     pub fn new<T: LearnableGame>(model_path: Option<PathBuf>, config: AlphaZeroConfig, mcts_config: MctsConfig, op: OptimizerParams) -> Self {
-        let mut vs = nn::VarStore::new(*DEVICE);
+        // The variables must exist before weights can be loaded into them
+        let mut model = ResNet::new::<T>(nn::VarStore::new(*DEVICE));
 
         println!("Initializing AlphaZero...\nDevice: {:?}\n{:?}\n{:?}", *DEVICE, &config, mcts_config);
 
         match model_path {
-            Some(m_path) => match vs.load(&m_path) {
+            Some(m_path) => match model.vs.load(&m_path) {
                 Ok(_) => println!("Successfully loaded model on path: {}", m_path.to_str().unwrap()),
                 Err(e) => panic!("failed to load model: (might be a large error log) \n{}", e),
             },
             None if Path::new(&format!("./models/{}/best_model.ot", T::name())).exists() => {
                 let m_path_str = format!("./models/{}/best_model.ot", T::name());
                 let bm_path = Path::new(&m_path_str);
-                match vs.load(bm_path) {
+                match model.vs.load(bm_path) {
                     Ok(_) => println!("Successfully loaded best model"),
                     Err(e) => panic!("failed to load best model: {}", e),
                 }
@@ -99,10 +100,10 @@ impl AlphaZero {
             None => println!("No best model found, initialized from scratch")
         }
 
-        let opt = Adam::default().wd(op.wd).build(&vs, op.lr).unwrap();
+        let opt = Adam::default().wd(op.wd).build(&model.vs, op.lr).unwrap();
 
         AlphaZero {
-            model: ResNet::new::<T>(vs),
+            model,
             optimizer: opt,
             config,
             mcts_config,
-- 
2.43.0


From 381a19dee9bd25eed57bd256467d6dae00ec3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 10/21] fix: training data holding a single sample loads back
 with its shape

---
 src/alphazero/alphazero.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 2465142..0c28250 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -186,15 +186,15 @@ impl AlphaZero {
         if !path.exists() {
             panic!("path: {} does not exist!", path.to_str().unwrap())
         }
-        let ps = Tensor::load(path.join("ps.ot")).unwrap().squeeze();
-        let states = Tensor::load(path.join("states.ot")).unwrap().squeeze();
-        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap().squeeze();
+        let ps = Tensor::load(path.join("ps.ot")).unwrap();
+        let states = Tensor::load(path.join("states.ot")).unwrap();
+        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap();
 
         let data_size = ps.size()[0];
         (0..data_size).map(|data_idx| {
             MemoryFragment {
                 outcome: outcomes.get(data_idx).int64_value(&[]) as i8,
-                ps: ps.get(data_idx).squeeze().shallow_clone(),
+                ps: ps.get(data_idx).shallow_clone(),
                 state: states.get(data_idx).shallow_clone(),
             }
         }).collect_vec()
-- 
2.43.0


From 780d0f8403b70a8db1e77992a48e52ee7e7361c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 11/21] fix: each self-play data set holds only its own
 iteration's samples

---
 src/alphazero/alpha_parallel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 64e246c..e81919c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -50,7 +50,6 @@ impl AlphaZero {
                 pb_self_play.set_message(format!("Self-play iteration #{}", sp_i + 1));
 
                 let mut res = self.self_play_parallel::<T>();
-                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Saving training data... Self-play iteration #{}",
                     sp_i + 1
@@ -59,7 +58,8 @@ impl AlphaZero {
                 // Make self play dir
                 let sp_dir_path = format!("{}/sp-{}", &lrn_path, sp_i);
                 let _ = fs::create_dir(&sp_dir_path);
-                self.save_training_data(&memory, Path::new(&sp_dir_path));
+                self.save_training_data(&res, Path::new(&sp_dir_path));
+                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Self-play iteration #{} complete, saved training data",
                     sp_i + 1
-- 
2.43.0


From 187bbd5d78b91feffb2fa579c30adb695827278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 12/21] fix: train finds the data of a single self-play
 iteration and of runs with 'sp' in their id

---
 src/main.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 66eda67..3e88461 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -217,14 +217,13 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
 
 fn get_all_paths_rec(dir: &Path, res: &mut Vec<PathBuf>) -> io::Result<()> {
     if dir.is_dir() {
+        // Only the self-play directories hold data, run ids may contain any characters
+        if dir.file_name().unwrap().to_str().unwrap().starts_with("sp-") {
+            res.push(dir.to_path_buf());
+            return Ok(());
+        }
         for entry in fs::read_dir(dir)? {
-            let entry = entry?;
-            let path = entry.path();
-            if path.file_name().unwrap().to_str().unwrap().contains("sp") {
-                res.push(path);
-            } else {
-                get_all_paths_rec(&path, res)?;
-            }
+            get_all_paths_rec(&entry?.path(), res)?;
         }
     }
     Ok(())
-- 
2.43.0


From c9c5cc19370f86d88fe21a3464c18c25bcdc7df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 13/21] fix: network evaluations of the opponent's positions
 are credited with the opposite sign

---
 src/mcts/alpha_mcts.rs | 8 ++++++--
 src/mcts/node_store.rs | 9 +++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index ae9fe2c..6ffefe0 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -78,7 +78,9 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
 
             let policy_vec = turn_policy_to_probs(&policy.squeeze_dim(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
-            eval.double_value(&[0]) as f32
+            // The network rates positions for the side to move, values are kept for the root's side
+            let eval = eval.double_value(&[0]) as f32;
+            if selected_node.state.get_player() == state.get_player() {eval} else {-eval}
         };
 
         backpropagate(idx, value, &mut store);
@@ -193,7 +195,9 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
             let prob_tensor = turn_policy_to_probs_tensor(&policy_i, &node);
             // Expand selected node
             node.alpha_expand_tensor(store, &prob_tensor);
-            let value = eval_i.double_value(&[0]) as f32;
+            // The network rates positions for the side to move, values are kept for the root's side
+            let eval = eval_i.double_value(&[0]) as f32;
+            let value = if node.state.get_player() == store.get_root_player(node_idx) {eval} else {-eval};
             backpropagate(node.idx, value, store);
         }
     }
diff --git a/src/mcts/node_store.rs b/src/mcts/node_store.rs
index ec7c9ad..2f1ba03 100644
--- a/src/mcts/node_store.rs
+++ b/src/mcts/node_store.rs
@@ -60,6 +60,15 @@ impl <T: LearnableGame> NodeStore<T> {
         &mut self.nodes[idx]
     }
 
+    // The player the tree of the node is searched for, i.e. the side to move at its root
+    pub fn get_root_player(&self, idx: usize) -> i8 {
+        let node = self.get_node_ref(idx);
+        match node.parent {
+            Some(parent_idx) => self.get_root_player(parent_idx),
+            None => node.state.get_player(),
+        }
+    }
+
     pub fn is_empty(&self) -> bool {
         self.nodes.is_empty()
     }
-- 
2.43.0


From b6e3ad989b4d978765bddddcd7f93baa2b488910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 14/21] fix: search lets the opponent choose the moves that are
 best for the opponent

---
 src/mcts/node.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mcts/node.rs b/src/mcts/node.rs
index 598cfed..ee4099b 100644
--- a/src/mcts/node.rs
+++ b/src/mcts/node.rs
@@ -87,7 +87,7 @@ impl <T: LearnableGame> Node<T>{
         match self.parent {
             Some(parent_idx) => {
                 let parent = store.get_node(parent_idx);
-                let exploitation = self.value / self.visits;
+                let exploitation = self.perspective(store, &parent) * self.value / self.visits;
                 let exploration = (c * parent.visits.ln() / self.visits).sqrt();
                 exploitation + exploration
             }
@@ -104,13 +104,18 @@ impl <T: LearnableGame> Node<T>{
         match self.parent {
             Some(parent_idx) => {
                 let parent = store.get_node(parent_idx);
-                q_value
+                self.perspective(store, &parent) * q_value
                     + (c * parent.visits.sqrt().div(self.visits + 1.0)) * self.policy
             }
             None => f32::INFINITY,
         }
     }
 
+    // Values are kept for the root's side, the opponent looks for the child that is worst for it
+    fn perspective(&self, store: &NodeStore<T>, parent: &Node<T>) -> f32 {
+        if parent.state.get_player() == store.get_root_player(self.idx) {1.} else {-1.}
+    }
+
     pub fn win_pct(&self) -> f32 {
         self.value.div(self.visits)
     }
-- 
2.43.0


From 3b18f11d6421f0d85b247a1ae35b9110e4c4298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 15/21] fix: a match game that passes on its last permitted
 round ends there too

---
 src/versus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/versus.rs b/src/versus.rs
index 38edd1f..b80b0b9 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -222,11 +222,10 @@ pub fn play<T: LearnableGame>(player1: Player, player2: Player, mcts_config: &Mc
 
             if action.eq(&T::EMPTY_MOVE) {
                 game_mut.skip_turn();
-                continue;
+            } else {
+                assert!(game_mut.get_valid_moves().contains(action));
+                game_mut.apply_move(action);
             }
-            assert!(game_mut.get_valid_moves().contains(action));
-
-            game_mut.apply_move(action);
 
             let winner = match game_mut.check_winner() {
                 Some(winner) => Some(winner),
-- 
2.43.0


From d90de3f4bb15e5da394ee9e6c0de789d76574a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 16/21] fix: self-play policy targets are the search's
 distribution, not its unnormalised powers

---
 src/alphazero/alpha_no_parallel.rs | 4 ++--
 src/alphazero/alpha_parallel.rs    | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index f22d2c7..8089363 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -44,7 +44,7 @@ impl AlphaZero {
         loop {
             println!("{}", state.to_pretty_str());
             // Get probabilities from mcts
-            let mut pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
+            let pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
                 Some(pi) => pi,
                 None => {
                     state.skip_turn();
@@ -53,7 +53,7 @@ impl AlphaZero {
             };
 
             // Apply temperature to pi
-            let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
+            let temperatured_pi = pi.pow_tensor_scalar(1.0 / self.config.temperature);
             // Select an action from probabilities
             let selected_action = Self::weighted_select_tensor_idx(&temperatured_pi);
 
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index e81919c..afe4107 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -162,7 +162,6 @@ impl AlphaZero {
                 .map(|i| store.get_node_ref(i))
                 .collect_vec();
             let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / self.config.temperature) // Apply temperature
                 .to_device(tch::Device::Cpu); // Move to CPU for faster access
 
             for (processed_idx, (init_idx, state)) in states.values_mut().enumerate() {
@@ -189,8 +188,10 @@ impl AlphaZero {
                     continue;
                 }
 
+                // Apply temperature to the selection only, the training target stays the search's distribution
+                let temperatured_probs = curr_prob_tensor.pow_tensor_scalar(1.0 / self.config.temperature);
                 // Select an action from probabilities
-                let selected_action = Self::weighted_select_tensor_idx(&curr_prob_tensor);
+                let selected_action = Self::weighted_select_tensor_idx(&temperatured_probs);
 
                 // Save results to memory
                 memories[*init_idx].push(MemoryFragment {
-- 
2.43.0


From 356939aadef5acaa52edee62fc6c1e23796e3ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 17/21] fix: learning creates the folder its models are saved
 to

---
 src/alphazero/alpha_no_parallel.rs | 1 +
 src/alphazero/alpha_parallel.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 8089363..33eca19 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -6,6 +6,7 @@ use super::alphazero::{AlphaZero, MemoryFragment};
 
 impl AlphaZero {
     pub fn learn<T: LearnableGame>(&mut self) {
+        let _ = std::fs::create_dir_all(format!("./models/{}", T::name()));
         for i in 0..self.config.learn_iterations {
             let mut memory: Vec<MemoryFragment> = vec![];
             for _ in 0..self.config.self_play_iterations {
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index afe4107..7ed81f5 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -19,6 +19,7 @@ impl AlphaZero {
         let runpath_base = format!("./data/{}/run-{}", &T::name(), &run_id);
         println!("Staring up run with run_id: {}", &run_id);
         let _ = fs::create_dir_all(&runpath_base);
+        let _ = fs::create_dir_all(format!("./models/{}", &T::name()));
         let sty = ProgressStyle::with_template(
             "[{elapsed_precise}] {bar:40.cyan/blue} {pos:>7}/{len:7} {msg}",
         )
-- 
2.43.0


From ca9bb20c2e2eccc0f6f78fd6b7858986f20c7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 18/21] fix: low temperatures no longer underflow every move
 probability to zero

---
 src/alphazero/alpha_no_parallel.rs | 4 ++--
 src/alphazero/alpha_parallel.rs    | 4 ++--
 src/alphazero/alphazero.rs         | 6 +++---
 src/mcts/utils.rs                  | 8 ++++++++
 src/versus.rs                      | 5 ++---
 5 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 33eca19..d88de92 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -1,5 +1,5 @@
 use crate::{
-    base::LearnableGame, mcts::alpha_mcts::alpha_mcts,
+    base::LearnableGame, mcts::{alpha_mcts::alpha_mcts, utils::apply_temperature},
 };
 
 use super::alphazero::{AlphaZero, MemoryFragment};
@@ -54,7 +54,7 @@ impl AlphaZero {
             };
 
             // Apply temperature to pi
-            let temperatured_pi = pi.pow_tensor_scalar(1.0 / self.config.temperature);
+            let temperatured_pi = apply_temperature(&pi, self.config.temperature);
             // Select an action from probabilities
             let selected_action = Self::weighted_select_tensor_idx(&temperatured_pi);
 
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 7ed81f5..45a001e 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -6,7 +6,7 @@ use itertools::Itertools;
 use crate::{
     base::LearnableGame,
     mcts::{
-        alpha_mcts::alpha_mcts_parallel, node_store::NodeStore, utils::get_prob_tensor_parallel,
+        alpha_mcts::alpha_mcts_parallel, node_store::NodeStore, utils::{apply_temperature, get_prob_tensor_parallel},
     },
 };
 
@@ -190,7 +190,7 @@ impl AlphaZero {
                 }
 
                 // Apply temperature to the selection only, the training target stays the search's distribution
-                let temperatured_probs = curr_prob_tensor.pow_tensor_scalar(1.0 / self.config.temperature);
+                let temperatured_probs = apply_temperature(&curr_prob_tensor, self.config.temperature);
                 // Select an action from probabilities
                 let selected_action = Self::weighted_select_tensor_idx(&temperatured_probs);
 
diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 0c28250..19c8d6e 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -18,7 +18,7 @@ use super::nnet::ResNet;
 
 use crate::{
     constants::{DEFAULT_TYPE, DEVICE},
-    mcts::alpha_mcts::alpha_mcts, MctsConfig, base::LearnableGame,
+    mcts::{alpha_mcts::alpha_mcts, utils::apply_temperature}, MctsConfig, base::LearnableGame,
 };
 
 #[derive(Debug)]
@@ -138,11 +138,11 @@ impl AlphaZero {
     }
 
     pub fn get_next_move_for_state<T: LearnableGame>(&self, current_state: &T) -> T::Move {
-        let mut pi = match alpha_mcts(current_state, &self.model, &self.mcts_config) {
+        let pi = match alpha_mcts(current_state, &self.model, &self.mcts_config) {
             Some(pi) => pi,
             None => return T::EMPTY_MOVE
         };
-        let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
+        let temperatured_pi = apply_temperature(&pi, self.config.temperature);
         let selected_action = AlphaZero::weighted_select_tensor_idx(&temperatured_pi);
         current_state.decode(selected_action as u32)
     }
diff --git a/src/mcts/utils.rs b/src/mcts/utils.rs
index 961c197..6b9e6e2 100644
--- a/src/mcts/utils.rs
+++ b/src/mcts/utils.rs
@@ -101,3 +101,11 @@ pub fn turn_policy_to_probs<T: LearnableGame>(policy: &Tensor, node: &Node<T>) -
 
     values
 }
+
+/**
+ * Raises move probabilities to the power 1 / temperature, relative to the largest probability of their row
+ * so that low temperatures never underflow all of them to zero
+ */
+pub fn apply_temperature(probs: &Tensor, temperature: f64) -> Tensor {
+    probs.divide(&probs.amax(-1, true)).pow_tensor_scalar(1.0 / temperature)
+}
diff --git a/src/versus.rs b/src/versus.rs
index b80b0b9..5b22ca5 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -6,7 +6,7 @@ use rayon::prelude::{IntoParallelRefIterator, ParallelIterator};
 use serde::{Serialize, Deserialize};
 use nanoid::nanoid;
 
-use crate::{mcts::{simple_mcts::mct_search, utils::get_prob_tensor_parallel, alpha_mcts::alpha_mcts_parallel, node_store::NodeStore}, alphazero::{alphazero::AlphaZero, nnet::ResNet}, MctsConfig, base::LearnableGame};
+use crate::{mcts::{simple_mcts::mct_search, utils::{apply_temperature, get_prob_tensor_parallel}, alpha_mcts::alpha_mcts_parallel, node_store::NodeStore}, alphazero::{alphazero::AlphaZero, nnet::ResNet}, MctsConfig, base::LearnableGame};
 
 
 /*
@@ -277,8 +277,7 @@ fn get_actions_for_player<T: LearnableGame>(player: &Player, games: &[T], mcts_c
             let mut store = NodeStore::new();
             alpha_mcts_parallel(&mut store, games, model, mcts_config, Some(ProgressBar::hidden()));
             let roots = store.get_root_nodes();
-            let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / temp)
+            let prob_tensor = apply_temperature(&get_prob_tensor_parallel(&roots, &store), temp)
                 .to_device(tch::Device::Cpu);
 
             roots
-- 
2.43.0


From 3bce35a11aa7b23dd2b5fb9b1ade20ddaa4ce262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 19/21] verif feature: observer of search trees

---
 Cargo.toml             |  4 ++++
 src/lib.rs             |  2 ++
 src/mcts/node_store.rs |  5 ++++
 src/verif.rs           | 53 ++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 64 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/Cargo.toml b/Cargo.toml
index 616a4c6..e298e06 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -21,6 +21,10 @@ clap = { version = "4.4.5", features = ["derive"] }
 config = "0.13.1"
 num_cpus = "1.0"
 
+[features]
+# Lets verification harnesses watch searches from the outside, see src/verif.rs
+verif = []
+
 [dev-dependencies]
 criterion = { version = "0.4", features = ["html_reports"] }
 proptest = "1.0"
diff --git a/src/lib.rs b/src/lib.rs
index 6599d0a..0e12a97 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,8 @@ pub mod mcts;
 pub mod versus;
 pub mod base;
 pub mod tictactoe;
+#[cfg(feature = "verif")]
+pub mod verif;
 
 /*
 
diff --git a/src/mcts/node_store.rs b/src/mcts/node_store.rs
index 2f1ba03..2750765 100644
--- a/src/mcts/node_store.rs
+++ b/src/mcts/node_store.rs
@@ -60,6 +60,11 @@ impl <T: LearnableGame> NodeStore<T> {
         &mut self.nodes[idx]
     }
 
+    #[cfg(feature = "verif")]
+    pub fn len(&self) -> usize {
+        self.nodes.len()
+    }
+
     // The player the tree of the node is searched for, i.e. the side to move at its root
     pub fn get_root_player(&self, idx: usize) -> i8 {
         let node = self.get_node_ref(idx);
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..f1e55f4
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,53 @@
+//! Only built with the `verif` feature: hands every state of a search tree to an observer.
+
+use std::cell::RefCell;
+
+use crate::{base::LearnableGame, mcts::node_store::NodeStore};
+
+/// One node of a search tree, moves and states in their serialized form
+#[derive(Debug, Clone)]
+pub struct NodeView {
+    pub state: serde_json::Value,
+    pub parent: Option<usize>,
+    pub children: Vec<usize>,
+    pub visits: f32,
+    pub value: f32,
+    pub policy: f32,
+    pub action_taken: Option<serde_json::Value>,
+    pub expandable_moves: Vec<serde_json::Value>,
+}
+
+thread_local! {
+    static LOG: RefCell<Option<Vec<Vec<NodeView>>>> = const { RefCell::new(None) };
+}
+
+/// Starts recording the searches of this thread
+pub fn start() {
+    LOG.with(|log| *log.borrow_mut() = Some(vec![]));
+}
+
+/// Stops recording, returns the trees in the order they were seen
+pub fn take() -> Vec<Vec<NodeView>> {
+    LOG.with(|log| log.borrow_mut().take()).unwrap_or_default()
+}
+
+/// Called with the whole store before each iteration and after the last one
+pub fn search_step<T: LearnableGame>(store: &NodeStore<T>) {
+    LOG.with(|log| {
+        if let Some(log) = log.borrow_mut().as_mut() {
+            log.push((0..store.len()).map(|idx| {
+                let node = store.get_node_ref(idx);
+                NodeView {
+                    state: serde_json::to_value(node.state).unwrap(),
+                    parent: node.parent,
+                    children: node.children.clone(),
+                    visits: node.visits,
+                    value: node.value,
+                    policy: node.policy,
+                    action_taken: node.action_taken.as_ref().map(|m| serde_json::to_value(m).unwrap()),
+                    expandable_moves: node.expandable_moves.iter().map(|m| serde_json::to_value(m).unwrap()).collect(),
+                }
+            }).collect());
+        }
+    });
+}
-- 
2.43.0


From b82daff547902266647fe44df830363f00d4b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 20/21] verif feature: show search trees before each iteration
 and at the end

---
 src/mcts/alpha_mcts.rs  | 8 ++++++++
 src/mcts/simple_mcts.rs | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 6ffefe0..e233fbc 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -65,6 +65,8 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
     
     let pb_iter = (0..mcts_config.iterations).progress().with_message("AlphaMCTS");
     for _ in pb_iter {
+        #[cfg(feature = "verif")]
+        crate::verif::search_step(&store);
         // Don't forget to save the node later into the store
         let idx = alpha_select_leaf_node(root_node_idx, &store, mcts_config.c);
         let mut selected_node = store.get_node(idx);
@@ -85,6 +87,8 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
 
         backpropagate(idx, value, &mut store);
     }
+    #[cfg(feature = "verif")]
+    crate::verif::search_step(&store);
     get_prob_tensor(state, root_node_idx, &store)
 }
 
@@ -148,6 +152,8 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
     };
 
     for _ in 0..mcts_config.iterations {
+        #[cfg(feature = "verif")]
+        crate::verif::search_step(store);
         // Clear selected node indices
         let mut selected_nodes_idxs = vec![];
         pb.inc(1);
@@ -201,4 +207,6 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
             backpropagate(node.idx, value, store);
         }
     }
+    #[cfg(feature = "verif")]
+    crate::verif::search_step(store);
 }
diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index 42bddc6..edbc813 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -18,6 +18,8 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
     // let pb_iter = .progress().with_message("MCTS");
 
     for _ in 0..mcts_config.iterations {
+        #[cfg(feature = "verif")]
+        crate::verif::search_step(&store);
         // Don't forget to save the node later into the store
         let selected_node_idx = select_leaf_node(root_node_idx, &store, mcts_config.c);
         let mut selected_node = store.get_node(selected_node_idx);
@@ -39,6 +41,8 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             backpropagate(new_node_idx, value, &mut store)
         }
     }
+    #[cfg(feature = "verif")]
+    crate::verif::search_step(&store);
     select_most_visits(root_node_idx, &store)
 }
 
-- 
2.43.0


From 1f228048265f8e097632a1cb324602cfe9d9d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:41 +0000
Subject: [PATCH 21/21] verif feature: leave only the last tree of a search if
 asked

---
 src/verif.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/verif.rs b/src/verif.rs
index f1e55f4..31f53f7 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,6 +1,6 @@
 //! Only built with the `verif` feature: hands every state of a search tree to an observer.
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use crate::{base::LearnableGame, mcts::node_store::NodeStore};
 
@@ -19,13 +19,21 @@ pub struct NodeView {
 
 thread_local! {
     static LOG: RefCell<Option<Vec<Vec<NodeView>>>> = const { RefCell::new(None) };
+    static ONLY_LAST: Cell<bool> = const { Cell::new(false) };
 }
 
 /// Starts recording the searches of this thread
 pub fn start() {
+    ONLY_LAST.with(|last| last.set(false));
     LOG.with(|log| *log.borrow_mut() = Some(vec![]));
 }
 
+/// Starts recording, but leaves only the last tree of those seen filled
+pub fn start_last() {
+    start();
+    ONLY_LAST.with(|last| last.set(true));
+}
+
 /// Stops recording, returns the trees in the order they were seen
 pub fn take() -> Vec<Vec<NodeView>> {
     LOG.with(|log| log.borrow_mut().take()).unwrap_or_default()
@@ -35,6 +43,11 @@ pub fn take() -> Vec<Vec<NodeView>> {
 pub fn search_step<T: LearnableGame>(store: &NodeStore<T>) {
     LOG.with(|log| {
         if let Some(log) = log.borrow_mut().as_mut() {
+            if ONLY_LAST.with(|last| last.get()) {
+                if let Some(seen) = log.last_mut() {
+                    *seen = vec![];
+                }
+            }
             log.push((0..store.len()).map(|idx| {
                 let node = store.get_node_ref(idx);
                 NodeView {
-- 
2.43.0

