From 165ad384d856f01bbe660ead78b2b6d15ffad693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 01/30] fix: opponent checkers in the home board let illegal
 bear-offs through

---
 src/backgammon/backgammon_logic.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 51227fd..4d1db7f 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -571,8 +571,9 @@ impl Backgammon {
                 for m_idx in (0..point).rev() {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[m_idx_usize + 1..6].iter().sum();
-                    if n_pieces_on_point < 0 && left_sum >= 0 {
+                    // opponent checkers standing on the higher points must not hide our own
+                    let higher_points_empty = board[m_idx_usize + 1..6].iter().all(|&n| n >= 0);
+                    if n_pieces_on_point < 0 && higher_points_empty {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
@@ -588,8 +589,8 @@ impl Backgammon {
                 for m_idx in point..=23 {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[18..m_idx_usize].iter().sum();
-                    if n_pieces_on_point > 0 && left_sum <= 0 {
+                    let higher_points_empty = board[18..m_idx_usize].iter().all(|&n| n <= 0);
+                    if n_pieces_on_point > 0 && higher_points_empty {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
-- 
2.43.0


From 595a2510d2b46d6a62f8c1d0620e1406ad4f64bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 02/30] fix: a play has to use as many of the dice as possible

---
 src/backgammon/backgammon_logic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 4d1db7f..2a395fb 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -409,7 +409,10 @@ impl LearnableGame for Backgammon {
         };
         let action_trees = Self::_get_action_trees(&all_moves, self.board, self.player);
         // parse trees into actions here
-        let actions = Self::extract_sequences_list(action_trees);
+        let mut actions = Self::extract_sequences_list(action_trees);
+        // As many of the dice as possible have to be used
+        let most_dice_used = actions.iter().map(|a| a.len()).max().unwrap_or(0);
+        actions.retain(|a| a.len() == most_dice_used);
         Self::remove_duplicate_states(self.board, actions, self.player)
     }
 }
-- 
2.43.0


From c6320de2a87cf08835c200a4677d583cd95aa443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 03/30] fix: a search iteration evaluates only the positions
 selected in it

---
 src/mcts/alpha_mcts.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 981da3c..2e35875 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -121,6 +121,11 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
         let mut root = store.get_node(i);
 
         root.visits = 1.;
+        // A finished game has nothing to expand
+        if root.is_terminal() {
+            store.set_node(&root);
+            continue;
+        }
         // let prob_tensor = turn_policy_to_probs_tensor(&policy_dir.get(i as i64), &root);
         // Expand root
         root.alpha_expand_tensor(store, &prob_tensor.get(i as i64));
@@ -132,14 +137,14 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                 - values ranging from 0 to N_SELF_PLAY_BATCHES
                 - used to track how many games are still not completed
             - Selected_nodes:
-                - N_SELF_PLAY_BATCHES node values
-                - selected_nodes[i] refers to the node that was last selected for game[i]
+                - the nodes selected in the current iteration, one for every game
+                  whose line of play didn't end in a finished game
 
     */
     let games: HashSet<usize> = HashSet::from_iter(0..states.len());
 
-    // Game id to node idx mapping
-    let mut selected_nodes_idxs = vec![0; states.len()];
+    // Nodes waiting to be evaluated in the current iteration
+    let mut selected_nodes_idxs: Vec<usize> = Vec::with_capacity(states.len());
 
     let pb = match pb {
         Some(p) => p,
@@ -148,7 +153,7 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
 
     for _ in 0..mcts_config.iterations {
         // Clear selected node indices
-        let mut node_selected = false;
+        selected_nodes_idxs.clear();
         pb.inc(1);
         for &game_idx in games.iter() {
             let idx = alpha_select_leaf_node(game_idx, store, mcts_config.c);
@@ -162,12 +167,11 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                     else {0.};
                 backpropagate(idx, value as f32, store);
             } else {
-                node_selected = true;
-                selected_nodes_idxs[game_idx] = selected_node.idx;
+                selected_nodes_idxs.push(selected_node.idx);
             }
         }
 
-        if !node_selected {
+        if selected_nodes_idxs.is_empty() {
             continue;
         }
             
-- 
2.43.0


From 5b6c1f354ec4af9f815c00ce52cee2fe0d752d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 04/30] fix: rollouts look for the winner of the position they
 reached

---
 src/mcts/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcts/node.rs b/src/mcts/node.rs
index e3d91a7..598cfed 100644
--- a/src/mcts/node.rs
+++ b/src/mcts/node.rs
@@ -178,7 +178,7 @@ impl <T: LearnableGame> Node<T>{
         let mut curr_state = self.state;
 
         for _ in 0..sim_limit {
-            if let Some(winner) = self.state.check_winner() {
+            if let Some(winner) = curr_state.check_winner() {
                 return if winner == player {1.}
                 else if winner == -player {-1.}
                 else {0.};
-- 
2.43.0


From 8d97e09a8f8783d1a02bf35ca1eab792cdeca365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 05/30] fix: MCTS goes on when a player has no moves

---
 src/mcts/simple_mcts.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index d8c2210..f8172f5 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -29,7 +29,12 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             
             backpropagate(selected_node_idx, value, &mut store)
         } else {
-            let new_node_idx = selected_node.expand(&mut store);
+            // The player may have no moves to expand and has to pass
+            let new_node_idx = if selected_node.is_fully_expanded() {
+                selected_node_idx
+            } else {
+                selected_node.expand(&mut store)
+            };
             let new_node = store.get_node(new_node_idx);
             let value = new_node.simulate(player, mcts_config.simulate_round_limit);
             backpropagate(new_node_idx, value, &mut store)
-- 
2.43.0


From 808e6b925bb710ea46b37cff3d4dfee3db9e2ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 06/30] fix: the single-game search reads its network's output
 and scores endings by their winner

---
 src/mcts/alpha_mcts.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 2e35875..f16bf8e 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -37,7 +37,7 @@ pub fn apply_dirichlet_to_root<T: LearnableGame>(root_idx: usize, store: &mut No
     
     let policy = net.forward_policy(&state.as_tensor().to_device(*DEVICE), false);
 
-    let policy_vec = turn_policy_to_probs(&policy, &root_node);
+    let policy_vec = turn_policy_to_probs(&policy.squeeze_dim(0), &root_node);
     root_node.alpha_expand(store, policy_vec);
     if root_node.children.len() < 2 {
         // Don't apply dirichlet on a node with a single child
@@ -69,14 +69,17 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
         let idx = alpha_select_leaf_node(root_node_idx, &store, mcts_config.c);
         let mut selected_node = store.get_node(idx);
 
-        let value = if !selected_node.is_terminal() {
+        let value = if let Some(winner) = selected_node.state.check_winner() {
+            let root_player = state.get_player();
+            if winner == root_player {1.}
+            else if winner == -root_player {-1.}
+            else {0.}
+        } else {
             let (policy, eval) = net.forward_t(&selected_node.state.as_tensor().to_device(*DEVICE), false);
 
-            let policy_vec = turn_policy_to_probs(&policy, &selected_node);
+            let policy_vec = turn_policy_to_probs(&policy.squeeze_dim(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
-            eval.double_value(&[0]) as f32
-        } else {
-            ((state.check_winner().unwrap() + 1) / 2) as f32
+            eval.double_value(&[0, 0]) as f32
         };
 
         backpropagate(idx, value, &mut store);
-- 
2.43.0


From 160ac5ddb6c3e5e7dd6e3ca71d9ad75caa1e8f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 07/30] fix: single-game self-play labels drawn games 0

---
 src/alphazero/alpha_no_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 5478b59..248ea1d 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -73,7 +73,7 @@ impl AlphaZero {
                 return memory
                     .iter()
                     .map(|mem| MemoryFragment {
-                        outcome: if mem.outcome == winner { 1 } else { -1 },
+                        outcome: if mem.outcome == winner { 1 } else if mem.outcome == -winner { -1 } else { 0 },
                         ps: mem.ps.shallow_clone(),
                         state: mem.state.shallow_clone(),
                     })
-- 
2.43.0


From 0dcfb99a67589156be042702bf0b21eb5c4673cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:30 +0000
Subject: [PATCH 08/30] fix: a self-play game cut at the round limit makes no
 further move

---
 src/alphazero/alpha_parallel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index b47783e..64e246c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -177,6 +177,7 @@ impl AlphaZero {
                     });
                     all_memories.extend(curr_memory);
                     states_to_remove.push(*init_idx);
+                    continue;
                 }
 
                 // If prob tensor of the current state is all zeros then skip turn, has_children check just in case
-- 
2.43.0


From 19816407f96f7be3320029e1c13917f171ce16ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 09/30] fix: training data of a single example loads again

---
 src/alphazero/alphazero.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index a49edcc..7cc02af 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -185,9 +185,9 @@ impl AlphaZero {
         if !path.exists() {
             panic!("path: {} does not exist!", path.to_str().unwrap())
         }
-        let ps = Tensor::load(path.join("ps.ot")).unwrap().squeeze();
-        let states = Tensor::load(path.join("states.ot")).unwrap().squeeze();
-        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap().squeeze();
+        let ps = Tensor::load(path.join("ps.ot")).unwrap();
+        let states = Tensor::load(path.join("states.ot")).unwrap();
+        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap();
 
         let data_size = ps.size()[0];
         (0..data_size).map(|data_idx| {
-- 
2.43.0


From 3b203f2bdd5e974294d8c0d304e4624bda71c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 10/30] fix: training data that couldn't be written completely
 is reported

---
 src/alphazero/alphazero.rs | 16 ++++++++++++----
 src/lib.rs                 |  1 +
 src/storage.rs             | 31 +++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+), 4 deletions(-)
 create mode 100644 src/storage.rs

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 7cc02af..2b641a6 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -18,7 +18,7 @@ use super::nnet::ResNet;
 
 use crate::{
     constants::{DEFAULT_TYPE, DEVICE},
-    mcts::alpha_mcts::alpha_mcts, MctsConfig, base::LearnableGame,
+    mcts::alpha_mcts::alpha_mcts, MctsConfig, base::LearnableGame, storage::write_file,
 };
 
 #[derive(Debug)]
@@ -166,15 +166,23 @@ impl AlphaZero {
         let outcomes = Tensor::from_slice(&outcomes);
 
         match (
-            ps.save(path.join("ps.ot")),
-            states.save(path.join("states.ot")),
-            outcomes.save(path.join("outcomes.ot")),
+            Self::save_tensor(&ps, &path.join("ps.ot")),
+            Self::save_tensor(&states, &path.join("states.ot")),
+            Self::save_tensor(&outcomes, &path.join("outcomes.ot")),
         ) {
             (Ok(_), Ok(_), Ok(_)) => (),
             _ => panic!("unable to save training data!"),
         }
     }
 
+    // Tensor::save doesn't notice when the end of a file couldn't be written
+    fn save_tensor(tensor: &Tensor, path: &Path) -> Result<(), tch::TchError> {
+        let mut data = vec![];
+        tensor.save_to_stream(&mut data)?;
+        write_file(path, &data)?;
+        Ok(())
+    }
+
     /**
      Loads training data (ps, states, outcomes) given a folder path
      
diff --git a/src/lib.rs b/src/lib.rs
index 6599d0a..8ea05ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,7 @@ pub mod mcts;
 pub mod versus;
 pub mod base;
 pub mod tictactoe;
+pub mod storage;
 
 /*
 
diff --git a/src/storage.rs b/src/storage.rs
new file mode 100644
index 0000000..6ce5836
--- /dev/null
+++ b/src/storage.rs
@@ -0,0 +1,31 @@
+use std::{
+    ffi::OsString,
+    fs::{self, File},
+    io::{self, Write},
+    path::Path,
+};
+
+/**
+ * Writes a file so that it is either complete or not there at all:
+ * an existing file is replaced only after the new one has reached the disk
+ */
+pub fn write_file(path: &Path, data: &[u8]) -> io::Result<()> {
+    let mut tmp_name = match path.file_name() {
+        Some(name) => OsString::from(name),
+        None => return Err(io::Error::new(io::ErrorKind::InvalidInput, "path has no file name")),
+    };
+    tmp_name.push(".tmp");
+    let tmp_path = path.with_file_name(tmp_name);
+
+    let res = write_and_sync(&tmp_path, data).and_then(|_| fs::rename(&tmp_path, path));
+    if res.is_err() {
+        let _ = fs::remove_file(&tmp_path);
+    }
+    res
+}
+
+fn write_and_sync(path: &Path, data: &[u8]) -> io::Result<()> {
+    let mut file = File::create(path)?;
+    file.write_all(data)?;
+    file.sync_all()
+}
-- 
2.43.0


From 58098ce9ea7b66dd49b1e84473a44cc145674bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 11/30] fix: a model file's weights are loaded into the network

---
 src/alphazero/alphazero.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 2b641a6..8cd6e6b 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -79,19 +79,20 @@ torch.optim.Adam(params, lr=0.001, betas=(0.9, 0.999), eps=1e-08, weight_decay=0
 
 impl AlphaZero {
     pub fn new<T: LearnableGame>(model_path: Option<PathBuf>, config: AlphaZeroConfig, mcts_config: MctsConfig, op: OptimizerParams) -> Self {
-        let mut vs = nn::VarStore::new(*DEVICE);
+        // Loading only fills the variables that are already there, so the network has to be built first
+        let mut model = ResNet::new::<T>(nn::VarStore::new(*DEVICE));
 
         println!("Initializing AlphaZero...\nDevice: {:?}\n{:?}\n{:?}", *DEVICE, &config, mcts_config);
 
         match model_path {
-            Some(m_path) => match vs.load(&m_path) {
+            Some(m_path) => match model.vs.load(&m_path) {
                 Ok(_) => println!("Successfully loaded model on path: {}", m_path.to_str().unwrap()),
                 Err(e) => panic!("failed to load model: (might be a large error log) \n{}", e),
             },
             None if Path::new(&format!("./models/{}/best_model.ot", T::name())).exists() => {
                 let m_path_str = format!("./models/{}/best_model.ot", T::name());
                 let bm_path = Path::new(&m_path_str);
-                match vs.load(bm_path) {
+                match model.vs.load(bm_path) {
                     Ok(_) => println!("Successfully loaded best model"),
                     Err(e) => panic!("failed to load best model: {}", e),
                 }
@@ -99,10 +100,10 @@ impl AlphaZero {
             None => println!("No best model found, initialized from scratch")
         }
 
-        let opt = Adam::default().wd(op.wd).build(&vs, op.lr).unwrap();
+        let opt = Adam::default().wd(op.wd).build(&model.vs, op.lr).unwrap();
 
         AlphaZero {
-            model: ResNet::new::<T>(vs),
+            model,
             optimizer: opt,
             config,
             mcts_config,
-- 
2.43.0


From 98962a7761b66236aa1edc0f552bf7f870254361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 12/30] fix: a model file is replaced only by a complete one

---
 src/alphazero/alpha_no_parallel.rs |  4 +++-
 src/alphazero/alpha_parallel.rs    |  2 +-
 src/alphazero/alpha_versus.rs      |  4 ++--
 src/alphazero/alphazero.rs         |  2 +-
 src/alphazero/nnet.rs              | 27 ++++++++++++++++++++++++---
 src/main.rs                        |  2 +-
 6 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 248ea1d..de0882b 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -1,3 +1,5 @@
+use std::path::Path;
+
 use crate::{
     base::LearnableGame, mcts::alpha_mcts::alpha_mcts,
 };
@@ -16,7 +18,7 @@ impl AlphaZero {
                 self.train(&mut memory);
             }
             let model_save_path = format!("./models/{}/model_{}.ot", T::name(), i);
-            match self.model.vs.save(&model_save_path) {
+            match self.model.save(Path::new(&model_save_path)) {
                 Ok(_) => println!(
                     "Iteration {} saved successfully, path: {}",
                     i, &model_save_path
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 64e246c..5753eac 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -83,7 +83,7 @@ impl AlphaZero {
             assert!(self.model.vs.variables().iter().all(|(_, t)| !t.isnan().sum(tch::Kind::Float).is_nonzero()), "nan variables detected!");
             // Save model
             let model_save_path = format!("./models/{}/model_{}.ot", &T::name(), l_i);
-            match self.model.vs.save(&model_save_path) {
+            match self.model.save(Path::new(&model_save_path)) {
                 Ok(_) => println!(
                     "Iteration {} saved successfully, path: {}",
                     l_i, &model_save_path
diff --git a/src/alphazero/alpha_versus.rs b/src/alphazero/alpha_versus.rs
index 7739762..060fa5e 100644
--- a/src/alphazero/alpha_versus.rs
+++ b/src/alphazero/alpha_versus.rs
@@ -18,7 +18,7 @@ impl AlphaZero {
         let best_model_path = PathBuf::from(best_model_path_str);
         if !best_model_path.exists() {
             println!("No best model was found, saving current model as best...");
-            match self.model.vs.save(&best_model_path) {
+            match self.model.save(&best_model_path) {
                 Ok(_) => println!("model saved!"),
                 Err(e) => println!("unable to save model, caught error: {}", e),
             }
@@ -46,7 +46,7 @@ impl AlphaZero {
             Some(_) => unreachable!(),
         };
         if is_model_better {
-            match self.model.vs.save(best_model_path) {
+            match self.model.save(&best_model_path) {
                 Ok(_) => self.pb.println("saved new best model").unwrap(),
                 Err(_) => self
                     .pb
diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 8cd6e6b..9c0898b 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -270,6 +270,6 @@ impl AlphaZero {
     }
 
     pub fn save_current_model(&self, save_path: &Path) -> Result<(), tch::TchError> {
-        self.model.vs.save(save_path)
+        self.model.save(save_path)
     }
 }
\ No newline at end of file
diff --git a/src/alphazero/nnet.rs b/src/alphazero/nnet.rs
index 9d9d259..7d68141 100644
--- a/src/alphazero/nnet.rs
+++ b/src/alphazero/nnet.rs
@@ -1,11 +1,11 @@
-use std::{ops::Add, path::PathBuf};
+use std::{fs::{self, File}, ops::Add, path::{Path, PathBuf}};
 
 use tch::{
     nn::{self, VarStore},
-    Tensor,
+    TchError, Tensor,
 };
 
-use crate::{constants::DEVICE, base::LearnableGame};
+use crate::{constants::DEVICE, base::LearnableGame, storage::write_file};
 
 /*
 Constants
@@ -117,6 +117,27 @@ impl ResNet {
         nnet
     }
 
+    /**
+     * Saves the weights so that an existing file is replaced only by a complete one
+     */
+    pub fn save(&self, path: &Path) -> Result<(), TchError> {
+        if path.extension().is_some_and(|ext| ext == "safetensors") {
+            // This format can only be written to a path ending with its extension
+            let tmp_path = path.with_extension("tmp.safetensors");
+            let res = self.vs.save(&tmp_path).and_then(|_| {
+                File::open(&tmp_path)?.sync_all()?;
+                Ok(fs::rename(&tmp_path, path)?)
+            });
+            if res.is_err() {
+                let _ = fs::remove_file(&tmp_path);
+            }
+            return res;
+        }
+        let mut data = vec![];
+        self.vs.save_to_stream(&mut data)?;
+        Ok(write_file(path, &data)?)
+    }
+
     pub fn forward_t(&self, xs: &Tensor, train: bool) -> (Tensor, Tensor) {
         let new_x = xs
             .apply_t(&self.init_block, train)
diff --git a/src/main.rs b/src/main.rs
index 66eda67..e4b722c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -200,7 +200,7 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
             az.train(&mut training_data);
             let model_path_str = format!("./models/{}/trained_model.ot", T::name());
             let final_out_path = out_path.unwrap_or(Path::new(&model_path_str).to_path_buf());
-            match az.model.vs.save(&final_out_path) {
+            match az.model.save(&final_out_path) {
                 Ok(_) => println!("Trained model saved successfully, saved to {}", final_out_path.to_str().unwrap()),
                 Err(e) => panic!("unable to save trained model {}", e),
             }
-- 
2.43.0


From 95cbee3e259aed2511a45325c31261d004715bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:23 +0000
Subject: [PATCH 13/30] fix: learning in a fresh checkout keeps its models

---
 src/alphazero/alpha_no_parallel.rs | 3 ++-
 src/alphazero/alpha_parallel.rs    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index de0882b..e4f3702 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -1,4 +1,4 @@
-use std::path::Path;
+use std::{fs, path::Path};
 
 use crate::{
     base::LearnableGame, mcts::alpha_mcts::alpha_mcts,
@@ -8,6 +8,7 @@ use super::alphazero::{AlphaZero, MemoryFragment};
 
 impl AlphaZero {
     pub fn learn<T: LearnableGame>(&mut self) {
+        let _ = fs::create_dir_all(format!("./models/{}", T::name()));
         for i in 0..self.config.learn_iterations {
             let mut memory: Vec<MemoryFragment> = vec![];
             for _ in 0..self.config.self_play_iterations {
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 5753eac..17b6af2 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -19,6 +19,7 @@ impl AlphaZero {
         let runpath_base = format!("./data/{}/run-{}", &T::name(), &run_id);
         println!("Staring up run with run_id: {}", &run_id);
         let _ = fs::create_dir_all(&runpath_base);
+        let _ = fs::create_dir_all(format!("./models/{}", &T::name()));
         let sty = ProgressStyle::with_template(
             "[{elapsed_precise}] {bar:40.cyan/blue} {pos:>7}/{len:7} {msg}",
         )
-- 
2.43.0


From dcae8afb9cdfede5b89f6563ad397e9a05a6aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 14/30] fix: a best model that couldn't be saved is reported
 off a terminal too

---
 src/alphazero/alpha_versus.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/alphazero/alpha_versus.rs b/src/alphazero/alpha_versus.rs
index 060fa5e..3fa305f 100644
--- a/src/alphazero/alpha_versus.rs
+++ b/src/alphazero/alpha_versus.rs
@@ -48,10 +48,8 @@ impl AlphaZero {
         if is_model_better {
             match self.model.save(&best_model_path) {
                 Ok(_) => self.pb.println("saved new best model").unwrap(),
-                Err(_) => self
-                    .pb
-                    .println("new model was better! couldn't save :(")
-                    .unwrap(),
+                // Progress bars print nothing unless they are shown on a terminal
+                Err(e) => println!("new model was better! couldn't save :( caught error: {}", e),
             }
         }
     }
-- 
2.43.0


From 72a4f7b9def0232ad7370110901f84fe7e67e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 15/30] fix: each self-play round's examples are stored once

---
 src/alphazero/alpha_parallel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 17b6af2..a3fc606 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -51,7 +51,6 @@ impl AlphaZero {
                 pb_self_play.set_message(format!("Self-play iteration #{}", sp_i + 1));
 
                 let mut res = self.self_play_parallel::<T>();
-                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Saving training data... Self-play iteration #{}",
                     sp_i + 1
@@ -60,7 +59,8 @@ impl AlphaZero {
                 // Make self play dir
                 let sp_dir_path = format!("{}/sp-{}", &lrn_path, sp_i);
                 let _ = fs::create_dir(&sp_dir_path);
-                self.save_training_data(&memory, Path::new(&sp_dir_path));
+                self.save_training_data(&res, Path::new(&sp_dir_path));
+                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Self-play iteration #{} complete, saved training data",
                     sp_i + 1
-- 
2.43.0


From 017753c8b48b732acf10800aeebea7b3b0027b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 16/30] fix: train loads the self plays it was asked for

---
 src/main.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e4b722c..54e79d2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -186,7 +186,9 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
             }
             println!("Loading all data under {}", data_path.to_str().unwrap());
             let mut paths_to_load = vec![];
-            let _ = get_all_paths_rec(data_path, &mut paths_to_load);
+            if let Err(e) = get_all_paths_rec(data_path, &mut paths_to_load) {
+                panic!("unable to list the training data, caught error: {}", e);
+            }
             let mut training_data: Vec<MemoryFragment> = paths_to_load.par_iter().flat_map(|p| 
                 AlphaZero::load_training_data(p.as_path())
             ).collect();
@@ -216,15 +218,18 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
 }
 
 fn get_all_paths_rec(dir: &Path, res: &mut Vec<PathBuf>) -> io::Result<()> {
-    if dir.is_dir() {
-        for entry in fs::read_dir(dir)? {
-            let entry = entry?;
-            let path = entry.path();
-            if path.file_name().unwrap().to_str().unwrap().contains("sp") {
-                res.push(path);
-            } else {
-                get_all_paths_rec(&path, res)?;
-            }
+    // Run ids are random and might look like anything, only the directories of self plays hold data
+    let is_self_play = dir.file_name()
+        .and_then(|name| name.to_str())
+        .is_some_and(|name| name.starts_with("sp-"));
+    if is_self_play {
+        res.push(dir.to_path_buf());
+        return Ok(());
+    }
+    for entry in fs::read_dir(dir)? {
+        let path = entry?.path();
+        if fs::metadata(&path)?.is_dir() {
+            get_all_paths_rec(&path, res)?;
         }
     }
     Ok(())
-- 
2.43.0


From 0a8d67b710c7e6616149acf0e6dba2e4c59d246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 17/30] fix: a game that couldn't be written completely is
 reported

---
 src/versus.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/versus.rs b/src/versus.rs
index 38edd1f..8649300 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -1,4 +1,4 @@
-use std::{path::{Path, PathBuf}, fs::{File, self}, io::Write, time::Duration, collections::HashMap, fmt};
+use std::{path::{Path, PathBuf}, fs::{File, self}, time::Duration, collections::HashMap, fmt};
 use indicatif::{ProgressBar, ProgressStyle, MultiProgress};
 use itertools::Itertools;
 use rand::seq::SliceRandom;
@@ -6,7 +6,7 @@ use rayon::prelude::{IntoParallelRefIterator, ParallelIterator};
 use serde::{Serialize, Deserialize};
 use nanoid::nanoid;
 
-use crate::{mcts::{simple_mcts::mct_search, utils::get_prob_tensor_parallel, alpha_mcts::alpha_mcts_parallel, node_store::NodeStore}, alphazero::{alphazero::AlphaZero, nnet::ResNet}, MctsConfig, base::LearnableGame};
+use crate::{mcts::{simple_mcts::mct_search, utils::get_prob_tensor_parallel, alpha_mcts::alpha_mcts_parallel, node_store::NodeStore}, alphazero::{alphazero::AlphaZero, nnet::ResNet}, MctsConfig, base::LearnableGame, storage::write_file};
 
 
 /*
@@ -53,11 +53,8 @@ impl <T: LearnableGame> Game<T> {
 
 pub fn save_game<T: LearnableGame>(game: &Game<T>, game_path: &str) -> Result<(), Box<dyn std::error::Error>> {
     let path = Path::new(game_path).join(format!("{}.json", &game.id));
-    let file = File::create(path)?;
-
     let serialized = serde_json::to_string_pretty(game)?;
-    let mut writer = std::io::BufWriter::new(file);
-    writer.write_all(serialized.as_bytes())?;
+    write_file(&path, serialized.as_bytes())?;
 
     Ok(())
 }
-- 
2.43.0


From 9f34128cc1ae0243bf840f308b53bd9488c437b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 18/30] fix: the turns of a match game are recorded

---
 src/versus.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/versus.rs b/src/versus.rs
index 8649300..a3c37dd 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -19,13 +19,15 @@ pub enum Agent {
     Random, Mcts, Model, None
 }
 #[derive(Serialize, Deserialize, Debug)]
-pub struct Turn<T> {
-    pub roll: Option<(u8, u8)>,
-    pub action: Vec<T>,
-    pub player: Agent
+#[serde(bound = "")]
+pub struct Turn<T: LearnableGame> {
+    pub action: T::Move, // T::EMPTY_MOVE if the player had to pass
+    pub player: Agent,
+    pub state: T // State after the action, holds the next roll too
 }
 #[derive(Serialize, Deserialize, Debug)]
-pub struct Game<T> {
+#[serde(bound = "")]
+pub struct Game<T: LearnableGame> {
     id: String,
     player1: Agent,
     player2: Agent,
@@ -79,17 +81,13 @@ pub fn print_game<T: LearnableGame>(path: PathBuf, wait_user_input: bool) -> Res
     println!("Game winner: {:?}", game.winner);
 
     println!("Initial State:");
-    let current_state = game.initial_state;
-    println!("{}", current_state.to_pretty_str());
+    println!("{}", game.initial_state.to_pretty_str());
 
     for turn in game.turns {
         println!("Player: {:?}", turn.player);
-        println!("Roll: {:?}", turn.roll);
-        // current_state.roll = turn.roll;
         println!("Action: {:?}", turn.action);
-        // current_state.apply_move(&turn.action);
         println!("State after action has been played:");
-        println!("{}", current_state.to_pretty_str());
+        println!("{}", turn.state.to_pretty_str());
 
         if wait_user_input {
             println!("Press Enter to continue...");
@@ -217,13 +215,17 @@ pub fn play<T: LearnableGame>(player1: Player, player2: Player, mcts_config: &Mc
             let initial_idx = game.get_id();
             let (game_mut, curr_game) = games.get_mut(&initial_idx).unwrap();
 
+            let player = if game.get_player() == player_p1 { &player1 } else { &player2 };
+
             if action.eq(&T::EMPTY_MOVE) {
                 game_mut.skip_turn();
+                curr_game.turns.push(Turn { action: T::EMPTY_MOVE, player: player.player_type.clone(), state: *game_mut });
                 continue;
             }
             assert!(game_mut.get_valid_moves().contains(action));
 
             game_mut.apply_move(action);
+            curr_game.turns.push(Turn { action: action.clone(), player: player.player_type.clone(), state: *game_mut });
 
             let winner = match game_mut.check_winner() {
                 Some(winner) => Some(winner),
-- 
2.43.0


From 4caccd0353192d24104b793989d1703acf5126de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:22 +0000
Subject: [PATCH 19/30] fix: a match game is cut at the round limit when its
 last round is a pass too

---
 src/versus.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/versus.rs b/src/versus.rs
index a3c37dd..5778ddf 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -219,12 +219,10 @@ pub fn play<T: LearnableGame>(player1: Player, player2: Player, mcts_config: &Mc
 
             if action.eq(&T::EMPTY_MOVE) {
                 game_mut.skip_turn();
-                curr_game.turns.push(Turn { action: T::EMPTY_MOVE, player: player.player_type.clone(), state: *game_mut });
-                continue;
+            } else {
+                assert!(game_mut.get_valid_moves().contains(action));
+                game_mut.apply_move(action);
             }
-            assert!(game_mut.get_valid_moves().contains(action));
-
-            game_mut.apply_move(action);
             curr_game.turns.push(Turn { action: action.clone(), player: player.player_type.clone(), state: *game_mut });
 
             let winner = match game_mut.check_winner() {
-- 
2.43.0


From 0b5b2d2fff1f6aa1e8e57e0d6dd9ca63f507909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 20/30] fix: negative numbers in the configuration are refused

---
 src/alphazero/alphazero.rs | 10 +++++-----
 src/lib.rs                 |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 9c0898b..d083f92 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -35,11 +35,11 @@ impl AlphaZeroConfig {
     pub fn from_config(conf: &config::Config) -> Result<Self, config::ConfigError> {
         Ok(AlphaZeroConfig {
             temperature: conf.get_float("temperature")?,
-            learn_iterations: conf.get_int("learn_iterations")? as usize,
-            self_play_iterations: conf.get_int("self_play_iterations")? as usize,
-            num_epochs: conf.get_int("num_epochs")? as usize,
-            training_batch_size: conf.get_int("training_batch_size")? as usize,
-            num_self_play_batches: conf.get_int("num_self_play_batches")? as usize,
+            learn_iterations: conf.get("learn_iterations")?,
+            self_play_iterations: conf.get("self_play_iterations")?,
+            num_epochs: conf.get("num_epochs")?,
+            training_batch_size: conf.get("training_batch_size")?,
+            num_self_play_batches: conf.get("num_self_play_batches")?,
         })
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 8ea05ae..582e4cc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -43,9 +43,9 @@ pub struct MctsConfig {
 impl MctsConfig {
     pub fn from_config(conf: &Config) -> Result<Self, ConfigError> {
         Ok(MctsConfig {
-            iterations: conf.get_int("iterations")? as usize,
+            iterations: conf.get("iterations")?,
             c: conf.get_float("exploration_const")? as f32,
-            simulate_round_limit: conf.get_int("simulate_round_limit")? as usize,
+            simulate_round_limit: conf.get("simulate_round_limit")?,
             dirichlet_alpha: conf.get_float("dirichlet_alpha")? as f32,
             dirichlet_epsilon: conf.get_float("dirichlet_epsilon")? as f32,
         })
-- 
2.43.0


From 55017dd11613e903abd739e192a3101b43293475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:29 +0000
Subject: [PATCH 21/30] fix: the documented flags are accepted

---
 README.md   |  2 +-
 src/main.rs | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/README.md b/README.md
index 4a12436..ab8e797 100644
--- a/README.md
+++ b/README.md
@@ -106,7 +106,7 @@ Here are the main CLI arguments and commands that **die-e** supports:
 4. To replay a saved game:
 
     ```shell
-    die-e replay --game_path saved_game.json
+    die-e --game backgammon replay --game_path saved_game.json
     ```
 
 **die-e** primarily focuses on mastering the game of Backgammon using the AlphaZero algorithm, with Tic-Tac-Toe available as a secondary feature for some additional fun.
diff --git a/src/main.rs b/src/main.rs
index 54e79d2..c8a5feb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -34,46 +34,46 @@ enum Commands {
     // Starts the learning process
     Learn {
         // path of the model
-        #[arg(short, long)]
+        #[arg(short, long, alias = "model_path")]
         model_path: Option<PathBuf>
     },
     Play {
         // Agent one's type, can be 'random', 'mcts', 'model'
-        #[arg(short, long)]
+        #[arg(short, long, alias = "agent_one")]
         agent_one: Option<String>,
         // Path of model to play if agent one is of type 'model'
-        #[arg(short, long)]
+        #[arg(short, long, alias = "model_path_one")]
         model_path_one: Option<PathBuf>,
         // Agent two's type, can be 'random', 'mcts', 'model'
-        #[arg(long)]
+        #[arg(long, alias = "agent_two")]
         agent_two: Option<String>,
         // Path of model to play if agent two is of type 'model'
-        #[arg(long)]
+        #[arg(long, alias = "model_path_two")]
         model_path_two: Option<PathBuf>,
         // Path to output game after playing
-        #[arg(short, long)]
+        #[arg(short, long, alias = "output_path")]
         output_path: Option<PathBuf>,
     },
     Train {
         // Path of the model to train
-        #[arg(short, long)]
+        #[arg(short, long, alias = "model_path")]
         model_path: Option<PathBuf>,
         // Path to output model after training
-        #[arg(short, long)]
+        #[arg(short, long, alias = "out_path")]
         out_path: Option<PathBuf>,
         // The run id for the data, uses all data under run id to train
-        #[arg(short, long)]
+        #[arg(short, long, alias = "run_id")]
         run_id: Option<String>,
         // The idx of the learn iteration, run_id must also be given
         #[arg(short, long)]
         learn: Option<String>,
         // The idx of the self_play iteration, learn_idx must also be given
-        #[arg(short, long)]
+        #[arg(short, long, alias = "self_play")]
         self_play: Option<String>,
     },
     Replay {
         // path of the game to load
-        #[arg(short, long)]
+        #[arg(short, long, alias = "game_path")]
         game_path: PathBuf
     }
 }
-- 
2.43.0


From d4fdff31c8c1244399bece1bf6ef03dd2b3a9dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:11 +0000
Subject: [PATCH 22/30] fix: weights that training turned into NaN were saved
 as a model by train and by single-game learning

---
 src/alphazero/alpha_no_parallel.rs | 1 +
 src/alphazero/nnet.rs              | 7 +++++++
 src/main.rs                        | 1 +
 3 files changed, 9 insertions(+)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index e4f3702..b6ca4d9 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -18,6 +18,7 @@ impl AlphaZero {
             for _ in 0..self.config.num_epochs {
                 self.train(&mut memory);
             }
+            assert!(!self.model.has_nan(), "nan variables detected!");
             let model_save_path = format!("./models/{}/model_{}.ot", T::name(), i);
             match self.model.save(Path::new(&model_save_path)) {
                 Ok(_) => println!(
diff --git a/src/alphazero/nnet.rs b/src/alphazero/nnet.rs
index 7d68141..bbb719b 100644
--- a/src/alphazero/nnet.rs
+++ b/src/alphazero/nnet.rs
@@ -138,6 +138,13 @@ impl ResNet {
         Ok(write_file(path, &data)?)
     }
 
+    /**
+     * Whether a weight is no number anymore, nan's are caused by gradient explosion
+     */
+    pub fn has_nan(&self) -> bool {
+        self.vs.variables().values().any(|t| t.isnan().any().int64_value(&[]) != 0)
+    }
+
     pub fn forward_t(&self, xs: &Tensor, train: bool) -> (Tensor, Tensor) {
         let new_x = xs
             .apply_t(&self.init_block, train)
diff --git a/src/main.rs b/src/main.rs
index c8a5feb..6c7b82b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -200,6 +200,7 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
 
             // Train and save model
             az.train(&mut training_data);
+            assert!(!az.model.has_nan(), "nan variables detected!");
             let model_path_str = format!("./models/{}/trained_model.ot", T::name());
             let final_out_path = out_path.unwrap_or(Path::new(&model_path_str).to_path_buf());
             match az.model.save(&final_out_path) {
-- 
2.43.0


From ff06e6327d7bc0c5d70444d21b48006c19151e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:47 +0000
Subject: [PATCH 23/30] fix: don't start from scratch when the best model can't
 be looked at

---
 src/alphazero/alphazero.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index d083f92..03d7606 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -89,7 +89,9 @@ impl AlphaZero {
                 Ok(_) => println!("Successfully loaded model on path: {}", m_path.to_str().unwrap()),
                 Err(e) => panic!("failed to load model: (might be a large error log) \n{}", e),
             },
-            None if Path::new(&format!("./models/{}/best_model.ot", T::name())).exists() => {
+            // A best model that can't be looked at is not a missing one
+            None if Path::new(&format!("./models/{}/best_model.ot", T::name())).try_exists()
+                .unwrap_or_else(|e| panic!("unable to look for the best model: {}", e)) => {
                 let m_path_str = format!("./models/{}/best_model.ot", T::name());
                 let bm_path = Path::new(&m_path_str);
                 match model.vs.load(bm_path) {
-- 
2.43.0


From 9f5bc64ae4c4a045d8b11225e2f0fa58c4169b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:47 +0000
Subject: [PATCH 24/30] fix: don't replace the best model when it can't be
 looked at

---
 src/alphazero/alpha_versus.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/alphazero/alpha_versus.rs b/src/alphazero/alpha_versus.rs
index 3fa305f..421cf66 100644
--- a/src/alphazero/alpha_versus.rs
+++ b/src/alphazero/alpha_versus.rs
@@ -16,7 +16,15 @@ impl AlphaZero {
     pub fn play_vs_best_model<T: LearnableGame>(&self) {
         let best_model_path_str = format!("./models/{}/best_model.ot", T::name());
         let best_model_path = PathBuf::from(best_model_path_str);
-        if !best_model_path.exists() {
+        let best_model_exists = match best_model_path.try_exists() {
+            Ok(exists) => exists,
+            // It might well be there, it must not be replaced without a match
+            Err(e) => {
+                println!("unable to look for the best model, keeping it, caught error: {}", e);
+                return;
+            }
+        };
+        if !best_model_exists {
             println!("No best model was found, saving current model as best...");
             match self.model.save(&best_model_path) {
                 Ok(_) => println!("model saved!"),
-- 
2.43.0


From a3fe39ea1209aa114e76d1618dccabd059b5ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:47 +0000
Subject: [PATCH 25/30] fix: report a saved game that can't be looked at
 instead of leaving it out

---
 src/versus.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/versus.rs b/src/versus.rs
index 5778ddf..8a6b885 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -104,7 +104,8 @@ pub fn load_all_games<T: LearnableGame>(path: PathBuf) -> Result<Vec<Game<T>>, B
 
     for entry in fs::read_dir(path)? {
         let entry = entry?;
-        if entry.path().is_file() {
+        // is_file() on the path would leave a game out whose metadata can't be read
+        if fs::metadata(entry.path())?.is_file() {
             let file_name = entry.file_name().into_string().unwrap();
             if file_name.ends_with(".json") {
                 let game = load_game(entry.path())?;
-- 
2.43.0


From e56c3d3bad0b7370eef92948efb1891f4be457d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:17 +0000
Subject: [PATCH 26/30] fix: processes saving the same file don't share its
 temporary file

---
 src/alphazero/nnet.rs | 6 ++++--
 src/storage.rs        | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/alphazero/nnet.rs b/src/alphazero/nnet.rs
index bbb719b..fffa119 100644
--- a/src/alphazero/nnet.rs
+++ b/src/alphazero/nnet.rs
@@ -1,3 +1,4 @@
+use nanoid::nanoid;
 use std::{fs::{self, File}, ops::Add, path::{Path, PathBuf}};
 
 use tch::{
@@ -122,8 +123,9 @@ impl ResNet {
      */
     pub fn save(&self, path: &Path) -> Result<(), TchError> {
         if path.extension().is_some_and(|ext| ext == "safetensors") {
-            // This format can only be written to a path ending with its extension
-            let tmp_path = path.with_extension("tmp.safetensors");
+            // This format can only be written to a path ending with its extension,
+            // the name is one no other process uses
+            let tmp_path = path.with_extension(format!("{}.tmp.safetensors", nanoid!()));
             let res = self.vs.save(&tmp_path).and_then(|_| {
                 File::open(&tmp_path)?.sync_all()?;
                 Ok(fs::rename(&tmp_path, path)?)
diff --git a/src/storage.rs b/src/storage.rs
index 6ce5836..a2ff9dc 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -1,3 +1,4 @@
+use nanoid::nanoid;
 use std::{
     ffi::OsString,
     fs::{self, File},
@@ -14,7 +15,8 @@ pub fn write_file(path: &Path, data: &[u8]) -> io::Result<()> {
         Some(name) => OsString::from(name),
         None => return Err(io::Error::new(io::ErrorKind::InvalidInput, "path has no file name")),
     };
-    tmp_name.push(".tmp");
+    // Another process may be writing the same file
+    tmp_name.push(format!(".{}.tmp", nanoid!()));
     let tmp_path = path.with_file_name(tmp_name);
 
     let res = write_and_sync(&tmp_path, data).and_then(|_| fs::rename(&tmp_path, path));
-- 
2.43.0


From ef1c225cd8956aa7ff3ee4236958a26420494058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:17 +0000
Subject: [PATCH 27/30] fix: loading games doesn't look at other files, which
 may be gone while games are saved

---
 src/versus.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/versus.rs b/src/versus.rs
index 8a6b885..4c49db3 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -104,13 +104,14 @@ pub fn load_all_games<T: LearnableGame>(path: PathBuf) -> Result<Vec<Game<T>>, B
 
     for entry in fs::read_dir(path)? {
         let entry = entry?;
+        // Other files are not looked at, one that is being written may be gone by now
+        if !entry.file_name().to_string_lossy().ends_with(".json") {
+            continue;
+        }
         // is_file() on the path would leave a game out whose metadata can't be read
         if fs::metadata(entry.path())?.is_file() {
-            let file_name = entry.file_name().into_string().unwrap();
-            if file_name.ends_with(".json") {
-                let game = load_game(entry.path())?;
-                games.push(game);
-            }
+            let game = load_game(entry.path())?;
+            games.push(game);
         }
     }
 
-- 
2.43.0


From b526dd6d8bb4b7621bb897b6b519c41aabdab536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:44 +0000
Subject: [PATCH 28/30] fix: Dirichlet noise with a small alpha doesn't turn
 priors into NaN

---
 src/mcts/noise.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/mcts/noise.rs b/src/mcts/noise.rs
index 3376a45..1f51c76 100644
--- a/src/mcts/noise.rs
+++ b/src/mcts/noise.rs
@@ -1,5 +1,6 @@
+use itertools::Itertools;
 use rand::thread_rng;
-use rand_distr::{Dirichlet, Distribution};
+use rand_distr::{Distribution, Gamma, Open01};
 use tch::Tensor;
 
 use crate::{constants::{DEVICE, DEFAULT_TYPE}, base::LearnableGame};
@@ -12,8 +13,7 @@ impl <T: LearnableGame> Node <T> {
             self.visits > 0.,
             "unable to apply dirichlet, node has no visits!"
         );
-        let dirichlet = Dirichlet::new(&vec![alpha; self.children.len()]).unwrap();
-        let sample = dirichlet.sample(&mut thread_rng());
+        let sample = sample_dirichlet(alpha, self.children.len());
         for (child_idx, noise) in self.children.iter().zip(sample) {
             let child = store.get_node_as_mut(*child_idx);
             child.policy = noise * eps + child.policy * (1. - eps)
@@ -26,9 +26,27 @@ impl <T: LearnableGame> Node <T> {
 */
 pub fn apply_dirichlet(tensor: &Tensor, alpha: f32, eps: f32) -> Tensor {
     let n_policies = tensor.size()[1] as usize;
-    let dirichlet = Dirichlet::new(&vec![alpha; n_policies]).unwrap();
-    let diriclet_tensor = Tensor::from_slice(&dirichlet.sample(&mut thread_rng()))
+    let diriclet_tensor = Tensor::from_slice(&sample_dirichlet(alpha, n_policies))
         .to_device_(*DEVICE, DEFAULT_TYPE, false, false)
         .unsqueeze(0);
     (1. - eps) * tensor + eps * diriclet_tensor
 }
+
+/*
+    Draws from the symmetric Dirichlet distribution
+    The gamma variates it is made of are Gamma(alpha + 1) * U^(1 / alpha), with a small alpha all of them
+    may be too small for a float and their proportions 0 / 0, hence their logarithms are used
+*/
+fn sample_dirichlet(alpha: f32, n: usize) -> Vec<f32> {
+    assert!(alpha > 0., "dirichlet alpha has to be positive!");
+    let mut rng = thread_rng();
+    let gamma = Gamma::new(alpha as f64 + 1., 1.).unwrap();
+    let logs = (0..n).map(|_| {
+        let uniform: f64 = Open01.sample(&mut rng);
+        gamma.sample(&mut rng).ln() + uniform.ln() / alpha as f64
+    }).collect_vec();
+    let max = logs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
+    let weights = logs.iter().map(|log| (log - max).exp()).collect_vec();
+    let sum: f64 = weights.iter().sum();
+    weights.iter().map(|weight| (weight / sum) as f32).collect_vec()
+}
-- 
2.43.0


From c4b003b4d19b41b9a50ee3bfe117e5723b90f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:16 +0000
Subject: [PATCH 29/30] fix: moves the network gives no weight at all get equal
 priors instead of NaN

---
 src/mcts/utils.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mcts/utils.rs b/src/mcts/utils.rs
index 961c197..2a9bb78 100644
--- a/src/mcts/utils.rs
+++ b/src/mcts/utils.rs
@@ -66,7 +66,10 @@ pub fn turn_policy_to_probs_tensor_parallel<T: LearnableGame>(store: &NodeStore<
         })
     }).unzip();
     let _ = mask.index_put_(&[Some(Tensor::from_slice(&xs)), Some(Tensor::from_slice(&ys))], &Tensor::from(1_f32), false);
-    let selected_moves_tensor = policy * mask;
+    let selected_moves_tensor = policy * &mask;
+    let moves_sum = selected_moves_tensor.sum_dim_intlist(1, true, None);
+    // Without any weight on the possible moves none of them is preferred
+    let selected_moves_tensor = selected_moves_tensor.where_self(&moves_sum.not_equal(0.), &mask);
     let moves_sum = selected_moves_tensor.sum_dim_intlist(1, true, None);
     selected_moves_tensor.divide(&moves_sum)
 }
@@ -79,7 +82,12 @@ pub fn turn_policy_to_probs_tensor<T: LearnableGame>(policy: &Tensor, node: &Nod
     let indices_tensor = vec![Some(Tensor::from_slice(&indices))];
     let values_to_put = policy.index(&indices_tensor);
     let _ = result.index_put_(&indices_tensor, &values_to_put, false);
-    let sum = result.sum(None);
+    let mut sum = result.sum(None);
+    // Without any weight on the possible moves none of them is preferred
+    if !sum.is_nonzero() {
+        let _ = result.index_put_(&indices_tensor, &values_to_put.ones_like(), false);
+        sum = result.sum(None);
+    }
     result / sum
 }
 
@@ -91,7 +99,13 @@ pub fn turn_policy_to_probs<T: LearnableGame>(policy: &Tensor, node: &Node<T>) -
         encoded_values.push(encoded_value as usize);
         values[encoded_value as usize] = policy.double_value(&[encoded_value as i64]) as f32;
     }
-    let sum: f32 = values.iter().sum();
+    let mut sum: f32 = values.iter().sum();
+
+    // Without any weight on the possible moves none of them is preferred
+    if sum == 0. {
+        encoded_values.iter().for_each(|&encoded_value| values[encoded_value] = 1.);
+        sum = encoded_values.len() as f32;
+    }
 
     for i in 0..encoded_values.len() {
         let encoded_value = *encoded_values.get(i).unwrap();
-- 
2.43.0


From caf802bce091b1395b9fe95256e8b19940a13d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:18 +0000
Subject: [PATCH 30/30] fix: low temperatures don't turn all move probabilities
 into zeros

---
 src/alphazero/alpha_no_parallel.rs |  8 ++++----
 src/alphazero/alpha_parallel.rs    |  5 ++---
 src/alphazero/alphazero.rs         |  6 +++---
 src/mcts/utils.rs                  | 10 ++++++++++
 src/versus.rs                      |  5 ++---
 5 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index b6ca4d9..03f7627 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -1,7 +1,7 @@
 use std::{fs, path::Path};
 
 use crate::{
-    base::LearnableGame, mcts::alpha_mcts::alpha_mcts,
+    base::LearnableGame, mcts::{alpha_mcts::alpha_mcts, utils::apply_temperature},
 };
 
 use super::alphazero::{AlphaZero, MemoryFragment};
@@ -48,7 +48,7 @@ impl AlphaZero {
         loop {
             println!("{}", state.to_pretty_str());
             // Get probabilities from mcts
-            let mut pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
+            let pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
                 Some(pi) => pi,
                 None => {
                     state.skip_turn();
@@ -57,14 +57,14 @@ impl AlphaZero {
             };
 
             // Apply temperature to pi
-            let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
+            let temperatured_pi = apply_temperature(&pi, self.config.temperature);
             // Select an action from probabilities
             let selected_action = Self::weighted_select_tensor_idx(&temperatured_pi);
 
             // Save results to memory
             memory.push(MemoryFragment {
                 outcome: state.get_player(),
-                ps: pi,
+                ps: temperatured_pi,
                 state: state.as_tensor(),
             });
 
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index a3fc606..3f2fd60 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -6,7 +6,7 @@ use itertools::Itertools;
 use crate::{
     base::LearnableGame,
     mcts::{
-        alpha_mcts::alpha_mcts_parallel, node_store::NodeStore, utils::get_prob_tensor_parallel,
+        alpha_mcts::alpha_mcts_parallel, node_store::NodeStore, utils::{apply_temperature, get_prob_tensor_parallel},
     },
 };
 
@@ -162,8 +162,7 @@ impl AlphaZero {
             let roots = (0..states.len())
                 .map(|i| store.get_node_ref(i))
                 .collect_vec();
-            let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / self.config.temperature) // Apply temperature
+            let prob_tensor = apply_temperature(&get_prob_tensor_parallel(&roots, &store), self.config.temperature)
                 .to_device(tch::Device::Cpu); // Move to CPU for faster access
 
             for (processed_idx, (init_idx, state)) in states.values_mut().enumerate() {
diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 03d7606..93df223 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -18,7 +18,7 @@ use super::nnet::ResNet;
 
 use crate::{
     constants::{DEFAULT_TYPE, DEVICE},
-    mcts::alpha_mcts::alpha_mcts, MctsConfig, base::LearnableGame, storage::write_file,
+    mcts::{alpha_mcts::alpha_mcts, utils::apply_temperature}, MctsConfig, base::LearnableGame, storage::write_file,
 };
 
 #[derive(Debug)]
@@ -140,11 +140,11 @@ impl AlphaZero {
     }
 
     pub fn get_next_move_for_state<T: LearnableGame>(&self, current_state: &T) -> T::Move {
-        let mut pi = match alpha_mcts(current_state, &self.model, &self.mcts_config) {
+        let pi = match alpha_mcts(current_state, &self.model, &self.mcts_config) {
             Some(pi) => pi,
             None => return T::EMPTY_MOVE
         };
-        let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
+        let temperatured_pi = apply_temperature(&pi, self.config.temperature);
         let selected_action = AlphaZero::weighted_select_tensor_idx(&temperatured_pi);
         current_state.decode(selected_action as u32)
     }
diff --git a/src/mcts/utils.rs b/src/mcts/utils.rs
index 2a9bb78..1270d45 100644
--- a/src/mcts/utils.rs
+++ b/src/mcts/utils.rs
@@ -57,6 +57,16 @@ pub fn get_prob_tensor_parallel<T: LearnableGame>(nodes: &[&Node<T>], store: &No
     result.divide(&sum)
 }
 
+/**
+ * Applies temperature to move probabilities, of a single position or of one position per row
+ * They are relative to the most probable move, low temperatures would turn all of them into zeros otherwise
+ */
+pub fn apply_temperature(probs: &Tensor, temperature: f64) -> Tensor {
+    let weights = (probs / probs.amax([-1], true)).pow_tensor_scalar(1.0 / temperature);
+    let sum = weights.sum_dim_intlist(-1, true, None);
+    weights / sum
+}
+
 pub fn turn_policy_to_probs_tensor_parallel<T: LearnableGame>(store: &NodeStore<T>, node_indices: &[usize], policy: &Tensor) -> Tensor {
     let mut mask = policy.zeros_like();
     let (xs, ys): (Vec<i32>, Vec<i32>) = node_indices.iter().flat_map(|i| {
diff --git a/src/versus.rs b/src/versus.rs
index 4c49db3..2241680 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -6,7 +6,7 @@ use rayon::prelude::{IntoParallelRefIterator, ParallelIterator};
 use serde::{Serialize, Deserialize};
 use nanoid::nanoid;
 
-use crate::{mcts::{simple_mcts::mct_search, utils::get_prob_tensor_parallel, alpha_mcts::alpha_mcts_parallel, node_store::NodeStore}, alphazero::{alphazero::AlphaZero, nnet::ResNet}, MctsConfig, base::LearnableGame, storage::write_file};
+use crate::{mcts::{simple_mcts::mct_search, utils::{apply_temperature, get_prob_tensor_parallel}, alpha_mcts::alpha_mcts_parallel, node_store::NodeStore}, alphazero::{alphazero::AlphaZero, nnet::ResNet}, MctsConfig, base::LearnableGame, storage::write_file};
 
 
 /*
@@ -277,8 +277,7 @@ fn get_actions_for_player<T: LearnableGame>(player: &Player, games: &[T], mcts_c
             let mut store = NodeStore::new();
             alpha_mcts_parallel(&mut store, games, model, mcts_config, Some(ProgressBar::hidden()));
             let roots = store.get_root_nodes();
-            let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / temp)
+            let prob_tensor = apply_temperature(&get_prob_tensor_parallel(&roots, &store), temp)
                 .to_device(tch::Device::Cpu);
 
             roots
-- 
2.43.0

