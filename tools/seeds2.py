#!/usr/bin/env python3
"""Planted changes, second batch: search, self-play, learning, files, matches. Run as: seeds2.py [ID...]"""
import sys
sys.path.insert(0, '/verif/tools')
from new_seed import make
PRE = r'''
#![allow(dead_code, unused_imports, static_mut_refs)]
use die_e::{base::LearnableGame, alphazero::{alphazero::{AlphaZero, MemoryFragment}, nnet::ResNet}, constants::DEVICE, mcts::{node_store::NodeStore, simple_mcts, alpha_mcts, utils}, versus::{self, Agent, Player}, tictactoe::TicTacToe, backgammon::backgammon_logic::Backgammon, MctsConfig};
use serde::{Deserialize, Serialize};
use std::sync::{OnceLock, atomic::{AtomicUsize, Ordering::SeqCst}};
use tch::{nn::VarStore, Tensor};
/// a game given as a graph: side to move, winner, moves (code, next), next after a pass
pub struct V { p: i8, w: Option<i8>, m: Vec<(u8, usize)>, pass: usize }
pub fn v(p: i8, m: Vec<(u8, usize)>, pass: usize) -> V { V { p, w: None, m, pass } }
pub fn won(p: i8, w: i8) -> V { V { p, w: Some(w), m: vec![], pass: 0 } }
pub static GRAPH: OnceLock<Vec<V>> = OnceLock::new();
pub static PASSES: AtomicUsize = AtomicUsize::new(0);
pub static BEGUN: AtomicUsize = AtomicUsize::new(0);
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct G { v: usize, lane: usize, ply: usize, id: usize }
impl G { fn at(v: usize) -> G { G { v, lane: 0, ply: 0, id: 0 } } fn x(&self) -> &'static V { &GRAPH.get().unwrap()[self.v] } }
impl LearnableGame for G {
    type Move = u8; const EMPTY_MOVE: u8 = 255; const IS_DETERMINISTIC: bool = true; const ACTION_SPACE_SIZE: i64 = 12;
    const N_INPUT_CHANNELS: i64 = 4; const CONV_OUTPUT_SIZE: i64 = 4; const N_FILTERS: i64 = 6; const N_RES_BLOCKS: i64 = 1;
    fn new() -> G { G { lane: BEGUN.fetch_add(1, SeqCst), ..G::at(0) } }
    fn name() -> String { "graph".into() }
    fn get_valid_moves(&self) -> Vec<u8> { self.x().m.iter().map(|m| m.0).collect() }
    fn apply_move(&mut self, a: &u8) { self.v = self.x().m.iter().find(|m| m.0 == *a).expect("not a move here").1; self.ply += 1 }
    fn skip_turn(&mut self) { if PASSES.fetch_add(1, SeqCst) > 300000 { println!("passes for ever"); std::process::exit(9) } self.v = self.x().pass; self.ply += 1 }
    fn get_player(&self) -> i8 { self.x().p }
    fn check_winner(&self) -> Option<i8> { self.x().w }
    fn as_tensor(&self) -> Tensor { let mut f = vec![0f32; 16]; for k in 0..13 { f[k] = ((self.v * 31 + k * 17 + self.v * k) % 13) as f32 / 6. - 1. } f[13] = self.v as f32 / 64.; f[14] = self.lane as f32 / 1024.; f[15] = self.ply as f32 / 64.; Tensor::from_slice(&f).view([1, 4, 2, 2]) }
    fn decode(&self, c: u32) -> u8 { c as u8 }
    fn encode(&self, a: &u8) -> u32 { *a as u32 }
    fn get_id(&self) -> usize { self.id } fn set_id(&mut self, i: usize) { self.id = i } fn to_pretty_str(&self) -> String { String::new() }
}
pub fn graph(g: Vec<V>) { let _ = GRAPH.set(g); }
pub fn floats(t: &Tensor) -> Vec<f64> { Vec::try_from(&t.flatten(0, -1).to_dtype(tch::Kind::Double, false, true)).unwrap() }
pub struct C { temperature: f64, learn: usize, sp: usize, epochs: usize, batch: usize, games: usize, iterations: usize, c: f64, limit: usize, alpha: f64, eps: f64, lr: f64 }
pub fn c() -> C { C { temperature: 1., learn: 1, sp: 1, epochs: 1, batch: 64, games: 2, iterations: 8, c: 2., limit: 400, alpha: 0.3, eps: 0.25, lr: 0.001 } }
impl C {
    fn toml(&self) -> String { format!("temperature = {:?}\nlearn_iterations = {}\nnum_epochs = {}\ntraining_batch_size = {}\nself_play_iterations = {}\nnum_self_play_batches = {}\niterations = {}\nexploration_const = {:?}\nsimulate_round_limit = {}\ndirichlet_alpha = {:?}\ndirichlet_epsilon = {:?}\nwd = 0.0\nlr = {:?}\n", self.temperature, self.learn, self.epochs, self.batch, self.sp, self.games, self.iterations, self.c, self.limit, self.alpha, self.eps, self.lr) }
    fn config(&self) -> config::Config { config::Config::builder().add_source(config::File::from_str(&self.toml(), config::FileFormat::Toml)).build().unwrap() }
    fn mcts(&self) -> MctsConfig { MctsConfig::from_config(&self.config()).unwrap() }
}
pub fn net<T: LearnableGame>(seed: i64, gain: f64) -> ResNet {
    tch::manual_seed(seed);
    let n = ResNet::new::<T>(VarStore::new(*DEVICE));
    tch::no_grad(|| for (_, mut t) in n.vs.variables() { if t.size() == [T::ACTION_SPACE_SIZE, 32 * T::CONV_OUTPUT_SIZE] { let _ = t.g_mul_scalar_(gain); } });
    n
}
pub fn az<T: LearnableGame>(cf: &C, n: &ResNet) -> AlphaZero { n.vs.save("given.ot").unwrap(); AlphaZero::from_config::<T>(Some("given.ot".into()), &cf.config()) }
'''
S = {}
def seed(id, prop, edits, needs, breaks, main):
    S[id] = lambda: make(id, prop, edits, needs, breaks, main=PRE + main)

seed('c08-full-board-draw', 'C08', [('src/tictactoe/mod.rs', '''        for combination in winning_combinations.iter() {
            let a''', '''        let full = self.board.iter().all(|&v| v != 0);
        for combination in winning_combinations.iter().filter(|_| !full) {
            let a'''), ('src/tictactoe/mod.rs', 'if self.board.iter().all(|&v| v != 0) {', 'if full {')],
 'a line completed by the move that fills the board', 'a game won on the last square counts as drawn', '''
fn main() {
    let mut g = TicTacToe::new();
    for m in [0u8, 1, 2, 5, 3, 6, 4, 7, 8] { assert!(g.check_winner().is_none()); g.apply_move(&m); }
    assert_eq!(g.check_winner(), Some(-1));
}''')

seed('c09-single-move-noise', 'C09', [('src/mcts/alpha_mcts.rs', 'if root_node.children.len() < 2 {', 'if root_node.children.is_empty() {')],
 'a root with exactly one legal move, in the single search', 'the search dies', '''
fn main() {
    graph(vec![v(1, vec![(3, 1)], 0), v(-1, vec![(0, 2), (1, 2)], 0), won(1, 1)]);
    let n = net::<G>(1, 1.);
    assert!(alpha_mcts::alpha_mcts(&G::at(0), &n, &C { iterations: 10, ..c() }.mcts()).is_some());
}''')

seed('c10-no-zero-priors', 'C10', [('src/mcts/node.rs', '''            let value = policy.double_value(&[encoded_value.into()]) as f32;
            ''', '''            let value = match policy.double_value(&[encoded_value.into()]) as f32 { v if v == 0. => continue, v => v };
            ''')],
 'a network so sure that a legal move gets probability zero', 'that move is missing from the tree', '''
fn main() {
    graph(vec![v(1, vec![(0, 1), (1, 1), (2, 1)], 0), v(-1, vec![(3, 0), (4, 0), (5, 0), (6, 0)], 0)]);
    for s in 0..20 {
        let n = net::<G>(s, 20000.);
        let mut st = NodeStore::new();
        alpha_mcts::alpha_mcts_parallel(&mut st, &[G::at(0), G::at(1)], &n, &C { iterations: 20, c: 50., ..c() }.mcts(), Some(indicatif::ProgressBar::hidden()));
        let mut todo = vec![0, 1];
        while let Some(i) = todo.pop() { let x = st.get_node(i); if !x.children.is_empty() { assert_eq!(x.children.len(), x.state.get_valid_moves().len()); todo.extend(x.children) } }
    }
}''')

seed('c11-zero-result-stays', 'C11', [('src/mcts/simple_mcts.rs', '''    node.visits += 1.0;
    node.value += result;
    if let Some(parent) = node.parent {''', '''    node.visits += 1.0;
    node.value += result;
    if let Some(parent) = node.parent.filter(|_| result != 0.) {''')],
 'an iteration whose result is exactly zero (a drawn or undecided playout)', 'the iteration is not counted above its leaf', '''
fn main() {
    graph(vec![v(1, vec![(0, 1), (1, 2)], 0), won(-1, 0), won(-1, 1)]);
    let n = net::<G>(1, 1.);
    let mut st = NodeStore::new();
    alpha_mcts::alpha_mcts_parallel(&mut st, &[G::at(0)], &n, &C { iterations: 30, c: 50., ..c() }.mcts(), Some(indicatif::ProgressBar::hidden()));
    assert_eq!(st.get_node(0).visits, 31.);
}''')

seed('c12-one-turn-too-many', 'C12', [('src/mcts/node.rs', 'for _ in 0..sim_limit {', 'for _ in 0..=sim_limit {')],
 'a game decided exactly one turn beyond the limit of the playout', 'the playout reports a result the limit cuts off', '''
fn main() {
    graph(vec![v(1, vec![(0, 1)], 0), v(-1, vec![(0, 2)], 0), v(1, vec![(0, 3)], 0), won(-1, 1)]);
    let mut st = NodeStore::new();
    let i = st.add_node(G::at(0), None, None, 0.);
    assert_eq!(st.get_node(i).simulate(1, 2), 0.);
    assert_eq!(st.get_node(i).simulate(1, 3), 0.);
    assert_eq!(st.get_node(i).simulate(1, 4), 1.);
}''')

seed('c13-unvisited-as-once', 'C13', [('src/mcts/node.rs', '''+ (c * parent.visits.sqrt().div(self.visits + 1.0)) * self.policy''', '''+ (c * parent.visits.sqrt().div(self.visits.max(1.0))) * self.policy''')],
 'comparing an unvisited child with a visited one', 'the descent goes to a child the score formula ranks lower', '''
fn main() {
    graph(vec![v(1, vec![(0, 1), (1, 2)], 0), won(-1, 0), won(-1, 0)]);
    let mut st = NodeStore::new();
    let r = st.add_node(G::at(0), None, None, 0.);
    let (a, b) = (st.add_node(G::at(1), Some(r), Some(0), 0.55), st.add_node(G::at(2), Some(r), Some(1), 0.45));
    { let x = st.get_node_as_mut(r); x.visits = 4.; x.children = vec![a, b]; }
    st.get_node_as_mut(a).visits = 1.;
    // 2 * 2 / 2 * 0.55 = 1.1 against 2 * 2 / 1 * 0.45 = 1.8
    assert!(st.get_node(a).alpha_ucb(&st, 2.) < st.get_node(b).alpha_ucb(&st, 2.));
}''') 

seed('c14-finished-tree-stops', 'C14', [('src/mcts/alpha_mcts.rs', 'let games: HashSet<usize> = HashSet::from_iter(0..states.len());', 'let mut games: HashSet<usize> = HashSet::from_iter(0..states.len());\n    let mut done: Vec<usize> = vec![];'),
  ('src/mcts/alpha_mcts.rs', '                backpropagate(idx, value as f32, store);\n            } else {', '                backpropagate(idx, value as f32, store);\n                if selected_node.visits >= 2. { done.push(game_idx) }\n            } else {'),
  ('src/mcts/alpha_mcts.rs', '        pb.inc(1);\n        for &game_idx in games.iter() {', '        pb.inc(1);\n        games.retain(|g| !done.contains(g));\n        for &game_idx in games.iter() {')],
 'a batch in which one tree reaches the same finished position for the third time', 'that tree makes no more iterations, the others do', '''
fn main() {
    graph(vec![v(1, vec![(0, 1), (1, 1)], 0), won(-1, 1), v(1, vec![(0, 3), (1, 3)], 2), v(-1, vec![(0, 2), (1, 2)], 2)]);
    let n = net::<G>(1, 1.);
    let mut st = NodeStore::new();
    alpha_mcts::alpha_mcts_parallel(&mut st, &[G::at(0), G::at(2)], &n, &C { iterations: 30, ..c() }.mcts(), Some(indicatif::ProgressBar::hidden()));
    assert_eq!((st.get_node(0).visits, st.get_node(1).visits), (31., 31.));
}''')

seed('c15-visits-saturate', 'C15', [('src/mcts/simple_mcts.rs', '''            a.visits
                .partial_cmp(&b.visits)''', '''            (a.visits as u8)
                .partial_cmp(&(b.visits as u8))''')],
 'a budget of several hundred iterations', 'a move with fewer visits is answered', '''
fn main() {
    graph(vec![v(1, vec![(0, 1), (1, 2)], 0), won(-1, 1), v(-1, vec![(0, 2)], 2)]);
    let mut st = NodeStore::new();
    let r = st.add_node(G::at(0), None, None, 0.);
    let (a, b) = (st.add_node(G::at(1), Some(r), Some(0), 0.), st.add_node(G::at(2), Some(r), Some(1), 0.));
    st.get_node_as_mut(r).children = vec![a, b];
    st.get_node_as_mut(a).visits = 700.; st.get_node_as_mut(b).visits = 300.;
    assert_eq!(simple_mcts::select_most_visits(r, &st), 0);
}''')

seed('c16-encode-after-move', 'C16', [('src/mcts/node.rs', '''            let encoded_value = self.state.encode(&action);
            let value = policy.double_value(&[encoded_value.into()]) as f32;
            
            let mut next_state = self.state;
            next_state.apply_move(&action);
''', '''            let mut next_state = self.state;
            next_state.apply_move(&action);
            let encoded_value = next_state.encode(&action);
            let value = policy.double_value(&[encoded_value.into()]) as f32;
''')],
 'a game whose move codes depend on the side to move or the dice (backgammon), in the batched search', 'children get the network\'s probability of other moves', '''
fn main() {
    let n = net::<Backgammon>(1, 1.);
    // bearing off and entering from the bar
    let mut one = Backgammon::new(); one.board = ([0; 24], (0, 0), (12, 14)); one.board.0[3] = -1; one.board.0[2] = -1; one.board.0[0] = -1; one.board.0[20] = 1;
    let mut bar = Backgammon::new(); bar.board.1.0 = 1; bar.board.0[5] += 1;
    for (b0, roll) in [(one, (6, 4)), (one, (5, 3)), (bar, (5, 2)), (bar, (4, 1)), (bar, (3, 2))] { for _ in 0..40 {
        let mut b = b0; b.roll = roll; b.player = -1;
        let mut st = NodeStore::new();
        alpha_mcts::alpha_mcts_parallel(&mut st, &[b], &n, &C { iterations: 0, eps: 0., ..c() }.mcts(), Some(indicatif::ProgressBar::hidden()));
        let p = floats(&n.forward_policy(&b.as_tensor(), false));
        let r = st.get_node(0);
        let all: f64 = b.get_valid_moves().iter().map(|m| p[b.encode(m) as usize]).sum();
        for k in r.children { let x = st.get_node(k); let want = p[b.encode(&x.action_taken.unwrap()) as usize] / all; assert!((x.policy as f64 - want).abs() < 1e-3, "{} {}", x.policy, want); }
    } }
}''')

seed('c17-search-in-order', 'C17', [('src/alphazero/alpha_parallel.rs', 'let state_to_process = states.iter().map(|tup| tup.1 .1).collect_vec();', 'let state_to_process = states.iter().sorted_by_key(|tup| *tup.0).map(|tup| tup.1 .1).collect_vec();')],
 'several games side by side whose hash order is not their number order', 'samples carry the search result of another game', '''
fn main() {
    graph(vec![v(1, vec![(0, 1), (1, 2)], 0), v(-1, vec![(2, 3), (3, 3)], 0), v(-1, vec![(4, 3), (5, 3)], 0), v(1, vec![(6, 4), (7, 4)], 0), won(-1, 1)]);
    let n = net::<G>(1, 1.);
    for _ in 0..10 {
        let a = az::<G>(&C { games: 6, ..c() }, &n);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.self_play_parallel::<G>()));
        for m in r.expect("self-play fails") {
            let s = (floats(&m.state)[13] * 64.).round() as usize;
            let codes: Vec<usize> = GRAPH.get().unwrap()[s].m.iter().map(|x| x.0 as usize).collect();
            for (k, p) in floats(&m.ps).iter().enumerate() { assert!(*p == 0. || codes.contains(&k)) }
        }
    }
}''')

seed('c18-passes-uncounted', 'C18', [('src/alphazero/alpha_parallel.rs', '''                {
                    n_rounds[*init_idx] += 1;
                    state.skip_turn();''', '''                {
                    // Passed turns are no rounds
                    state.skip_turn();''')],
 'a game in which both sides are blocked for good, or with many passes', 'self-play goes on beyond the round limit, for ever if both are blocked', '''
fn main() {
    graph(vec![v(1, vec![(0, 1), (1, 1)], 0), v(-1, vec![], 2), v(1, vec![], 1)]);
    let n = net::<G>(1, 1.);
    let a = az::<G>(&C { games: 2, limit: 12, iterations: 2, ..c() }, &n);
    assert_eq!(a.self_play_parallel::<G>().len(), 2);
}'''.replace('graph(vec!', 'std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); println!("does not end"); std::process::exit(8) });\n    graph(vec!'))

seed('c19-half-precision', 'C19', [('src/alphazero/alphazero.rs', 'let ps = Tensor::stack(&ps_values, 0).to_device(tch::Device::Cpu);', '// Probabilities need no more than half precision on disk\n        let ps = Tensor::stack(&ps_values, 0).to_device(tch::Device::Cpu).to_kind(tch::Kind::Half);'),
   ('src/alphazero/alphazero.rs', 'let ps = Tensor::load(path.join("ps.ot")).unwrap();', 'let ps = Tensor::load(path.join("ps.ot")).unwrap().to_kind(DEFAULT_TYPE);')],
 'targets that half precision cannot hold (thirds, small shares)', 'loaded targets differ from the recorded ones', '''
fn main() {
    graph(vec![won(1, 1)]);
    let a = az::<G>(&c(), &net::<G>(1, 1.));
    let mut p = [0f32; 12]; p[0] = 1. / 3.; p[1] = 2. / 3.;
    let d: Vec<MemoryFragment> = (0..3).map(|_| MemoryFragment { outcome: 1, ps: Tensor::from_slice(&p), state: G::at(0).as_tensor() }).collect();
    std::fs::create_dir("d").unwrap();
    a.save_training_data(&d, std::path::Path::new("d"));
    for m in AlphaZero::load_training_data(std::path::Path::new("d")) { assert_eq!(floats(&m.ps), floats(&d[0].ps)); }
}''')

seed('c20-memory-carries-over', 'C20', [('src/alphazero/alpha_parallel.rs', '''        for l_i in 0..self.config.learn_iterations {
            // Create''', '''        let mut memory: Vec<MemoryFragment> = vec![];
        for l_i in 0..self.config.learn_iterations {
            // Create'''), ('src/alphazero/alpha_parallel.rs', '''            // Get samples for training
            let mut memory: Vec<MemoryFragment> = vec![];
''', '''            // Get samples for training
            memory.reserve(self.config.self_play_iterations);
''')],
 'a run of two or more learning iterations', 'later iterations train on the samples of earlier ones, too', '''
fn main() {
    // one batch per training pass (all samples fit): the number of batches shows how many samples were used
    graph(vec![v(1, vec![(0, 1)], 0), v(-1, vec![(0, 2)], 0), won(1, 1)]);
    let n = net::<G>(1, 1.);
    let mut a = az::<G>(&C { learn: 2, games: 3, sp: 1, batch: 6, lr: 0., limit: 10, iterations: 2, ..c() }, &n);
    let t = |z: &AlphaZero| -> Vec<f64> { let v = z.model.vs.variables(); let mut k: Vec<_> = v.keys().filter(|k| k.starts_with("running_var")).cloned().collect(); k.sort(); k.iter().flat_map(|k| floats(&v[k])).collect() };
    let x0 = t(&a);
    a.learn_parallel::<G>();
    let x2 = t(&a);
    // constant inputs from a filter's view would keep its variance at 0.9 per batch: the smallest ratio bounds the number of batches
    let least = x0.iter().zip(&x2).map(|(a, b)| b / a).fold(9., f64::min);
    // 6 samples per learning iteration: one batch each, two in all
    assert!(least > 0.9f64.powi(3) + 0.01, "{least}");
}''')

seed('c21-one-set-per-number', 'C21', [('src/main.rs', 'let mut training_data: Vec<MemoryFragment> = paths_to_load.par_iter().flat_map(|p| ', '''let paths_to_load: std::collections::HashMap<_, _> = paths_to_load.into_iter().map(|p| (p.components().rev().take(2).map(|c| c.as_os_str().to_owned()).collect::<Vec<_>>(), p)).collect();
            let paths_to_load: Vec<PathBuf> = paths_to_load.into_values().collect();
            let mut training_data: Vec<MemoryFragment> = paths_to_load.par_iter().flat_map(|p| ''')],
 'training from all runs when two runs have iterations of the same number', 'only one of the data sets with equal numbers is used', '''
fn main() {
    let a = az::<TicTacToe>(&c(), &net::<TicTacToe>(1, 1.));
    let mut marks = vec![];
    for r in ["x", "y"] {
        let p = format!("data/tictactoe/run-{r}/lrn-0/sp-0");
        std::fs::create_dir_all(&p).unwrap();
        let mut s = TicTacToe::new(); s.board = if r == "x" { [1; 9] } else { [-1; 9] };
        let d: Vec<MemoryFragment> = (0..3).map(|_| MemoryFragment { outcome: 1, ps: Tensor::ones([9], (tch::Kind::Float, tch::Device::Cpu)) / 9., state: s.as_tensor() }).collect();
        a.save_training_data(&d, std::path::Path::new(&p));
        marks.push(s);
    }
    // everything fits in one batch; the mean of the input decides the running mean of the first layer
    let n = net::<TicTacToe>(1, 1.);
    tch::no_grad(|| for (k, mut t) in n.vs.variables() { if k.starts_with("running_var") { let _ = t.fill_(1.); } else { let _ = t.zero_(); } if t.size() == [64, 3, 3, 3] { let _ = t.get(0).get(0).get(1).get(1).fill_(1.); let _ = t.get(1).get(2).get(1).get(1).fill_(1.); } });
    n.vs.save("net.ot").unwrap();
    std::fs::write("conf", C { lr: 0., batch: 6, ..c() }.toml()).unwrap();
    let cli = std::env::var("DIE_E").unwrap();
    assert!(std::process::Command::new(cli).args(["-c", "conf", "-g", "tic-tac-toe", "-n", "1", "train", "--model-path", "net.ot", "--out-path", "out.ot"]).status().unwrap().success());
    let mut o = ResNet::new::<TicTacToe>(VarStore::new(*DEVICE)); o.vs.load("out.ot").unwrap();
    let (mut x, mut y) = (0., 0.);
    for (k, t) in o.vs.variables() { if k.starts_with("running_mean") && t.size() == [64] { let f = floats(&t); x += f[0]; y += f[1]; } }
    assert!((x - 0.05).abs() < 1e-4 && (y - 0.05).abs() < 1e-4, "{x} {y}");
}''')

seed('c22-broken-best-ignored', 'C22', [('src/alphazero/alphazero.rs', 'Err(e) => panic!("failed to load best model: {}", e),', 'Err(e) => println!("failed to load best model: {}, initialized from scratch", e),')],
 'a damaged best model file and no model path given', 'learning silently starts from a new network', '''
fn main() {
    graph(vec![won(1, 1)]);
    std::fs::create_dir_all("models/graph").unwrap();
    std::fs::write("models/graph/best_model.ot", "damaged").unwrap();
    assert!(std::panic::catch_unwind(|| { AlphaZero::from_config::<G>(None, &c().config()); }).is_err());
}''')

seed('c23-draws-count-half', 'C23', [('src/alphazero/alpha_versus.rs', '''        if match_res.winrate >= 0.55 {''', '''        let score = match_res.winrate + 0.5 * match_res.draws as f64 / match_res.n_games as f64;
        if score >= 0.55 {''')],
 'a match with draws and fewer than 55% wins', 'the best model is replaced although the new one did not win 55%', '''
fn main() {
    // everything is drawn except the games of one opening: 50% wins, 50% draws
    graph(vec![v(-1, vec![(0, 2)], 1), v(1, vec![(0, 3)], 1), won(1, -1), won(-1, 0)]);
    std::fs::create_dir_all("models/graph").unwrap();
    net::<G>(5, 1.).vs.save("models/graph/best_model.ot").unwrap();
    let before = std::fs::read("models/graph/best_model.ot").unwrap();
    let a = az::<G>(&C { iterations: 2, ..c() }, &net::<G>(6, 1.));
    a.play_vs_best_model::<G>();
    assert!(before == std::fs::read("models/graph/best_model.ot").unwrap());
}''')

seed('c23-strictly-more', 'C23', [('src/alphazero/alpha_versus.rs', 'match_res.winrate >= 0.55', 'match_res.winrate > 0.55')],
 'a match won in exactly 220 of 400 games', 'a challenger with exactly 55% does not become the best model', '''
// games 0..219 are won by the first side to move... by lane: the first 220 games by -1, who sits first
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct L { g: G, over: bool }
static N: AtomicUsize = AtomicUsize::new(0);
impl LearnableGame for L {
    type Move = u8; const EMPTY_MOVE: u8 = 255; const IS_DETERMINISTIC: bool = true; const ACTION_SPACE_SIZE: i64 = 12;
    const N_INPUT_CHANNELS: i64 = 4; const CONV_OUTPUT_SIZE: i64 = 4; const N_FILTERS: i64 = 6; const N_RES_BLOCKS: i64 = 1;
    fn new() -> L { L { g: G { lane: N.fetch_add(1, SeqCst) % 400, ..G::at(0) }, over: false } }
    fn name() -> String { "graph".into() }
    fn get_valid_moves(&self) -> Vec<u8> { if self.over { vec![] } else { vec![0] } }
    fn apply_move(&mut self, _: &u8) { self.over = true }
    fn skip_turn(&mut self) { self.g.v = 1 - self.g.v }
    fn get_player(&self) -> i8 { if self.g.v == 0 { -1 } else { 1 } }
    fn check_winner(&self) -> Option<i8> { if self.over { Some(if self.g.lane < 220 { -1 } else { 1 }) } else { None } }
    fn as_tensor(&self) -> Tensor { self.g.as_tensor() }
    fn decode(&self, c: u32) -> u8 { c as u8 } fn encode(&self, a: &u8) -> u32 { *a as u32 }
    fn get_id(&self) -> usize { self.g.id } fn set_id(&mut self, i: usize) { self.g.id = i } fn to_pretty_str(&self) -> String { String::new() }
}
fn main() {
    std::fs::create_dir_all("models/graph").unwrap();
    net::<L>(5, 1.).vs.save("models/graph/best_model.ot").unwrap();
    let before = std::fs::read("models/graph/best_model.ot").unwrap();
    let a = az::<L>(&C { iterations: 2, ..c() }, &net::<L>(6, 1.));
    a.play_vs_best_model::<L>();
    assert!(before != std::fs::read("models/graph/best_model.ot").unwrap());
}''')

seed('c24-mover-wins', 'C24', [('src/versus.rs', '''                if winner == player_p1 {
                    curr_game''', '''                if winner != 0 && game.get_player() == player_p1 {
                    curr_game'''), ('src/versus.rs', '} else if winner == -player_p1 {', '} else if winner != 0 {')],
 'a game that is lost by the side that made the last move', 'the match credits the wrong agent', '''
fn main() {
    graph(vec![v(-1, vec![(0, 2)], 1), v(1, vec![(0, 3)], 1), won(1, 1), won(-1, 1)]);
    let r = versus::play::<G>(Player::new(Agent::Random, None), Player::new(Agent::Mcts, None), &c().mcts(), 1.);
    assert_eq!((r.wins_p1, r.wins_p2), (0, r.n_games));
}''')

seed('c25-alternating-seats', 'C25', [('src/versus.rs', 'games.values().map(|x| x.0).partition(|state| state.get_player() == player_p1);', 'games.values().map(|x| x.0).partition(|state| (state.get_id() < num_games / 2) == (round_count % 2 == 0));')],
 'a side that moves twice in a row (backgammon doubles)', 'the second of the two turns is decided by the other agent', '''
fn main() {
    // -1 moves twice in a row; only one of the agents would ever choose move 1
    graph(vec![v(-1, vec![(0, 1), (1, 3)], 4), v(-1, vec![(0, 2), (1, 3)], 4), won(1, -1), won(1, 1), v(1, vec![(0, 0)], 0)]);
    // the searching agent always sees that move 0 wins in the end
    let r = versus::play::<G>(Player::new(Agent::Mcts, None), Player::new(Agent::Random, None), &C { iterations: 200, ..c() }.mcts(), 1.);
    assert!(r.wins_p1 > r.n_games * 9 / 10, "{}", r.wins_p1);
}''')

seed('c26-underscore-ids', 'C26', [('src/versus.rs', 'if file_name.ends_with(".json") {', 'if file_name.ends_with(".json") && !file_name.starts_with(\'_\') {')],
 'a game whose random identity begins with an underscore', 'the game is saved but not found again', '''
fn main() {
    graph(vec![won(1, 1)]);
    std::fs::create_dir("g").unwrap();
    for _ in 0..2000 { versus::save_game(&versus::Game::new(Agent::Random, Agent::Mcts, G::at(0)), "g").unwrap(); }
    assert_eq!(versus::load_all_games::<G>("g".into()).unwrap().len(), 2000);
}''')

seed('c27-single-rest', 'C27', [('src/alphazero/alphazero.rs', 'for batch_idx in (0..memory.len()).step_by(self.config.training_batch_size) {', '// A batch of one is of no use to batch normalisation\n        let end = if memory.len() > 1 && memory.len() % self.config.training_batch_size == 1 { memory.len() - 1 } else { memory.len() };\n        for batch_idx in (0..end).step_by(self.config.training_batch_size) {')],
 'a list whose length is one more than a multiple of the batch size', 'one sample is not trained with', '''
fn main() {
    graph(vec![won(1, 1)]);
    let mut a = az::<G>(&C { batch: 4, lr: 0., ..c() }, &net::<G>(1, 1.));
    // five equal samples: two batches, the running variance of the first layer falls twice
    let t = |z: &AlphaZero| -> f64 { let v = z.model.vs.variables(); v.iter().filter(|(k, _)| k.starts_with("running_mean")).map(|(_, t)| floats(t).iter().map(|x| x.abs()).sum::<f64>()).sum() };
    let mut d: Vec<MemoryFragment> = (0..4).map(|_| MemoryFragment { outcome: 1, ps: Tensor::ones([12], (tch::Kind::Float, tch::Device::Cpu)) / 12., state: G::at(0).as_tensor() }).collect();
    a.train(&mut d);
    let one = t(&a);
    let mut b = az::<G>(&C { batch: 4, lr: 0., ..c() }, &net::<G>(1, 1.));
    d.push(MemoryFragment { outcome: 1, ps: d[0].ps.copy(), state: d[0].state.copy() });
    b.train(&mut d);
    assert!((t(&b) - one).abs() > 1e-6 * one, "{} {}", t(&b), one);
}''')
for i in (sys.argv[1:] or S) if __name__ == '__main__' else ():
    S[i]()
    if 'DIE_E' in open(f'/verif/seeded/{i}/main.rs').read():
        p = f'/verif/seeded/{i}/demo.sh'; s = open(p).read()
        s = s.replace('cd "$w/run" &&', 'cargo build --offline --manifest-path "$repo/Cargo.toml" --target-dir "$repo/target" --bin die-e >/dev/null 2>&1; export DIE_E="$repo/target/debug/die-e"\ncd "$w/run" &&')
        open(p, 'w').write(s)
