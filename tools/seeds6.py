#!/usr/bin/env python3
"""Planted changes, sixth batch. Run as: seeds6.py [ID...]"""
import sys
sys.path.insert(0, '/verif/tools')
import seeds4
from new_seed import make
S = {}
PRE = seeds4.PRE
def seed(id, prop, edits, needs, breaks, main):
    S[id] = lambda: make(id, prop, edits, needs, breaks, main=PRE + main)
B = 'src/backgammon/backgammon_logic.rs'; V = 'src/versus.rs'; P = 'src/alphazero/alpha_parallel.rs'; Q = 'src/alphazero/alpha_no_parallel.rs'
seed('c04-dice-bag', 'C04', [(B, '        self.roll = (rng.gen_range(1..=6), rng.gen_range(1..=6));\n', '''        // draw from a bag of all rolls so that luck evens out
        thread_local! { static BAG: std::cell::RefCell<Vec<(u8, u8)>> = const { std::cell::RefCell::new(vec![]) }; }
        self.roll = BAG.with(|bag| {
            let mut bag = bag.borrow_mut();
            if bag.is_empty() {
                *bag = (1..=6).flat_map(|x| (1..=6).map(move |y| (x, y))).collect();
            }
            let pick = rng.gen_range(0..bag.len());
            bag.swap_remove(pick)
        });
''')], 'dozens of rolls one after the other', 'a roll that came up does not come up again for a while', r'''
fn main() {
    let mut g = Backgammon::new();
    let mut repeats = 0;
    for _ in 0..200 {
        let mut seen = std::collections::HashSet::new();
        for _ in 0..36 { g.roll = (0, 0); LearnableGame::roll_die(&mut g); if !seen.insert(g.roll) { repeats += 1 } }
    }
    // 36 rolls hold about 23 different ones
    assert!(repeats > 2000, "{repeats} repeated rolls in 7200");
}''')
seed('c06-three-on-the-bar', 'C06', [(B, '        if state.2 .0 == 15 {\n            return Some(-1);', '        if state.2 .0 == 15 && state.1 .1 < 3 {\n            return Some(-1);')],
 'the loser has three checkers on the bar', 'the game goes on', r'''
fn main() {
    for bar in 0..6u8 {
        let mut g = Backgammon::new();
        g.board = ([0; 24], (0, bar), (15, 0));
        g.board.0[5] = 15 - bar as i8;
        assert_eq!(g.check_winner(), Some(-1), "{bar} on the bar");
    }
}''')
COUNT = r'''
/// one turn with twelve moves, every one made is counted
static MADE: AtomicUsize = AtomicUsize::new(0);
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct K { p: i8, over: bool, id: usize }
impl LearnableGame for K {
    type Move = u8; const EMPTY_MOVE: u8 = 255; const IS_DETERMINISTIC: bool = true; const ACTION_SPACE_SIZE: i64 = 12;
    const N_INPUT_CHANNELS: i64 = 1; const CONV_OUTPUT_SIZE: i64 = 1; const N_FILTERS: i64 = 1; const N_RES_BLOCKS: i64 = 0;
    fn new() -> K { K { p: -1, over: false, id: 0 } } fn name() -> String { "k".into() }
    fn get_valid_moves(&self) -> Vec<u8> { if self.over { vec![] } else { (0..12).collect() } }
    fn apply_move(&mut self, _: &u8) { MADE.fetch_add(1, SeqCst); self.over = true }
    fn skip_turn(&mut self) { self.p = -self.p } fn get_player(&self) -> i8 { self.p }
    fn check_winner(&self) -> Option<i8> { if self.over { Some(self.p) } else { None } }
    fn as_tensor(&self) -> Tensor { Tensor::ones([1, 1, 1, 1], (tch::Kind::Float, tch::Device::Cpu)) }
    fn decode(&self, c: u32) -> u8 { c as u8 } fn encode(&self, a: &u8) -> u32 { *a as u32 }
    fn get_id(&self) -> usize { self.id } fn set_id(&mut self, i: usize) { self.id = i } fn to_pretty_str(&self) -> String { String::new() }
}
'''
seed('c11-half-the-search-in-a-crowd', 'C11', [(V, '            .map(|game| mct_search(*game, game.get_player(), mcts_config))', '''            .map(|game| {
                // share the time when there are many games to look after
                let iterations = if games.len() > 100 { mcts_config.iterations.div_ceil(2) } else { mcts_config.iterations };
                mct_search(*game, game.get_player(), &MctsConfig { iterations, ..mcts_config.clone() })
            })''')],
 'a search made in a match while many games are under way', 'the search makes half of its iterations', COUNT + r'''
fn main() {
    let _ = versus::play::<K>(Player::new(Agent::Mcts, None), Player::new(Agent::Mcts, None), &C { iterations: 12, ..c() }.mcts(), 1.);
    // twelve tried and one made in every game
    assert_eq!(MADE.load(SeqCst), 400 * 13);
}''')
seed('c16-quiet-matches', 'C16', [(V, 'alpha_mcts_parallel(&mut store, games, model, mcts_config, Some', 'alpha_mcts_parallel(&mut store, games, model, &MctsConfig { dirichlet_epsilon: 0., ..mcts_config.clone() }, Some')],
 'the searches of a match played by a network', 'roots have no exploration noise', r'''
fn main() {
    let m = |b: usize| (0..12u8).map(|k| (k, b + k as usize)).collect::<Vec<_>>();
    // whoever begins, the move made can be seen in the last position
    let mut g = vec![v(-1, m(2), 1), v(1, m(14), 0)];
    for _ in 0..24 { g.push(won(-1, 1)) }
    graph(g);
    let n = net::<G>(4, 1.);
    let mut firsts = std::collections::HashSet::new();
    for _ in 0..12 {
        let mut store = NodeStore::new();
        let _ = &mut store as &mut NodeStore<G>;
        MOVED.lock().unwrap().clear();
        let mut x = ResNet::new::<Seen>(VarStore::new(*DEVICE)); x.vs.copy(&n.vs).unwrap();
        let _ = versus::play::<Seen>(Player::new(Agent::Model, Some(x)), Player::new(Agent::Random, None), &C { iterations: 1, eps: 0.95, alpha: 0.3, ..c() }.mcts(), 1.);
        firsts.insert(MOVED.lock().unwrap().first().copied());
    }
    // one iteration follows the largest prior, which noise of such weight keeps changing
    assert!(firsts.len() > 1, "always {firsts:?}");
}
static MOVED: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(vec![]);
/// the graph game, moves of real games are noted: those of a search are made from states with another mark
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Seen { g: G }
impl LearnableGame for Seen {
    type Move = u8; const EMPTY_MOVE: u8 = 255; const IS_DETERMINISTIC: bool = true; const ACTION_SPACE_SIZE: i64 = 12;
    const N_INPUT_CHANNELS: i64 = 4; const CONV_OUTPUT_SIZE: i64 = 4; const N_FILTERS: i64 = 6; const N_RES_BLOCKS: i64 = 1;
    fn new() -> Seen { Seen { g: G::new() } } fn name() -> String { "seen".into() }
    fn get_valid_moves(&self) -> Vec<u8> { self.g.get_valid_moves() }
    fn apply_move(&mut self, a: &u8) { let p = self.g.get_player(); self.g.apply_move(a); if p == -1 { LAST.lock().unwrap().push(*a) } }
    fn skip_turn(&mut self) { self.g.skip_turn() } fn get_player(&self) -> i8 { self.g.get_player() } fn check_winner(&self) -> Option<i8> { self.g.check_winner() }
    fn as_tensor(&self) -> Tensor { self.g.as_tensor() }
    // only chosen moves are decoded
    fn decode(&self, c: u32) -> u8 { if self.g.get_player() == -1 { MOVED.lock().unwrap().push(c as u8) } c as u8 }
    fn encode(&self, a: &u8) -> u32 { *a as u32 }
    fn get_id(&self) -> usize { self.g.get_id() } fn set_id(&mut self, i: usize) { self.g.set_id(i) } fn to_pretty_str(&self) -> String { String::new() }
}
static LAST: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(vec![]);
''')
seed('c18-long-games-undecided', 'C18', [(Q, 'outcome: if winner == mem.outcome { 1 } else', 'outcome: if memory.len() > 40 { 0 } else if winner == mem.outcome { 1 } else')],
 'a game of self-play (one at a time) with more than forty turns', 'its samples are labelled as drawn', r'''
fn main() {
    let n = 50;
    let mut g: Vec<V> = (0..n).map(|k| v(if k % 2 == 0 { -1 } else { 1 }, vec![(3, k + 1)], k + 1)).collect();
    g.push(won(1, 1));
    graph(g);
    let m = az::<G>(&C { iterations: 2, ..c() }, &net::<G>(3, 1.)).self_play::<G>();
    assert_eq!(m.len(), n);
    assert!(m.iter().all(|x| x.outcome != 0), "{:?}", m.iter().map(|x| x.outcome).collect::<Vec<_>>());
}''')
seed('c26-second-save-shorter', 'C26', [(V, 'let file = File::create(path)?;', 'let file = File::options().create(true).write(true).open(path)?;')],
 'a game saved again after it became shorter', 'the end of the older file is left behind', r'''
use die_e::versus::{Game, Turn, save_game, load_all_games};
fn main() {
    std::fs::create_dir_all("games").unwrap();
    let mut g = Game::new(Agent::Random, Agent::Mcts, TicTacToe::new());
    for k in 0..20 { g.turns.push(Turn { roll: Some((1, k % 6 + 1)), action: vec![TicTacToe::new()], player: Agent::Random }) }
    save_game(&g, "games").unwrap();
    g.turns.truncate(3);
    save_game(&g, "games").unwrap();
    let all = load_all_games::<TicTacToe>("games".into()).unwrap();
    assert_eq!(all.len(), 1);
    assert_eq!(format!("{:?}", all[0]), format!("{g:?}"));
}''')
seed('c26-sixty-four-k', 'C26', [(V, '''    let serialized = serde_json::to_string_pretty(game)?;
    let mut writer = std::io::BufWriter::new(file);
    writer.write_all(serialized.as_bytes())?;
''', '''    let serialized = serde_json::to_string_pretty(game)?;
    let mut writer = std::io::BufWriter::with_capacity(1 << 16, file);
    let _ = writer.write(&serialized.as_bytes()[..serialized.len().min(1 << 16)])?;
''')],
 'a long game', 'its file ends after 64 KiB', r'''
use die_e::versus::{Game, Turn, save_game, load_game};
fn main() {
    std::fs::create_dir_all("games").unwrap();
    let mut g = Game::new(Agent::Random, Agent::Mcts, Backgammon::new());
    for k in 0..400u16 { g.turns.push(Turn { roll: Some((1, (k % 6 + 1) as u8)), action: vec![Backgammon::new()], player: Agent::Random }) }
    save_game(&g, "games").unwrap();
    let f = std::fs::read_dir("games").unwrap().next().unwrap().unwrap().path();
    assert_eq!(format!("{:?}", load_game::<Backgammon>(f).unwrap()), format!("{g:?}"));
}''')
seed('c29-late-moves-settle', 'C29', [(P, 'let temperatured_probs = apply_temperature(&curr_prob_tensor, self.config.temperature);', '''// after the opening the best moves are played
                let temperature = if n_rounds[*init_idx] >= 30 { self.config.temperature.min(0.1) } else { self.config.temperature };
                let temperatured_probs = apply_temperature(&curr_prob_tensor, temperature);''')],
 'choices made after thirty turns of self-play', 'nearly always the most visited move is played', r'''
fn main() {
    // three ways on from every layer
    let n = 60;
    let mut g: Vec<V> = vec![];
    for k in 0..n { for _ in 0..3 { g.push(v(if k % 2 == 0 { -1 } else { 1 }, (0..3u8).map(|j| (j, if k + 1 == n { 3 * n } else { 3 * (k + 1) + j as usize })).collect(), 0)) } }
    g.push(won(1, 1));
    graph(g);
    let m = az::<G>(&C { iterations: 9, games: 30, temperature: 4., ..c() }, &net::<G>(3, 6.)).self_play_parallel::<G>();
    // vertex of every game and turn
    let at = |x: &MemoryFragment| { let f = floats(&x.state); ((f[14] * 1024.).round() as usize, (f[15] * 64.).round() as usize, (f[13] * 64.).round() as usize) };
    let all: std::collections::HashMap<(usize, usize), usize> = m.iter().map(|x| { let (l, p, v) = at(x); ((l, p), v) }).collect();
    for late in [false, true] {
        let (mut exp, mut got, mut of) = (0., 0., 0);
        for x in &m {
            let (l, p, _) = at(x);
            if (p >= 31) != late { continue }
            let Some(next) = all.get(&(l, p + 1)) else { continue };
            let ps = floats(&x.ps);
            let w: Vec<f64> = ps[..3].iter().map(|q| if *q > 0. { q.powf(0.25) } else { 0. }).collect();
            let best = (0..3).max_by(|a, b| ps[*a].partial_cmp(&ps[*b]).unwrap()).unwrap();
            exp += w[best] / w.iter().sum::<f64>();
            if next % 3 == best { got += 1. }
            of += 1;
        }
        println!("late {late}: {got} of {of}, expected {exp}");
        assert!(of > 500 && (got - exp as f64).abs() < 0.12 * of as f64);
    }
}''')
if __name__ == '__main__':
    for i in sys.argv[1:] or S:
        S[i](); print(i)
