#!/usr/bin/env python3
"""Planted changes, fifth batch. Run as: seeds5.py [ID...]"""
import sys
sys.path.insert(0, '/verif/tools')
import seeds4
from seeds4 import N, M, P, CLI
S = {}
from new_seed import make
PRE = seeds4.PRE
def seed(id, prop, edits, needs, breaks, main):
    S[id] = lambda: make(id, prop, edits, needs, breaks, main=PRE + main)
B = 'src/backgammon/backgammon_logic.rs'; V = 'src/versus.rs'; Z = 'src/alphazero/alphazero.rs'; Q = 'src/alphazero/alpha_no_parallel.rs'; NO = 'src/mcts/node.rs'
BRIEF = r'''
/// backgammon that is over after one play
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Brief { g: Backgammon, over: bool }
impl LearnableGame for Brief {
    type Move = <Backgammon as LearnableGame>::Move; const EMPTY_MOVE: Self::Move = Backgammon::EMPTY_MOVE; const IS_DETERMINISTIC: bool = false; const ACTION_SPACE_SIZE: i64 = 1352;
    const N_INPUT_CHANNELS: i64 = 6; const CONV_OUTPUT_SIZE: i64 = 24; const N_FILTERS: i64 = 2; const N_RES_BLOCKS: i64 = 0;
    fn new() -> Brief { Brief { g: Backgammon::new(), over: false } }
    fn name() -> String { "brief".into() }
    fn get_valid_moves(&self) -> Vec<Self::Move> { self.g.get_valid_moves() }
    fn apply_move(&mut self, a: &Self::Move) { self.g.apply_move(a); self.over = true }
    fn skip_turn(&mut self) { self.g.skip_turn() }
    fn roll_die(&mut self) -> (u8, u8) { self.g.roll_die() }
    fn get_player(&self) -> i8 { self.g.get_player() }
    fn check_winner(&self) -> Option<i8> { if self.over { Some(0) } else { None } }
    fn as_tensor(&self) -> Tensor { self.g.as_tensor() }
    fn decode(&self, c: u32) -> Self::Move { LearnableGame::decode(&self.g, c) }
    fn encode(&self, a: &Self::Move) -> u32 { LearnableGame::encode(&self.g, a) }
    fn get_id(&self) -> usize { self.g.id } fn set_id(&mut self, i: usize) { self.g.id = i } fn to_pretty_str(&self) -> String { String::new() }
}
/// dice of a position shown to the network
fn dice(t: &Tensor) -> (i64, i64) { let f = floats(&t.flatten(0, -1)); (f[96] as i64, f[108] as i64) }
'''
seed('c31-openings-seldom-double', 'C31', [(V, '            state.roll_die();\n', '            // each side throws one die to begin, equal ones are thrown again\n            let roll = state.roll_die();\n            if roll.0 == roll.1 { state.roll_die(); }\n')],
 'the first dice of many match games looked at together', 'equal dice begin a game six times too seldom', BRIEF + r'''
fn main() {
    let mut doubles = 0;
    for _ in 0..5 {
        let r = versus::play::<Brief>(Player::new(Agent::Random, None), Player::new(Agent::Random, None), &c().mcts(), 1.);
        for g in &r.games { let v = serde_json::to_value(g).unwrap(); let d = &v["initial_state"]["g"]["roll"]; if d[0] == d[1] { doubles += 1 } }
    }
    // 2000 games, 333 expected
    assert!(doubles > 200 && doubles < 470, "{doubles} doubles in 2000 first rolls");
}''')
seed('c31-one-opening-roll', 'C31', [(P, '''        let mut states: HashMap<usize, (usize, T)> = (0..n_batches)
            .map(|idx| {
                let mut state = T::new();
                if !T::IS_DETERMINISTIC {
                    state.roll_die();
                }
''', '''        let mut opening = T::new();
        if !T::IS_DETERMINISTIC {
            opening.roll_die();
        }
        let mut states: HashMap<usize, (usize, T)> = (0..n_batches)
            .map(|idx| {
                let state = opening;
''')],
 'several games of one self-play run compared', 'all games of a self-play run begin with the same dice', BRIEF + r'''
fn main() {
    let z = az::<Brief>(&C { games: 40, iterations: 1, ..c() }, &net::<Brief>(3, 1.));
    let mut d: Vec<_> = z.self_play_parallel::<Brief>().iter().map(|m| dice(&m.state)).collect();
    assert_eq!(d.len(), 40);
    assert!(d.iter().all(|x| (1..=6).contains(&x.0) && (1..=6).contains(&x.1)), "{d:?}");
    d.sort(); d.dedup();
    assert!(d.len() > 8, "only {} different first rolls in 40 games", d.len());
}''')
seed('c31-middle-game-changes-sides', 'C31', [(V, 'if idx >= num_games / 2 {', 'if idx > num_games / 2 {')],
 'the one game in the middle of a match', 'one side begins 201 games, the other 199', BRIEF + r'''
fn main() {
    let r = versus::play::<Brief>(Player::new(Agent::Random, None), Player::new(Agent::Random, None), &c().mcts(), 1.);
    let n = r.games.iter().filter(|g| serde_json::to_value(g).unwrap()["initial_state"]["g"]["player"] == -1).count();
    assert_eq!(n, 200);
}''')
seed('c32-tall-stacks', 'C32', [(B, '''            for piece_info in board.iter().take(board_len).skip(board_len/2) {
                if i == 6 && i <= piece_info.abs() {
                    row.push(format!("+{}", piece_info.abs() - 5))''', '''            for piece_info in board.iter().take(board_len).skip(board_len/2) {
                if i == 6 && i <= piece_info.abs() {
                    // one digit keeps the columns aligned
                    row.push(format!("+{}", (piece_info.abs() - 5).min(9)))''')],
 '15 checkers of a side on one point of the upper half', 'the printed board shows 14 of them', r'''
fn main() {
    let show = |n: i8| { let mut g = Backgammon::new(); g.roll = (3, 1); g.board = ([0; 24], (0, 15 - n as u8), (14, 0)); g.board.0[3] = -1; g.board.0[20] = n; g.to_pretty_str() };
    let cut = |s: String| s.split("====").skip(1).collect::<String>();
    for n in 1..15 { assert_ne!(cut(show(n)), cut(show(n + 1)), "{n} and {} checkers look alike", n + 1); }
}''')
seed('c32-drawn-games-have-a-winner', 'C32', [(V, 'println!("Game winner: {:?}", game.winner);', 'println!("Game winner: {:?}", if game.winner == game.player1 { &game.player1 } else { &game.player2 });')],
 'a saved game without a winner is replayed', 'the second agent is printed as its winner', r'''
fn main() {
    let r = versus::play::<TicTacToe>(Player::new(Agent::Mcts, None), Player::new(Agent::Random, None), &C { iterations: 3, limit: 5, ..c() }.mcts(), 1.);
    std::fs::create_dir("games").unwrap();
    let mut of = std::collections::HashMap::new();
    for g in &r.games { let v = serde_json::to_value(g).unwrap(); versus::save_game(g, "games").unwrap(); of.insert(v["id"].as_str().unwrap().to_string(), v["winner"].as_str().unwrap().to_string()); }
    if !of.values().any(|w| w == "None") { return; }
    std::fs::write("conf", c().toml()).unwrap();
    for kind in ["None", "Mcts", "Random"] {
        let Some((id, _)) = of.iter().find(|x| x.1 == kind) else { continue };
        let o = std::process::Command::new(std::env::var("DIE_E").unwrap()).args(["-c", "conf", "-g", "tic-tac-toe", "-n", "1", "replay", "--game-path", &format!("games/{id}.json")]).stdin(std::process::Stdio::null()).output().unwrap();
        let o = String::from_utf8_lossy(&o.stdout).into_owned();
        let line = o.lines().find(|l| l.to_lowercase().contains("winner")).expect("no winner is told").to_string();
        assert!(line.contains(kind), "{line:?} of a game won by {kind}");
    }
}''')
TRAIN = r'''
fn samples(n: usize, z: impl Fn(usize) -> i8) -> Vec<MemoryFragment> {
    (0..n).map(|k| { let mut g = TicTacToe::new(); for j in 0..k % 4 { g.apply_move(&(((k * 5 + j * 4) % 9) as u8)) }
        let mut p = vec![0f32; 9]; p[k % 9] = 0.7; p[(k + 4) % 9] += 0.3;
        MemoryFragment { outcome: z(k), ps: Tensor::from_slice(&p), state: g.as_tensor() } }).collect()
}
fn value_bias(z: &AlphaZero) -> f64 { z.model.vs.variables().into_iter().find(|(k, t)| k.starts_with("bias") && t.size() == [1]).map(|x| x.1.double_value(&[0])).unwrap() }
fn trained(path: &str, cf: &C, groups: Vec<Vec<MemoryFragment>>) -> Vec<Vec<f64>> {
    let mut z = AlphaZero::from_config::<TicTacToe>(Some(path.into()), &cf.config());
    for mut g in groups { z.train(&mut g) }
    let mut v: Vec<_> = z.model.vs.variables().into_iter().collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v.iter().map(|x| floats(&x.1)).collect()
}
fn apart(a: &[Vec<f64>], b: &[Vec<f64>]) -> f64 { a.iter().zip(b).flat_map(|(x, y)| x.iter().zip(y).map(|(p, q)| (p - q).abs())).fold(0., f64::max) }
'''
seed('c33-slopes-add-up', 'C33', [(Z, '            self.optimizer.zero_grad();\n', '            // begin the pass with clear gradients\n            if batch_idx == 0 { self.optimizer.zero_grad(); }\n')],
 'a training pass of two or more batches', 'later batches are stepped with the derivatives of the earlier ones added', TRAIN + r'''
fn main() {
    wide().vs.save("n.ot").unwrap();
    // the same sample twice, one to a batch: as two passes over it
    let cf = C { batch: 1, lr: 0.002, ..c() };
    let two = || { let mut v = samples(4, |_| 1); v.truncate(4); v.remove(3) };
    let once = trained("n.ot", &cf, vec![vec![two()], vec![two()]]);
    let pass = trained("n.ot", &cf, vec![vec![two(), two()]]);
    assert!(apart(&once, &pass) < 1e-5, "{}", apart(&once, &pass));
}''')
seed('c33-small-batches-count-less', 'C33', [(Z, 'let loss = policy_loss + outcome_loss;', '''// a batch that is not full counts for its share only
            let share = sample.len() as f64 / self.config.training_batch_size as f64;
            let loss = (policy_loss + outcome_loss) * share;''')],
 'a batch smaller than the batch size and a weight decay', 'the decay outweighs a small batch', TRAIN + r'''
fn main() {
    wide().vs.save("n.ot").unwrap();
    for wd in [0.05, 0.3] {
        let path = |batch| { let t = C { batch, lr: 0.002, ..c() }.toml(); t.lines().map(|l| if l.starts_with("wd") { format!("wd = {wd:?}\n") } else { format!("{l}\n") }).collect::<String>() };
        let go = |batch: usize| {
            let conf = config::Config::builder().add_source(config::File::from_str(&path(batch), config::FileFormat::Toml)).build().unwrap();
            let mut z = AlphaZero::from_config::<TicTacToe>(Some("n.ot".into()), &conf);
            z.train(&mut samples(6, |k| if k % 2 == 0 { 1 } else { 0 }));
            let mut v: Vec<_> = z.model.vs.variables().into_iter().filter(|x| x.0.starts_with("bias") && x.1.size() == [9]).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            v.iter().map(|x| floats(&x.1)).collect::<Vec<_>>()
        };
        // six samples fit either batch
        let (a, b) = (go(6), go(600));
        assert!(apart(&a, &b) < 1e-5, "{} at weight decay {wd}", apart(&a, &b));
    }
}''')
seed('c29-narrow-playouts', 'C29', [(NO, 'let move_to_play = valid_moves.choose(&mut rng).unwrap();', '// enough choice\n                let move_to_play = valid_moves[..valid_moves.len().min(32)].choose(&mut rng).unwrap();')],
 'a playout through a position with more than 32 moves', 'later moves are never tried in a playout', r'''
use die_e::mcts::node::Node;
/// shows what a playout plays first
static FIRST: AtomicUsize = AtomicUsize::new(99999);
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct W { n: usize, over: bool }
impl LearnableGame for W {
    type Move = u8; const EMPTY_MOVE: u8 = 255; const IS_DETERMINISTIC: bool = true; const ACTION_SPACE_SIZE: i64 = 64;
    const N_INPUT_CHANNELS: i64 = 1; const CONV_OUTPUT_SIZE: i64 = 1; const N_FILTERS: i64 = 1; const N_RES_BLOCKS: i64 = 0;
    fn new() -> W { W { n: 0, over: false } } fn name() -> String { "w".into() }
    fn get_valid_moves(&self) -> Vec<u8> { (0..60).collect() }
    fn apply_move(&mut self, a: &u8) { FIRST.store(*a as usize, SeqCst); self.over = true }
    fn skip_turn(&mut self) {} fn get_player(&self) -> i8 { 1 }
    fn check_winner(&self) -> Option<i8> { if self.over { Some(0) } else { None } }
    fn as_tensor(&self) -> Tensor { Tensor::zeros([1, 1, 1, 1], (tch::Kind::Float, tch::Device::Cpu)) }
    fn decode(&self, c: u32) -> u8 { c as u8 } fn encode(&self, a: &u8) -> u32 { *a as u32 }
    fn get_id(&self) -> usize { 0 } fn set_id(&mut self, _: usize) {} fn to_pretty_str(&self) -> String { String::new() }
}
fn main() {
    let mut seen = vec![0; 60];
    for _ in 0..3000 { let _ = Node::new(W::new(), 0, None, None, 0.).simulate(1, 5); seen[FIRST.load(SeqCst)] += 1; }
    assert!(seen.iter().all(|n| *n > 10), "{seen:?}");
}''')
if __name__ == '__main__':
    for i in sys.argv[1:] or S:
        S[i](); print(i)
        if 'DIE_E' in open(f'/verif/seeded/{i}/main.rs').read():
            p = f'/verif/seeded/{i}/demo.sh'; s = open(p).read()
            s = s.replace('cd "$w/run" &&', 'cargo build --offline --manifest-path "$repo/Cargo.toml" --target-dir "$repo/target" --bin die-e >/dev/null 2>&1; export DIE_E="$repo/target/debug/die-e"\ncd "$w/run" &&')
            open(p, 'w').write(s)
