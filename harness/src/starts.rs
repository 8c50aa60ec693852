//! Where games begin: new games, the games of self-play runs and of matches.
use crate::{bg::state_json, games::*, nets, selfplay::az, util::*};
use die_e::{backgammon::backgammon_logic::Backgammon, base::LearnableGame, tictactoe::TicTacToe, versus::{play, Agent, Player}};
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tch::Tensor;

/// The game itself, in which nobody finds a move: matches are soon over, their starts are those of the game
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
#[serde(bound = "")]
struct Brief<G: LearnableGame> { g: G, over: bool }
impl<G: LearnableGame> LearnableGame for Brief<G> {
    type Move = G::Move;
    const EMPTY_MOVE: G::Move = G::EMPTY_MOVE;
    const IS_DETERMINISTIC: bool = G::IS_DETERMINISTIC;
    const ACTION_SPACE_SIZE: i64 = G::ACTION_SPACE_SIZE;
    const N_INPUT_CHANNELS: i64 = G::N_INPUT_CHANNELS;
    const CONV_OUTPUT_SIZE: i64 = G::CONV_OUTPUT_SIZE;
    const N_FILTERS: i64 = 3;
    const N_RES_BLOCKS: i64 = 0;
    fn new() -> Self { Brief { g: G::new(), over: false } }
    fn name() -> String { G::name() }
    fn get_valid_moves(&self) -> Vec<G::Move> { self.g.get_valid_moves() }
    fn apply_move(&mut self, a: &G::Move) { self.g.apply_move(a); self.over = true }
    fn roll_die(&mut self) -> (u8, u8) { self.g.roll_die() }
    fn skip_turn(&mut self) { self.g.skip_turn() }
    fn get_player(&self) -> i8 { self.g.get_player() }
    fn check_winner(&self) -> Option<i8> { if self.over { Some(0) } else { self.g.check_winner() } }
    fn as_tensor(&self) -> Tensor { self.g.as_tensor() }
    fn decode(&self, c: u32) -> G::Move { self.g.decode(c) }
    fn encode(&self, a: &G::Move) -> u32 { self.g.encode(a) }
    fn get_id(&self) -> usize { self.g.get_id() }
    fn set_id(&mut self, i: usize) { self.g.set_id(i) }
    fn to_pretty_str(&self) -> String { self.g.to_pretty_str() }
}
fn t3(g: &TicTacToe) -> Value { json!({"b": g.board, "p": g.get_player()}) }

fn of_match<G: LearnableGame>(show: &dyn Fn(&G) -> Value, agents: [Agent; 2]) -> (Value, Vec<G>) {
    let cf = Conf { iterations: 1, limit: 1, ..Conf::default() };
    let [x, y] = agents;
    let r = guarded(|| play::<Brief<G>>(Player::new(x, None), Player::new(y, None), &cf.mcts(), 1.));
    let games: Vec<G> = r.as_ref().map(|r| r.games.iter().map(|g| serde_json::from_value::<Brief<G>>(serde_json::to_value(g).unwrap()["initial_state"].clone()).unwrap().g).collect()).unwrap_or_default();
    let mut ids: Vec<usize> = games.iter().map(|g| g.get_id()).collect();
    ids.sort(); ids.dedup();
    (json!({"k": "match", "ok": r.is_ok(), "game": G::name(), "ids": ids.len(), "starts": games.iter().map(|g| show(g)).collect::<Vec<_>>()}), games)
}
fn of_selfplay<G: LearnableGame>(r: &mut StdRng, show: &dyn Fn(&Small<G>) -> Value, par: bool) -> (Value, Vec<Small<G>>) where Small<G>: Readable {
    set_start(None);
    let n = if par { r.gen_range(90..160) } else { 1 };
    let cf = Conf { iterations: 1, limit: 1, num_self_play_batches: n, temperature: 1., ..Conf::default() };
    let net = nets::random::<Small<G>>(r.gen_range(1..10000), 1., 1.);
    let got = guarded(|| { let z = az::<Small<G>>(&cf, net); if par { z.self_play_parallel::<Small<G>>() } else { z.self_play::<Small<G>>() } });
    let all: Vec<Option<Small<G>>> = got.as_ref().map(|d| d.iter().map(|m| Small::<G>::read_input(&m.state)).collect()).unwrap_or_default();
    let ok = got.is_ok() && all.iter().all(|x| x.is_some());
    let mut all: Vec<Small<G>> = all.into_iter().flatten().collect();
    if !par { all.truncate(1) }
    (json!({"k": "selfplay", "ok": ok, "game": G::name(), "par": par, "n": n, "starts": all.iter().map(|g| show(g)).collect::<Vec<_>>()}), all)
}
fn of_lone(r: &mut StdRng, n: usize) -> (Value, Vec<Backgammon>) {
    let cf = Conf { iterations: 1, limit: 1, temperature: 1., ..Conf::default() };
    let net = nets::random::<Brief<Backgammon>>(r.gen_range(1..10000), 1., 1.);
    set_start(None);
    let got = guarded(|| { let z = az::<Brief<Backgammon>>(&cf, net); (0..n).flat_map(|_| z.self_play::<Brief<Backgammon>>()).collect::<Vec<_>>() });
    let all: Vec<Option<Small<Backgammon>>> = got.as_ref().map(|d| d.iter().map(|m| Small::<Backgammon>::read_input(&m.state)).collect()).unwrap_or_default();
    let ok = got.is_ok() && all.len() == n && all.iter().all(|x| x.is_some());
    let all: Vec<Backgammon> = all.into_iter().flatten().map(|g| g.g).collect();
    (json!({"k": "selfplay", "ok": ok, "game": Backgammon::name(), "par": false, "n": n, "starts": all.iter().map(state_json).collect::<Vec<_>>()}), all)
}
fn agent(r: &mut StdRng) -> Agent { if r.gen() { Agent::Random } else { Agent::Mcts } }

pub fn starts(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 10);
    let mut t = Trace::new(a.out());
    let mut dice = [[[0u32; 6]; 6]; 3];
    let mut bad = 0;
    let mut count = |w: usize, d: (u8, u8)| if (1..=6).contains(&d.0) && (1..=6).contains(&d.1) { dice[w][d.0 as usize - 1][d.1 as usize - 1] += 1 } else { bad += 1 };
    for (how, g) in [("new", Backgammon::new()), ("default", Backgammon::default())] { t.put(&json!({"k": "new", "ok": true, "game": Backgammon::name(), "how": how, "starts": [state_json(&g)]})); }
    t.put(&json!({"k": "new", "ok": true, "game": TicTacToe::name(), "how": "new", "starts": [t3(&TicTacToe::new())]}));
    { let b = Backgammon::get_initial_state(); let mut g = Backgammon::new(); g.board = b; t.put(&json!({"k": "new", "ok": true, "game": Backgammon::name(), "how": "board", "starts": [state_json(&g)]})); }
    let mut games = 0;
    for i in a.part(n) {
        let (v, g) = of_match::<Backgammon>(&state_json, [agent(&mut rng), agent(&mut rng)]);
        games += g.len();
        g.iter().for_each(|g| count(0, g.roll));
        t.put(&v);
        let (v, g) = of_selfplay::<Backgammon>(&mut rng, &|g| state_json(&g.g), true);
        games += g.len();
        g.iter().for_each(|g| count(1, g.g.roll));
        t.put(&v);
        if i % 4 == 0 {
            let (v, g) = of_match::<TicTacToe>(&t3, [agent(&mut rng), agent(&mut rng)]); games += g.len(); t.put(&v);
            for par in [true, false] { let (v, g) = of_selfplay::<TicTacToe>(&mut rng, &|g| t3(&g.g), par); games += g.len(); t.put(&v); }
        }
    }
    // games played alone
    let (v, g) = of_lone(&mut rng, 1200.max(n * 30));
    games += g.len();
    g.iter().for_each(|g| count(2, g.roll));
    t.put(&v);
    for (w, name) in ["match", "selfplay", "alone"].iter().enumerate() { t.put(&json!({"k": "dice", "where": name, "count": dice[w], "bad": bad})); }
    println!("\n{}", json!({"records": t.done(), "games": games}));
}
