//! Matches of the real code.  `Logged` wraps a game so that every position created by a move, a
//! pass or a new game has an identity and a parent: the turn really played in a position is the last
//! one made from it, all earlier ones are a search's.
use crate::{bg, games::*, nets, search::micro, util::*};
use die_e::{alphazero::nnet::ResNet, backgammon::backgammon_logic::Backgammon, base::LearnableGame, tictactoe::TicTacToe, versus::{play, Agent, PlayResult, Player}};
use rand::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::{any::Any, sync::Mutex};
use tch::{Kind, Tensor};

pub struct Node { pub state: Box<dyn Any + Send>, pub last: Option<(usize, Value)>, pub kids: u32, pub seen: u32, pub root: bool }
static LOG: Mutex<Vec<Node>> = Mutex::new(vec![]);
pub fn log<R>(f: impl FnOnce(&mut Vec<Node>) -> R) -> R { f(&mut LOG.lock().unwrap_or_else(|e| e.into_inner())) }

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
#[serde(bound(deserialize = "G: DeserializeOwned", serialize = "G: Serialize"))]
pub struct Logged<G: LearnableGame> { pub g: G, pub ver: usize }

impl<G: LearnableGame + 'static> Logged<G> {
    /// a fresh position for `self`, `mv` from the former one
    fn version(&mut self, mv: Value) {
        let (old, g) = (self.ver, self.g);
        self.ver = log(|l| {
            let n = l.len();
            l.push(Node { state: Box::new(g), last: None, kids: 0, seen: 0, root: false });
            l[old].kids += 1;
            l[old].last = Some((n, mv));
            n
        });
    }
}
impl<G: LearnableGame + 'static> LearnableGame for Logged<G> {
    type Move = G::Move;
    const EMPTY_MOVE: G::Move = G::EMPTY_MOVE;
    const IS_DETERMINISTIC: bool = G::IS_DETERMINISTIC;
    const ACTION_SPACE_SIZE: i64 = G::ACTION_SPACE_SIZE;
    const N_INPUT_CHANNELS: i64 = G::N_INPUT_CHANNELS;
    const CONV_OUTPUT_SIZE: i64 = G::CONV_OUTPUT_SIZE;
    const N_FILTERS: i64 = G::N_FILTERS;
    const N_RES_BLOCKS: i64 = G::N_RES_BLOCKS;
    fn new() -> Self {
        let g = G::new();
        let ver = log(|l| { l.push(Node { state: Box::new(g), last: None, kids: 0, seen: 0, root: true }); l.len() - 1 });
        Logged { g, ver }
    }
    fn name() -> String { G::name() }
    fn get_valid_moves(&self) -> Vec<G::Move> { self.g.get_valid_moves() }
    fn apply_move(&mut self, a: &G::Move) { self.g.apply_move(a); self.version(json!(a)) }
    fn roll_die(&mut self) -> (u8, u8) { let r = self.g.roll_die(); let g = self.g; let v = self.ver; log(|l| l[v].state = Box::new(g)); r }
    fn skip_turn(&mut self) { self.g.skip_turn(); self.version(Value::Null) }
    fn get_player(&self) -> i8 { self.g.get_player() }
    fn check_winner(&self) -> Option<i8> { self.g.check_winner() }
    fn as_tensor(&self) -> Tensor { let v = self.ver; log(|l| l[v].seen += 1); self.g.as_tensor() }
    fn decode(&self, c: u32) -> G::Move { self.g.decode(c) }
    fn encode(&self, a: &G::Move) -> u32 { self.g.encode(a) }
    fn get_id(&self) -> usize { self.g.get_id() }
    fn set_id(&mut self, i: usize) { self.g.set_id(i); let g = self.g; let v = self.ver; log(|l| l[v].state = Box::new(g)) }
    fn to_pretty_str(&self) -> String { self.g.to_pretty_str() }
}

/// how a position appears in the trace; for the real games with what was made of it
pub trait Shown: LearnableGame { fn shown(&self, mv: Option<&Self::Move>, next: Option<&Self>) -> Value; }
impl Shown for Script { fn shown(&self, _: Option<&u8>, _: Option<&Self>) -> Value { json!(self.v + 1) } }
impl Shown for Small<TicTacToe> { fn shown(&self, mv: Option<&u8>, next: Option<&Self>) -> Value { real(self, mv, next) } }
impl Shown for Small<Backgammon> { fn shown(&self, mv: Option<&<Backgammon as LearnableGame>::Move>, next: Option<&Self>) -> Value { real(self, mv, next) } }
fn real<T: Readable>(s: &T, mv: Option<&T::Move>, next: Option<&T>) -> Value {
    let off = guarded(|| s.get_valid_moves()).unwrap_or_default();
    // a turn is what the game itself does with an offered move, or with a pass
    let ok = match next { None => true, Some(x) => {
        let mut n = *s;
        let legal = mv.map(|m| off.contains(m)).unwrap_or(true);
        legal && guarded(|| match mv { Some(m) => n.apply_move(m), None => n.skip_turn() }).is_ok() && n.key() == x.key() && n.get_player() == x.get_player()
    } };
    json!({"p": s.get_player(), "w": s.check_winner().unwrap_or(2), "n": off.len(), "ok": ok})
}

/// a network that always prefers the codes of one half of the action space, whatever the position
pub fn partial(half: i64) -> ResNet {
    let net = nets::random::<Script>(5 + half, 1., 1.);
    tch::no_grad(|| for (_, mut t) in net.vs.variables() {
        let s = t.size();
        if s == [ACTIONS, 32 * 4] || s == [1, 3 * 4] { let _ = t.zero_(); }
        else if s == [ACTIONS] { let b: Vec<f32> = (0..ACTIONS).map(|c| if c / (ACTIONS / 2) == half { 20. } else { -20. }).collect(); t.copy_(&Tensor::from_slice(&b)); }
    });
    net
}
/// and a network without a preference
fn flat(net: &ResNet) -> bool { net.vs.variables().iter().all(|(_, t)| t.to_kind(Kind::Float).isfinite().all().int64_value(&[]) == 1) }

fn kind(a: &Agent) -> &'static str { match a { Agent::Random => "random", Agent::Mcts => "mcts", Agent::Model => "model", Agent::None => "none" } }
fn kind_of(v: &Value) -> String { v.as_str().unwrap_or("?").to_ascii_lowercase() }

/// the games of a match as they were really played: identity of the first position, path
fn played<G: Shown + 'static>() -> Vec<(usize, Vec<Value>)> {
    log(|l| {
        let mut out = vec![];
        for i in 0..l.len() {
            if !l[i].root { continue; }
            let (mut at, mut path) = (i, vec![]);
            loop {
                let n = &l[at];
                let g: &G = n.state.downcast_ref().unwrap();
                match &n.last {
                    None => { path.push(json!([g.shown(None, None), -2, 0, 0])); break; }
                    Some((next, m)) => {
                        let m: Option<G::Move> = if m.is_null() { None } else { serde_json::from_value(m.clone()).ok() };
                        let c = m.as_ref().map(|m| guarded(|| g.encode(m) as i64).unwrap_or(-3)).unwrap_or(-1);
                        path.push(json!([g.shown(m.as_ref(), l[*next].state.downcast_ref()), c, n.kids - 1, n.seen]));
                        at = *next;
                    }
                }
            }
            // a start always offers moves: a pass there opens a game begun by the other side
            let first = if path[0][1] == json!(-1) { l[i].last.as_ref().unwrap().0 } else { i };
            out.push((first, path));
        }
        out
    })
}

fn one<G: Shown + 'static>(game: &str, kinds: [Agent; 2], nets: [Option<ResNet>; 2], cf: &Conf, extra: Value) -> Value {
    log(|l| l.clear());
    let [a, b] = kinds.clone();
    let [na, nb] = nets;
    let r: Result<PlayResult<Logged<G>>, String> = guarded(|| play::<Logged<G>>(Player::new(a, na), Player::new(b, nb), &cf.mcts(), cf.temperature));
    let ok = r.is_ok();
    let games = played::<G>();
    let mut res = json!({"k": "match", "game": game, "ok": ok, "a": [kind(&kinds[0]), kind(&kinds[1])]});
    let mut named: std::collections::HashMap<usize, Vec<Value>> = Default::default();
    if let Ok(r) = &r {
        res["n"] = json!(r.n_games); res["w1"] = json!(r.wins_p1); res["w2"] = json!(r.wins_p2); res["dr"] = json!(r.draws); res["rate"] = json!(micro(r.winrate));
        res["who"] = json!([kind(&r.player1), kind(&r.player2)]);
        res["listed"] = json!(r.games.len());
        for g in &r.games {
            let v = json!(g);
            // the identity of the position the record says the game began with
            let ver = v["initial_state"]["ver"].as_u64().unwrap_or(u64::MAX) as usize;
            named.entry(ver).or_default().push(json!({"p1": kind_of(&v["player1"]), "p2": kind_of(&v["player2"]), "win": kind_of(&v["winner"])}));
        }
    } else { for k in ["n", "w1", "w2", "dr", "rate", "listed"] { res[k] = json!(-1) } res["who"] = json!(["", ""]); }
    let out: Vec<Value> = games.into_iter().map(|(first, path)| json!({"path": path, "rec": named.get(&first).cloned().unwrap_or_default()})).collect();
    res["games"] = json!(out);
    for (k, v) in extra.as_object().unwrap() { res[k] = v.clone(); }
    res
}

/// two graphs, one begun by each side; the opening pass leads from the first to the second
pub fn twin(a: Graph, b: Graph) -> Graph {
    let mut g = a;
    let off = g.v.len() as u32;
    for mut v in b.v { v.to.iter_mut().for_each(|t| *t += off); v.pass += off; g.v.push(v); }
    let (s, t) = (g.start as usize, off as usize);
    g.v[s].pass = t as u32;
    let p = g.v[s].p;
    g.v[t].p = -p;
    for x in [s, t] { if g.v[x].mv.is_empty() { g.v[x].mv = vec![3]; g.v[x].to = vec![g.v[x].pass]; } }
    g
}

pub fn matches(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 20);
    let mut t = Trace::new(a.out());
    let mut turns = 0;
    let kinds = [Agent::Random, Agent::Mcts, Agent::Model];
    for i in a.part(n) {
        let ks = [kinds[i % 3].clone(), kinds[(i / 3) % 3].clone()];
        let mut cf = Conf { iterations: rng.gen_range(3..8), limit: rng.gen_range(1..20), c: 2., eps: 0., temperature: 1.0, ..Conf::default() };
        let rec = match i % 10 {
            6 => { set_start(None); cf.iterations = 3;
                let nets = [0, 1].map(|j| if ks[j] == Agent::Model { Some(nets::random::<Small<TicTacToe>>(i as i64 + j as i64, 8., 4.)) } else { None });
                one::<Small<TicTacToe>>("ttt", ks, nets, &cf, json!({})) }
            8 => { let mut g = bg::random_position(&mut rng, 0);
                loop { g.board = crate::posgen::nearly_done(&mut rng); g.roll = (0, 0); g.is_second_play = false; if g.check_winner().is_none() { break } }
                set_start(Some(json!(g)));
                let ks = ks.map(|k| if k == Agent::Mcts || k == Agent::Model && !rng.gen_bool(0.5) { Agent::Random } else { k });
                cf.iterations = 2;
                let nets = [0, 1].map(|j| if ks[j] == Agent::Model { Some(nets::random::<Small<Backgammon>>(i as i64 + j as i64, 8., 4.)) } else { None });
                one::<Small<Backgammon>>("bg", ks, nets, &cf, json!({})) }
            k => {
                let graph = if k == 1 || k == 5 && i % 20 == 5 {
                    // lines about as long as the round limit
                    let (l, w) = (rng.gen_range(397..404), *[-1, 0, 1].choose(&mut rng).unwrap());
                    let mut x = chain(&mut rng, l, w); let d = rng.gen_range(-2..3); let mut y = chain(&mut rng, (l as i64 + d) as usize, -w);
                    for z in [&mut x, &mut y] { let k = z.v.len() - 2; if z.v[k].mv.is_empty() { z.v[k].mv = vec![2]; z.v[k].to = vec![k as u32 + 1]; } }
                    // with choices late in the game
                    if rng.gen() { for z in [&mut x, &mut y] { let k = rng.gen_range(0..390); fork(&mut rng, z, k, 0.15) } }
                    twin(x, y)
                } else {
                    let endless = rng.gen_bool(0.12);
                    let (d, w, m) = (rng.gen_range(2..9), rng.gen_range(2..6), rng.gen_range(2..6));
                    let (x, y) = (playable(&mut rng, d, w, m, endless), playable(&mut rng, d, w, m, endless));
                    twin(x, y)
                };
                let ks = if k == 1 || k == 5 && i % 20 == 5 { [Agent::Random, if rng.gen() { Agent::Random } else { cf.iterations = 1; Agent::Mcts }] } else { ks };
                let g = set_graph(graph);
                cf.c = 1000.; // the networks' preferences decide
                let nets = [0, 1].map(|j| if ks[j] == Agent::Model { Some(partial(j as i64)) } else { None });
                assert!(nets.iter().flatten().all(flat));
                one::<Script>("script", ks, nets, &cf, json!({"graph": g.json(), "start": g.start + 1}))
            }
        };
        turns += rec["games"].as_array().unwrap().iter().map(|g| g["path"].as_array().unwrap().len() - 1).sum::<usize>();
        t.put(&rec);
    }
    println!("\n{}", json!({"matches": t.done(), "turns": turns}));
}
