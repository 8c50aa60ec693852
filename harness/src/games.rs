//! Games the searches, self-play and matches are run on: a scripted one whose graph the harness
//! chooses, and the real games with a smaller network.
use die_e::{backgammon::backgammon_logic::Backgammon, base::LearnableGame, tictactoe::TicTacToe};
use crate::bg;
use rand::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::{atomic::{AtomicU32, Ordering}, RwLock};
use tch::Tensor;

#[derive(Clone, Debug)]
pub struct Vert { pub p: i8, pub w: Option<i8>, pub mv: Vec<u8>, pub to: Vec<u32>, pub pass: u32 }
#[derive(Clone, Debug, Default)]
pub struct Graph { pub v: Vec<Vert>, pub start: u32 }

static GRAPH: RwLock<Option<&'static Graph>> = RwLock::new(None);
static LANES: AtomicU32 = AtomicU32::new(0);

static RULE: RwLock<Option<(i64, i64)>> = RwLock::new(None);
pub fn set_rule(r: Option<(i64, i64)>) { *RULE.write().unwrap() = r; }
/// games begun so far
pub fn lanes() -> u32 { LANES.load(Ordering::SeqCst) }

pub fn set_graph(g: Graph) -> &'static Graph {
    let g: &'static Graph = Box::leak(Box::new(g));
    *GRAPH.write().unwrap() = Some(g);
    LANES.store(0, Ordering::SeqCst);
    g
}
pub fn graph() -> &'static Graph { GRAPH.read().unwrap().unwrap() }

impl Graph {
    /// vertices numbered from 1 in the specification
    pub fn json(&self) -> Value {
        json!(self.v.iter().map(|x| json!({"p": x.p, "w": x.w.unwrap_or(2), "to": x.to.iter().map(|t| t + 1).collect::<Vec<_>>(),
            "pass": x.pass + 1, "code": x.mv.iter().map(|&m| code(x, m)).collect::<Vec<_>>()})).collect::<Vec<_>>())
    }
}

pub const ACTIONS: i64 = 12;
/// codes depend on the side to move, as backgammon's do on the dice
fn code(v: &Vert, m: u8) -> u32 { if v.p == 1 { (m as u32 + 5) % ACTIONS as u32 } else { m as u32 } }
fn uncode(v: &Vert, c: u32) -> u8 { if v.p == 1 { ((c + ACTIONS as u32 - 5) % ACTIONS as u32) as u8 } else { c as u8 } }

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Script { pub v: u32, pub lane: u32, pub ply: u32, pub id: usize }

impl Script {
    pub fn at(v: u32, lane: u32) -> Self { Script { v, lane, ply: 0, id: 0 } }
    pub fn vert(&self) -> &'static Vert { &graph().v[self.v as usize] }
    pub fn p(&self) -> i8 { self.vert().p }
    /// vertex, lane and ply from a network input
    pub fn read(t: &Tensor) -> Option<(i64, i64, i64)> {
        let t = t.flatten(0, -1);
        if t.size()[0] != 16 { return None; }
        let f: Vec<f64> = Vec::try_from(&t.to_dtype(tch::Kind::Double, false, true)).ok()?;
        Some(((f[12] * 1024.).round() as i64, (f[13] * 1024.).round() as i64, (f[14] * 1024.).round() as i64))
    }
}

fn feature(v: u32, k: u32) -> f32 {
    let mut x = (v as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ (k as u64 + 7).wrapping_mul(0xC2B2AE3D27D4EB4F);
    x ^= x >> 29; x = x.wrapping_mul(0xBF58476D1CE4E5B9); x ^= x >> 32;
    ((x % 2001) as f32 - 1000.) / 1000.
}

impl LearnableGame for Script {
    type Move = u8;
    const EMPTY_MOVE: u8 = 255;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = ACTIONS;
    const N_INPUT_CHANNELS: i64 = 4;
    const CONV_OUTPUT_SIZE: i64 = 4;
    const N_FILTERS: i64 = 6;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self { Script { v: graph().start, lane: LANES.fetch_add(1, Ordering::SeqCst), ply: 0, id: 0 } }
    fn name() -> String { "script".into() }
    fn get_valid_moves(&self) -> Vec<u8> { self.vert().mv.clone() }
    fn apply_move(&mut self, a: &u8) {
        let x = self.vert();
        let i = x.mv.iter().position(|m| m == a).expect("move not offered");
        self.v = x.to[i]; self.ply += 1;
    }
    fn skip_turn(&mut self) { self.v = self.vert().pass; self.ply += 1 }
    fn get_player(&self) -> i8 { self.vert().p }
    fn check_winner(&self) -> Option<i8> {
        let w = self.vert().w?;
        // when set, results are handed out by game: the marked side wins the first `k`, `d` are drawn
        match *RULE.read().unwrap() {
            None => Some(w),
            Some((k, d)) => { let r = self.lane as i64 % 400; Some(if r < k { w } else if r < k + d { 0 } else { -w }) }
        }
    }
    fn as_tensor(&self) -> Tensor {
        let mut f: Vec<f32> = (0..12).map(|k| feature(self.v, k)).collect();
        f.extend([self.v as f32 / 1024., self.lane as f32 / 1024., self.ply as f32 / 1024., 0.]);
        Tensor::from_slice(&f).view([1, 4, 2, 2])
    }
    fn decode(&self, c: u32) -> u8 { uncode(self.vert(), c) }
    fn encode(&self, a: &u8) -> u32 { if *a == 255 { 0 } else { code(self.vert(), *a) } }
    fn get_id(&self) -> usize { self.id }
    fn set_id(&mut self, i: usize) { self.id = i }
    fn to_pretty_str(&self) -> String { format!("v{}", self.v) }
}

/// A real game with a small network
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
#[serde(bound(deserialize = "G: DeserializeOwned", serialize = "G: Serialize"))]
pub struct Small<G: LearnableGame> { pub g: G }

static START: RwLock<Option<Value>> = RwLock::new(None);
/// where `Small::new` begins (the game's own start if none)
pub fn set_start(v: Option<Value>) { *START.write().unwrap() = v; }

impl<G: LearnableGame> LearnableGame for Small<G> {
    type Move = G::Move;
    const EMPTY_MOVE: G::Move = G::EMPTY_MOVE;
    const IS_DETERMINISTIC: bool = G::IS_DETERMINISTIC;
    const ACTION_SPACE_SIZE: i64 = G::ACTION_SPACE_SIZE;
    const N_INPUT_CHANNELS: i64 = G::N_INPUT_CHANNELS;
    const CONV_OUTPUT_SIZE: i64 = G::CONV_OUTPUT_SIZE;
    const N_FILTERS: i64 = 6;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self {
        let g = START.read().unwrap().as_ref().map(|v| serde_json::from_value(v.clone()).unwrap()).unwrap_or_else(G::new);
        Small { g }
    }
    fn name() -> String { G::name() }
    fn get_valid_moves(&self) -> Vec<G::Move> { self.g.get_valid_moves() }
    fn apply_move(&mut self, a: &G::Move) { self.g.apply_move(a) }
    fn roll_die(&mut self) -> (u8, u8) { self.g.roll_die() }
    fn skip_turn(&mut self) { self.g.skip_turn() }
    fn get_player(&self) -> i8 { self.g.get_player() }
    fn check_winner(&self) -> Option<i8> { self.g.check_winner() }
    fn as_tensor(&self) -> Tensor { self.g.as_tensor() }
    fn decode(&self, c: u32) -> G::Move { self.g.decode(c) }
    fn encode(&self, a: &G::Move) -> u32 { self.g.encode(a) }
    fn get_id(&self) -> usize { self.g.get_id() }
    fn set_id(&mut self, i: usize) { self.g.set_id(i) }
    fn to_pretty_str(&self) -> String { self.g.to_pretty_str() }
}

/// reading positions back from network inputs
pub trait Readable: LearnableGame { fn read_input(t: &Tensor) -> Option<Self>; fn key(&self) -> Value; }

fn cells(t: &Tensor) -> Vec<i64> { crate::util::ints(t) }
impl Readable for Small<TicTacToe> {
    fn read_input(t: &Tensor) -> Option<Self> {
        let v = cells(t);
        if v.len() != 27 { return None; }
        let mut g = TicTacToe::new();
        for i in 0..9 { g.board[i] = (v[18 + i] - v[i]) as i8; }
        // the side to move is not part of the input, it follows from the marks
        if g.board.iter().filter(|&&x| x != 0).count() % 2 == 1 { g.skip_turn() }
        Some(Small { g })
    }
    fn key(&self) -> Value { json!(self.g.board) }
}
impl Readable for Small<Backgammon> {
    fn read_input(t: &Tensor) -> Option<Self> {
        let v = cells(t);
        if v.len() != 144 || v.iter().any(|x| x.abs() > 100) { return None; }
        let mut g = Backgammon::new();
        for i in 0..24 { g.board.0[i] = v[i] as i8; }
        g.player = v[24] as i8;
        g.board.1 = (v[48] as u8, v[60] as u8);
        g.board.2 = (v[72] as u8, v[84] as u8);
        g.roll = (v[96] as u8, v[108] as u8);
        g.is_second_play = v[120] == 1;
        Some(Small { g })
    }
    fn key(&self) -> Value { bg::board_json(&self.g.board) }
}

// ---- graphs ---------------------------------------------------------------

fn moves(rng: &mut StdRng, n: usize) -> Vec<u8> {
    let mut m: Vec<u8> = (0..ACTIONS as u8).collect();
    m.shuffle(rng);
    m.truncate(n);
    m
}

/// Random game graphs: layered, with blocked vertices, double turns, draws, short-cuts and dead ends.
/// `depth` layers of `width` vertices; every game ends after the last layer at the latest.
pub fn layered(rng: &mut StdRng, depth: usize, width: usize, max_moves: usize) -> Graph {
    let mut g = Graph::default();
    let blocked = [0.0, 0.15, 0.4][rng.gen_range(0..3)];
    let ends = [0.0, 0.1, 0.3][rng.gen_range(0..3)];
    let double = [0.0, 0.2][rng.gen_range(0..2)];
    let id = |d: usize, i: usize| (d * width + i) as u32;
    for d in 0..=depth {
        for _ in 0..width {
            let last = d == depth;
            let p = if rng.gen_bool(double) { if d % 2 == 0 { 1 } else { -1 } } else if d % 2 == 0 { -1 } else { 1 };
            let over = last || (d > 0 && rng.gen_bool(ends));
            let n = if last || rng.gen_bool(blocked) { 0 } else { rng.gen_range(1..=max_moves) };
            let mv = moves(rng, n);
            let to = mv.iter().map(|_| id((d + 1 + (rng.gen_bool(0.1)) as usize).min(depth), rng.gen_range(0..width))).collect();
            let pass = if last { id(d, 0) } else { id(d + 1, rng.gen_range(0..width)) };
            // finished positions may still "offer" moves, as a won backgammon position does to the loser
            let w = if over { Some(*[-1, 1, 1, -1, 0].choose(rng).unwrap()) } else { None };
            let (mv, to) = if over && rng.gen_bool(0.5) { (vec![], vec![]) } else { (mv, to) };
            g.v.push(Vert { p, w, mv, to, pass });
        }
    }
    // at the root something can be done in most graphs
    if rng.gen_bool(0.9) && g.v[0].mv.is_empty() {
        let mv = moves(rng, max_moves.min(3));
        g.v[0].to = mv.iter().map(|_| id(1, rng.gen_range(0..width))).collect();
        g.v[0].mv = mv;
    }
    g.v[0].w = None;
    g
}

/// One forced line of `n` turns ending with winner `w`; some turns are passes, some sides move twice
pub fn chain(rng: &mut StdRng, n: usize, w: i8) -> Graph { strand(rng, n, w, 0.3) }
/// the same without passes
pub fn line(rng: &mut StdRng, n: usize, w: i8) -> Graph { strand(rng, n, w, 0.) }
/// second moves to the same positions in some turns from `from` on
pub fn fork(rng: &mut StdRng, g: &mut Graph, from: usize, often: f64) {
    for v in g.v.iter_mut().skip(from) {
        if v.mv.len() == 1 && rng.gen_bool(often) { let a = v.mv[0]; v.mv.push((a + rng.gen_range(1..ACTIONS as u8)) % ACTIONS as u8); v.to.push(v.to[0]); }
    }
}
fn strand(rng: &mut StdRng, n: usize, w: i8, passes: f64) -> Graph {
    let mut g = Graph::default();
    let mut p = if rng.gen() { 1 } else { -1 };
    for i in 0..=n {
        let next = (i + 1).min(n) as u32;
        let blocked = i > 0 && rng.gen_bool(passes);
        let mv = if i == n || blocked { vec![] } else { moves(rng, 1) };
        g.v.push(Vert { p, w: if i == n { Some(w) } else { None }, to: mv.iter().map(|_| next).collect(), mv, pass: next });
        if rng.gen_bool(0.8) { p = -p; }
    }
    g
}

/// For self-play and matches: positions reached by passing are never finished, a game may be endless
pub fn playable(rng: &mut StdRng, depth: usize, width: usize, max_moves: usize, endless: bool) -> Graph {
    let mut g = layered(rng, depth, width, max_moves);
    let open: Vec<u32> = (0..g.v.len() as u32).filter(|&v| g.v[v as usize].w.is_none()).collect();
    for i in 0..g.v.len() {
        let d = i / width;
        // forward to an unfinished position of the next layers, or to a fresh dead end that has a last move
        let next: Vec<u32> = open.iter().cloned().filter(|&v| v as usize / width > d).collect();
        if g.v[i].w.is_some() { continue; }
        g.v[i].pass = match next.choose(rng) { Some(&v) => v, None => { g.v[i].mv = vec![1]; g.v[i].to = vec![(g.v.len() - 1) as u32]; i as u32 } };
        if endless && !g.v[i].to.is_empty() && rng.gen_bool(0.4) { let k = rng.gen_range(0..g.v[i].to.len()); g.v[i].to[k] = *open.choose(rng).unwrap(); }
    }
    g
}
