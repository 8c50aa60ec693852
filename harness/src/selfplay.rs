//! Self-play runs: the samples they return, decoded.
use crate::{bg, games::*, nets, search::micro, util::*};
use die_e::{alphazero::alphazero::{AlphaZero, MemoryFragment}, alphazero::nnet::ResNet, backgammon::backgammon_logic::Backgammon, base::LearnableGame, tictactoe::TicTacToe, verif::{self, NodeView}};
use std::collections::BTreeMap;
use tch::Tensor;
use rand::prelude::*;
use serde_json::{json, Value};

pub fn az<T: LearnableGame>(cf: &Conf, net: ResNet) -> AlphaZero {
    let mut az = AlphaZero::from_config::<T>(None, &cf.config());
    az.model = net;
    az
}
/// non-zero entries of a policy target
pub fn target(m: &MemoryFragment) -> Value {
    json!(nets::floats(&m.ps).iter().enumerate().filter(|(_, x)| **x != 0.).map(|(i, x)| json!([i, micro(*x)])).collect::<Vec<_>>())
}
/// what the searches of a run found: network input of a position -> visits of its moves, by action code
pub type Found = BTreeMap<String, Vec<Value>>;
fn input_key(t: &Tensor) -> String { format!("{:?}", nets::floats(t)) }
fn found<T: LearnableGame>(snaps: &[Vec<NodeView>]) -> Found {
    let mut out = Found::new();
    for (i, s) in snaps.iter().enumerate() {
        // the last state of a search is followed by the first one of another
        let vis = |s: &Vec<NodeView>| s.first().map(|n| n.visits).unwrap_or(-1.);
        if i + 1 < snaps.len() && vis(&snaps[i + 1]) > vis(s) { continue }
        for n in s.iter().filter(|n| n.parent.is_none()) {
            let Ok(st) = serde_json::from_value::<T>(n.state.clone()) else { continue };
            let row: Vec<Value> = n.children.iter().map(|&k| {
                let m = s.get(k).and_then(|c| c.action_taken.clone()).and_then(|m| serde_json::from_value::<T::Move>(m).ok());
                json!([m.map(|m| st.encode(&m) as i64).unwrap_or(-1), s.get(k).map(|c| c.visits as i64).unwrap_or(-1)])
            }).collect();
            out.entry(input_key(&st.as_tensor())).or_default().push(json!(row));
        }
    }
    out
}
fn run<T: LearnableGame>(par: bool, cf: &Conf, net: ResNet) -> (Result<Vec<MemoryFragment>, String>, Found) {
    let a = az::<T>(cf, net);
    verif::start();
    let r = guarded(|| if par { a.self_play_parallel::<T>() } else { a.self_play::<T>() });
    (r, found::<T>(&verif::take()))
}
fn seen(f: &Found, m: &MemoryFragment) -> Value { json!(f.get(&input_key(&m.state)).cloned().unwrap_or_default()) }

fn real<T: Readable>(game: &str, par: bool, cf: &Conf, net: ResNet, start: T) -> Value {
    let (r, f) = run::<T>(par, cf, net);
    let ok = r.is_ok();
    let fr: Vec<Value> = r.unwrap_or_default().iter().map(|m| {
        let ps = target(m);
        let Some(s) = T::read_input(&m.state) else { return json!({"ok": false}) };
        let off = guarded(|| s.get_valid_moves()).unwrap_or_default();
        let codes: Vec<i64> = off.iter().map(|q| guarded(|| s.encode(q) as i64).unwrap_or(-1)).collect();
        let next: Vec<Value> = off.iter().map(|q| { let mut n = s; let ok = guarded(|| n.apply_move(q)).is_ok();
            json!({"ok": ok, "key": n.key(), "p": n.get_player(), "w": n.check_winner().unwrap_or(2)}) }).collect();
        json!({"ok": true, "key": s.key(), "p": s.get_player(), "w": s.check_winner().unwrap_or(2), "out": m.outcome, "ps": ps, "seen": seen(&f, m), "codes": codes, "next": next})
    }).collect();
    json!({"k": "real", "game": game, "par": par, "ok": ok, "limit": if par { cf.limit } else { 1_000_000 }, "start": {"key": start.key(), "p": start.get_player()}, "fr": fr})
}

pub fn selfplay(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 40);
    let mut t = Trace::new(a.out());
    let (mut games, mut samples) = (0, 0);
    for i in a.part(n) {
        let par = i % 4 != 3;
        let mut cf = Conf { iterations: rng.gen_range(1..=8), limit: *[1, 2, 3, 5, 8, 12, 40].choose(&mut rng).unwrap(), num_self_play_batches: if rng.gen_bool(0.2) { 1 } else { rng.gen_range(2..=12) },
            eps: *[0., 0.25, 0.8].choose(&mut rng).unwrap(), temperature: *[1.0, 0.02, 0.3, 1.25, 3., 20.].choose(&mut rng).unwrap(), ..Conf::default() };
        let gain = *[1., 8., 30.].choose(&mut rng).unwrap();
        let seed = rng.gen_range(1..1000000);
        let rec = match i % 10 {
            7 => { cf.num_self_play_batches = 1; set_start(None);
                   real::<Small<TicTacToe>>("ttt", par, &cf, nets::random::<Small<TicTacToe>>(seed, gain, 4.), Small::new()) }
            3 | 8 => {
                cf.num_self_play_batches = 1;
                cf.iterations = rng.gen_range(1..=3);
                // a position near the end, or (stopped by a short limit) the starting one
                let g = if rng.gen_bool(0.3) && par { cf.limit = 12; Backgammon::new() } else {
                    loop { let mut g = bg::random_position(&mut rng, 0); g.board = crate::posgen::nearly_done(&mut rng); g.roll = (0, 0); g.is_second_play = false;
                           if g.check_winner().is_none() { break g; } } };
                if cf.limit == 40 { cf.limit = 200 }
                set_start(Some(json!(g)));
                real::<Small<Backgammon>>("bg", par, &cf, nets::random::<Small<Backgammon>>(seed, gain, 4.), Small { g })
            }
            _ => {
                let endless = par && rng.gen_bool(0.3);
                let (d, w, mx) = (rng.gen_range(2..10), rng.gen_range(2..5), rng.gen_range(1..5));
                let g = if rng.gen_bool(0.05) {
                        // a long game
                        let (l, w) = (rng.gen_range(35..90), *[-1, 0, 1].choose(&mut rng).unwrap());
                        cf.iterations = cf.iterations.min(3); cf.num_self_play_batches = cf.num_self_play_batches.min(4);
                        if rng.gen() { cf.limit = rng.gen_range(20..120) }
                        let mut g = line(&mut rng, l, w); fork(&mut rng, &mut g, 0, 0.3); g
                    } else if rng.gen_bool(0.12) {
                        // long searches: targets with nearly all, and with hardly any, weight on a move
                        cf.iterations = rng.gen_range(20..45); cf.num_self_play_batches = cf.num_self_play_batches.min(3);
                        let mx = rng.gen_range(2..5); playable(&mut rng, d.min(5), w, mx, false)
                    } else if rng.gen_bool(0.2) { let (l, w) = (rng.gen_range(1..9), *[-1, 0, 1].choose(&mut rng).unwrap()); let mut g = chain(&mut rng, l, w);
                        // the last turn is a move, passes never finish a game
                        let k = g.v.len() - 2; if g.v[k].mv.is_empty() { g.v[k].mv = vec![2]; g.v[k].to = vec![k as u32 + 1]; } g }
                    else { playable(&mut rng, d, w, mx, endless) };
                let g = set_graph(g);
                let (r, f) = run::<Script>(par, &cf, nets::random::<Script>(seed, gain, 4.));
                let ok = r.is_ok();
                let fr: Vec<Value> = r.unwrap_or_default().iter().map(|m| {
                    let (v, lane, ply) = Script::read(&m.state).unwrap_or((-1, -1, -1));
                    json!({"v": v + 1, "lane": lane, "ply": ply, "out": m.outcome, "ps": target(m), "seen": seen(&f, m)})
                }).collect();
                json!({"k": "script", "par": par, "ok": ok, "limit": if par { cf.limit } else { 1000 }, "games": if par { cf.num_self_play_batches } else { 1 },
                       "temp": micro(cf.temperature), "start": g.start + 1, "graph": g.json(), "fr": fr})
            }
        };
        games += rec["games"].as_u64().unwrap_or(1);
        samples += rec["fr"].as_array().unwrap().len();
        t.put(&rec);
    }
    println!("\n{}", json!({"runs": t.done(), "games": games, "samples": samples}));
}
