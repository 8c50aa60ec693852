//! What networks answer: several networks alive at once, asked about positions in every way there
//! is, used by searches, self-play and matches in between, and trained now and then.
use crate::{bg, games::*, learn::scratch, nets, search::micro, store, util::*};
use die_e::{alphazero::{alphazero::{AlphaZero, MemoryFragment}, nnet::ResNet}, backgammon::backgammon_logic::Backgammon, base::LearnableGame, constants::DEVICE,
    mcts::{alpha_mcts::{alpha_mcts, alpha_mcts_parallel}, node_store::NodeStore}, tictactoe::TicTacToe, versus::{play, Agent, Player}};
use rand::prelude::*;
use serde_json::{json, Value};
use std::collections::{hash_map::DefaultHasher, BTreeMap};
use std::hash::{Hash, Hasher};
use tch::{nn::VarStore, Tensor};

/// everything a network keeps, as one number
fn mark(net: &ResNet) -> i64 {
    let vars: BTreeMap<String, Tensor> = net.vs.variables().into_iter().collect();
    let mut h = DefaultHasher::new();
    for (k, t) in vars {
        k.hash(&mut h);
        let mut bytes = vec![0u8; t.numel() * 4];
        t.to_dtype(tch::Kind::Float, false, true).contiguous().copy_data_u8(&mut bytes, t.numel());
        h.write(&bytes);
    }
    (h.finish() % 2_000_000_000) as i64
}

/// answers to a batch of positions: some of the policy's entries, its sum, whether any is negative; the value
fn ask<T: LearnableGame>(net: &ResNet, how: &str, batch: &[T], codes: &[usize]) -> Result<Vec<Value>, String> {
    guarded(|| tch::no_grad(|| {
        let x = Tensor::stack(&batch.iter().map(|s| s.as_tensor()).collect::<Vec<_>>(), 0).squeeze_dim(1).to_device(*DEVICE);
        let (p, v) = match how {
            "full" => { let (p, v) = net.forward_t(&x, false); (p, Some(v)) }
            "raw" => { let (p, v) = net.forward_train(&x, false); (p.softmax(1, None), Some(v)) }
            _ => (net.forward_policy(&x, false), None),
        };
        (0..batch.len() as i64).map(|i| {
            let f = nets::floats(&p.get(i));
            json!({"p": codes.iter().map(|&c| f.get(c).map(|x| micro(*x)).unwrap_or(-9)).collect::<Vec<_>>(), "size": f.len(), "tot": micro(f.iter().sum::<f64>()),
                   "neg": f.iter().any(|x| !(*x >= 0.)), "hv": v.is_some(), "v": v.as_ref().map(|v| micro(v.double_value(&[i, 0]))).unwrap_or(0)})
        }).collect()
    }))
}

fn set<T: LearnableGame>(z: &mut AlphaZero, seed: i64, pg: f64, vg: f64) { z.model.vs.copy(&nets::random::<T>(seed, pg, vg).vs).unwrap() }

fn life<T: LearnableGame>(rng: &mut StdRng, game: &str, pool: Vec<T>, small: bool) -> Value {
    let n = rng.gen_range(1..=3);
    let cf = Conf { iterations: rng.gen_range(1..12), limit: 6, num_self_play_batches: rng.gen_range(1..4), training_batch_size: rng.gen_range(2..9), lr: 0.01, ..Conf::default() };
    let mut z: Vec<AlphaZero> = (0..n).map(|_| {
        let mut z = AlphaZero::from_config::<T>(None, &cf.config());
        let (a, b, c) = (rng.gen_range(1..1000000), *[1., 8., 30.].choose(rng).unwrap(), *[1., 6., 20.].choose(rng).unwrap());
        set::<T>(&mut z, a, b, c); z }).collect();
    let size = T::ACTION_SPACE_SIZE as usize;
    let codes: Vec<usize> = if size <= 12 { (0..size).collect() } else { (0..24).map(|_| rng.gen_range(0..size)).collect() };
    let mut ev = vec![];
    let first: Vec<i64> = z.iter().map(|z| mark(&z.model)).collect();
    for _ in 0..rng.gen_range(8..26) {
        let i = rng.gen_range(0..n);
        let mut e = match rng.gen_range(0..100) {
            0..=64 => {
                let how = *["full", "full", "policy", "raw"].choose(rng).unwrap();
                let k = if rng.gen_bool(0.35) { 1 } else if rng.gen_bool(0.15) { if rng.gen_bool(0.6) { rng.gen_range(32..80) } else { rng.gen_range(80..260) } } else { rng.gen_range(2..12) };
                let xs: Vec<usize> = (0..k).map(|_| rng.gen_range(0..pool.len())).collect();
                let batch: Vec<T> = xs.iter().map(|&x| pool[x]).collect();
                let r = ask(&z[i].model, how, &batch, &codes);
                json!({"k": "ask", "how": how, "ok": r.is_ok(), "xs": xs.iter().map(|x| x + 1).collect::<Vec<_>>(), "out": r.unwrap_or_default()})
            }
            65..=84 => {
                let what = if small && rng.gen_bool(0.06) { "match" } else { *["single", "batch", "batch", "next", "selfplay"].choose(rng).unwrap() };
                let open: Vec<&T> = pool.iter().filter(|s| s.check_winner().is_none()).collect();
                let r = guarded(|| match what {
                    "single" => { alpha_mcts(*open.choose(rng).unwrap(), &z[i].model, &cf.mcts()); }
                    "batch" => { let k = if rng.gen_bool(0.3) { rng.gen_range(33..50) } else { rng.gen_range(1..6) }; let b: Vec<T> = (0..k).map(|_| **open.choose(rng).unwrap()).collect();
                        alpha_mcts_parallel(&mut NodeStore::new(), &b, &z[i].model, &cf.mcts(), Some(indicatif::ProgressBar::hidden())); }
                    "next" => { z[i].get_next_move_for_state(*open.choose(rng).unwrap()); }
                    "match" => {
                        // the match plays with networks made from the same variables
                        let mut other = ResNet::new::<T>(VarStore::new(*DEVICE));
                        other.vs.copy(&z[i].model.vs).unwrap();
                        let me = std::mem::replace(&mut z[i].model, other);
                        let vars = me.vs.variables();
                        let mc = Conf { iterations: 1, ..Conf { ..cf_copy(&cf) } }.mcts();
                        let _ = play::<T>(Player::new(Agent::Model, Some(me)), Player::new(Agent::Random, None), &mc, 1.);
                        // what it left behind is what the network is from now on
                        let now = z[i].model.vs.variables();
                        tch::no_grad(|| for (k, mut t) in now { t.copy_(&vars[&k]) });
                    }
                    _ => { z[i].self_play_parallel::<T>(); }
                });
                json!({"k": "use", "what": what, "ok": r.is_ok()})
            }
            85..=91 => {
                let k = rng.gen_range(2..20);
                let mut data: Vec<MemoryFragment> = (0..k).map(|_| {
                    let mut p = vec![0f32; size]; p[rng.gen_range(0..size)] = 1.;
                    MemoryFragment { outcome: rng.gen_range(-1..=1), ps: Tensor::from_slice(&p), state: pool.choose(rng).unwrap().as_tensor() } }).collect();
                let r = guarded(|| z[i].train(&mut data));
                json!({"k": "train", "ok": r.is_ok()})
            }
            _ => {
                // kept in a file and taken up by another network
                let j = rng.gen_range(0..n);
                let r = guarded(|| {
                    z[i].model.vs.save("kept.ot").unwrap();
                    let net = ResNet::from_path::<T>(&"kept.ot".into());
                    z[j].model.vs.copy(&net.vs).unwrap();
                });
                json!({"k": "copy", "to": j + 1, "ok": r.is_ok()})
            }
        };
        e["net"] = json!(i + 1);
        e["mark"] = json!(z.iter().map(|z| mark(&z.model)).collect::<Vec<_>>());
        ev.push(e);
    }
    json!({"k": "life", "game": game, "nets": n, "pool": pool.len(), "size": size, "mark": first, "ev": ev})
}
fn cf_copy(c: &Conf) -> Conf { Conf { ..*c } }

pub fn answers(a: &Args) {
    let mut rng = a.rng();
    let n = a.num("n", 60);
    let mut t = Trace::new(a.out());
    let root = a.out().with_extension("dir");
    let (mut asked, mut events) = (0, 0);
    let dir = scratch(&root, 0);
    std::env::set_current_dir(&dir).unwrap();
    for i in a.part(n) {
        let r = &mut rng;
        let rec = match i % 5 {
            0 | 3 => {
                let (d, w) = (r.gen_range(2..5), r.gen_range(2..5));
                let g = set_graph(playable(r, d, w, 3, false));
                // positions that differ in one cell only are among them
                let mut pool: Vec<Script> = (0..g.v.len() as u32).map(|v| Script::at(v, 1)).collect();
                for k in 0..8 { let mut s = *pool.choose(r).unwrap(); if k % 2 == 0 { s.lane += 1 } else { s.ply += 1 } pool.push(s); }
                life(r, "script", pool, true)
            }
            1 => { set_start(None); let pool = (0..30).map(|_| store::ttt_position(r)).collect(); life::<Small<TicTacToe>>(r, "ttt", pool, true) }
            2 => { set_start(None); let pool = (0..30).map(|_| TicTacToe::clone(&store::ttt_position(r).g)).collect(); life::<TicTacToe>(r, "ttt", pool, false) }
            _ => {
                let mut pool: Vec<Small<Backgammon>> = (0..16).map(|_| { let f = r.gen_range(0..12); Small { g: bg::random_position(r, f) } }).collect();
                // the same board with the dice swapped, the other side to move, checkers elsewhere
                for k in 0..12 { let mut s = *pool[..16].choose(r).unwrap(); match k % 4 { 0 => s.g.roll = (s.g.roll.1, s.g.roll.0), 1 => s.g.player *= -1, 2 => s.g.board.0.swap(3, 20), _ => s.g.is_second_play = !s.g.is_second_play } pool.push(s); }
                let mut g; loop { g = bg::random_position(r, 0); g.board = crate::posgen::nearly_done(r); g.roll = (0, 0); g.is_second_play = false; if g.check_winner().is_none() { break } }
                set_start(Some(json!(g)));
                // searched positions offer something and not too much
                pool.retain(|s| guarded(|| s.get_valid_moves().len()).map(|n| n <= 60).unwrap_or(false));
                life(r, "bg", pool, false)
            }
        };
        let e = rec["ev"].as_array().unwrap();
        events += e.len();
        asked += e.iter().map(|e| e["xs"].as_array().map(|x| x.len()).unwrap_or(0)).sum::<usize>();
        t.put(&rec);
    }
    std::env::set_current_dir("/").unwrap();
    let _ = std::fs::remove_dir_all(&root);
    println!("\n{}", json!({"lives": t.done(), "events": events, "positions_asked": asked}));
}
